------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* What the command-line tool has to draw of a grammar, and how it has to  *)
(* end.  A case is a grammar as the library built it, with what the tool   *)
(* drew when asked: nodes [at, lab, dbl, thick], edges [from, to, lab,     *)
(* thick], clusters [at, lab]; at is a place, a sequence of numbers.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
(* ------------------------------- what is written ------------------------------- *)
RECURSIVE Digits(_, _)
Digit(k) == IF k < 10 THEN 48 + k ELSE 55 + k
Digits(k, b) == IF k < b THEN <<Digit(k)>> ELSE Append(Digits(k \div b, b), Digit(k % b))
Num(k) == IF k < 0 THEN <<45>> \o Digits(-k, 10) ELSE Digits(k, 10)
Chr(c) == IF c = 34 THEN <<92, 34>> ELSE IF c = 92 THEN <<92, 92>> ELSE IF c > 32 /\ c < 127 THEN <<c>> ELSE <<92, 92, 120>> \o Digits(c, 16)
RECURSIVE Ranges(_, _)
Ranges(rs, k) == IF k > Len(rs) THEN <<>> ELSE
  (IF rs[k][2] = rs[k][1] + 1 THEN Chr(rs[k][1]) ELSE Chr(rs[k][1]) \o <<45>> \o Chr(rs[k][2] - 1)) \o Ranges(rs, k + 1)
Class(rs) == IF rs = <<>> THEN <<>> ELSE <<91>> \o Ranges(rs, 1) \o <<93>>
Box(n) == <<91>> \o Num(n) \o <<93>>
(* ----------------------------------- shapes ----------------------------------- *)
Node(at, lab) == [at |-> at, lab |-> lab, dbl |-> FALSE, thick |-> FALSE]
Whatever == <<0>>     \* a label of which nothing is claimed
Edge(a, b, lab, g) == [from |-> a, to |-> b, lab |-> lab, thick |-> g]
StatesAt(s, at) == {Node(Append(at, k - 1), Num(k - 1)) : k \in 1 .. Len(s)}
MovesAt(s, at) == UNION {{Edge(Append(at, k - 1), Append(at, s[k][j].d), Class(s[k][j].r), s[k][j].g) : j \in 1 .. Len(s[k])} : k \in 1 .. Len(s)}
Moves(s) == IF Len(s) = 0 THEN 0 ELSE FoldLeft(LAMBDA n, x : n + Len(x), 0, s)
Graph(n, e, c, m) == [nodes |-> n, edges |-> e, clusters |-> c, moves |-> m]
NfaGraph(s) == Graph(StatesAt(s, <<>>), MovesAt(s, <<>>), {}, Moves(s))
Before == <<-1>>      \* what points to the first state
DfaGraph(s, marks) ==
  Graph({Node(Before, <<>>)} \cup {[at |-> <<k - 1>>, lab |-> <<>>, dbl |-> marks[k][1], thick |-> marks[k][2]] : k \in 1 .. Len(s)},
        {Edge(Before, <<0>>, <<>>, FALSE)} \cup {Edge(x.from, x.to, x.lab, FALSE) : x \in MovesAt(s, <<>>)}, {}, Moves(s) + 1)
(* alternatives stand at <<-1, a>> *)
LdfaGraph(s) ==
  LET to(d) == IF d < 0 THEN <<-1, -d>> ELSE <<d>>
      as == UNION {{-s[k][j].d : j \in {j \in 1 .. Len(s[k]) : s[k][j].d < 0}} : k \in 1 .. Len(s)}
      most == IF as = {} THEN 0 ELSE CHOOSE m \in as : \A a \in as : a <= m
  IN Graph({Node(<<k - 1>>, <<>>) : k \in 1 .. Len(s)} \cup {[at |-> <<-1, a>>, lab |-> <<>>, dbl |-> TRUE, thick |-> FALSE] : a \in 1 .. most},
           UNION {{Edge(<<k - 1>>, to(s[k][j].d), Class(s[k][j].r), FALSE) : j \in 1 .. Len(s[k])} : k \in 1 .. Len(s)}, {}, Moves(s))
CatnGraph(m) ==
  Graph({Node(<<k - 1>>, IF m[k].sub = <<>> THEN Num(k - 1) ELSE m[k].sub) : k \in 1 .. Len(m)},
        UNION {{Edge(<<k - 1>>, <<m[k].tr[j].d>>, Num(m[k].tr[j].tag) \o <<58, 91>> \o Class(m[k].tr[j].r) \o <<93>>, FALSE) : j \in 1 .. Len(m[k].tr)} : k \in 1 .. Len(m)},
        {}, FoldLeft(LAMBDA n, x : n + Len(x.tr), 0, m))
(* --------------------- networks with references unfolded --------------------- *)
RuleNamed(c, name) == IF \E r \in 1 .. Len(c.rules) : c.rules[r].name = name THEN CHOOSE r \in 1 .. Len(c.rules) : c.rules[r].name = name ELSE 0
Opens(n, stack, depth) == n.t = "ref" /\ Len(stack) < depth /\ ~\E k \in 1 .. Len(stack) : stack[k] = n.name
RECURSIVE Unfold(_, _, _, _, _, _)
Unfold(c, nets, r, at, stack, depth) ==
  LET m == nets[r]
      one(k) == LET p == Append(at, k - 1)  n == m[k] IN
        CASE Opens(n, stack, depth) -> LET q == RuleNamed(c, n.name)  u == Unfold(c, nets, q, p, Append(stack, n.name), depth)
                                       IN [u EXCEPT !.clusters = @ \cup {[at |-> p, lab |-> Box(k - 1) \o n.name]}]
          [] n.t = "re" -> [nodes |-> StatesAt(n.nfa, p), edges |-> MovesAt(n.nfa, p), clusters |-> {[at |-> p, lab |-> Box(k - 1)]}, moves |-> Moves(n.nfa), in |-> Append(p, 0), out |-> Append(p, Len(n.nfa) - 1)]
          [] OTHER -> [nodes |-> {Node(p, IF n.t = "ref" THEN n.name ELSE IF n.t = "ws" THEN <<91, 32, 93>> ELSE IF n.t = "lit" THEN Whatever ELSE <<>>)}, edges |-> {}, clusters |-> {}, moves |-> 0, in |-> p, out |-> p]
      parts == TLCEval([k \in 1 .. Len(m) |-> one(k)])
  IN [nodes |-> UNION {parts[k].nodes : k \in 1 .. Len(m)},
      edges |-> UNION {parts[k].edges : k \in 1 .. Len(m)} \cup UNION {{Edge(parts[k].out, parts[m[k].tr[j][1] + 1].in, <<>>, FALSE) : j \in 1 .. Len(m[k].tr)} : k \in 1 .. Len(m)},
      clusters |-> UNION {parts[k].clusters : k \in 1 .. Len(m)},
      moves |-> FoldLeft(LAMBDA n, k : n + parts[k].moves + Len(m[k].tr), 0, [k \in 1 .. Len(m) |-> k]),
      in |-> parts[1].in, out |-> parts[Len(m)].out]
AtnGraph(c, nets, depth) ==
  LET u == Unfold(c, nets, 1, <<>>, <<>>, depth)
  IN Graph(u.nodes, u.edges, u.clusters \cup {[at |-> <<>>, lab |-> Box(0) \o c.rules[1].name]}, u.moves)
(* --------------------------------- answers --------------------------------- *)
At(c, list, a) == LET K == {k \in 1 .. Len(list) : list[k].r = a.r /\ list[k].n = a.n} IN IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE
IsPlace(c, a) == a.r \in 1 .. Len(c.rules) /\ a.n \in 0 .. Len(c.opt[a.r]) - 1
IsRegex(c, a) == IsPlace(c, a) /\ c.opt[a.r][a.n + 1].t = "re"
Expected(c, a) ==
  CASE a.what = "nfa" -> NfaGraph(c.opt[a.r][a.n + 1].nfa)
    [] a.what = "dfa" -> LET x == c.dfa[At(c, c.dfa, a)] IN DfaGraph(x.raw, x.rawm)
    [] a.what = "dfaO" -> LET x == c.dfa[At(c, c.dfa, a)] IN DfaGraph(x.min, x.minm)
    [] a.what = "ldfa" -> LdfaGraph(c.ldfa[At(c, c.ldfa, a)].m)
    [] a.what = "catn" -> CatnGraph(c.catn[a.r].nodes)
    [] a.what = "atn" -> AtnGraph(c, c.opt, a.n)
    [] a.what = "atnO" -> AtnGraph(c, c.opt2, a.n)
(* whether it can be answered *)
Answer(c, a) ==
  c.ok /\ CASE a.what \in {"nfa", "dfa", "dfaO"} -> IsRegex(c, a)
            [] a.what = "ldfa" -> IsPlace(c, a) /\ At(c, c.ldfa, a) # 0 /\ c.ldfa[At(c, c.ldfa, a)].ok
            [] a.what = "catn" -> a.r \in 1 .. Len(c.rules)
            [] a.what \in {"atn", "atnO"} -> Len(c.rules) > 0
            [] a.what = "verify" -> c.verify
            [] OTHER -> FALSE
(* of what is asked about a place where nothing is decided nothing is expected *)
Open(c, a) == a.what = "ldfa" /\ c.ok /\ IsPlace(c, a) /\ At(c, c.ldfa, a) = 0
Unlabelled(what) == what \in {"dfa", "dfaO", "ldfa"}
Drawn(a) == [nodes |-> {[at |-> x.at, lab |-> IF Unlabelled(a.what) THEN <<>> ELSE x.lab, dbl |-> x.dbl, thick |-> x.thick] : x \in ToSet(a.nodes)},
             edges |-> ToSet(a.edges), clusters |-> ToSet(a.clusters), moves |-> Len(a.edges)]
Blanked(d, e) == LET P == {x.at : x \in {x \in e : x.lab = Whatever}} IN {IF x.at \in P THEN [x EXCEPT !.lab = Whatever] ELSE x : x \in d}
VARIABLES i, k
vars == <<i, k>>
Say(asp, ok) == IF ok THEN TRUE ELSE PrintT(<<"VIOL", asp, i, k>>)
Judge(c, a) ==
  IF Open(c, a) THEN TRUE ELSE
  IF ~Answer(c, a) THEN Say("refuses", a.rc # 0) ELSE
    /\ Say("answers", a.rc = 0)
    /\ (a.what # "verify" /\ a.rc = 0 =>
          /\ Say("drawing", a.wellformed)
          /\ (a.wellformed => LET e == Expected(c, a)  d == Drawn(a) IN
                /\ Say("nodes", Blanked(d.nodes, e.nodes) = e.nodes /\ Len(a.nodes) = Cardinality(e.nodes))
                /\ Say("edges", d.edges = e.edges /\ d.moves = e.moves)
                /\ Say("clusters", d.clusters = e.clusters)))
Judged == i \in 1 .. N => LET c == Cases[i] IN IF k = 0 THEN Say("crash", c.k = "grammar") ELSE Judge(c, c.asks[k])
Init == i = 0 /\ k = 0
Take == i = 0 /\ i' \in 1 .. N /\ UNCHANGED k
Ask == i > 0 /\ k = 0 /\ Cases[i].k = "grammar" /\ k' \in 1 .. Len(Cases[i].asks) /\ UNCHANGED i
Next == Take \/ Ask
Spec == Init /\ [][Next]_vars
Ended == TLCGet("distinct") >= 0 /\ PrintT(<<"CASES-END", N>>)
=============================================================================
