------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* Regular expressions: what they spell and which strings they match, and  *)
(* the comparison with the automata the code builds.                       *)
(*                                                                         *)
(* An expression is a sequence of nodes, children before parents, the last *)
(* one the root: [o, l, r, neg, its, sp].  Meaning is given by positions   *)
(* (the leaves): Nullable, First, Last, Follow.  A set of positions is the *)
(* state of the specification's machine after some string.                 *)
(*                                                                         *)
(* For every case the product of that machine with the code's automata is  *)
(* explored over every string: the characters tried represent every class  *)
(* of characters that any label involved can tell apart.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, CharText

Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
Mode == IOEnv.MODE          \* "nfa" or "dfa"
Top == 255

(* ------------------------------ meaning ------------------------------ *)
Node(c, n) == c.ast[n]
Root(c) == Len(c.ast)
Glushkov(c) ==
  LET NN == 1 .. Len(c.ast)
      nul[n \in NN] == LET x == c.ast[n] IN
        CASE x.o = "chr" -> FALSE [] x.o = "eps" -> TRUE
          [] x.o = "cat" -> nul[x.l] /\ nul[x.r] [] x.o = "alt" -> nul[x.l] \/ nul[x.r]
          [] x.o = "plus" -> nul[x.l] [] OTHER -> TRUE
      fst[n \in NN] == LET x == c.ast[n] IN
        CASE x.o = "chr" -> {n} [] x.o = "eps" -> {}
          [] x.o = "cat" -> fst[x.l] \cup (IF nul[x.l] THEN fst[x.r] ELSE {})
          [] x.o = "alt" -> fst[x.l] \cup fst[x.r] [] OTHER -> fst[x.l]
      lst[n \in NN] == LET x == c.ast[n] IN
        CASE x.o = "chr" -> {n} [] x.o = "eps" -> {}
          [] x.o = "cat" -> lst[x.r] \cup (IF nul[x.r] THEN lst[x.l] ELSE {})
          [] x.o = "alt" -> lst[x.l] \cup lst[x.r] [] OTHER -> lst[x.l]
      fol[p \in NN] == UNION {LET x == c.ast[n] IN
                                CASE x.o = "cat" -> IF p \in lst[x.l] THEN fst[x.r] ELSE {}
                                  [] x.o \in {"star", "plus"} -> IF p \in lst[x.l] THEN fst[x.l] ELSE {}
                                  [] OTHER -> {} : n \in NN}
      R == Len(c.ast)
  IN [nul |-> nul[R], fst |-> fst[R], lst |-> lst[R], fol |-> [p \in {q \in NN : c.ast[q].o = "chr"} |-> fol[p]]]
Matches(x, leaf) == IF leaf.neg THEN x # 0 /\ x < Top /\ ~\E k \in 1 .. Len(leaf.its) : leaf.its[k][1] <= x /\ x <= leaf.its[k][2]
                    ELSE x < Top /\ \E k \in 1 .. Len(leaf.its) : leaf.its[k][1] <= x /\ x <= leaf.its[k][2]
(* position 0 is the beginning *)
SpecStep(c, g, S, x) == {q \in UNION {IF p = 0 THEN g.fst ELSE g.fol[p] : p \in S} : Matches(x, c.ast[q])}
SpecAccepts(g, S) == \E p \in S : IF p = 0 THEN g.nul ELSE p \in g.lst
RECURSIVE SpecRun(_, _, _, _)
SpecRun(c, g, S, s) == IF s = <<>> THEN SpecAccepts(g, S) ELSE SpecRun(c, g, SpecStep(c, g, S, Head(s)), Tail(s))

(* ------------------------------ spelling ------------------------------ *)
Paren(t) == <<Chr["("]>> \o t \o <<Chr[")"]>>
RECURSIVE Spell(_, _, _)
(* ctx: 1 sequence, 2 member of an alternation, 3 operand of a quantifier *)
Spell(c, n, ctx) ==
  LET x == c.ast[n]
      raw == CASE x.o = "chr" -> x.txt
               [] x.o = "eps" -> Paren(<<>>)
               [] x.o = "cat" -> Spell(c, x.l, 1) \o Spell(c, x.r, 1)
               [] x.o = "alt" -> Spell(c, x.l, 2) \o <<Chr["|"]>> \o Spell(c, x.r, 3)
               [] x.o = "star" -> Spell(c, x.l, 4) \o <<Chr["*"]>> \o x.q
               [] x.o = "plus" -> Spell(c, x.l, 4) \o <<Chr["+"]>> \o x.q
               [] x.o = "opt" -> Spell(c, x.l, 4) \o <<Chr["?"]>> \o x.q
      need == CASE x.o \in {"chr", "eps"} -> FALSE
                [] x.o = "cat" -> ctx > 1
                [] x.o = "alt" -> ctx > 2
                [] OTHER -> ctx > 3
  IN IF need \/ x.g THEN Paren(raw) ELSE raw

(* ---------------------------- the automata ---------------------------- *)
In(x, rs) == \E k \in 1 .. Len(rs) : rs[k][1] <= x /\ x < rs[k][2]
RECURSIVE Close(_, _)
Close(n, S) == LET T == S \cup UNION {{n[s + 1][k].d : k \in {k \in 1 .. Len(n[s + 1]) : n[s + 1][k].r = <<>>}} : s \in S}
               IN IF T = S THEN S ELSE Close(n, T)
NStep(n, S, x) == Close(n, UNION {{n[s + 1][k].d : k \in {k \in 1 .. Len(n[s + 1]) : In(x, n[s + 1][k].r)}} : s \in S})
NAccepts(n, S) == (Len(n) - 1) \in S
DStep(d, s, x) == IF s = -1 THEN -1
                  ELSE LET K == {k \in 1 .. Len(d[s + 1]) : In(x, d[s + 1][k].r)} IN
                       IF K = {} THEN -1 ELSE d[s + 1][CHOOSE k \in K : \A l \in K : k <= l].d
DAccepts(da, s) == s # -1 /\ da[s + 1]
Sound(n) == \A s \in 1 .. Len(n) : \A k \in 1 .. Len(n[s]) : n[s][k].d \in 0 .. Len(n) - 1
Deterministic(d) == /\ Sound(d)
                    /\ \A s \in 1 .. Len(d) : \A k \in 1 .. Len(d[s]) :
                         /\ d[s][k].r # <<>>
                         /\ \A a \in 1 .. Len(d[s][k].r) : d[s][k].r[a][1] < d[s][k].r[a][2]
                         /\ \A l \in 1 .. Len(d[s]) : \A a \in 1 .. Len(d[s][k].r) : \A b \in 1 .. Len(d[s][l].r) :
                              (<<k, a>> # <<l, b>>) => d[s][k].r[a][2] <= d[s][l].r[b][1] \/ d[s][l].r[b][2] <= d[s][k].r[a][1]

Borders(n) == UNION {UNION {UNION {{n[s][k].r[a][1], n[s][k].r[a][2]} : a \in 1 .. Len(n[s][k].r)} : k \in 1 .. Len(n[s])} : s \in 1 .. Len(n)}
SpecBorders(c) == UNION {IF c.ast[n].o # "chr" THEN {} ELSE UNION {{c.ast[n].its[k][1], c.ast[n].its[k][2] + 1} : k \in 1 .. Len(c.ast[n].its)} : n \in 1 .. Len(c.ast)}
Chars(c) == {x \in {0, 1, Top - 1} \cup Borders(c.n) \cup SpecBorders(c) \cup (IF Mode = "dfa" THEN Borders(c.d) \cup Borders(c.m) ELSE {}) : x >= 0 /\ x < Top}

Usable(c) == c.k = "regex" /\ c.ok /\ c.rest = c.tail /\ Sound(c.n) /\ (Mode = "dfa" => Deterministic(c.d) /\ Deterministic(c.m))
PreAll == [i \in 1 .. N |-> IF Usable(Cases[i]) THEN [g |-> Glushkov(Cases[i]), ch |-> Chars(Cases[i]), n0 |-> Close(Cases[i].n, {0})]
                         ELSE [g |-> 0, ch |-> {}, n0 |-> {}]]

(* ------------------------------ the product ------------------------------ *)
Pre == TLCGet(11)           \* computed once, see Init
VARIABLES i, S, ns, ds, ms
vars == <<i, S, ns, ds, ms>>
Say(what, ok) == IF ok THEN TRUE ELSE PrintT(<<"VIOL", what, i>>)
Static(c) ==
  IF c.k # "regex" THEN Say("crash", FALSE)
  ELSE /\ Say("spell", Spell(c, Root(c), 1) = SubSeq(c.text, 1, Len(c.text) - c.tail - c.close))
       /\ Say("read", c.ok /\ c.rest = c.tail /\ Sound(c.n))
       /\ (c.ok /\ Mode = "dfa" => Say("deterministic", Deterministic(c.d) /\ Deterministic(c.m)))
       /\ (Usable(c) =>
             LET g == Pre[i].g IN
             \A k \in 1 .. Len(c.strs) :
               IF Mode = "nfa" THEN Say("simulation", c.runs[k][1] <=> SpecRun(c, g, {0}, c.strs[k]))
               ELSE Say("run", c.runs[k][2] <=> c.runs[k][1]) /\ Say("run", c.runs[k][3] <=> c.runs[k][1]))
Init == TLCSet(11, TLCEval(PreAll)) /\ i = 0 /\ S = {} /\ ns = {} /\ ds = -1 /\ ms = -1
Take == \E j \in 1 .. N : /\ i = 0 /\ i' = j /\ S' = {0} /\ ns' = Pre[j].n0 /\ ds' = 0 /\ ms' = 0
Read == /\ i \in 1 .. N /\ Usable(Cases[i])
        /\ \E x \in Pre[i].ch :
             LET c == Cases[i] IN
             /\ S' = SpecStep(c, Pre[i].g, S, x) /\ ns' = NStep(c.n, ns, x)
             /\ IF Mode = "dfa" THEN ds' = DStep(c.d, ds, x) /\ ms' = DStep(c.m, ms, x) ELSE UNCHANGED <<ds, ms>>
        /\ UNCHANGED i
Next == Take \/ Read
Spec == Init /\ [][Next]_vars
Judged ==
  i \in 1 .. N =>
    /\ (S = {0} => Static(Cases[i]))
    /\ (Usable(Cases[i]) =>
         LET c == Cases[i]  a == NAccepts(c.n, ns) IN
         IF Mode = "nfa" THEN Say("language", a <=> SpecAccepts(Pre[i].g, S))
         ELSE Say("determinised", DAccepts(c.da, ds) <=> a) /\ Say("minimised", DAccepts(c.ma, ms) <=> a))
Ended == TLCGet("distinct") >= 0 /\ PrintT(<<"CASES-END", N>>)
=============================================================================
