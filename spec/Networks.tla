------------------------------ MODULE Networks ------------------------------
(***************************************************************************)
(* Networks: the shape shared by what a rule spells and what the code      *)
(* builds.  A network is a sequence of nodes [sym, tr]; sym is a symbol or *)
(* Blank, tr a sequence of <<destination, tag>> in order of choice.  Node  *)
(* 1 is the entry and the last node the exit.  A phrase is what one reads  *)
(* along a way from entry to exit.                                         *)
(*                                                                         *)
(* Priorities: two ways are compared where they part; if they part at a    *)
(* node, the one with the smaller tag comes first, and ways parting with   *)
(* equal tags are not ordered.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, CharText, TLC
Blank == [t |-> "blank"]
Top == 255

(* --------------------------- automata of expressions --------------------------- *)
(* as dumped from the code: sequence of states, each a sequence of [d, r], d from 0, r ranges [a, b); the last state accepts *)
Within(x, rs) == \E k \in 1 .. Len(rs) : rs[k][1] <= x /\ x < rs[k][2]
RECURSIVE NfaClose(_, _)
NfaClose(n, S) == LET T == S \cup UNION {{n[s + 1][k].d : k \in {k \in 1 .. Len(n[s + 1]) : n[s + 1][k].r = <<>>}} : s \in S}
                  IN IF T = S THEN S ELSE NfaClose(n, T)
NfaStep(n, S, x) == NfaClose(n, UNION {{n[s + 1][k].d : k \in {k \in 1 .. Len(n[s + 1]) : Within(x, n[s + 1][k].r)}} : s \in S})
NfaSound(n) == Len(n) > 0 /\ \A s \in 1 .. Len(n) : \A k \in 1 .. Len(n[s]) : n[s][k].d \in 0 .. Len(n) - 1
NfaBorders(n) == UNION {UNION {UNION {{n[s][k].r[a][1], n[s][k].r[a][2]} : a \in 1 .. Len(n[s][k].r)} : k \in 1 .. Len(n[s])} : s \in 1 .. Len(n)}
RECURSIVE NfaWalk(_, _, _, _, _)
NfaWalk(m, n, X, seen, front) ==
  IF \E f \in front : ((Len(m) - 1) \in f[1]) # ((Len(n) - 1) \in f[2]) THEN FALSE
  ELSE LET nx == {<<NfaStep(m, f[1], x), NfaStep(n, f[2], x)>> : f \in front, x \in X} \ seen
       IN IF nx = {} THEN TRUE ELSE NfaWalk(m, n, X, seen \cup nx, nx)
SameLanguage(m, n) ==
  \/ m = n
  \/ LET X == {x \in {0} \cup NfaBorders(m) \cup NfaBorders(n) : x < Top}
         f == {<<NfaClose(m, {0}), NfaClose(n, {0})>>}
     IN NfaWalk(m, n, X, f, f)

(* of a spelled expression (GrammarText nodes): three states per node, entered, repeating and left *)
Matches(x, leaf) == /\ x < Top
                    /\ IF leaf.neg THEN x # 0 /\ ~\E k \in 1 .. Len(leaf.its) : leaf.its[k][1] <= x /\ x <= leaf.its[k][2]
                       ELSE \E k \in 1 .. Len(leaf.its) : leaf.its[k][1] <= x /\ x <= leaf.its[k][2]
LabelOf(leaf) ==
  LET B == {0, 1, Top} \cup UNION {{leaf.its[k][1], leaf.its[k][2] + 1} : k \in 1 .. Len(leaf.its)}
      nextB(b) == CHOOSE d \in B : d > b /\ \A e \in B : e > b => e >= d
  IN SetToSeq({<<b, nextB(b)>> : b \in {b \in B : b < Top /\ Matches(b, leaf)}})
RECURSIVE FirstLeaf(_, _)
FirstLeaf(ns, n) == IF ns[n].o \in {"chr", "eps"} THEN n ELSE FirstLeaf(ns, ns[n].l)
SpelledNfa(ns, root) ==
  LET lo == FirstLeaf(ns, root)          \* the expression's nodes are lo .. root
      En(n) == 3 * (n - lo) + 1   Rp(n) == 3 * (n - lo) + 2   Lv(n) == 3 * (n - lo) + 3
      under(p) == CASE ns[p].o \in {"star", "plus", "opt"} -> {ns[p].l} [] ns[p].o \in {"cat", "alt"} -> {ns[p].l, ns[p].r} [] OTHER -> {}
      parents == TLCEval([n \in lo .. root |-> {p \in lo .. root : n \in under(p)}])
      e(d) == [d |-> d, r |-> <<>>]
      enter(n) == LET x == ns[n] IN
        CASE x.o = "chr" -> (IF LabelOf(x) = <<>> THEN <<>> ELSE <<[d |-> Lv(n), r |-> LabelOf(x)]>>)
          [] x.o = "eps" -> <<e(Lv(n))>>
          [] x.o = "cat" -> <<e(En(x.l))>>
          [] x.o = "alt" -> <<e(En(x.l)), e(En(x.r))>>
          [] x.o = "plus" -> <<e(En(x.l))>>
          [] x.o \in {"star", "opt"} -> <<e(En(x.l)), e(Lv(n))>>
      repeat(n) == IF ns[n].o \in {"star", "plus"} THEN <<e(En(ns[n].l)), e(Lv(n))>> ELSE <<>>
      leave(n) == SetToSeq({LET x == ns[p] IN
                    CASE x.o \in {"star", "plus"} -> e(Rp(p))
                      [] x.o = "cat" /\ x.l = n -> e(En(x.r))
                      [] OTHER -> e(Lv(p)) : p \in parents[n]})
  IN TLCEval(<<<<e(En(root))>>>> \o [s \in 1 .. 3 * (root - lo + 1) |->
       LET n == lo + (s - 1) \div 3 IN CASE s = En(n) -> enter(n) [] s = Rp(n) -> repeat(n) [] OTHER -> leave(n)])

(* -------------------------------- networks -------------------------------- *)
WsPoint == [t |-> "ws"]
(* what a rule spells: a white-space point before every terminal; entered, read, left (or repeating) *)
SpelledNet(ns, root) ==
  LET En(n) == 4 * n - 3   Rd(n) == 4 * n - 2   Rp(n) == 4 * n - 1   Lv(n) == 4 * n
      rules == {"star", "plus", "opt", "cat", "sel"}
      kids(p) == CASE ns[p].o = "sel" -> {ns[p].kids[k] : k \in 1 .. Len(ns[p].kids)}
                   [] ns[p].o = "cat" -> {ns[p].l, ns[p].r} [] ns[p].o \in {"star", "plus", "opt"} -> {ns[p].l} [] OTHER -> {}
      parent == TLCEval([n \in 1 .. root |-> {p \in 1 .. root : n \in kids(p)}])
      sym(n) == LET x == ns[n] IN
        CASE x.o = "ref" -> [t |-> "ref", name |-> x.name, id |-> x.id]
          [] x.o = "lit" -> [t |-> "lit", txt |-> x.txt, id |-> x.id]
          [] x.o = "re" -> [t |-> "re", id |-> x.id, nfa |-> SpelledNfa(ns, x.l)]
          [] OTHER -> Blank
      enter(n) == LET x == ns[n] IN
        CASE x.o \in {"lit", "re"} -> <<<<Rp(n), 0>>>>
          [] x.o = "ref" -> <<<<Rd(n), 0>>>>
          [] x.o = "eps" -> <<<<Lv(n), 0>>>>
          [] x.o = "cat" -> <<<<En(x.l), 0>>>>
          [] x.o = "plus" -> <<<<En(x.l), 0>>>>
          [] x.o \in {"star", "opt"} -> <<<<En(x.l), 0>>, <<Lv(n), 0>>>>
          [] x.o = "sel" -> [k \in 1 .. Len(x.kids) |-> <<En(x.kids[k]), x.tags[k]>>]
          [] OTHER -> <<>>
      leave(n) == SetToSeq({LET x == ns[p] IN
                    CASE x.o \in {"star", "plus"} -> <<Rp(p), 0>>
                      [] x.o = "cat" /\ x.l = n -> <<En(x.r), 0>>
                      [] OTHER -> <<Lv(p), 0>> : p \in parent[n]})
      node(s) == LET n == (s + 3) \div 4  x == ns[n] IN
        CASE s = En(n) -> [sym |-> Blank, tr |-> enter(n)]
          [] s = Rd(n) -> [sym |-> sym(n), tr |-> <<<<Lv(n), 0>>>>]
          [] s = Rp(n) -> (IF x.o \in {"lit", "re"} THEN [sym |-> WsPoint, tr |-> <<<<Rd(n), 0>>>>]
                           ELSE [sym |-> Blank, tr |-> IF x.o \in {"star", "plus"} THEN <<<<En(x.l), 0>>, <<Lv(n), 0>>>> ELSE <<>>])
          [] OTHER -> [sym |-> Blank, tr |-> leave(n)]
      all == TLCEval([s \in 1 .. 4 * root |-> node(s)])
  IN <<[sym |-> Blank, tr |-> <<<<En(root) + 1, 0>>>>]>> \o [s \in 1 .. 4 * root |-> [sym |-> all[s].sym, tr |-> [k \in 1 .. Len(all[s].tr) |-> <<all[s].tr[k][1] + 1, all[s].tr[k][2]>>]]]
(* what the code built *)
DumpedNet(m) == [k \in 1 .. Len(m) |->
  [sym |-> CASE m[k].t = "blank" -> Blank [] m[k].t = "ws" -> WsPoint
             [] m[k].t = "ref" -> [t |-> "ref", name |-> m[k].name, id |-> m[k].id]
             [] m[k].t = "lit" -> [t |-> "lit", txt |-> m[k].txt, id |-> m[k].id]
             [] m[k].t = "re" -> [t |-> "re", id |-> m[k].id, nfa |-> m[k].nfa]
             [] OTHER -> [t |-> "?"],
   tr |-> [j \in 1 .. Len(m[k].tr) |-> <<m[k].tr[j][1] + 1, m[k].tr[j][2]>>]]]
NetSound(m) == Len(m) > 0 /\ \A k \in 1 .. Len(m) : (\A j \in 1 .. Len(m[k].tr) : m[k].tr[j][1] \in 1 .. Len(m)) /\ (m[k].sym.t = "re" => NfaSound(m[k].sym.nfa))

(* networks with every expression replaced by the number of its language among all of theirs *)
Expressions(nets) == SetToSeq(UNION {{nets[j][k].sym.nfa : k \in {k \in 1 .. Len(nets[j]) : nets[j][k].sym.t = "re"}} : j \in 1 .. Len(nets)})
Numbered(nets) ==
  LET E == TLCEval(Expressions(nets))
      same == TLCEval([e \in 1 .. Len(E) |-> {f \in 1 .. e : SameLanguage(E[f], E[e])}])
      cls == TLCEval([e \in 1 .. Len(E) |-> CHOOSE f \in same[e] : \A g \in same[e] : f <= g])
      num(s) == IF s.t # "re" THEN s ELSE [t |-> "re", id |-> s.id, cls |-> cls[CHOOSE e \in 1 .. Len(E) : E[e] = s.nfa]]
  IN TLCEval([j \in 1 .. Len(nets) |-> [k \in 1 .. Len(nets[j]) |-> [sym |-> num(nets[j][k].sym), tr |-> nets[j][k].tr]]])

(* ------------------------------- phrases ------------------------------- *)
Dests(m, k) == {m[k].tr[j][1] : j \in 1 .. Len(m[k].tr)}
RECURSIVE Through(_, _)
Through(m, K) == LET T == K \cup UNION {IF m[k].sym = Blank THEN Dests(m, k) ELSE {} : k \in K} IN IF T = K THEN K ELSE Through(m, T)
Begin(m) == Through(m, {1})
Offered(m, F) == {m[k].sym : k \in F} \ {Blank}
Done(m, F) == Len(m) \in F
After(m, F, s) == Through(m, UNION {IF m[k].sym = s THEN Dests(m, k) ELSE {} : k \in F})

(* ------------------------ ways and their priorities ------------------------ *)
(* a way: [k, h]: the node it stands before reading, and the choices it made: <<node, transition, tag>> *)
RECURSIVE WaysFrom(_, _, _, _)
WaysFrom(m, k, h, been) ==
  IF m[k].sym # Blank \/ k = Len(m) THEN {[k |-> k, h |-> h]}
  ELSE UNION {IF m[k].tr[j][1] \in been THEN {} ELSE
              WaysFrom(m, m[k].tr[j][1], IF Len(m[k].tr) > 1 THEN Append(h, <<k, j, m[k].tr[j][2]>>) ELSE h, been \cup {k}) : j \in 1 .. Len(m[k].tr)}
RECURSIVE Part(_, _, _)
Part(g, h, k) == IF k > Len(g) \/ k > Len(h) THEN 0 ELSE IF g[k] = h[k] THEN Part(g, h, k + 1) ELSE k
Before(w, v) == LET p == Part(w.h, v.h, 1) IN p # 0 /\ w.h[p][1] = v.h[p][1] /\ w.h[p][3] < v.h[p][3]
WaysBegin(m) == WaysFrom(m, 1, <<>>, {1})
WaysOffered(m, W) == {m[w.k].sym : w \in W} \ {Blank}
(* the ways that read s, without those that another one precedes *)
Foremost(W) == {w \in W : ~\E v \in W : Before(v, w)}
WaysAfter(m, W, s) ==
  UNION {UNION {WaysFrom(m, m[w.k].tr[j][1], IF Len(m[w.k].tr) > 1 THEN Append(w.h, <<w.k, j, m[w.k].tr[j][2]>>) ELSE w.h, {m[w.k].tr[j][1]}) : j \in 1 .. Len(m[w.k].tr)}
         : w \in Foremost({w \in W : m[w.k].sym = s})}
=============================================================================
