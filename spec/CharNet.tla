------------------------------ MODULE CharNet ------------------------------
(***************************************************************************)
(* Networks over characters: what a rule's network becomes when its        *)
(* literals and expressions are spelled out.  A network is a sequence of   *)
(* nodes [ref, tr]; ref is the name of the rule to be gone through at the  *)
(* node (<<>>: none); tr a sequence of [d, r, tag], r the characters       *)
(* (ranges [a, b); <<>>: none, one simply goes on).  Node 1 is the entry,  *)
(* the last node the exit; it has no successors.                           *)
(***************************************************************************)
EXTENDS Networks
WsRanges == <<<<9, 11>>, <<13, 14>>, <<32, 33>>>>
SizeOf(s) == CASE s.t = "lit" -> Len(s.txt) + 1 [] s.t = "re" -> Len(s.nfa) + 1 [] OTHER -> 1
RECURSIVE Offsets(_, _, _)
Offsets(m, k, acc) == IF k > Len(m) THEN acc ELSE Offsets(m, k + 1, Append(acc, (IF k = 1 THEN 0 ELSE acc[k - 1] + SizeOf(m[k - 1].sym))))
(* first and last position of each node of m *)
Firsts(m) == TLCEval(LET o == Offsets(m, 1, <<>>) IN [k \in 1 .. Len(m) |-> o[k] + 1])
Lasts(m) == TLCEval(LET o == Offsets(m, 1, <<>>) IN [k \in 1 .. Len(m) |-> o[k] + SizeOf(m[k].sym)])
Eps(d, tag) == [d |-> d, r |-> <<>>, tag |-> tag]
(* m: Blank, ws, lit, re and ref nodes; the result has one more node, the exit *)
Spread(m) ==
  LET fst == Firsts(m)  lst == Lasts(m)  n == lst[Len(m)]
      block == TLCEval([p \in 1 .. n |-> CHOOSE k \in 1 .. Len(m) : fst[k] <= p /\ p <= lst[k]])
      onward(k) == [j \in 1 .. Len(m[k].tr) |-> Eps(fst[m[k].tr[j][1]], m[k].tr[j][2])] \o (IF k = Len(m) THEN <<Eps(n + 1, 0)>> ELSE <<>>)
      inner(p, k) == LET s == m[k].sym  q == p - fst[k] IN
        CASE s.t = "lit" -> (IF p = lst[k] THEN <<>> ELSE <<[d |-> p + 1, r |-> <<<<s.txt[q + 1], s.txt[q + 1] + 1>>>>, tag |-> 0]>>)
          [] s.t = "re" -> IF p = lst[k] THEN <<>> ELSE (IF p = lst[k] - 1 THEN <<Eps(p + 1, 0)>> ELSE <<>>) \o [j \in 1 .. Len(s.nfa[q + 1]) |-> [d |-> fst[k] + s.nfa[q + 1][j].d, r |-> s.nfa[q + 1][j].r, tag |-> 0]]
          [] s.t = "ws" -> <<[d |-> p, r |-> WsRanges, tag |-> 0]>>
          [] OTHER -> <<>>
  IN TLCEval([p \in 1 .. n + 1 |-> IF p = n + 1 THEN [ref |-> <<>>, tr |-> <<>>] ELSE
       LET k == block[p] IN [ref |-> IF m[k].sym.t = "ref" THEN m[k].sym.name ELSE <<>>,
                             tr |-> inner(p, k) \o (IF p = lst[k] THEN onward(k) ELSE <<>>)]])
(* the code's own, as dumped: nodes [sub, tr]; a node without successors leads to the exit *)
Dumped(c) ==
  TLCEval([p \in 1 .. Len(c) + 1 |-> IF p > Len(c) THEN [ref |-> <<>>, tr |-> <<>>] ELSE
     [ref |-> c[p].sub, tr |-> IF c[p].tr = <<>> THEN <<Eps(Len(c) + 1, 0)>> ELSE [j \in 1 .. Len(c[p].tr) |-> [d |-> c[p].tr[j].d + 1, r |-> c[p].tr[j].r, tag |-> c[p].tr[j].tag]]]])
CharSound(n) == Len(n) > 0 /\ \A p \in 1 .. Len(n) : \A j \in 1 .. Len(n[p].tr) : n[p].tr[j].d \in 1 .. Len(n)

Silent(n, p) == {n[p].tr[j].d : j \in {j \in 1 .. Len(n[p].tr) : n[p].tr[j].r = <<>>}}
RECURSIVE CClose(_, _, _)
CClose(n, S, front) == IF front = {} THEN S ELSE
  LET new == UNION {IF n[p].ref = <<>> THEN Silent(n, p) ELSE {} : p \in front} \ S IN CClose(n, S \cup new, new)
Closed(n, S) == CClose(n, S, S)
Border(n, p) == UNION {UNION {{n[p].tr[j].r[a][1], n[p].tr[j].r[a][2]} : a \in 1 .. Len(n[p].tr[j].r)} : j \in 1 .. Len(n[p].tr)}
(* characters to try at the positions S: one of every kind *)
Tried(n, S) == {x \in UNION {Border(n, p) : p \in S} : x <= Top}
CAfter(n, S, x) == Closed(n, UNION {{n[p].tr[j].d : j \in {j \in 1 .. Len(n[p].tr) : Within(x, n[p].tr[j].r)}} : p \in {p \in S : n[p].ref = <<>>}})
CRefs(n, S) == {n[p].ref : p \in S} \ {<<>>}
CAfterRef(n, S, q) == Closed(n, UNION {Silent(n, p) : p \in {p \in S : n[p].ref = q}})
CDone(n, S) == Len(n) \in S

(* ways, as in Networks *)
RECURSIVE CWays(_, _, _, _)
Chosen(n, p, j, h) == IF Len(n[p].tr) > 1 THEN Append(h, <<p, j, n[p].tr[j].tag>>) ELSE h
CWays(n, p, h, been) ==
  {[k |-> p, h |-> h]} \cup
  (IF n[p].ref # <<>> THEN {} ELSE
   UNION {IF n[p].tr[j].r # <<>> \/ n[p].tr[j].d \in been THEN {} ELSE CWays(n, n[p].tr[j].d, Chosen(n, p, j, h), been \cup {n[p].tr[j].d}) : j \in 1 .. Len(n[p].tr)})
Reading(n, w, x) == {j \in 1 .. Len(n[w.k].tr) : Within(x, n[w.k].tr[j].r)}
CForemost(W) == {w \in W : ~\E v \in W : Before(v, w)}
CWaysAfter(n, W, x) ==
  LET F == CForemost(UNION {{[k |-> w.k, h |-> Chosen(n, w.k, j, w.h), d |-> n[w.k].tr[j].d] : j \in Reading(n, w, x)} : w \in {w \in W : n[w.k].ref = <<>>}})
  IN UNION {CWays(n, w.d, w.h, {w.d}) : w \in F}
CWaysAfterRef(n, W, q) ==
  LET F == CForemost({w \in W : n[w.k].ref = q})
  IN UNION {UNION {IF n[w.k].tr[j].r # <<>> THEN {} ELSE CWays(n, n[w.k].tr[j].d, Chosen(n, w.k, j, w.h), {n[w.k].tr[j].d}) : j \in 1 .. Len(n[w.k].tr)} : w \in F}
WaysAt(W) == {w.k : w \in W}
=============================================================================
