------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Predicting an alternative: what an input may continue with.             *)
(*                                                                         *)
(* G is a grammar over characters: a sequence of rules [net, ref], net as  *)
(* in CharNet, ref the number of the rule gone through at each node (0:    *)
(* none).  A thread is a parse under way: [c, st, r, k, h]: the            *)
(* alternative it took at the decision point, the rules it is inside of    *)
(* (where to go on in each), where it stands, and the choices it made.     *)
(* What lies around the decision point is not known: a thread leaving the  *)
(* rule in which it began goes on after any reference to that rule.        *)
(*                                                                         *)
(* Priorities: of two threads that parted at a node, the one with the      *)
(* smaller tag goes first.  When both can read a character, the other one  *)
(* is given up.                                                            *)
(***************************************************************************)
EXTENDS CharNet
RuleNo(names, q) == LET S == {r \in 1 .. Len(names) : names[r] = q} IN IF S = {} THEN 0 ELSE CHOOSE r \in S : TRUE
Rules(names, nets) == TLCEval([r \in 1 .. Len(nets) |-> [net |-> nets[r], ref |-> [k \in 1 .. Len(nets[r]) |-> IF nets[r][k].ref = <<>> THEN 0 ELSE LET q == RuleNo(names, nets[r][k].ref) IN IF q = 0 THEN -1 ELSE q]]])
Sites(g, q) == UNION {{<<r, k>> : k \in {k \in 1 .. Len(g[r].ref) : g[r].ref[k] = q}} : r \in 1 .. Len(g)}
SitesOf(g) == TLCEval([q \in 1 .. Len(g) |-> Sites(g, q)])
Undefined(g) == \E r \in 1 .. Len(g) : \E k \in 1 .. Len(g[r].ref) : g[r].ref[k] = -1
Prioritised(g) == \E r \in 1 .. Len(g) : \E k \in 1 .. Len(g[r].net) : \E j \in 1 .. Len(g[r].net[k].tr) : g[r].net[k].tr[j].tag # 0

(* ------------------------------ going on in silence ------------------------------ *)
Took(t, n, j, keep) == IF keep /\ Len(n[t.k].tr) > 1 THEN Append(t.h, <<t.r, t.k, j, n[t.k].tr[j].tag>>) ELSE t.h
(* from the node t stands at, over its silent successors *)
Over(g, t, keep) == LET n == g[t.r].net IN
  {[t EXCEPT !.k = n[t.k].tr[j].d, !.h = Took(t, n, j, keep)] : j \in {j \in 1 .. Len(n[t.k].tr) : n[t.k].tr[j].r = <<>>}}
Silently(g, sites, t, keep) ==
  LET n == g[t.r].net  q == g[t.r].ref[t.k] IN
  CASE q > 0 -> {[t EXCEPT !.st = Append(t.st, <<t.r, t.k>>), !.r = q, !.k = 1]}
    [] q < 0 -> {}
    [] t.k < Len(n) -> Over(g, t, keep)
    [] t.st # <<>> -> LET s == t.st[Len(t.st)] IN Over(g, [t EXCEPT !.st = SubSeq(t.st, 1, Len(t.st) - 1), !.r = s[1], !.k = s[2]], keep)
    [] OTHER -> UNION {Over(g, [t EXCEPT !.r = s[1], !.k = s[2], !.h = IF keep THEN Append(t.h, <<0, s[1], s[2], 0>>) ELSE <<>>], keep) : s \in sites[t.r]}
Again(t, most) == \E a \in 1 .. Len(t.st) : Cardinality({b \in 1 .. Len(t.st) : t.st[b] = t.st[a]}) > most
Place(t) == <<t.c, t.st, t.r, t.k>>
(* two ways to one place: the model does not say which one counts, and does not go on *)
Blurred(S) == Cardinality({Place(t) : t \in S}) # Cardinality(S)
RECURSIVE Settle(_, _, _, _, _, _)
(* front: threads to go on with; a thread inside the same reference more than `most' times over stays where it is *)
Settle(g, sites, S, front, keep, most) ==
  IF front = {} \/ (keep /\ Blurred(S)) THEN S ELSE
  LET nx == UNION {IF Again(t, most) THEN {} ELSE Silently(g, sites, t, keep) : t \in front}
      there == {Place(t) : t \in S}
      new == IF keep THEN {t \in nx : t \notin S /\ ~(Place(t) \in there /\ \E u \in S : Place(u) = Place(t) /\ IsPrefix(u.h, t.h))} ELSE nx \ S
  IN Settle(g, sites, S \cup new, new, keep, most)
Spun(S, most) == \E t \in S : Again(t, most)
Thread(c, r, k) == [c |-> c, st |-> <<>>, r |-> r, k |-> k, h |-> <<>>]
(* at decision point p of rule r: one thread for each alternative, in order *)
Alternatives(g, sites, r, p, keep, most) ==
  LET tr == g[r].net[p].tr
      S == {[Thread(j, r, tr[j].d) EXCEPT !.h = IF keep THEN <<<<r, p, j, tr[j].tag>>>> ELSE <<>>] : j \in {j \in 1 .. Len(tr) : tr[j].r = <<>>}}
  IN Settle(g, sites, S, S, keep, most)

(* --------------------------------- reading --------------------------------- *)
Readers(g, t, x) == LET n == g[t.r].net IN IF g[t.r].ref[t.k] # 0 THEN {} ELSE {j \in 1 .. Len(n[t.k].tr) : Within(x, n[t.k].tr[j].r)}
Moved(g, S, x, keep) == UNION {{[t EXCEPT !.k = g[t.r].net[t.k].tr[j].d, !.h = Took(t, g[t.r].net, j, keep)] : j \in Readers(g, t, x)} : t \in S}
RECURSIVE Parted(_, _, _)
Parted(a, b, k) == IF k > Len(a) \/ k > Len(b) THEN 0 ELSE IF a[k] = b[k] THEN Parted(a, b, k + 1) ELSE k
GoesFirst(a, b) == LET p == Parted(a, b, 1) IN p # 0 /\ a[p][1] # 0 /\ a[p][1] = b[p][1] /\ a[p][2] = b[p][2] /\ a[p][4] < b[p][4]
First(S) == {t \in S : ~\E u \in S : GoesFirst(u.h, t.h)}
(* the threads that have read x, before they go on *)
ReadBy(g, S, x, keep) == IF keep THEN First(Moved(g, S, x, TRUE)) ELSE Moved(g, S, x, FALSE)
Colours(S) == {t.c : t \in S}
Characters(g, S) == {x \in UNION {IF g[t.r].ref[t.k] # 0 THEN {} ELSE Border(g[t.r].net, t.k) : t \in S} : x <= Top}
Bare(S) == {[t EXCEPT !.h = <<>>] : t \in S}
=============================================================================
