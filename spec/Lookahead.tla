----------------------------- MODULE Lookahead -----------------------------
(***************************************************************************)
(* The lookahead automaton of every decision point, raw and minimised,     *)
(* explored together with the threads that some parse could be running.    *)
(*                                                                         *)
(* what "exact": the automaton selects an alternative as soon as it is the *)
(*   only one left, selects nothing else and gives up only when none is    *)
(*   left.  Grammars without priorities: whatever the input; with          *)
(*   priorities: inputs of up to Depth characters.                         *)
(* what "bound": every selected alternative is one the input can continue  *)
(*   with; whatever the priorities and the input.                          *)
(* what "small": both automata select alike, whatever the input.             *)
(***************************************************************************)
EXTENDS Threads, Json, IOUtils
CONSTANT Depth, MaxThreads
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
Usable(i) == Cases[i].k = "grammar" /\ Cases[i].ok /\ \A r \in 1 .. Len(Cases[i].opt) : NetSound(DumpedNet(Cases[i].opt[r]))
Grammar(i) ==
  LET m == TLCEval([r \in 1 .. Len(Cases[i].rules) |-> DumpedNet(Cases[i].opt[r])])
      g == Rules([r \in 1 .. Len(m) |-> Cases[i].rules[r].name], [r \in 1 .. Len(m) |-> Spread(m[r])])
  IN [g |-> g, sites |-> SitesOf(g), prio |-> Prioritised(g), at |-> [r \in 1 .. Len(m) |-> Lasts(m[r])]]
PreAll == TLCEval([i \in 1 .. N |-> IF Usable(i) THEN TLCEval(Grammar(i)) ELSE <<>>])
Pre == TLCGet(11)
Auto(i, e, which) == IF which = 1 THEN Cases[i].ldfa[e].s ELSE Cases[i].ldfa[e].m
Well(a) == Len(a) > 0 /\ \A s \in 1 .. Len(a) : \A k \in 1 .. Len(a[s]) : a[s][k].d < Len(a)
(* where the automaton goes: a state (from 1), minus an alternative, or 0: given up *)
Goes(a, s, x) == LET K == {k \in 1 .. Len(a[s]) : Within(x, a[s][k].r)} IN
  IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : \A l \in K : k <= l IN IF a[s][k].d < 0 THEN a[s][k].d ELSE a[s][k].d + 1
ABorders(a, s) == {x \in UNION {UNION {{a[s][k].r[b][1], a[s][k].r[b][2]} : b \in 1 .. Len(a[s][k].r)} : k \in 1 .. Len(a[s])} : 0 <= x /\ x <= Top}
VARIABLES i, e, what, s, T, d, y
vars == <<i, e, what, s, T, d, y>>
Say(asp, ok) == IF ok THEN TRUE ELSE PrintT(<<"VIOL", asp, i, e, y>>)
(* y: the characters read, for what is told when something is wrong; not part of the state, see View *)
P == Pre[i]
D == Cases[i].ldfa[e]
Keep == P.prio
Judged ==
  /\ (i \in 1 .. N /\ what = "" => Say("crash", Cases[i].k = "grammar"))
  /\ (i \in 1 .. N /\ what = "point" => Say("automaton", D.ok => Well(D.s) /\ Well(D.m)))
Init == TLCSet(11, PreAll) /\ i = 0 /\ e = 0 /\ what = "" /\ s = 0 /\ T = {} /\ d = 0 /\ y = <<>>
Take == i = 0 /\ i' \in 1 .. N /\ UNCHANGED <<e, what, s, T, d, y>>
Point == i \in 1 .. N /\ what = "" /\ Usable(i) /\ e' \in 1 .. Len(Cases[i].ldfa) /\ what' = "point" /\ UNCHANGED <<i, s, T, d, y>>
Where == P.at[D.r][D.n + 1]
Start == /\ what = "point" /\ D.ok /\ Well(D.s) /\ Well(D.m) /\ UNCHANGED <<i, e, d, y>> /\ s' = 1
         /\ \/ what' = "exact" /\ T' = Alternatives(P.g, P.sites, D.r, Where, Keep, 1)
            \/ Keep /\ what' = "bound" /\ T' = Alternatives(P.g, P.sites, D.r, Where, FALSE, 1)
            \/ what' = "small" /\ T' = {1}
ToTry(S, q) == LET a == Auto(i, e, 1) IN Characters(P.g, S) \cup ABorders(a, q)
Exact == /\ what = "exact" /\ UNCHANGED <<i, e, what>>
         /\ (Keep => d < Depth) /\ d' = (IF Keep THEN d + 1 ELSE 0)
         /\ Cardinality(T) <= MaxThreads /\ ~Spun(T, 1) /\ ~(Keep /\ Blurred(T))
         /\ \E x \in ToTry(T, s) :
              LET S == TLCEval(ReadBy(P.g, T, x, Keep))  C == Colours(S)  to == Goes(Auto(i, e, 1), s, x) IN
              /\ y' = Append(y, x)
              /\ (CASE C = {} -> (IF to = 0 THEN TRUE ELSE PrintT(<<"VIOL", "selects", i, e, y, x, to>>))
                    [] Cardinality(C) = 1 -> (IF to \in {-c : c \in C} THEN TRUE ELSE PrintT(<<"VIOL", "only-one-left", i, e, y, x, to>>))
                    [] OTHER -> (IF to > 0 THEN TRUE ELSE PrintT(<<"VIOL", "several-left", i, e, y, x, to>>)))
              /\ to > 0 /\ Cardinality(C) > 1
              /\ s' = to /\ T' = Settle(P.g, P.sites, S, S, Keep, 1)
Bound == /\ what = "bound" /\ UNCHANGED <<i, e, what, d>> /\ Cardinality(T) <= MaxThreads /\ ~Spun(T, 1)
         /\ \E x \in ToTry(T, s) :
              LET S == TLCEval(ReadBy(P.g, T, x, FALSE))  C == Colours(S)  to == Goes(Auto(i, e, 1), s, x) IN
              /\ (to < 0 => IF -to \in C THEN TRUE ELSE PrintT(<<"VIOL", "cannot", i, e, y, x, to>>))
              /\ y' = Append(y, x)
              /\ to > 0 /\ C # {}
              /\ s' = to /\ T' = Settle(P.g, P.sites, S, S, FALSE, 1)
Small == /\ what = "small" /\ UNCHANGED <<i, e, what, d, y>>
       /\ LET q == CHOOSE q \in T : TRUE IN
          \E x \in ABorders(D.s, s) \cup ABorders(D.m, q) :
            LET a == Goes(D.s, s, x)  b == Goes(D.m, q, x) IN
            /\ (IF (a > 0 /\ b > 0) \/ a = b THEN TRUE ELSE PrintT(<<"VIOL", "minimised", i, e, y, x, b>>))
            /\ a > 0 /\ b > 0 /\ s' = a /\ T' = {b}
View == <<i, e, what, s, T, d>>
Next == Take \/ Point \/ Start \/ Exact \/ Bound \/ Small
Spec == Init /\ [][Next]_vars
Ended == TLCGet("distinct") >= 0 /\ PrintT(<<"CASES-END", N>>)
=============================================================================
