------------------------------ MODULE Expansion ------------------------------
(***************************************************************************)
(* The character network the code builds from a rule against the rule's    *)
(* own network spelled out (CharNet!Spread).  The product of the two is    *)
(* explored over all sequences of characters and rule references, from the *)
(* rule's beginning and from every alternative of every decision point;    *)
(* the product of their ordered ways over those of up to Depth steps.      *)
(***************************************************************************)
EXTENDS CharNet, Json, IOUtils
CONSTANT Depth, MaxWays
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
Usable(i) == Cases[i].k = "grammar" /\ Cases[i].ok
(* per rule: <<spelled out, built>>, and where each of the rule's nodes stands in both *)
Pair(i, r) ==
  LET m == DumpedNet(Cases[i].opt[r])  c == Cases[i].catn[r].nodes  mp == Cases[i].catn[r].map IN
  IF ~NetSound(m) \/ Len(mp) # Len(m) \/ \E k \in 1 .. Len(mp) : mp[k] \notin -1 .. Len(c) - 1 THEN <<>>
  ELSE LET d == Dumped(c) IN IF ~CharSound(d) THEN <<>>
  ELSE [n |-> <<Spread(m), d>>, at |-> <<Lasts(m), [k \in 1 .. Len(mp) |-> mp[k] + 1]>>, out |-> [k \in 1 .. Len(m) |-> Len(m[k].tr)]]
PreAll == TLCEval([i \in 1 .. N |-> IF ~Usable(i) THEN <<>> ELSE [r \in 1 .. Len(Cases[i].rules) |-> TLCEval(Pair(i, r))]])
Pre == TLCGet(11)
VARIABLES i, r, what, at, d
vars == <<i, r, what, at, d>>
Say(asp, ok) == IF ok THEN TRUE ELSE PrintT(<<"VIOL", asp, i, r, d>>)
P == Pre[i][r]
(* the successors of decision point k in order: all of them alternatives of the rule *)
Alternatives(a, k) == P.n[a][P.at[a][k]].tr
Mapped(k) == P.out[k] > 1 =>
  /\ P.at[2][k] > 0
  /\ \A a \in 1 .. 2 : Len(Alternatives(a, k)) = P.out[k] /\ \A j \in 1 .. P.out[k] : Alternatives(a, k)[j].r = <<>>
Judged ==
  /\ (i \in 1 .. N /\ r = 0 => Say("crash", Usable(i)))
  /\ (i \in 1 .. N /\ what = "net" => Say("network", P # <<>>) /\ (P # <<>> => Say("decisions", \A k \in 1 .. Len(P.out) : Mapped(k))))
  /\ (i \in 1 .. N /\ what = "phrase" =>
        /\ Say("language", CDone(P.n[1], at[1]) = CDone(P.n[2], at[2]))
        /\ Say("language", CRefs(P.n[1], at[1]) = CRefs(P.n[2], at[2])))
  /\ (i \in 1 .. N /\ what = "ways" => Say("priorities", CRefs(P.n[1], WaysAt(at[1])) = CRefs(P.n[2], WaysAt(at[2])) /\ CDone(P.n[1], WaysAt(at[1])) = CDone(P.n[2], WaysAt(at[2]))))
Init == TLCSet(11, PreAll) /\ i = 0 /\ r = 0 /\ what = "" /\ at = <<>> /\ d = 0
Take == i = 0 /\ i' \in 1 .. N /\ UNCHANGED <<r, what, at, d>>
Rule1 == i \in 1 .. N /\ r = 0 /\ Usable(i) /\ r' \in 1 .. Len(Cases[i].rules) /\ what' = "net" /\ UNCHANGED <<i, at, d>>
Start == /\ what = "net" /\ P # <<>> /\ UNCHANGED <<i, r, d>>
         /\ \/ what' = "phrase" /\ at' = [a \in 1 .. 2 |-> Closed(P.n[a], {1})]
            \/ \E k \in 1 .. Len(P.out) : /\ P.out[k] > 1 /\ Mapped(k)
                                          /\ \E j \in 1 .. P.out[k] : what' = "phrase" /\ at' = [a \in 1 .. 2 |-> Closed(P.n[a], {Alternatives(a, k)[j].d})]
            \/ what' = "ways" /\ at' = [a \in 1 .. 2 |-> CWays(P.n[a], 1, <<>>, {1})]
            \/ \E k \in 1 .. Len(P.out) : P.out[k] > 1 /\ Mapped(k) /\ what' = "ways" /\ at' = [a \in 1 .. 2 |-> CWays(P.n[a], P.at[a][k], <<>>, {P.at[a][k]})]
Read == /\ what = "phrase" /\ UNCHANGED <<i, r, what, d>>
        /\ \/ \E q \in CRefs(P.n[1], at[1]) \cup CRefs(P.n[2], at[2]) : at' = [a \in 1 .. 2 |-> CAfterRef(P.n[a], at[a], q)]
           \/ \E x \in Tried(P.n[1], at[1]) \cup Tried(P.n[2], at[2]) : at' = [a \in 1 .. 2 |-> CAfter(P.n[a], at[a], x)]
Follow == /\ what = "ways" /\ d < Depth /\ d' = d + 1 /\ UNCHANGED <<i, r, what>>
          /\ Cardinality(at[1]) <= MaxWays /\ Cardinality(at[2]) <= MaxWays
          /\ \/ \E q \in CRefs(P.n[1], WaysAt(at[1])) \cup CRefs(P.n[2], WaysAt(at[2])) : at' = [a \in 1 .. 2 |-> CWaysAfterRef(P.n[a], at[a], q)]
             \/ \E x \in Tried(P.n[1], WaysAt(at[1])) \cup Tried(P.n[2], WaysAt(at[2])) : at' = [a \in 1 .. 2 |-> CWaysAfter(P.n[a], at[a], x)]
Next == Take \/ Rule1 \/ Start \/ Read \/ Follow
Spec == Init /\ [][Next]_vars
Ended == TLCGet("distinct") >= 0 /\ PrintT(<<"CASES-END", N>>)
=============================================================================
