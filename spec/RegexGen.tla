------------------------------ MODULE RegexGen ------------------------------
(* Every regular expression of at most Size nodes over the given leaves,   *)
(* built bottom up; the complete ones are printed for the real code.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Size, Leaves
VARIABLES nodes, stk
Nd(o, l, r) == [o |-> o, l |-> l, r |-> r]
Init == nodes = <<>> /\ stk = <<>>
Room(k) == Len(nodes) + 1 + (Len(stk) + k - 1) <= Size
Leaf == Room(1) /\ \E o \in Leaves : nodes' = Append(nodes, Nd(o, 0, 0)) /\ stk' = Append(stk, Len(nodes) + 1)
Unary == /\ stk # <<>> /\ Room(0)
         /\ \E o \in {"star", "plus", "opt"} : nodes' = Append(nodes, Nd(o, stk[Len(stk)], 0))
         /\ stk' = [stk EXCEPT ![Len(stk)] = Len(nodes) + 1]
Binary == /\ Len(stk) > 1 /\ Room(-1)
          /\ \E o \in {"cat", "alt"} : nodes' = Append(nodes, Nd(o, stk[Len(stk) - 1], stk[Len(stk)]))
          /\ stk' = Append(SubSeq(stk, 1, Len(stk) - 2), Len(nodes) + 1)
Next == Leaf \/ Unary \/ Binary
Spec == Init /\ [][Next]_<<nodes, stk>>
Emit == Len(stk) = 1 => PrintT(<<"CASE", ToJson(nodes)>>)
=============================================================================
