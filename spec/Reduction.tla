----------------------------- MODULE Reduction -----------------------------
(***************************************************************************)
(* Parallel reduction of a marker stream (Stage2RunnerNonRecursive,        *)
(* Stage3RunnerNonRecursive, and for Python listener.py): every page is    *)
(* reduced by itself into what remains of it, and the remains are merged   *)
(* in order.  Checked for every tree up to MaxNodes occurrences, every     *)
(* way to cut its markers into pages and every choice of occurrences       *)
(* without a value: the reductions are those of a sequential reduction.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxNodes

VARIABLES pages,    \* pages so far, the last one open
          open,     \* occurrences started and not ended (innermost last)
          count,    \* occurrences so far
          zero      \* occurrences whose handler returns nothing
vars == <<pages, open, count, zero>>

Init == pages = <<<<>>>> /\ open = <<>> /\ count = 0 /\ zero = {}
AddMark(m) == pages' = [pages EXCEPT ![Len(pages)] = Append(@, m)]
Complete == count > 0 /\ open = <<>>
Start == /\ count < MaxNodes /\ (count = 0 \/ open # <<>>)
         /\ AddMark(<<"S", count + 1>>) /\ open' = Append(open, count + 1) /\ count' = count + 1 /\ UNCHANGED zero
Stop == /\ open # <<>> /\ AddMark(<<"E", Last(open)>>)
        /\ open' = Front(open) /\ zero' \in {zero, zero \cup {Last(open)}} /\ UNCHANGED count
Cut == /\ ~Complete /\ Last(pages) # <<>> /\ pages' = Append(pages, <<>>) /\ UNCHANGED <<open, count, zero>>
Next == Start \/ Stop \/ Cut
Spec == Init /\ [][Next]_vars

Val(n) == IF n \in zero THEN 0 ELSE n
PageSet == IF Last(pages) = <<>> THEN Front(pages) ELSE pages

(* -------- sequential: the meaning -------- *)
SeqStep(a, m) ==
  IF m[1] = "S" THEN [a EXCEPT !.stk = Append(@, <<m[2], <<>>>>)]
  ELSE LET top == Last(a.stk)  v == Val(m[2])
           rest == Front(a.stk)
       IN [stk |-> IF rest = <<>> THEN <<>>
                   ELSE IF v = 0 THEN rest
                   ELSE [rest EXCEPT ![Len(rest)] = <<@[1], Append(@[2], v)>>],
           log |-> Append(a.log, <<m[2], top[2]>>)]
Sequential == FoldLeft(SeqStep, [stk |-> <<>>, log |-> <<>>], FlattenSeq(pages)).log

(* -------- the runners' stacks -------- *)
Empty == [starts |-> <<>>, ends |-> <<>>, values |-> <<>>, tags |-> <<>>, log |-> <<>>]
IsVal(t) == t \in Nat \ {0}           \* a run of t values; -1 a start, 0 an end
PushVals(r, vs) ==
  IF vs = <<>> THEN r
  ELSE [r EXCEPT !.values = @ \o vs,
                 !.tags = IF @ # <<>> /\ IsVal(Last(@)) THEN Append(Front(@), Last(@) + Len(vs)) ELSE Append(@, Len(vs))]
ReduceTop(r, n) ==
  LET k == IF IsVal(Last(r.tags)) THEN Last(r.tags) ELSE 0
      args == SubSeq(r.values, Len(r.values) - k + 1, Len(r.values))
      tags1 == IF k > 0 THEN Front(r.tags) ELSE r.tags       \* now ends with the start marker
      r1 == [r EXCEPT !.values = SubSeq(@, 1, Len(@) - k), !.tags = Front(tags1), !.starts = Front(@),
                      !.log = Append(@, <<n, args>>)]
  IN IF Val(n) = 0 THEN r1 ELSE PushVals(r1, <<Val(n)>>)
S2Step(r, m) ==
  IF m[1] = "S" THEN [r EXCEPT !.starts = Append(@, m[2]), !.tags = Append(@, -1)]
  ELSE IF r.starts = <<>> THEN [r EXCEPT !.ends = Append(@, m[2]), !.tags = Append(@, 0)]
  ELSE ReduceTop(r, m[2])
Remains(p) == FoldLeft(S2Step, Empty, p)
MergeTag(a, t) ==      \* a = [r, starts, ends, values] : what is left of the next page
  CASE t = -1 -> [a EXCEPT !.r.starts = Append(@, Head(a.starts)), !.r.tags = Append(@, -1), !.starts = Tail(@)]
    [] t = 0  -> [a EXCEPT !.r = ReduceTop(a.r, Head(a.ends)), !.ends = Tail(@)]
    [] OTHER  -> [a EXCEPT !.r = PushVals(a.r, SubSeq(a.values, 1, t)), !.values = SubSeq(@, t + 1, Len(@))]
Merge(r, nx) == FoldLeft(MergeTag, [r |-> r, starts |-> nx.starts, ends |-> nx.ends, values |-> nx.values], nx.tags).r
Parallel == LET rem == [i \in 1 .. Len(PageSet) |-> Remains(PageSet[i])]
                fin == FoldLeft(Merge, [rem[1] EXCEPT !.log = <<>>], Tail(rem))
            IN [local |-> [i \in 1 .. Len(rem) |-> rem[i].log], final |-> fin.log,
                left |-> <<fin.starts, fin.ends, fin.tags>>, value |-> fin.values]

(* -------- the Python side of the final reducer -------- *)
(* values stay in per-page lists; only how many to shift in is known       *)
PyStep(a, t) ==        \* a = [tags, starts, ends, shift, mine, rest, log]
  CASE t = -1 -> [a EXCEPT !.tags = Append(@, -1), !.starts = Append(@, Head(a.ns)), !.ns = Tail(@)]
    [] t = 0 ->
       LET k == IF IsVal(Last(a.tags)) THEN Last(a.tags) ELSE 0
           n == Head(a.ends)
           mine == a.mine \o SubSeq(a.rest, 1, a.shift)
           args == SubSeq(mine, Len(mine) - k + 1, Len(mine))
           mine1 == SubSeq(mine, 1, Len(mine) - k) \o (IF Val(n) = 0 THEN <<>> ELSE <<Val(n)>>)
           tags1 == Front(IF k > 0 THEN Front(a.tags) ELSE a.tags)
           tags2 == IF Val(n) = 0 THEN tags1
                    ELSE IF tags1 # <<>> /\ IsVal(Last(tags1)) THEN Append(Front(tags1), Last(tags1) + 1) ELSE Append(tags1, 1)
       IN [a EXCEPT !.tags = tags2, !.starts = Front(@), !.ends = Tail(@), !.shift = 0, !.mine = mine1,
                    !.rest = SubSeq(@, a.shift + 1, Len(@)), !.log = Append(@, <<n, args>>)]
    [] OTHER -> [a EXCEPT !.tags = IF @ # <<>> /\ IsVal(Last(@)) THEN Append(Front(@), Last(@) + t) ELSE Append(@, t),
                          !.shift = @ + t]
PyFinal ==
  LET rem == [i \in 1 .. Len(PageSet) |-> Remains(PageSet[i])]
      a0 == [tags |-> rem[1].tags, starts |-> rem[1].starts, ns |-> <<>>, ends |-> <<>>, shift |-> 0,
             mine |-> rem[1].values, rest |-> <<>>, log |-> <<>>]
      page(a, r) == FoldLeft(PyStep, [a EXCEPT !.ns = r.starts, !.ends = r.ends, !.rest = @ \o r.values], r.tags)
  IN FoldLeft(page, a0, Tail(rem))

(* -------- promises -------- *)
ToSet_(s) == {s[i] : i \in 1 .. Len(s)}
AllLog == FlattenSeq(Parallel.local) \o Parallel.final
SameAsSequential == Complete => /\ ToSet_(AllLog) = ToSet_(Sequential)
                                /\ Len(AllLog) = Len(Sequential)
                                /\ Parallel.left[1] = <<>> /\ Parallel.left[2] = <<>>
                                /\ Parallel.value = (IF Val(1) = 0 THEN <<>> ELSE <<1>>)
PageOf(m) == CHOOSE i \in 1 .. Len(pages) : \E j \in 1 .. Len(pages[i]) : pages[i][j] = m
LocalIsLocal == Complete => /\ \A i \in 1 .. Len(PageSet) : \A e \in ToSet_(Parallel.local[i]) :
                                   PageOf(<<"S", e[1]>>) = i /\ PageOf(<<"E", e[1]>>) = i
                            /\ \A e \in ToSet_(Parallel.final) : PageOf(<<"S", e[1]>>) # PageOf(<<"E", e[1]>>)
PythonSame == Complete => PyFinal.log = Parallel.final
(* what remains of a page never needs more words than its markers did *)
RemainsFit == \A i \in 1 .. Len(pages) : Len(Remains(pages[i]).tags) <= Len(pages[i])
(* behaviours handed to the conformance harness *)
Emit == Complete => PrintT(<<"CASE", ToJson([p |-> PageSet, z |-> zero])>>)
=============================================================================
