------------------------------ MODULE Callbacks ------------------------------
(***************************************************************************)
(* The C++ context: the occurrences of an input (spelled by the marker     *)
(* stream, decided by C18) and the callbacks attached to rules.  An        *)
(* occurrence is called once, after the occurrences inside it, with its    *)
(* text and the values that the callbacks of its children returned, in     *)
(* order; a child whose rule has no callback, or whose callback returned   *)
(* nothing, contributes no value.  Recorded calls are replayed as steps.   *)
(* The Python package (k = "py") follows the same rules; every rule has a  *)
(* handler, its own or the default one, and the value of the root's is     *)
(* what parsing returns.  A handler that raises makes parsing raise, as a  *)
(* value may that cannot be sent where it is wanted; nothing else is then  *)
(* claimed about that run.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)

(* what callbacks answer: fixed by rule, place and seed; 0: nothing; -1: a value that Python takes for false.
   The default handler of the Python cases answers nothing. *)
Answer(seed, rule, s, e) == IF (rule + s + e + seed) % 5 = 0 THEN 0 ELSE 1 + (rule * 4096 + s) * 4096 + e
PyAnswer(a) == IF a # 0 /\ a % 11 = 0 THEN -1 ELSE a

(* ---- the forest a marker stream spells; what was begun and never ended is not an occurrence ---- *)
Forest(marks) ==
  LET step(a, m) ==
        IF m[1] = 1 THEN [stk |-> Append(a.stk, [rule |-> m[2], s |-> m[3], kids |-> <<>>]), occ |-> a.occ]
        ELSE LET n == Len(a.stk)  me == Len(a.occ) + 1  rest == SubSeq(a.stk, 1, n - 1)
             IN [stk |-> IF n = 1 THEN rest ELSE [rest EXCEPT ![n - 1].kids = Append(@, me)],
                 occ |-> Append(a.occ, [rule |-> a.stk[n].rule, s |-> a.stk[n].s, e |-> m[3], kids |-> a.stk[n].kids])]
  IN FoldLeft(step, [stk |-> <<>>, occ |-> <<>>], marks).occ
Has(i, rule) == \E k \in 1 .. Len(Cases[i].attached) : Cases[i].attached[k] = rule
Py(i) == Cases[i].k = "py"
Named(i, rule) == \E k \in 1 .. Len(Cases[i].named) : Cases[i].named[k] = rule
Hit(every, seed, o) == every # 0 /\ (o.rule * 5 + o.s * 3 + o.e + seed) % every = 0
Pre == TLCGet(12)

VARIABLES i, j, l, due        \* due: occurrences not called yet
vars == <<i, j, l, due>>
C == Cases[i]
R == C.runs[j]
Occ == Pre[i][j]
Say(aspect, ok) == IF ok THEN TRUE ELSE PrintT(<<"VIOL", aspect, i, j, l>>)
Attached(o) == Has(i, o.rule)
DueOf(ii, jj) == {k \in 1 .. Len(Pre[ii][jj]) : Has(ii, Pre[ii][jj][k].rule)}
Value(k) == LET o == Occ[k]  a == Answer(R.seed, o.rule, o.s, o.e) IN
            IF ~Attached(o) THEN 0 ELSE IF ~Py(i) THEN a ELSE IF Named(i, o.rule) THEN PyAnswer(a) ELSE 0
Args(o) == SelectSeq([q \in 1 .. Len(o.kids) |-> Value(o.kids[q])], LAMBDA v : v # 0)
Ordinary(ii) == Cases[ii].k \in {"ctx", "py"} /\ ~Cases[ii].big

Init == /\ TLCSet(12, TLCEval([ii \in 1 .. N |-> IF Ordinary(ii) THEN TLCEval([jj \in 1 .. Len(Cases[ii].runs) |-> Forest(Cases[ii].runs[jj].marks)]) ELSE <<>>]))
        /\ i = 0 /\ j = 0 /\ l = 0 /\ due = {}

(* the next run, or the end *)
Go == LET more == i > 0 /\ Ordinary(i) /\ j < Len(C.runs)
          ni == IF more THEN i ELSE i + 1
      IN /\ i' = ni /\ l' = 0
         /\ j' = IF more THEN j + 1 ELSE IF ni <= N /\ Ordinary(ni) THEN (IF Len(Cases[ni].runs) > 0 THEN 1 ELSE 0) ELSE 0
         /\ due' = IF j' > 0 THEN DueOf(ni, j') ELSE {}
         /\ (ni > N => PrintT(<<"CASES-END">>))

(* a call is the call of some occurrence that is due and whose children are not *)
Match(c) == {k \in due : Occ[k].rule = c.rule /\ Occ[k].s = c.s /\ Occ[k].e = c.e}
Ready(k) == \A q \in 1 .. Len(Occ[k].kids) : Occ[k].kids[q] \notin due
Called == LET c == R.calls[l + 1]  M == Match(c)  G == {k \in M : Ready(k)} IN
          /\ Say("call", M # {})
          /\ Say("order", M # {} => G # {})
          /\ (Py(i) => Say("handler", c.by = IF Named(i, c.rule) THEN c.rule ELSE 0))
          /\ (M # {}) => LET k == CHOOSE k \in M : (G = {} \/ k \in G) /\ (G = {} \/ Args(Occ[k]) = c.v \/ \A q \in G : Args(Occ[q]) # c.v) IN
                         /\ Say("text", c.text = SubSeq(R.in, c.s + 1, c.e) /\ c.len = c.e - c.s)
                         /\ Say("values", c.v = Args(Occ[k]))
          /\ due' = IF M = {} THEN due ELSE due \ {CHOOSE k \in M : (G = {} \/ k \in G) /\ (G = {} \/ Args(Occ[k]) = c.v \/ \A q \in G : Args(Occ[q]) # c.v)}
          /\ l' = l + 1 /\ UNCHANGED <<i, j>>
(* what parsing returns; a file that is not there is refused (C.missing), and parsing goes on after that *)
Returned == IF R.end >= 0 THEN Value(Len(Occ)) ELSE 0
Raising(k) == Named(i, Occ[k].rule) /\ Hit(C.raising, R.seed, Occ[k])
Stuck(k) == Named(i, Occ[k].rule) /\ Hit(C.unsendable, R.seed, Occ[k]) /\ Value(k) > 0
MustRaise == \/ \E k \in 1 .. Len(Occ) : Raising(k)
             \/ R.end >= 0 /\ Stuck(Len(Occ))
MayRaise == MustRaise \/ \E k \in 1 .. Len(Occ) : Stuck(k)
Raised == Py(i) /\ R.raised
Over == /\ (~Raised => Say("call", due = {}))
        /\ (Py(i) => Say("raised", IF R.raised THEN MayRaise ELSE ~MustRaise))
        /\ (Py(i) /\ ~R.raised => Say("result", R.result = Returned))
        /\ (Py(i) /\ j = Len(C.runs) => Say("left", C.left = 0) /\ Say("worker", C.died = 0))
        /\ Go

(* ---- a list of n elements on real pages, calls summed up: rule 1 the list, rule 2 the element ---- *)
Long(r) == LET n == r.size - 1 IN
           /\ r.stray = 0 /\ r.times = <<<<0, n, 1>>, <<n, 1, 0>>>>
           /\ r.calls = <<<<1, 0, r.size, r.size, n>>>>
           /\ r.values = <<<<1, n>>>>
Next == /\ i <= N
        /\ IF i = 0 THEN Go
           ELSE IF C.k \notin {"ctx", "py"} THEN Say("crash", FALSE) /\ Go
           ELSE IF j <= 1 /\ l = 0 /\ ~Say("missing", C.missing) THEN FALSE
           ELSE IF C.big THEN Say("long", \A q \in 1 .. Len(C.runs) : Long(C.runs[q])) /\ Go
           ELSE IF j = 0 THEN Go
           ELSE IF l < Len(R.calls) /\ ~Raised THEN Called ELSE Over
Spec == Init /\ [][Next]_vars
Judged == TRUE
Ended == TRUE
=============================================================================
