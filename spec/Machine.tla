------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The parser of a grammar as a machine: it stands somewhere in a network, *)
(* has a stack of the rules it is inside of and a position in the input.   *)
(* At a rule's beginning it writes a start marker, at its end an end       *)
(* marker.  A terminal takes the longest text it can; a decision goes by   *)
(* the lookahead automaton.  The runs of the generated parser, of the dry  *)
(* parser and of the chaser are held against it.                           *)
(*                                                                         *)
(* Networks, expressions and lookahead automata are the ones of the        *)
(* grammar (decided elsewhere: C09, C12 to C15).                           *)
(***************************************************************************)
EXTENDS CharNet, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
Good(i) == Cases[i].k = "gen" /\ Cases[i].ok
Sound(i) == Good(i) /\ "opt" \in DOMAIN Cases[i] /\ \A r \in 1 .. Len(Cases[i].opt) : NetSound(DumpedNet(Cases[i].opt[r]))
RuleAt(i, q) == CHOOSE r \in 1 .. Len(Cases[i].rules) : Cases[i].rules[r].name = q
Known(i, q) == \E r \in 1 .. Len(Cases[i].rules) : Cases[i].rules[r].name = q
(* rules: nodes [sym, tr, to (rule gone through), auto (lookahead automaton)] *)
Made(i) ==
  LET c == Cases[i]
      aut(r, k) == LET E == {e \in 1 .. Len(c.ldfa) : c.ldfa[e].r = r /\ c.ldfa[e].n = k - 1} IN IF E = {} THEN 0 ELSE CHOOSE e \in E : TRUE
  IN TLCEval([r \in 1 .. Len(c.opt) |-> LET m == DumpedNet(c.opt[r]) IN
       TLCEval([k \in 1 .. Len(m) |-> [sym |-> m[k].sym, tr |-> m[k].tr, id |-> IF m[k].sym.t \in {"lit", "re"} THEN m[k].sym.id ELSE -1, to |-> IF m[k].sym.t = "ref" /\ Known(i, m[k].sym.name) THEN RuleAt(i, m[k].sym.name) ELSE 0, auto |-> aut(r, k)]])])
PreAll == TLCEval([i \in 1 .. N |-> IF Sound(i) THEN [net |-> Made(i), root |-> RuleAt(i, Cases[i].root)] ELSE [net |-> <<>>, root |-> 0]])
Pre == TLCGet(11)

VARIABLES i, j, ph, stk, p, m, o
vars == <<i, j, ph, stk, p, m, o>>
(* ph "at": at a node, "go": past its symbol, "accepted", "refused"; stk: frames [r, k, occ, n, from]: rule, node, number of the     *)
(* occurrence, events seen in it, where it began; p: characters read; m: markers written; o: occurrences begun                       *)
In == Cases[i].runs[j].in
R == Cases[i].runs[j]
Ch(q) == IF q < Len(In) THEN In[q + 1] ELSE 0
Say(asp, ok) == IF ok THEN TRUE ELSE PrintT(<<"VIOL", asp, i, j, p>>)
F == stk[Len(stk)]
Node == Pre[i].net[F.r][F.k]
Num(r) == Cases[i].rules[r].num
Accepted == R.end >= 0
Chased == Accepted /\ R.chase # <<>>

RECURSIVE Blanks(_)
Blanks(q) == IF Ch(q) \in {32, 9, 13, 10} THEN Blanks(q + 1) ELSE q
RECURSIVE Longest(_, _, _, _)
(* from the states S after reading up to q; best: the longest match so far, -1: none *)
Longest(n, S, q, best) ==
  LET b == IF (Len(n) - 1) \in S THEN q ELSE best
      T == TLCEval(IF q < Len(In) THEN NfaStep(n, S, In[q + 1]) ELSE {})
  IN IF T = {} THEN b ELSE Longest(n, T, q + 1, b)
Takes(s, q) == CASE s.t = "blank" -> q
                 [] s.t = "ws" -> Blanks(q)
                 [] s.t = "lit" -> (IF \A x \in 1 .. Len(s.txt) : Ch(q + x - 1) = s.txt[x] THEN q + Len(s.txt) ELSE -1)
                 [] s.t = "re" -> Longest(s.nfa, NfaClose(s.nfa, {0}), q, -1)
                 [] OTHER -> -1
RECURSIVE Chooses(_, _, _)
(* the lookahead automaton in state s, the characters up to q being read: the alternative, 0: none *)
Chooses(a, s, q) ==
  LET x == Ch(q)  K == {k \in 1 .. Len(a[s]) : Within(x, a[s][k].r)} IN
  IF K = {} \/ q > Len(In) THEN 0 ELSE LET d == a[s][CHOOSE k \in K : TRUE].d IN IF d < 0 THEN -d ELSE Chooses(a, d + 1, q + 1)

(* ------------------------------- what is seen ------------------------------- *)
Marker(q, kind, r) == Say("marker", m < Len(R.marks) /\ R.marks[m + 1] = <<kind, Num(r), q>>)
Event(f, e) == Chased => Say("chaser", f.occ <= Len(R.chase) /\ f.n < Len(R.chase[f.occ].ev) /\ R.chase[f.occ].ev[f.n + 1] = e)
Left(f, q) == Chased => Say("chaser-end", f.occ <= Len(R.chase) /\ LET c == R.chase[f.occ] IN c.id = Num(f.r) /\ c.from = f.from /\ c.to = q /\ Len(c.ev) = f.n)
Count == Cases[i].chased /\ Accepted => Say("chaser-all", Len(R.chase) = o)
Verdict(ok) ==
  /\ Say("accepts", IF ok THEN R.end = p ELSE ~Accepted)
  /\ Say("dry", R.dry = (IF ok THEN p ELSE -1) /\ R.drypages = 0)
  /\ (ok = Accepted => Say("stream", Len(R.marks) = m /\ R.zero) /\ Count)

Judged == /\ (i \in 1 .. N /\ j = 0 => /\ Say("crash", Cases[i].k = "gen")
                                       /\ ("big" \in DOMAIN Cases[i] => LET b == Cases[i].big IN Say("pages", b.end = b.size /\ b.end2 = b.size /\ b.same /\ b.zero /\ b.words > 0 /\ (b.pages = (b.words \div 1048576) + 1))))
Init == TLCSet(11, PreAll) /\ i = 0 /\ j = 0 /\ ph = "" /\ stk = <<>> /\ p = 0 /\ m = 0 /\ o = 0
Take == i = 0 /\ i' \in 1 .. N /\ UNCHANGED <<j, ph, stk, p, m, o>>
Enter(f) == stk' = Append(f, [r |-> IF f = <<>> THEN Pre[i].root ELSE Node.to, k |-> 1, occ |-> o + 1, n |-> 0, from |-> p]) /\ o' = o + 1 /\ m' = m + 1 /\ ph' = "at"
Pick == /\ i \in 1 .. N /\ j = 0 /\ Sound(i) /\ j' \in 1 .. Len(Cases[i].runs) /\ ph' = "begin" /\ UNCHANGED <<i, stk, p, m, o>>
Enters == ph = "begin" /\ Marker(0, 1, Pre[i].root) /\ Enter(<<>>) /\ UNCHANGED <<i, j, p>>
Call == ph = "at" /\ Node.sym.t = "ref" /\ Marker(p, 1, Node.to) /\ Enter(stk) /\ UNCHANGED <<i, j, p>>
Read == /\ ph = "at" /\ Node.sym.t # "ref" /\ UNCHANGED <<i, j, m, o>>
        /\ LET q == TLCEval(Takes(Node.sym, p)) IN
           IF q < 0 THEN ph' = "refused" /\ UNCHANGED <<stk, p>>
           ELSE /\ ph' = "go" /\ p' = q
                /\ (IF Node.id >= 0 THEN Event(F, <<0, Node.id, p, q>>) /\ stk' = [stk EXCEPT ![Len(stk)].n = @ + 1] ELSE UNCHANGED stk)
Go == /\ ph = "go" /\ Node.tr # <<>> /\ UNCHANGED <<i, j, p, m, o>>
      /\ LET c == IF Len(Node.tr) = 1 THEN 1 ELSE IF Node.auto = 0 THEN 0 ELSE Chooses(Cases[i].ldfa[Node.auto].m, 1, p) IN
         IF c = 0 \/ c > Len(Node.tr) THEN ph' = "refused" /\ UNCHANGED stk
         ELSE ph' = "at" /\ stk' = [stk EXCEPT ![Len(stk)].k = Node.tr[c][1]]
Return == /\ ph = "go" /\ Node.tr = <<>> /\ Marker(p, 0, F.r) /\ Left(F, p) /\ m' = m + 1 /\ UNCHANGED <<i, j, p, o>>
          /\ IF Len(stk) = 1 THEN ph' = "accepted" /\ stk' = <<>>
             ELSE /\ ph' = "go" /\ Event(stk[Len(stk) - 1], <<1, Num(F.r), F.from, p>>)
                  /\ stk' = [SubSeq(stk, 1, Len(stk) - 1) EXCEPT ![Len(stk) - 1].n = @ + 1]
Finish == /\ ph \in {"accepted", "refused"} /\ Verdict(ph = "accepted") /\ ph' = "done" /\ UNCHANGED <<i, j, stk, p, m, o>>
Next == Take \/ Pick \/ Enters \/ Call \/ Read \/ Go \/ Return \/ Finish
Spec == Init /\ [][Next]_vars
Ended == TLCGet("distinct") >= 0 /\ PrintT(<<"CASES-END", N>>)
=============================================================================
