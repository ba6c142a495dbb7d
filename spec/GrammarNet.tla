----------------------------- MODULE GrammarNet -----------------------------
(***************************************************************************)
(* What the code builds from a grammar against what the grammar spells     *)
(* (MODE "read"), and before against after optimising (MODE "opt").        *)
(* For every rule, the product of the networks over every phrase, and the  *)
(* product of their ordered ways over every phrase of up to Depth symbols. *)
(***************************************************************************)
EXTENDS GrammarText, Networks, Json, IOUtils
CONSTANT Depth, MaxWays
Mode == IOEnv.MODE
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
Spelled == TLCGet(11)       \* computed once, see Init
SpelledAll == TLCEval([i \in 1 .. N |-> IF Cases[i].k = "grammar" THEN ReadGrammar(Normal(Cases[i].files)) ELSE FUns])
Usable(i) == LET c == Cases[i] IN c.k = "grammar" /\ Spelled[i].e = 0 /\ c.ok /\ Len(c.rules) = Len(Spelled[i].rules)
Nets(i, r) == TLCEval(IF Mode = "read" THEN <<SpelledNet(Spelled[i].rules[r].ns, Spelled[i].rules[r].n), DumpedNet(Cases[i].atn[r])>>
              ELSE <<DumpedNet(Cases[i].atn[r]), DumpedNet(Cases[i].opt[r]), DumpedNet(Cases[i].opt2[r])>>)
PreAll == TLCEval([i \in 1 .. N |-> IF ~Usable(i) THEN <<>> ELSE
         [r \in 1 .. Len(Cases[i].rules) |-> LET m == TLCEval(Nets(i, r)) IN IF \A j \in 1 .. Len(m) : NetSound(m[j]) THEN Numbered(m) ELSE <<>>]])
Pre == TLCGet(12)
VARIABLES i, r, what, at, d
vars == <<i, r, what, at, d>>
Say(asp, ok) == IF ok THEN TRUE ELSE PrintT(<<"VIOL", asp, i, r, d>>)
(* numbers, names, root *)
Names(c, g) ==
  /\ c.count = Len(g) /\ (g # <<>> => c.root = g[1].name)
  /\ \A k \in 1 .. Len(g) : LET x == c.rules[k] IN x.name = g[k].name /\ x.num = k /\ x.mid = k /\ x.uid = k /\ x.back = g[k].name
Static ==
  LET c == Cases[i]  g == Spelled[i] IN
  CASE c.k # "grammar" -> Say("crash", FALSE)
    [] g.e # 0 -> TRUE
    [] OTHER -> IF Mode = "read" THEN Say("read", c.ok /\ Len(c.rules) = Len(g.rules)) /\ (Usable(i) => Say("names", Names(c, g.rules))) ELSE TRUE
Same(f) == \A a \in 2 .. Len(f) : f[a] = f[1]
Ms == Pre[i][r]
Judged ==
  /\ (i \in 1 .. N /\ r = 0 => Static)
  /\ (i \in 1 .. N /\ what = "net" => Say("network", Ms # <<>>))
  /\ (i \in 1 .. N /\ what = "phrase" =>
        /\ Say("phrases", Same([a \in 1 .. Len(Ms) |-> Done(Ms[a], at[a])]))
        /\ Say("phrases", Same([a \in 1 .. Len(Ms) |-> Offered(Ms[a], at[a])])))
  /\ (i \in 1 .. N /\ what = "ways" => Say("priorities", Same([a \in 1 .. Len(Ms) |-> WaysOffered(Ms[a], at[a])])))
Init == TLCSet(11, SpelledAll) /\ TLCSet(12, PreAll) /\ i = 0 /\ r = 0 /\ what = "" /\ at = <<>> /\ d = 0
Take == i = 0 /\ i' \in 1 .. N /\ UNCHANGED <<r, what, at, d>>
Rule1 == i \in 1 .. N /\ r = 0 /\ Usable(i) /\ r' \in 1 .. Len(Cases[i].rules) /\ what' = "net" /\ UNCHANGED <<i, at, d>>
Start == /\ what = "net" /\ Ms # <<>> /\ UNCHANGED <<i, r, d>>
         /\ \/ what' = "phrase" /\ at' = [a \in 1 .. Len(Ms) |-> Begin(Ms[a])]
            \/ what' = "ways" /\ at' = [a \in 1 .. Len(Ms) |-> WaysBegin(Ms[a])]
Read == /\ what = "phrase" /\ UNCHANGED <<i, r, what, d>>
        /\ \E s \in Offered(Ms[1], at[1]) : at' = [a \in 1 .. Len(Ms) |-> After(Ms[a], at[a], s)]
Follow == /\ what = "ways" /\ d < Depth /\ d' = d + 1 /\ UNCHANGED <<i, r, what>>
          /\ Cardinality(at[1]) <= MaxWays
          /\ \E s \in WaysOffered(Ms[1], at[1]) : at' = [a \in 1 .. Len(Ms) |-> WaysAfter(Ms[a], at[a], s)]
Next == Take \/ Rule1 \/ Start \/ Read \/ Follow
Spec == Init /\ [][Next]_vars
Ended == TLCGet("distinct") >= 0 /\ PrintT(<<"CASES-END", N>>)
=============================================================================
