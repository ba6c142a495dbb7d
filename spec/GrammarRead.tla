---------------------------- MODULE GrammarRead ----------------------------
(* Texts given to the real reader: what is refused, and where; what is     *)
(* read.  One state per recorded case.                                     *)
EXTENDS GrammarText, TLC, Json, IOUtils, FiniteSets
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
VARIABLE i
Say(what, ok) == IF ok THEN TRUE ELSE PrintT(<<"VIOL", what, i>>)
Judge(c) ==
  IF c.k # "grammar" THEN Say("crash", FALSE)
  ELSE LET files == Normal(c.files)  g == ReadGrammar(files) IN
       CASE g.e = 2 -> TRUE
         [] g.e = 3 -> Say("refuse", ~c.ok)
         [] g.e = 1 -> Say("refuse", ~c.ok) /\ (~c.ok => Say("line", c.line = LineOf(files[g.f].text, g.p)))
         [] OTHER -> /\ Say("accept", c.ok)
                     /\ (c.ok => Say("rules", Len(c.rules) = Len(g.rules) /\ \A k \in 1 .. Len(g.rules) : c.rules[k].name = g.rules[k].name))
Init == i = 0
Next == \/ i < N /\ i' = i + 1
        \/ i = N /\ PrintT(<<"CASES-END", N>>) /\ i' = N + 1
Spec == Init /\ [][Next]_i
Judged == i \in 1 .. N => Judge(Cases[i])
=============================================================================
