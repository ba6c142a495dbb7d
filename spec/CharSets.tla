------------------------------ MODULE CharSets ------------------------------
(***************************************************************************)
(* Character classes as sets of characters, and the recorded results of    *)
(* operations on the real CharClass.  Each record is one state; every      *)
(* operation must agree with the set operation at every character at which *)
(* any range involved can change (Pts), and be in normal form.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CharText

Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)

(* ----- denotations ----- *)
InRange(x, r) == r[1] <= x /\ x < r[2]
Member(x, rs) == \E i \in 1 .. Len(rs) : InRange(x, rs[i])
Normal(rs) == /\ \A i \in 1 .. Len(rs) : rs[i][1] < rs[i][2]
              /\ \A i \in 1 .. Len(rs) - 1 : rs[i][2] <= rs[i + 1][1]

Written(x, items) == \E i \in 1 .. Len(items) : items[i][1] <= x /\ x <= items[i][2]
Denotes(x, neg, items, top) == x < top /\ IF neg THEN x # 0 /\ ~Written(x, items) ELSE Written(x, items)

(* characters at which something can change: every border, and the ends *)
Borders(rs) == UNION {{rs[i][1], rs[i][2]} : i \in 1 .. Len(rs)}
Pts(c, all) == {0, 1, c.top - 1} \cup {x \in UNION {Borders(rs) : rs \in all} : x < c.top /\ x >= 0}
Wild(all, top) == \E rs \in all : \E i \in 1 .. Len(rs) : rs[i][1] < 0 \/ rs[i][2] > top

VARIABLE i
Say(what, ok) == IF ok THEN TRUE ELSE PrintT(<<"VIOL", what, i>>)

Ops(c) ==
  LET all == {c.ga, c.gb, c.a, c.b, c.or, c.or2, c.and, c.not, c.d0, c.d1, c.d2, c.star}
      P == Pts(c, all)
      A == {x \in P : Member(x, c.ga)}
      B == {x \in P : Member(x, c.gb)}
      Den(rs) == {x \in P : Member(x, rs)}
  IN /\ Say("range", ~Wild(all, c.top))
     /\ Say("build", Den(c.a) = A /\ Den(c.b) = B /\ Normal(c.a) /\ Normal(c.b))
     /\ Say("copy", c.cp = c.a /\ c.as = c.b)
     /\ Say("union", Den(c.or) = A \cup B /\ Normal(c.or) /\ Den(c.or2) = A \cup B /\ Normal(c.or2))
     /\ Say("intersection", Den(c.and) = A \cap B /\ Normal(c.and))
     /\ Say("complement", Den(c.not) = (P \ A) \ {0} /\ Normal(c.not))
     /\ Say("difference", /\ Den(c.d0) = A \ B /\ Den(c.d1) = B \ A /\ Den(c.d2) = A \cap B
                          /\ Normal(c.d0) /\ Normal(c.d1) /\ Normal(c.d2))
     /\ Say("dot", Den(c.star) = P \ {0})
     /\ Say("overlap", c.ov <=> (A \cap B # {}))
     /\ Say("equal", (c.eq => A = B) /\ (c.a = c.b => c.eq))
     /\ Say("empty", c.eps <=> A = {})
     /\ Say("member", \A k \in 1 .. Len(c.pts) : c.in[k] <=> Member(c.pts[k], c.ga))
     /\ Say("include", \A k \in 1 .. Len(c.inr) :
                          LET r == c.inr[k] IN
                          (r[3] = 1) <=> \A x \in P \cup {r[1]} : (r[1] <= x /\ x < r[2]) => Member(x, c.ga))
Bracket(c) ==
  LET w == ReadBracket(c.text, 1)
      neg == IsNegated(c.text, 1)
      P == Pts(c, {c.c} \cup {<<<<w.items[k][1], w.items[k][2] + 1>>>> : k \in 1 .. Len(w.items)})
  IN CASE w.st = "bad" -> Say("refuse", ~c.ok)
       [] w.st = "unspec" -> TRUE
       [] OTHER -> Say("bracket", /\ c.ok /\ c.rest = Len(c.text) - w.p + 1 /\ ~Wild({c.c}, c.top)
                                  /\ \A x \in P : Member(x, c.c) <=> Denotes(x, neg, w.items, c.top)
                                  /\ Normal(c.c))

Judge(c) == CASE c.k = "ops" -> Ops(c) [] c.k = "bracket" -> Bracket(c) [] OTHER -> Say("crash", FALSE)
Init == i = 0
Next == \/ i < N /\ i' = i + 1
        \/ i = N /\ PrintT(<<"CASES-END", N>>) /\ i' = N + 1
Spec == Init /\ [][Next]_i
Judged == i \in 1 .. N => Judge(Cases[i])
=============================================================================
