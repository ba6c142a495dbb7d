------------------------------ MODULE CharText ------------------------------
(* Code points, and the characters that the grammar notation knows. *)
EXTENDS Integers, Sequences
Chr == [c \in {"(", ")", "|", "*", "+", "?", "/"} |->
          CASE c = "(" -> 40 [] c = ")" -> 41 [] c = "|" -> 124 [] c = "*" -> 42 [] c = "+" -> 43 [] c = "?" -> 63 [] c = "/" -> 47]
At(t, p) == IF p >= 1 /\ p <= Len(t) THEN t[p] ELSE 0
IsDigit(ch) == ch >= 48 /\ ch <= 57
IsLeader(ch) == ch = 95 \/ (ch >= 65 /\ ch <= 90) \/ (ch >= 97 /\ ch <= 122)
IsWord(ch) == IsLeader(ch) \/ IsDigit(ch)
IsBlank(ch) == (ch >= 9 /\ ch <= 13) \/ ch = 32

(* ----- bracket expressions, after the opening bracket -----
   [st, items, p]: st "ok" (items are closed intervals, p the position after
   the bracket), "bad" (p the offending character), or "unspec" (a reversed
   range: no meaning is claimed). *)
Escape(ch) == CASE ch \in {92, 45, 91, 93} -> ch
                [] ch \in {116, 84} -> 9 [] ch \in {114, 82} -> 13 [] ch \in {110, 78} -> 10
                [] OTHER -> -1
RECURSIVE ReadItems(_, _, _, _, _)
(* mode "start": expects an element; "elem": lo is an element, a dash may follow; "dash": lo and a dash were read *)
ReadItems(t, p, mode, lo, items) ==
  LET ch == At(t, p)
      bad(q) == [st |-> "bad", items |-> <<>>, p |-> q]
      done(its) == [st |-> IF \E k \in 1 .. Len(its) : its[k][1] > its[k][2] THEN "unspec" ELSE "ok", items |-> its, p |-> p + 1]
      elem(e, q) == CASE mode = "start" -> ReadItems(t, q, "elem", e, items)
                      [] mode = "elem" -> ReadItems(t, q, "elem", e, Append(items, <<lo, lo>>))
                      [] mode = "dash" -> ReadItems(t, q, "start", 0, Append(items, <<lo, e>>))
  IN CASE ch = 93 -> (CASE mode = "start" -> done(items) [] mode = "elem" -> done(Append(items, <<lo, lo>>)) [] mode = "dash" -> bad(p))
       [] ch = 0 -> bad(p)
       [] ch = 45 -> (IF mode = "elem" THEN ReadItems(t, p + 1, "dash", lo, items) ELSE bad(p))
       [] ch = 92 -> (IF Escape(At(t, p + 1)) = -1 THEN bad(p + 1) ELSE elem(Escape(At(t, p + 1)), p + 2))
       [] OTHER -> elem(ch, p + 1)
IsNegated(t, p) == At(t, p) = 94
ReadBracket(t, p) == ReadItems(t, IF IsNegated(t, p) THEN p + 1 ELSE p, "start", 0, <<>>)
=============================================================================
