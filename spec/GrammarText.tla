---------------------------- MODULE GrammarText ----------------------------
(***************************************************************************)
(* The grammar notation: what a text spells.  A reader over code points,   *)
(* in the spirit of the EBNF it describes:                                 *)
(*                                                                         *)
(*   file   = { "grammar" NAME ";" | "include" '"' path '"' ";" | rule }   *)
(*   rule   = NAME ":" sel ";"                                             *)
(*   sel    = seq { ("|" | "|>") seq }          seq = { atom }             *)
(*   atom   = ( "(" sel ")" | term ) [ "*" | "+" | "?" ]                   *)
(*   term   = ( NAME | '...' | "..." | /regex/ ) [ "{" digits "}" ]        *)
(*   regex  = { rsel }   rsel = runit { "|" runit }                        *)
(*   runit  = ( char | escape | class | "." | "(" regex ")" ) [ quant ]    *)
(*                                                                         *)
(* White space and comments may stand anywhere between tokens.             *)
(* A result has e = 0 (read), 1 (refused, p the offending character) or    *)
(* 2 (no meaning is claimed for the text).                                 *)
(* Nodes are kept in a sequence, children before parents.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, CharText, TLC

Ok(p, ns, n) == [e |-> 0, p |-> p, ns |-> ns, n |-> n]
Err(p) == [e |-> 1, p |-> p, ns |-> <<>>, n |-> 0]
Uns == [e |-> 2, p |-> 0, ns |-> <<>>, n |-> 0]
Add(p, ns, x) == Ok(p, Append(ns, x), Len(ns) + 1)

LP == 40   RP == 41   Star == 42   Plus == 43   Quest == 63   Bar == 124   Slash == 47   Semi == 59   Colon == 58
LBrace == 123   RBrace == 125   Gt == 62   Back == 92   LBrack == 91   Dot == 46   Quote == 39   DQuote == 34   LF == 10

(* --------------------------- regular expressions --------------------------- *)
Leaf(a, b) == [o |-> "chr", neg |-> FALSE, its |-> <<<<a, b>>>>]
RegexEscapes == {91, 93, 43, 42, 123, 125, 63, 92, 124, 40, 41, 46}
Quantified(t, r) ==          \* r, and what follows it
  LET q == At(t, r.p)
      long == At(t, r.p + 1) \in (IF q = Quest THEN {Quest, Star} ELSE {Plus, Quest, Star})
      name == CASE q = Star -> "star" [] q = Plus -> "plus" [] OTHER -> "opt"
  IN IF r.e # 0 \/ q \notin {Star, Plus, Quest} THEN r
     ELSE Add(r.p + (IF long THEN 2 ELSE 1), r.ns, [o |-> name, l |-> r.n])
RECURSIVE RSeq(_, _, _, _, _), RSel(_, _, _, _), RUnit(_, _, _)
RUnit(t, p, ns) ==
  LET ch == At(t, p) IN
  CASE ch = 0 -> Err(p)
    [] ch \in {RP, Slash, Bar, Star, Plus, Quest} -> Uns
    [] ch = Back -> (IF At(t, p + 1) \in RegexEscapes THEN Quantified(t, Add(p + 2, ns, Leaf(At(t, p + 1), At(t, p + 1)))) ELSE Err(p + 1))
    [] ch = LBrack -> (LET b == ReadBracket(t, p + 1) IN
                       CASE b.st = "bad" -> Err(b.p)
                         [] b.st = "unspec" \/ b.items = <<>> -> Uns
                         [] OTHER -> Quantified(t, Add(b.p, ns, [o |-> "chr", neg |-> IsNegated(t, p + 1), its |-> b.items])))
    [] ch = Dot -> Quantified(t, Add(p + 1, ns, Leaf(1, 254)))
    [] ch = LP -> Quantified(t, RSeq(t, p + 1, ns, 0, RP))
    [] OTHER -> Quantified(t, Add(p + 1, ns, Leaf(ch, ch)))
RSel(t, p, ns, acc) ==
  LET u == RUnit(t, p, ns)
      v == IF u.e # 0 \/ acc = 0 THEN u ELSE Add(u.p, u.ns, [o |-> "alt", l |-> acc, r |-> u.n])
  IN IF v.e = 0 /\ At(t, v.p) = Bar THEN RSel(t, v.p + 1, v.ns, v.n) ELSE v
RSeq(t, p, ns, acc, close) ==
  LET ch == At(t, p) IN
  CASE ch = close -> (IF acc = 0 THEN Add(p + 1, ns, [o |-> "eps"]) ELSE Ok(p + 1, ns, acc))
    [] ch \in {RP, Slash, 0} -> Err(p)
    [] OTHER -> (LET u == RSel(t, p, ns, 0) IN
                 CASE u.e # 0 -> u
                   [] acc = 0 -> RSeq(t, u.p, u.ns, u.n, close)
                   [] OTHER -> RSeq(t, u.p, Append(u.ns, [o |-> "cat", l |-> acc, r |-> u.n]), Len(u.ns) + 1, close))

(* ------------------------- white space and comments ------------------------- *)
RECURSIVE Ws(_, _), LineEnd(_, _), CommentEnd(_, _)
LineEnd(t, p) == IF At(t, p) \in {0, LF} THEN p ELSE LineEnd(t, p + 1)
CommentEnd(t, p) == CASE At(t, p) = 0 -> 0 [] At(t, p) = Star /\ At(t, p + 1) = Slash -> p + 2 [] OTHER -> CommentEnd(t, p + 1)
Ws(t, p) ==                  \* [e, p]
  CASE IsBlank(At(t, p)) -> Ws(t, p + 1)
    [] At(t, p) = Slash /\ At(t, p + 1) = Slash -> Ws(t, LineEnd(t, p + 2))
    [] At(t, p) = Slash /\ At(t, p + 1) = Star -> (IF CommentEnd(t, p + 2) = 0 THEN [e |-> 1, p |-> Len(t) + 1] ELSE Ws(t, CommentEnd(t, p + 2)))
    [] OTHER -> [e |-> 0, p |-> p]
RECURSIVE WordEnd(_, _), Find(_, _, _)
WordEnd(t, p) == IF IsWord(At(t, p)) THEN WordEnd(t, p + 1) ELSE p
Find(t, p, ch) == IF p > Len(t) THEN 0 ELSE IF t[p] = ch THEN p ELSE Find(t, p + 1, ch)

(* --------------------------------- rules --------------------------------- *)
RECURSIVE Digits(_, _, _)
Digits(t, p, v) == IF IsDigit(At(t, p)) THEN Digits(t, p + 1, 10 * v + At(t, p) - 48) ELSE [p |-> p, v |-> v]
(* the optional annotation after a term r whose node is x *)
Annotated(t, r, x) ==
  LET w == Ws(t, r.p) IN
  CASE r.e # 0 -> r
    [] w.e # 0 -> Err(w.p)
    [] At(t, w.p) # LBrace -> Add(w.p, r.ns, x @@ [id |-> -1])
    [] OTHER ->
        (LET w1 == Ws(t, w.p + 1)
             d == Digits(t, w1.p, 0)
             w2 == Ws(t, d.p)
         IN CASE w1.e # 0 -> Err(w1.p)
              [] At(t, w1.p) = RBrace -> Err(w1.p)
              [] d.p > w1.p + 8 -> Uns
              [] w2.e # 0 -> Err(w2.p)
              [] At(t, w2.p) # RBrace -> Err(w2.p)
              [] OTHER -> LET w3 == Ws(t, w2.p + 1) IN IF w3.e # 0 THEN Err(w3.p) ELSE Add(w3.p, r.ns, x @@ [id |-> IF d.p = w1.p THEN 0 ELSE d.v]))
Term(t, p, ns) ==
  LET ch == At(t, p) IN
  CASE IsLeader(ch) -> (LET q == WordEnd(t, p) IN Annotated(t, Ok(q, ns, 0), [o |-> "ref", name |-> SubSeq(t, p, q - 1)]))
    [] ch = Slash -> (LET r == RSeq(t, p + 1, ns, 0, Slash) IN Annotated(t, r, [o |-> "re", l |-> r.n]))
    [] ch \in {Quote, DQuote} -> (LET q == Find(t, p + 1, ch) IN IF q = 0 THEN Err(Len(t) + 1) ELSE Annotated(t, Ok(q + 1, ns, 0), [o |-> "lit", txt |-> SubSeq(t, p + 1, q - 1)]))
    [] OTHER -> Err(p)
RECURSIVE Atom(_, _, _), Seqn(_, _, _, _), Sel(_, _, _, _, _, _)
Atom(t, p, ns) ==
  LET grp == At(t, p) = LP
      g == IF grp THEN Sel(t, p + 1, ns, <<>>, <<>>, 0) ELSE Term(t, p, ns)
      cl == IF grp /\ g.e = 0 THEN (IF At(t, g.p) = RP THEN Ok(g.p + 1, g.ns, g.n) ELSE Err(g.p)) ELSE g
      w == Ws(t, cl.p)
  IN CASE cl.e # 0 -> cl
       [] w.e # 0 -> Err(w.p)
       [] At(t, w.p) = Star -> Add(w.p + 1, cl.ns, [o |-> "star", l |-> cl.n])
       [] At(t, w.p) = Plus -> Add(w.p + 1, cl.ns, [o |-> "plus", l |-> cl.n])
       [] At(t, w.p) = Quest -> Add(w.p + 1, cl.ns, [o |-> "opt", l |-> cl.n])
       [] OTHER -> Ok(w.p, cl.ns, cl.n)
Seqn(t, p, ns, acc) ==
  LET w == Ws(t, p) IN
  CASE w.e # 0 -> Err(w.p)
    [] At(t, w.p) \in {Bar, RP, Semi} -> (IF acc = 0 THEN Add(w.p, ns, [o |-> "eps"]) ELSE Ok(w.p, ns, acc))
    [] OTHER -> (LET a == Atom(t, w.p, ns) IN
                 CASE a.e # 0 -> a
                   [] acc = 0 -> Seqn(t, a.p, a.ns, a.n)
                   [] OTHER -> Seqn(t, a.p, Append(a.ns, [o |-> "cat", l |-> acc, r |-> a.n]), Len(a.ns) + 1))
Sel(t, p, ns, kids, tags, prio) ==
  LET s == Seqn(t, p, ns, 0)
      ks == Append(kids, s.n)   ts == Append(tags, prio)
  IN CASE s.e # 0 -> s
       [] At(t, s.p) = Bar /\ At(t, s.p + 1) = Gt -> Sel(t, s.p + 2, s.ns, ks, ts, prio + 1)
       [] At(t, s.p) = Bar -> Sel(t, s.p + 1, s.ns, ks, ts, prio)
       [] OTHER -> Add(s.p, s.ns, [o |-> "sel", kids |-> ks, tags |-> ts])
Rule(t, p) ==                \* after the name
  LET w == Ws(t, p)
      s == Sel(t, w.p + 1, <<>>, <<>>, <<>>, 0)
  IN CASE w.e # 0 -> Err(w.p)
       [] At(t, w.p) # Colon -> Err(w.p)
       [] s.e # 0 -> s
       [] At(t, s.p) # Semi -> Err(s.p)
       [] OTHER -> Ok(s.p + 1, s.ns, s.n)

(* --------------------------------- files --------------------------------- *)
(* files: sequence of [name, text], names relative to one directory *)
GrammarWord == <<103, 114, 97, 109, 109, 97, 114>>
IncludeWord == <<105, 110, 99, 108, 117, 100, 101>>
RECURSIVE LastSlash(_, _)
LastSlash(s, k) == IF k = 0 \/ s[k] = Slash THEN k ELSE LastSlash(s, k - 1)
Resolve(base, path) == SubSeq(base, 1, LastSlash(base, Len(base))) \o path
FileOf(files, name) == LET K == {k \in 1 .. Len(files) : files[k].name = name} IN IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE
Legible(t) == Find(t, 1, 255) = 0          \* the last character cannot be represented
FErr(k, p) == [e |-> 1, f |-> k, p |-> p, rules |-> <<>>]
FUns == [e |-> 2, f |-> 0, p |-> 0, rules |-> <<>>]
FNot == [e |-> 3, f |-> 0, p |-> 0, rules |-> <<>>]      \* refused: a file is not there, or files include each other in a circle
Plain(path) ==               \* designates one file, whatever the directories are
  /\ At(path, 1) # Slash
  /\ \A j \in 1 .. Len(path) : /\ path[j] = Slash => At(path, j + 1) # Slash
                               /\ path[j] = Dot /\ At(path, j - 1) \in {0, Slash} => At(path, j + 1) \notin {0, Slash} /\ ~(At(path, j + 1) = Dot /\ At(path, j + 2) \in {0, Slash})
RECURSIVE ReadFrom(_, _, _, _, _)
ReadFrom(files, k, p, rules, inside) ==      \* inside: the files that are being read
  LET t == files[k].text
      w == Ws(t, p)
      q == WordEnd(t, w.p)
      word == SubSeq(t, w.p, q - 1)
  IN CASE w.e # 0 -> FErr(k, w.p)
       [] At(t, w.p) = 0 -> [e |-> 0, f |-> k, p |-> w.p, rules |-> rules]
       [] ~IsLeader(At(t, w.p)) -> FErr(k, w.p)
       [] word = GrammarWord ->
            (LET w1 == Ws(t, q)  q1 == WordEnd(t, w1.p)  w2 == Ws(t, q1) IN
             CASE w1.e # 0 -> FErr(k, w1.p) [] ~IsLeader(At(t, w1.p)) -> FErr(k, w1.p)
               [] w2.e # 0 -> FErr(k, w2.p) [] At(t, w2.p) # Semi -> FErr(k, w2.p)
               [] OTHER -> ReadFrom(files, k, w2.p + 1, rules, inside))
       [] word = IncludeWord ->
            (LET w1 == Ws(t, q)  q1 == Find(t, w1.p + 1, DQuote)
                 w2 == Ws(t, q1 + 1)
                 path == SubSeq(t, w1.p + 1, q1 - 1)
                 g == FileOf(files, Resolve(files[k].name, path))
             IN CASE w1.e # 0 -> FErr(k, w1.p) [] At(t, w1.p) # DQuote -> FErr(k, w1.p) [] q1 = 0 -> FErr(k, Len(t) + 1)
                  [] w2.e # 0 -> FErr(k, w2.p) [] At(t, w2.p) # Semi -> FErr(k, w2.p)
                  [] ~Plain(path) -> FUns
                  [] g = 0 \/ g \in inside \/ ~Legible(files[g].text) -> FNot
                  [] OTHER -> LET r == ReadFrom(files, g, 1, rules, inside \cup {g}) IN
                              IF r.e # 0 THEN r ELSE ReadFrom(files, k, w2.p + 1, r.rules, inside))
       [] OTHER -> (LET r == Rule(t, q) IN
                    CASE r.e = 1 -> FErr(k, r.p)
                      [] r.e = 2 -> FUns
                      [] \E j \in 1 .. Len(rules) : rules[j].name = word -> ReadFrom(files, k, r.p, rules, inside)      \* the first definition stays
                      [] OTHER -> ReadFrom(files, k, r.p, Append(rules, [name |-> word, ns |-> r.ns, n |-> r.n]), inside))
(* a line end is LF or CR LF, and the latter is one character to everything else *)
RECURSIVE Norm(_, _)
Norm(t, p) == LET q == Find(t, p, 13) IN
  IF q = 0 THEN SubSeq(t, p, Len(t)) ELSE SubSeq(t, p, q - 1) \o (IF At(t, q + 1) = LF THEN <<>> ELSE <<13>>) \o Norm(t, q + 1)
Normal(files) == [k \in 1 .. Len(files) |-> [name |-> files[k].name, text |-> Norm(files[k].text, 1)]]
ReadGrammar(files) == IF Legible(files[1].text) THEN ReadFrom(files, 1, 1, <<>>, {1}) ELSE FNot      \* of normal files
LineOf(t, p) == 1 + Len(SelectSeq(SubSeq(t, 1, p - 1), LAMBDA ch : ch = LF))
=============================================================================
