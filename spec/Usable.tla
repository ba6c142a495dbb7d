------------------------------- MODULE Usable -------------------------------
(***************************************************************************)
(* Which grammars verification has to refuse and which it has to accept,   *)
(* from their text.  It has to refuse a grammar that refers to an          *)
(* undefined rule, in which a rule can reach itself before reading         *)
(* anything, or which repeats something that need not read anything.  It   *)
(* has to accept a grammar in which none of this happens, every rule has a *)
(* finite phrase, and the threads of every decision point get   *)
(* down to one alternative or none, whatever they read, before any of them *)
(* is inside the same reference twice.  Nothing is claimed about others.   *)
(***************************************************************************)
EXTENDS GrammarText, Threads, Json, IOUtils
CONSTANT MaxThreads, MaxSets
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
Text(i) == ReadGrammar(Normal(Cases[i].files))
GrammarOf(t) == TLCEval(Rules([r \in 1 .. Len(t.rules) |-> t.rules[r].name], [r \in 1 .. Len(t.rules) |-> Spread(SpelledNet(t.rules[r].ns, t.rules[r].n))]))

(* rules that can be gone through without reading, and rules that have a finite phrase *)
Reach(net, ref, through, silent) ==      \* positions reached from the entry, going through references to rules in `through' and, unless silent, through characters
  LET RECURSIVE Go(_, _)
      Go(S, front) == IF front = {} THEN S ELSE
        LET nx == UNION {IF ref[p] # 0 /\ ref[p] \notin through THEN {} ELSE {net[p].tr[j].d : j \in {j \in 1 .. Len(net[p].tr) : net[p].tr[j].r = <<>> \/ ~silent}} : p \in front} \ S
        IN Go(S \cup nx, nx)
  IN Go({1}, {1})
RECURSIVE Grow(_, _, _)
Grow(g, S, silent) == LET T == S \cup {r \in 1 .. Len(g) : Len(g[r].net) \in Reach(g[r].net, g[r].ref, S, silent)} IN IF T = S THEN S ELSE Grow(g, T, silent)
Empty(g) == TLCEval(Grow(g, {}, TRUE))
Finite(g) == TLCEval(Grow(g, {}, FALSE))
Heads(g, r, nul) == {g[r].ref[p] : p \in Reach(g[r].net, g[r].ref, nul, TRUE)} \cap 1 .. Len(g)
RECURSIVE Meets(_, _, _)
Meets(h, S, goal) == LET T == S \cup UNION {h[q] : q \in S} IN IF T = S THEN goal \in S ELSE Meets(h, T, goal)
LeftRecursive(g) == LET nul == Empty(g)  h == TLCEval([r \in 1 .. Len(g) |-> Heads(g, r, nul)]) IN \E r \in 1 .. Len(g) : Meets(h, h[r], r)

(* a repetition in a rule that can go round without reading, from how the rule is written *)
RECURSIVE MayBeNothing(_, _, _)
MayBeNothing(ns, n, nul) == LET x == ns[n] IN
  CASE x.o \in {"eps", "star", "opt"} -> TRUE
    [] x.o = "chr" -> FALSE
    [] x.o = "lit" -> x.txt = <<>>
    [] x.o = "ref" -> x.name \in nul
    [] x.o \in {"plus", "re"} -> MayBeNothing(ns, x.l, nul)
    [] x.o = "cat" -> MayBeNothing(ns, x.l, nul) /\ MayBeNothing(ns, x.r, nul)
    [] x.o = "alt" -> MayBeNothing(ns, x.l, nul) \/ MayBeNothing(ns, x.r, nul)
    [] x.o = "sel" -> \E k \in 1 .. Len(x.kids) : MayBeNothing(ns, x.kids[k], nul)
RECURSIVE Repeated(_, _)
Repeated(ns, n) == LET x == ns[n] IN      \* what the rule repeats; an expression repeats nothing, it is read as one
  CASE x.o \in {"star", "plus"} -> {x.l} \cup Repeated(ns, x.l)
    [] x.o = "opt" -> Repeated(ns, x.l)
    [] x.o = "cat" -> Repeated(ns, x.l) \cup Repeated(ns, x.r)
    [] x.o = "sel" -> UNION {Repeated(ns, x.kids[k]) : k \in 1 .. Len(x.kids)}
    [] OTHER -> {}
Idle(t, g) == LET nul == TLCEval({t.rules[r].name : r \in Empty(g)}) IN
  \E r \in 1 .. Len(t.rules) : \E n \in Repeated(t.rules[r].ns, t.rules[r].n) : MayBeNothing(t.rules[r].ns, n, nul)

(* does everything get settled from these sets of threads? "yes", "deep", or "unknown" when it takes too long to tell *)
RECURSIVE Explore(_, _, _, _)
Explore(g, sites, seen, front) ==
  CASE front = {} -> "yes"
    [] \E T \in front : Spun(T, 1) -> "deep"
    [] Cardinality(seen) > MaxSets \/ \E T \in front : Cardinality(T) > MaxThreads -> "unknown"
    [] OTHER -> LET nx == TLCEval({Settle(g, sites, S, S, FALSE, 1) : S \in {S \in UNION {{ReadBy(g, T, x, FALSE) : x \in Characters(g, T)} : T \in front} : Cardinality(Colours(S)) > 1}} \ seen)
                IN Explore(g, sites, seen \cup nx, nx)
Points(g) == UNION {{<<r, p>> : p \in {p \in 1 .. Len(g[r].net) : g[r].ref[p] = 0 /\ Cardinality({j \in 1 .. Len(g[r].net[p].tr) : g[r].net[p].tr[j].r = <<>>}) > 1}} : r \in 1 .. Len(g)}
Settled(g) == LET sites == SitesOf(g)  pts == Points(g) IN
  LET how == TLCEval({Explore(g, sites, {}, {Alternatives(g, sites, q[1], q[2], FALSE, 1)}) : q \in pts}) IN
  CASE "deep" \in how -> "deep" [] "unknown" \in how -> "unknown" [] OTHER -> "yes"
VARIABLE i
Say(what, ok) == IF ok THEN TRUE ELSE PrintT(<<"VIOL", what, i>>)
Judge(c) ==
  IF c.k # "grammar" THEN Say("crash", FALSE)
  ELSE IF ~c.ok THEN TRUE
  ELSE LET t == Text(i) IN
    IF t.e # 0 \/ Len(t.rules) # Len(c.rules) THEN TRUE
    ELSE LET g == GrammarOf(t) IN
      CASE Undefined(g) -> Say("undefined-accepted", ~c.verify) /\ PrintT(<<"SORT", "undefined", i>>)
        [] LeftRecursive(g) -> Say("left-recursion-accepted", ~c.verify) /\ PrintT(<<"SORT", "leftrec", i>>)
        [] Idle(t, g) -> Say("idle-repetition-accepted", ~c.verify) /\ PrintT(<<"SORT", "idle", i>>)
        [] OTHER ->
           /\ Say("no-automaton", c.verify => \A e \in 1 .. Len(c.ldfa) : c.ldfa[e].ok)
           /\ IF c.verify THEN PrintT(<<"SORT", "accepted", i>>)
              ELSE IF Finite(g) # 1 .. Len(g) THEN PrintT(<<"SORT", "barren", i>>)
              ELSE LET how == Settled(g) IN Say("usable-refused", how # "yes") /\ PrintT(<<"SORT", how, i>>)
Init == i = 0
Next == \/ i < N /\ i' = i + 1
        \/ i = N /\ PrintT(<<"CASES-END", N>>) /\ i' = N + 1
Spec == Init /\ [][Next]_i
Judged == i \in 1 .. N => Judge(Cases[i])
=============================================================================
