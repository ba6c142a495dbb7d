"""C14 (Expansion.tla), C15 and C16 (Lookahead.tla): character networks, decisions, verification."""
import os, random
from common import *
from grammar import *

def c14():
    chk = Check('C14', 'model_checking')
    rng = random.Random('C14-%d' % SEED)
    h = harness()
    cases = [[('top.cgr', t)] for t in HAND] + all_repo_grammars()
    plain = ["'a'", "'b'", "'ab'", "'ba'", "''"]
    for k in range(1500 if THOROUGH else 240):
        if k % 3 == 0: cases.append(grammar_files(rng, wild=False, ids=False, depth=rng.choice([1, 2])))
        elif k % 3 == 1: cases.append(grammar_files(rng, wild=False, lits=plain, regs=['a', 'b|a', '[ab]', 'a*', 'a+b?', '(ab)*', '[^a]*', 'a*b*', 'a++'], ids=False, depth=rng.choice([1, 2]), prio=.5))
        else:
            g = Gen(rng, ['S', 'T'], lits=plain, regs=['a', 'a*', '[ab]+'], ids=False, depth=2, prio=.6)
            cases.append([('top.cgr', lay(rng, g.rule('S') + g.rule('T'), False))])
    recs = [r for r in read_all(h, 'oc', cases) if r.get('ok', True)]
    depth = 5 if THOROUGH else 4
    viol, st, gen = judge('Expansion', recs, heap='3g', consts='CONSTANTS Depth = %d\nMaxWays = 40\nPOSTCONDITION Ended\n' % depth, timeout=880)
    for i, aspect, rest in viol[:60]:
        if aspect == 'crash' and read_all(h, 'o', [[(n, t) for n, t in show(recs[i])]])[0].get('k') == 'crash': continue      # reading or optimising alone crashes: C12, C13
        chk.violation(aspect, '%s (rule, steps: %s) of %r %s' % (aspect, rest, show(recs[i]), recs[i].get('why', '')), {'files': show(recs[i]), 'record': {k: v for k, v in recs[i].items() if k != 'files'}})
    chk.coverage.update(cases=len(recs), rules=sum(len(r.get('rules', [])) for r in recs), states=st, transitions=gen, traces_validated_against_impl=len(recs),
                        decisions=sum(1 for r in recs for m in r.get('opt', []) for n in m if len(n['tr']) > 1),
                        rule='the grammars of the repository, hand-written corner cases and random grammars; language: every sequence of characters and rule references, from the beginning and from every alternative of every decision point; priorities: up to %d steps' % depth)
    for r in recs[20:len(recs):90]: chk.sample({'files': show(r), 'rules': len(r.get('rules', []))})
    return chk.finish()

def decisive(rng, k):
    """Grammars whose decisions need some looking ahead."""
    lits = rng.choice([["'a'", "'b'"], ["'a'", "'b'", "'ab'", "'ba'"], ["'a'", "'aa'", "'ab'", "'c'"], ["'if'", "'i'", "'f'", "';'"], ["'a'", "''", "'b'"]])
    regs = rng.choice([['a', '[ab]'], ['a+', '[ab]+', 'b'], ['a*', 'b'], ['[a-z]+', '[a-z0-9]*', '[0-9]+'], ['(ab)+', 'a?', '[^a]']])
    names = rng.sample(NAMES, rng.choice([1, 2, 2, 3]))
    g = Gen(rng, names, lits=lits, regs=regs, ids=False, depth=rng.choice([1, 1, 2]), prio=rng.choice([0, 0, 0, .3, .7]))
    for size in range(12, 1000):
        if k % 4 == 0:      # no recursion: rules refer to later ones only
            out = []
            for j, n in enumerate(names): g.names = names[j + 1:] or ["'a'"]; out.append(g.rule(n))
        else: out = [g.rule(n) for n in names]
        if sum(len(r) for r in out) <= size: break
    return [('top.cgr', lay(rng, [x for r in out for x in r], False))]

def layered(rng):
    """Rules on top of each other, as in expression grammars: the last one may go back to the top in brackets."""
    n = rng.choice([2, 3, 4, 5, 6])
    names = rng.sample(NAMES + ['L1', 'L2', 'L3'], n)
    op = rng.sample(["'+'", "'*'", "'-'", "'<'", "'=='", "'='", "'.'"], n)
    out = []
    for j, a in enumerate(names[:-1]):
        b = names[j + 1]
        out.append('%s : %s ;' % (a, rng.choice([b, '%s ( %s %s )*' % (b, op[j], b), '%s ( %s %s )?' % (b, op[j], a), '%s %s ?' % (op[j], b), "%s | %s %s" % (b, op[j], b), '%s ( %s %s )?' % (b, op[j], b), '%s %s *' % (b, op[j])])))
    out.append('%s : %s ;' % (names[-1], rng.choice(["'a' | '(' %s ')'" % names[0], "/[a-z]+/ | '[' %s ? ']'" % names[0], "'a' 'b' | 'a' 'c'", "'a' 'x' | 'a' %s" % names[0], "'x' %s | 'y' 'z' ?" % names[-1], "/[0-9]+/ |> 'a'", "'a' ( ',' %s )*" % names[0]])))
    if rng.random() < .4: out.insert(0, "Top1 : %s ;" % rng.choice([names[0] + " | 'a' 'x'", "( %s ';' )*" % names[0], "%s | %s ';'" % (names[0], names[-1]), "'b' | %s" % names[0], "'k' %s 'q' ?" % names[0]]))
    return [('top.cgr', ' '.join(out))]

DECIDE = ["S: A | B; A: 'a' P 'x'; B: 'ab' P 'y'; P: 'a' |> 'ba';", "S: ('a' |> 'ab') 'c';", "S: 'a'* 'b';", "S: /[a-z]+/ | 'if' E; E: 'x'?;", "S: 'if' |> /[a-z]+/;", "E: T ('+' T)*; T: F ('*' F)*; F: /[0-9]+/ | '(' E ')';",
          "L: 'x' L | 'x';", "S: T 'a' | T 'b'; T: 'c' T | 'd';", "S: T 'a' | T 'b'; T: 'c' | 'd';", "S: ('x'|'x') 'y';", "S: 'x'? 'x'? 'y';", "S: T* 'e'; T: 'a' 'b' | 'a' 'c';", "S: '' ('a'|'b');", "S: /(ab)+/+ | /(ab)*/ 'c';"]

def c15():
    chk = Check('C15', 'model_checking')
    rng = random.Random('C15-%d' % SEED)
    h = harness(extra=('-D_GLIBCXX_ASSERTIONS',), opt='-O2')
    cases = [[('top.cgr', t)] for t in DECIDE + HAND] + [c for c in all_repo_grammars() if THOROUGH or 'Eager' not in c[0][1]]
    cases += [layered(rng) if k % 6 == 5 else decisive(rng, k) for k in range(3000 if THOROUGH else 800)]
    recs = [r for r in read_all(h, 'ol', cases) if r.get('ok', True)]
    depth = 6 if THOROUGH else 5
    viol, st, gen = judge('Lookahead', recs, heap='3g', consts='CONSTANTS Depth = %d\nMaxThreads = %d\nVIEW View\nPOSTCONDITION Ended\n' % (depth, 120 if THOROUGH else 60), timeout=880)
    for i, aspect, rest in viol[:60]:
        if aspect == 'crash' and read_all(h, 'o', [show(recs[i])])[0].get('k') == 'crash': continue
        chk.violation(aspect, '%s (decision, characters read, next, goes to: %s) of %r %s' % (aspect, rest, show(recs[i]), recs[i].get('why', '')), {'files': show(recs[i]), 'record': {k: v for k, v in recs[i].items() if k != 'files'}})
    chk.coverage.update(cases=len(recs), decisions=sum(len(r.get('ldfa', [])) for r in recs), states=st, transitions=gen, traces_validated_against_impl=len(recs))
    for r in recs[20:len(recs):90]: chk.sample({'files': show(r), 'rules': len(r.get('rules', []))})
    return chk.finish()

USE = ["S: A; A: A 'x';", "S: 'c' A; A: A 'x';", "S: 'c' A ('d'|'e'); A: A 'x';", "S: A | 'b'; A: B 'x'; B: A 'y';", "A: B A 'x'; B: 'q'?;", "S: /x*/ S | 'y';", "S: ('a'?)* S;", "S: T U; T: 'a'?; U: S | 'b';", "S: X;", "S: 'a' | X;", "S: T X; T: 'a';", "S: T; T: S2 'x' U; S2: 'c'; U: 'y' S2 X;", "S: A | 'a' 'x'; A: B; B: C; C: D; D: 'a' 'b' | 'a' 'c';", "S: 'a'; T: X?;",
       "S: 'x' S | 'y';", "S: 'x' S 'z' | 'y';", "S: 'a' S | 'a' T; T: 'b';", "S: '(' S ')' 'x' | '(' S ')' 'y' | 'z';", "S: T 'x' | T 'y'; T: 'a'* 'b';", "S: S;", "S: T; T: U; U: T;", "S: 'a' T | 'b' T; T: ('c' T)? ;", "S: '' S 'x' | 'y';", "S: /()/ S | 'y';", "S: T* 'x'; T: 'a' T | 'b';",
       "E: T ('+' E)?; T: F ('*' T)?; F: /[0-9]+/ | '(' E ')';", "S: 'a' A | 'a' B; A: 'b' A | 'c'; B: 'b' B | 'd';", "S: A 'x' | A 'y'; A: '(' A ')' | 'z';",
       "S: '<' C+ 'x' |> 'a'; C: 'x' * |> ';';", "S: '<' C* ';'; C: 'x'? /y*/;", "S: '<' ('x' |> '')* 'y';", "S: '<' (/()/ 'x'?)+ 'y' | 'z';", "S: 'a' (('b' 'c')* | 'd') 'e'; T: ('b' | )+ 'f';", "S: 'a' (T* 'b')+ ; T: 'c' U; U: 'd'?;", "S: '<' /(a*)*/ /(b?)+c/ '>';", "S: '<' (/(a*)*b/ 'c'?)* '>';", "S: '<' (('a'?)?)? '>';", "S: 'x'; T: U*; U: V W; V: 'a'?; W: V;", "S: ('x'+)+ 'y';"]
def c16():
    chk = Check('C16', 'model_checking')
    rng = random.Random('C16-%d' % SEED)
    h = harness(extra=('-D_GLIBCXX_ASSERTIONS',), opt='-O2')
    texts = [[('top.cgr', t)] for t in USE + DECIDE + HAND] + [c for c in all_repo_grammars() if THOROUGH or 'Eager' not in c[0][1]]
    for k in range(3000 if THOROUGH else 900):
        c = layered(rng) if k % 5 >= 3 else decisive(rng, k)
        if k % 5 == 1 or k % 20 == 4:      # one reference, to a rule that is not there
            n, t = c[0]; t = t.split(' ')
            at = [j for j, x in enumerate(t) if x in NAMES and (j + 1 == len(t) or t[j + 1] != ':')]
            if at: t[rng.choice(at)] = 'Other'
            else: t[-1:-1] = ['Other']
            c = [(n, ' '.join(t))]
        elif k % 5 == 2:    # a loop before anything is read
            n, t = c[0]; c = [(n, t + ' Q: %s Q1 %s; Q1: %s %s;' % (rng.choice(['', '/a*/', "'b'?", 'Q2', "''"]), rng.choice(['', "'x'", "| 'y'"]), rng.choice(['Q', 'Q2 Q', 'Q2', "'z'"]), rng.choice(['', "| 'z'"])) + ' Q2: %s;' % rng.choice(["'w'?", "'w'", 'Q?', "Q2 'w' | 'v'", '/[a-z]*/']))]
        texts.append(c)
    recs = []
    for flags in ('vl', 'ovl'):
        got = read_all(h, flags, texts)
        recs += got
    # an LL automaton can be exponential in size: the ones that take long are left out, if they are among the random ones
    fixed = len(USE + DECIDE + HAND) + len(all_repo_grammars()) - 1
    use = [r for j, r in enumerate(recs) if r.get('k') == 'grammar' or (j % len(texts)) < fixed or r.get('why') != 'hang']
    sorts = {}
    viol, st, gen = judge('Usable', use, heap='3g', consts='CONSTANTS MaxThreads = 60\nMaxSets = 60\n', timeout=880, tally=sorts)
    for i, aspect, rest in viol[:60]:
        chk.violation(aspect, '%s: %r %s' % (aspect, show(use[i]), use[i].get('why', '')), {'files': show(use[i]), 'verify': use[i].get('verify')})
    chk.coverage.update(cases=len(use), states=st, transitions=gen, traces_validated_against_impl=len(use), left_out_slow=len(recs) - len(use), **{'grammars_' + k: v for k, v in sorts.items()},
                        rule='the grammars of the repository, hand-written ones, random ones, some with an undefined rule or a loop before anything is read; verified as read and as optimised')
    for r in use[20:len(use):190]: chk.sample({'files': show(r), 'accepted': r.get('verify')})
    chk.assumptions += ['no claim is made about grammars with a rule that has no finite phrase, or whose decisions cannot be settled before some thread is inside the same reference twice, other than undefined or left-recursive rules being refused']
    return chk.finish()
