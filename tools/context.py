"""C21: the C++ context (Callbacks.tla)."""
import os, random
from common import *
from grammar import *
from gen import FIXED, structured, layered, cp
from life import clean_names

def ctx_harness(extra=(), opt='-O1'):
    """Two programs: as in a release, and with the assertions of the runners."""
    core = build_core(opt, tuple(extra)); inc = ['-I' + os.path.join(VERIF, 'harness')]
    cg = os.path.join(scratch(), 'codegen.o'); src = os.path.join(VERIF, 'harness', 'context_harness.cpp')
    gos = [(os.path.join(scratch(), 'ctx%d.o' % k), d) for k, d in enumerate((['-DNDEBUG'], []))]
    compile_all(core + [(cg, ['g++', *CXXFLAGS, opt, '-DNDEBUG', *extra, *inc, '-c', os.path.join(REPO, 'src/core/CodeGenEM64T.cpp'), '-o', cg])] +
                       [(go, ['g++', *CXXFLAGS, opt, *d, '-msse4.2', *extra, *inc, '-c', src, '-o', go]) for go, d in gos])
    return compile_all([(go[:-2], ['g++', *extra, go, cg, *[o for o, _ in core], '-o', go[:-2], '-lpthread', '-lrt']) for go, _ in gos])

CALC = "INPUT : EXPR '=' ;\nEXPR : TERM ('+' EXPR)? ;\nTERM : FACT ('*' TERM)? ;\nFACT : /[0-9]+/ | '(' EXPR ')' ;"
TREES = [
 (CALC, ['1=', '1+2*3=', '(1+(2*3))*4+5 =', ' 1 + 2 = ', '((((((7))))))=', '1+2', '+', '1+(2*3=', '']),
 ("S: T* '.'; T: 'a' U? ; U: 'b' ;", ['.', 'a.', 'ab.', 'aaabab.', 'a' * 50 + '.', 'ab' * 40 + '.', 'ab', 'b']),
 ("S: '(' S* ')' ;", ['()', '(()())', '((((()))))', '(()(()())((()))())', '(' * 60 + ')' * 60, '()' * 2, '(()', '(']),
 ("S: E E E; E: 'a'? ;", ['', 'a', 'aa', 'aaa', 'aaaa', 'b']),
 ("S: A B C D; A: 'a'*; B: 'b'*; C: 'c'* D; D: 'd'*;", ['', 'abcd', 'aabbcc', 'dd', 'ccd', 'x']),
 ("L: '[' ( V ( ',' V )* )? ']' ; V: /[0-9]+/ | L | K ; K: '{' ( V ';' )* '}' ;", ['[]', '[1]', '[1,2,3]', '[[1],{2;3;},[[]]]', '[' + ','.join(str(k) for k in range(60)) + ']', '[1,[2,{3;[4];}],5', '[1,,2]']),
]
def expr(rng, d):
    if d == 0 or rng.random() < .2: return str(rng.randrange(10 ** rng.choice([1, 1, 2, 18])))
    return rng.choice(['(%s)' % expr(rng, d - 1), '%s%s%s' % (expr(rng, d - 1), rng.choice(['+', '*', ' + ']), expr(rng, d - 1))])
def parens(rng, n): return '(' + ''.join(parens(rng, k) for k in split(rng, n - 1)) + ')'
def split(rng, n):
    out = []
    while n > 0: k = rng.choice([1, 1, 2, rng.randrange(1, n + 1)]); k = min(k, n); out.append(k); n -= k
    rng.shuffle(out); return out
def lists(rng, n):
    if n <= 1: return rng.choice(['1', '23', '[]', '{}', '[]'])
    ks = split(rng, n - 1)
    return '[%s]' % ','.join(lists(rng, k) for k in ks) if rng.random() < .6 else '{%s}' % ''.join(lists(rng, k) + ';' for k in ks)
def big_inputs(rng, k, most):
    """Inputs with many occurrences for the k-th of TREES."""
    n = rng.randrange(2, most)
    return [lambda: expr(rng, n.bit_length() + 1) + '=', lambda: ''.join(rng.choice(['a', 'ab']) for _ in range(n)) + '.', lambda: parens(rng, n), lambda: 'a' * rng.randrange(4),
            lambda: 'a' * rng.choice([0, n]) + 'b' * rng.choice([0, n]) + 'c' * rng.choice([0, 3]) + 'd' * n, lambda: '[%s]' % lists(rng, n)][k]()
def command(flags, text, page, mask, cbseed, made, seed, most, times, inputs):
    return '%s %s %d %d %d %d %d %d %d %d %s' % (flags, cp2(text), page, mask, cbseed, made, seed, most, times, len(inputs), ' '.join('%d %s' % (w, cp2(s)) for w, s in inputs))
def cp2(t):
    a = cp(t); return '%d %s' % (len(a), ' '.join(map(str, a)))

def c21():
    chk = Check('C21', 'model_checking')
    rng = random.Random('C21-%d' % SEED)
    h, ha = ctx_harness()
    cs = []
    ALL = 0xFFFFFFFF
    masks = lambda: rng.choice([ALL, ALL, rng.getrandbits(32), rng.getrandbits(32) | rng.getrandbits(32), 0])
    for t, ins in TREES + [f for f in FIXED if len(f[0]) < 400]:
        for k in range(6 if THOROUGH else 2):
            ii = [(rng.choice([1, 2, 3, 4]), s) for s in ins if len(s) < 3000]
            if (t, ins) in TREES: ii += [(rng.choice([1, 2, 3, 4]), big_inputs(rng, TREES.index((t, ins)), 60)) for _ in range(4)]
            cs.append((rng.choice(['c', 'u']), t, rng.choice([16, 24, 32, 40, 64, 256]), ALL if k == 0 else masks(), rng.randrange(5), 6, rng.randrange(10 ** 6), 60, 0, ii))
    for _, text in repo_grammars():
        if 'include' in text or 'Eager' in text: continue
        cs.append(('c', text, 64, ALL, rng.randrange(5), 20 if THOROUGH else 8, rng.randrange(10 ** 6), 300, 0, []))
    for k in range(3000 if THOROUGH else 250):
        t = layered(rng)[0][1] if k % 4 == 0 else structured(rng)
        cs.append((rng.choice(['c', 'u']), t, rng.choice([16, 24, 32, 40, 64, 128]), masks(), rng.randrange(5), 12, rng.randrange(10 ** 6), rng.choice([12, 40, 120]), 0, []))
    flat = "S: T* '.'; T: 'a';"
    for n, w in ([(1200000, 1), (1048574 // 2, 2), (3300000, 3)] if not THOROUGH else [(524287, 1), (524286, 2), (1048575, 1), (1200000, 1), (2500000, 2), (5300000, 3), (9000000, 4)]):
        cs.append(('c', flat, 0, ALL, 0, 0, 1, 30, n, [(w, 'a')]))
    cs.append(('u', flat, 0, ALL, 0, 0, 1, 30, 700001, [(2, 'a'), (1, 'a'), (4, 'a')]))
    rng.shuffle(cs)
    cut = len(cs) * 2 // 3
    out = drive(h, [command(*c) for c in cs[:cut]], timeout=800, jobs=max(1, JOBS // 2)) + drive(ha, [command(*c) for c in cs[cut:]], timeout=800, jobs=max(1, JOBS // 2))
    clean_names()
    recs, use = [], []
    for c, o in zip(cs, out):
        if o['k'] != 'ctx': o.update(big=False, attached=[], runs=[], ok=True, missing=True)
        if o.get('ok'): recs.append(o); use.append(c)
    viol, st, gen = judge('Callbacks', recs, heap='3g', timeout=800)
    for ix, aspect, rest in viol:
        r = recs[ix]; j = int(rest.split(',')[0]) if rest else 0
        run_ = r['runs'][j - 1] if 0 < j <= len(r['runs']) else {}
        chk.violation(aspect, '%s (run, call: %s) of %r on %r, pages of %d bytes, %s workers %s' % (aspect, rest, use[ix][1], ''.join(map(chr, run_.get('in', []))), use[ix][2], run_.get('workers'), r.get('why', '')), {'text': use[ix][1], 'command': command(*use[ix]), 'run': run_})
    runs = [x for r in recs if not r['big'] for x in r['runs']]
    chk.coverage.update(cases=len(recs), inputs=len(runs), accepted=sum(x['end'] >= 0 for x in runs), calls=sum(len(x['calls']) for x in runs), values=sum(len(k['v']) for x in runs for k in x['calls']), long_inputs=sum(len(r['runs']) for r in recs if r['big']),
                        occurrences=sum(len(x['marks']) // 2 for x in runs), states=st, transitions=gen, traces_validated_against_impl=len(runs), refused_grammars=len(cs) - len(recs),
                        rule='hand-written grammars and inputs, the grammars of the repository, random grammars with inputs derived from them and damaged; 1 to 4 workers, pages of 2 to 32 markers, random sets of attached rules, callbacks that answer nothing for a fifth of the places; lists of up to millions of elements on pages of 8 MB')
    for r, c in list(zip(recs, use))[:40:8]: chk.sample({'grammar': c[1][:200], 'attached': r['attached'], 'inputs': [''.join(map(chr, x.get('in', []))) for x in r['runs']][:3]})
    chk.assumptions += ['machine code through the stand-in for asmjit, as C18', 'the marker stream of an input is decided by C18']
    return chk.finish()
