"""C12, C13, C17: reading grammars (GrammarRead.tla), the networks read and optimised (GrammarNet.tla)."""
import json, os, random
from common import *

SAN = ('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS')

def harness(extra=SAN, opt='-O1'):
    return build_with_core([('grammar_harness', os.path.join(VERIF, 'harness', 'grammar_harness.cpp'), [])], extra=extra, opt=opt)['grammar_harness']

def cp(s): return [ord(c) for c in s]

def command(flags, files):
    return '%s %d %s' % (flags, len(files), ' '.join('%d %s %d %s' % (len(n), ' '.join(map(str, n)), len(t), ' '.join(map(str, t))) for n, t in files))

def read_all(h, flags, cases):
    """cases: lists of (name, text) as strings; returns records with the files and what the code made of them."""
    enc = [[(cp(n), cp(t)) for n, t in c] for c in cases]
    out = drive(h, [command(flags, c) for c in enc], timeout=600)
    recs = []
    for c, o in zip(enc, out):
        r = {'files': [{'name': n, 'text': t} for n, t in c]}; r.update(o); recs.append(r)
    return recs

# ------------------------------------------------------------- generators
REGEX = ['a', '[a-z]+', '[0-9]+', 'a*b', '(ab|c)+', '[^a]', '.', 'a|b', '\\[x\\]', '(a|b)*c?', '-?[0-9]++', '"([^\\\\"]|(\\\\["]))*+"', 'x{', 'a=b;', "'", '[a-z][a-z0-9]*', '()', '(a*)*', '[\\]\\-]', '[^\\n]*', '((a)b)', 'b|a', '[ab]', '\xc3\xa9+', '[\xe0-\xfe]', '[^\x80]']
LITS = ["'a'", '"b"', "'ab'", "'('", "';'", "'a b'", '"//"', "'/*'", "'a\nb'", "'|'", '"it\'s"', "'\\n'", "'{'", "'+'", "'\xc3\xa9'", '"\xe9"']

class Gen:
    def __init__(self, rng, names, lits=None, regs=None, ids=True, prio=.3, depth=3):
        self.rng, self.names, self.lits, self.regs, self.ids, self.prio, self.depth = rng, names, lits or LITS, regs or REGEX, ids, prio, depth
    def term(self):
        r = self.rng; k = r.random()
        t = r.choice(self.names) if k < .3 else r.choice(self.lits) if k < .75 else '/' + r.choice(self.regs) + '/'
        out = [t]
        if self.ids and r.random() < .12: out += ['{', str(r.choice([0, 1, 7, 42, 65535])), '}']
        return out
    def atom(self, d):
        r = self.rng
        t = ['('] + self.sel(d - 1) + [')'] if d > 0 and r.random() < .35 else self.term()
        if r.random() < .4: t.append(r.choice('*+?'))
        return t
    def seq(self, d):
        r = self.rng
        n = r.choice([0, 1, 1, 1, 2, 2, 3]) if r.random() < .3 else r.choice([1, 1, 2, 2, 3])
        return [x for _ in range(n) for x in self.atom(d)]
    def sel(self, d):
        r = self.rng; out = self.seq(d)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])): out += ['|>' if r.random() < self.prio else '|'] + self.seq(d)
        return out
    def rule(self, name): return [name, ':'] + self.sel(self.depth) + [';']

def lay(rng, toks, wild=True):
    """Tokens with layout between them."""
    word = lambda c: c.isalnum() or c == '_'
    out = ''
    for k, t in enumerate(toks):
        if k:
            p = toks[k - 1]
            need = word(p[-1]) and word(t[0]) or (p[-1] == '/' and t[0] == '/') or (p == '|' and t == '>')
            x = rng.random() if wild else .5
            if x < .25 and not need: sep = ''
            elif x < .7: sep = ' '
            elif x < .8: sep = '\n'
            elif x < .85: sep = '\r\n'
            elif x < .9: sep = rng.choice(['\t', ' \n  ', '\f', '\v', '\r\n\r\n'])
            elif x < .95: sep = rng.choice([' /* c */', '/**/', ' /* a\n * b\r\n **/', '/*/ * */', "/* ';' */", '/* \xe3\x81\x82*/'])
            else: sep = rng.choice([' // c\n', '//\n', ' // a; b /* \r\n', '///\n', '// \xe9\xfe\n'])
            out += sep
        out += t
    return out

NAMES = ['A', 'B', 'Cc', 'd_1', '_E', 'grammarX', 'Include', 'x2']
def grammar_files(rng, wild=True, **kw):
    names = rng.sample(NAMES, rng.choice([1, 1, 2, 2, 3, 4]))
    g = Gen(rng, names + (['Undef'] if rng.random() < .1 else []), **kw)
    head = ['grammar', 'G1', ';'] if rng.random() < .5 else []
    rules = [g.rule(n) for n in names]
    if len(rules) > 1 and rng.random() < .3:
        k = rng.randrange(0, len(rules)); sub = rng.choice(['d/sub.cgr', 'inc.cgr', 'd/e/x'])
        part = rng.randrange(k, len(rules) + 1)
        inner, files = rules[k:part], []
        if len(inner) > 1 and rng.random() < .4:
            second = [x for r in inner[1:] for x in r]
            inner = [inner[0], ['include', '"deep.cgr"', ';']]
            files.append((os.path.join(os.path.dirname(sub), 'deep.cgr'), lay(rng, second, wild)))
        files.insert(0, (sub, lay(rng, [x for r in inner for x in r], wild)))
        body = [x for r in rules[:k] for x in r] + ['include', '"%s"' % sub, ';'] + [x for r in rules[part:] for x in r]
        return [('top.cgr', lay(rng, head + body, wild) + rng.choice(['', '\n', ' // end']))] + files
    return [('top.cgr', rng.choice(['', '\n', '/* x */', '\r\n//\r\n']) + lay(rng, head + [x for r in rules for x in r], wild) + rng.choice(['', '\n', ' // end', '\r\n']))]

HAND = ["S: 'a' | 'b';", "S: ;", "S: | 'a';", "S: (('a'));", "S: ('a' |> 'b' | 'c' |> 'd');", "S: ('a'? 'b'?)*;", "S: ('a'+)+ ('b'*)*;", "S: A? A* A+; A: 'x'?;",
        "S: ('a' | ('b' |> ('c' | 'd')))? 'e';", "S: (() | 'a')*;", "S: 'a'{3} S{4}? /b/{5};", "S: ('a' |> 'a' 'b' |> 'a' 'b' 'c') 'd';", "S: (('a' |> 'b') | ('c' |> 'a'))+;",
        "grammar G; S : A ; A : /[a-z]+/ ;", "S: ''; ", "S: '' | \"\";", "S: ('a' |> ('a' 'b' |> 'a')) | 'c';", "S : ('a' ('b' |> 'b' 'c') |> 'a' 'b') ;"]
def repo_grammars():
    d = os.path.join(REPO, 'grammars')
    return [(f, open(os.path.join(d, f), encoding='latin-1').read()) for f in sorted(os.listdir(d)) if f.endswith('.cgr')] if os.path.isdir(d) else []

def all_repo_grammars():
    """As file lists; every other grammar of the repository is there to be included."""
    g = repo_grammars()
    return [[('top.cgr', t)] + [(n, u) for n, u in g if n != f and '"%s"' % n in t] for f, t in g]

def spread(rng):
    """Files that define rules again, include one another twice, in a circle, or are not there."""
    names = rng.sample(NAMES, 4); g = Gen(rng, names, depth=1)
    files = ['top.cgr'] + rng.sample(['inc.cgr', 'd/sub.cgr', 'd/e/x', 'd/y.cgr', 'z'], rng.choice([1, 2, 2, 3]))
    back = rng.random() < .25; out = []
    for k, f in enumerate(files):
        toks = []
        for _ in range(rng.choice([1, 2, 3])):
            if rng.random() < .5 or (k == len(files) - 1 and not back): toks += g.rule(rng.choice(names))
            else:
                to = rng.choice(files if back else files[k + 1:])
                rel = to if not os.path.dirname(f) else os.path.relpath(to, os.path.dirname(f))
                if rng.random() < .05: rel += 'x'
                if '..' in rel: continue
                toks += ['include', '"%s"' % rel, ';']
        out.append((f, lay(rng, toks)))
    return out

def show(rec): return [(''.join(map(chr, f['name'])), ''.join(map(chr, f['text']))) for f in rec['files']]

# ------------------------------------------------------------------ C17
def texts(rng):
    base = []
    for _ in range(60 if THOROUGH else 22): base.append(grammar_files(rng, depth=2))
    base += [[('top.cgr', t)] for t in HAND]
    out = list(base)
    def put(files, k, t): out.append([(n, t if j == k else x) for j, (n, x) in enumerate(files)])
    pool = list("aZ_09\xe9\xff '\"/\\|>()[]{}*+?;:.,-^=\n\r\t") + ['\r\n', '//', '/*', '*/', '|>', 'grammar', 'include "x";']
    for f in base:
        for k, (n, t) in enumerate(f):
            cuts = range(len(t)) if len(t) < 90 or THOROUGH else rng.sample(range(len(t)), 90)
            for p in cuts: put(f, k, t[:p])
            for p in (range(len(t)) if THOROUGH else rng.sample(range(len(t)), min(len(t), 60))):
                put(f, k, t[:p] + t[p + 1:])
                put(f, k, t[:p] + rng.choice(pool) + t[p + 1:])
                put(f, k, t[:p] + rng.choice(pool) + t[p:])
    for _ in range(4000 if THOROUGH else 800):     # small texts over the notation's own characters
        out.append([('top.cgr', ''.join(rng.choice(["S", ":", ";", "'", '"', "/", "a", "(", ")", "[", "]", "|", ">", "*", "?", "+", "{", "1", "}", "\\", "\n", " "]) for _ in range(rng.randrange(1, 12))))])
        out.append([('top.cgr', 'S:' + ''.join(rng.choice(["'a'", '"b"', "/a/", "/", "a", "(", ")", "[", "]", "|", "|>", "*", "?", "+", "{1}", "{", "}", "\n", " ", "//", "/*"]) for _ in range(rng.randrange(1, 9))) + ';')])
    out += [spread(rng) for _ in range(600 if THOROUGH else 150)]
    for _ in range(300 if THOROUGH else 60):      # a circle of includes
        fs = rng.sample(['inc.cgr', 'b', 'd/sub.cgr', 'd/y.cgr'], rng.choice([0, 1, 2])); ring = ['top.cgr'] + [f for f in fs if '/' not in f] + [f for f in fs if '/' in f]
        if not '/' in ring[-1]: out.append([(f, 'include "%s"; %s:;' % (ring[(k + 1) % len(ring)], f[0])) for k, f in enumerate(ring)])
        else: out.append([(f, ('R%d: /a/; ' % k) * rng.choice([0, 1]) + ('include "%s";' % (ring[k + 1] if '/' not in f else os.path.basename(ring[k + 1])) if k + 1 < len(ring) else 'include "%s";' % os.path.basename(f))) for k, f in enumerate(ring)])
    out.append([('top.cgr', 'include "f1";')] + [('f%d' % k, 'R%d: "a"; include "f%d";' % (k, k + 1)) for k in range(1, 40)] + [('f40', 'Z: R1;')])
    return [c for c in out if all(0 < ord(ch) < 256 and ord(ch) != 0x85 for _, t in c for ch in t)]

def c17():
    chk = Check('C17', 'model_checking')
    rng = random.Random('C17-%d' % SEED)
    h = harness()
    cases = texts(rng)
    for n, t in repo_grammars():
        cases.append([('top.cgr', t)])
        for p in rng.sample(range(len(t)), min(len(t), 12)): cases.append([('top.cgr', t[:p])])
    recs = read_all(h, 'p', cases)
    viol, st, gen = judge('GrammarRead', recs, heap='3g')
    for i, aspect, _ in viol[:60]:
        chk.violation(aspect, '%s: %s, line %s: %r' % (aspect, 'accepted' if recs[i].get('ok') else 'refused', recs[i].get('line'), show(recs[i])), {'files': show(recs[i]), 'record': {k: v for k, v in recs[i].items() if k != 'files'}})
    chk.coverage.update(cases=len(recs), states=st, transitions=gen, traces_validated_against_impl=len(recs), refused=sum(1 for r in recs if r.get('ok') is False), accepted=sum(1 for r in recs if r.get('ok') is True),
                        rule='grammars with random layout, comments, CR LF and includes; every truncation and single-character deletions, replacements and insertions of each; short random texts over the characters of the notation')
    for r in recs[50:600:110]: chk.sample({'files': show(r), 'accepted': r.get('ok'), 'line': r.get('line')})
    chk.assumptions += ['texts of bytes other than NUL and 0x85 (a line end to the code, but not to comments)', 'no meaning is claimed for reversed ranges, empty classes, a quantifier or | where a unit of an expression should begin']
    return chk.finish()

# ------------------------------------------------------------ C12, C13
def networks(pid, mode, aspects):
    chk = Check(pid, 'model_checking')
    rng = random.Random('%s-%d' % (pid, SEED))
    h = harness()
    cases = [[('top.cgr', t)] for t in HAND] + all_repo_grammars()
    plain = ["'a'", "'b'", "'c'"]
    for k in range(1500 if THOROUGH else 330):
        if k % 9 == 0: cases.append(spread(rng))
        elif k % 3 == 0: cases.append(grammar_files(rng, depth=rng.choice([2, 3])))
        elif k % 3 == 1: cases.append(grammar_files(rng, wild=False, lits=plain, regs=['a', 'b|a', '[ab]'], ids=False, depth=rng.choice([2, 2, 3]), prio=.5))
        else:
            g = Gen(rng, ['S', 'T'], lits=plain[:2], regs=['a'], ids=False, depth=3, prio=.6)
            cases.append([('top.cgr', lay(rng, g.rule('S') + g.rule('T'), False))])
    recs = read_all(h, 'aoO', cases)
    viol, st, gen = judge('GrammarNet', recs, heap='3g', env={'MODE': mode}, consts='CONSTANTS Depth = %d\nMaxWays = 40\nPOSTCONDITION Ended\n' % (5 if THOROUGH else 4), timeout=880)
    for i, aspect, rest in viol[:60]:
        if aspect == 'crash' and mode == 'opt' and read_all(h, 'p', [cases[i]])[0].get('k') == 'crash': continue      # reading alone crashes: C12, C17
        if aspect not in aspects: continue
        chk.violation(aspect, '%s (rule, symbols read: %s) of %r %s' % (aspect, rest, show(recs[i]), recs[i].get('why', '')), {'files': show(recs[i]), 'record': {k: v for k, v in recs[i].items() if k != 'files'}})
    chk.coverage.update(cases=len(recs), rules=sum(len(r.get('rules', [])) for r in recs), states=st, transitions=gen, traces_validated_against_impl=len(recs),
                        rule='the grammars of the repository, hand-written corner cases and random grammars; phrases: every one, by the product of the networks; priorities: every phrase of up to %d symbols' % (5 if THOROUGH else 4))
    for r in recs[20:len(recs):80]: chk.sample({'files': show(r), 'rules': [(''.join(map(chr, x['name'])), x['num']) for x in r.get('rules', [])]})
    return chk.finish()

def c12(): return networks('C12', 'read', {'crash', 'read', 'names', 'network', 'phrases', 'priorities'})
def c13(): return networks('C13', 'opt', {'crash', 'network', 'phrases', 'priorities'})
