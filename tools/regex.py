"""C09-C11: character classes (CharSets.tla), regular expressions and their automata (Regex.tla)."""
import itertools, json, os, random, re
from common import *

SAN = ('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS')

def harness():
    return build_with_core([('regex_harness', os.path.join(VERIF, 'harness', 'regex_harness.cpp'), [])], extra=SAN)['regex_harness']

# ------------------------------------------------------------------ C11
TOP = {'c': 255, 'u': 255, 'w': 2**31 - 1}

def points(rng, n, top):
    """An increasing map of 0..n into 0..top that often touches both ends."""
    lo = rng.choice([0, 0, 1, 2, 97, top // 2]) if n < 60 else 0
    hi = rng.choice([top, top, top - 1, lo + n, lo + n + 1, lo + 2 * n])
    hi = min(top, max(hi, lo + n))
    if rng.random() < .5: mid = sorted(rng.sample(range(lo + 1, hi), n - 1)) if hi - lo - 1 >= n - 1 else None
    else: mid = [lo + k for k in range(1, n)] if lo + n - 1 < hi else None
    if mid is None: mid = [lo + k for k in range(1, n)]
    return [lo] + mid + [hi]

def class_cases(rng):
    n = 5
    rs = [(a, b) for a in range(n) for b in range(a + 1, n + 1)]
    subsets = []
    for m in range(1 << n):
        runs, k = [], 0
        while k < n:
            if m >> k & 1:
                j = k
                while j < n and m >> j & 1: j += 1
                runs.append((k, j)); k = j
            else: k += 1
        subsets.append(runs)
    seqs = [[]] + [[a] for a in rs] + [[a, b] for a in rs for b in rs] + [[a, b, c] for a in rs for b in rs for c in rs]
    pairs = [(a, b) for a in subsets for b in subsets]
    for s in seqs: pairs.append((s, rng.choice(seqs)) if rng.random() < .5 else (rng.choice(seqs), s))
    for _ in range(4000 if THOROUGH else 600): pairs.append(([rng.choice(rs) for _ in range(rng.randrange(3, 7))], [rng.choice(rs) for _ in range(rng.randrange(3, 7))]))
    out = []
    for t in 'cuw':
        for a, b in pairs:
            p = points(rng, n, TOP[t])
            A, B = [[p[x], p[y]] for x, y in a], [[p[x], p[y]] for x, y in b]
            rng.shuffle(A); rng.shuffle(B)
            ha, hb = rng.choice('AUV'), rng.choice('AUV')
            out.append((t, ha, A, hb, B, p))
        for m in range(300):     # classes written as lists of characters
            p = points(rng, n, TOP[t])
            def chars(): return [[c, c + 1] for c in (rng.choice([p[0], p[0] + 1, p[1], p[2], p[4], TOP[t] - 1]) for _ in range(rng.randrange(5)))]
            out.append((t, 'L', chars(), 'L', chars(), p))
    recs, cmds = [], []
    for t, ha, A, hb, B, p in out:
        pts = sorted({q for x in p for q in (x - 1, x) if 0 <= q < TOP[t]})
        def enc(h, rs): return '%s %d %s' % (h, len(rs), ' '.join('%d %d' % tuple(r) for r in rs))
        cmds.append('C%s %s %s %d %s' % (t, enc(ha, A), enc(hb, B), len(pts), ' '.join(map(str, pts))))
        recs.append({'k': 'ops', 't': t, 'top': TOP[t], 'ga': A, 'gb': B, 'pts': pts})
    return cmds, recs

def bracket_cases(rng):
    texts = []
    alpha = [ord(c) for c in 'ac-^\\]n']
    for n in range(0, 6): texts += [list(x) for x in itertools.product(alpha, repeat=n)]
    if not THOROUGH: texts = [t for t in texts if len(t) < 5] + rng.sample([t for t in texts if len(t) == 5], 3000)
    wide = [ord(c) for c in 'aZ09_-^\\]]][.+*/()|tTrRnNx "\''] + [1, 254, 128, 10]
    for _ in range(12000 if THOROUGH else 2500):
        t = []
        if rng.random() < .3: t.append(94)
        for _ in range(rng.randrange(1, 6)):
            r = rng.random()
            if r < .25: t += [92, ord(rng.choice('\\-[]tTrRnN' if rng.random() < .95 else 'xz09'))]
            elif r < .6:
                a, b = sorted(rng.choice([1, 9, 10, 33, 47, 48, 57, 65, 90, 97, 122, 128, 200, 253, 254]) for _ in range(2))
                if b not in (45, 92, 93) and a not in (45, 92, 93): t += [a, 45, b]
            else: t.append(rng.choice(wide))
        if rng.random() < .95: t.append(93)
        t += [rng.choice(wide) for _ in range(rng.randrange(3))]
        texts.append(t)
    cmds, recs = [], []
    for i, t in enumerate(texts):
        for k in 'cw' if i % 4 == 0 else 'c':
            cmds.append('B%s %d %s' % (k, len(t), ' '.join(map(str, t)))); recs.append({'k': 'bracket', 'text': t, 'top': TOP[k]})
    return cmds, recs

def c11():
    chk = Check('C11', 'model_checking')
    rng = random.Random('C11-%d' % SEED)
    h = harness()
    c1, r1 = class_cases(rng); c2, r2 = bracket_cases(rng)
    cmds, recs = c1 + c2, r1 + r2
    for r, o in zip(recs, drive(h, cmds)): r.update(o)
    v, st, gen = judge('CharSets', recs, shards=JOBS)
    for i, aspect, _ in v[:40]:
        chk.violation(aspect, 'class operation disagrees with the set it denotes (%s) on %s' % (aspect, json.dumps({k: recs[i][k] for k in recs[i] if k in ('ga', 'gb', 'text', 'why', 't')})), {'command': cmds[i], 'record': recs[i]})
    chk.coverage.update(cases=len(recs), states=st, transitions=gen, traces_validated_against_impl=len(recs), operations=len(r1), bracket_expressions=len(r2),
                        rule='every pair of subsets of five blocks and every sequence of up to three range additions over five blocks, mapped to character codes touching both ends, for char, unsigned char and wchar_t; every bracket text of up to four (thorough: five) characters over a c - ^ \\ ] n, and random longer ones')
    chk.sample(recs[500]); chk.sample(recs[-1])
    chk.assumptions += ['ranges are not empty and not reversed', 'the top character of the type is reserved']
    return chk.finish()

# -------------------------------------------------------------- C09, C10
LEAVES = {'a': (False, [[97, 97]], 'a'), 'b': (False, [[98, 98]], 'b'), 'na': (True, [[97, 97]], '[^a]'), 'dot': (False, [[1, 254]], '.')}
QUANT = {'star': ('*', ['', '+', '?', '*']), 'plus': ('+', ['', '+', '?', '*']), 'opt': ('?', ['', '?', '*'])}

def spec_exprs(size):
    r = tlc('RegexGen', None, cfgtext='CONSTANTS Size = %d\nLeaves = {"a", "b", "na", "eps"}\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % size, heap='4g', workers=1, timeout=800)
    if not r.ok: raise ToolError('RegexGen.tla: ' + r.error)
    out = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'<<"CASE", "(.*)">>', r.out)]
    for ast in out:
        for x in ast:
            if x['o'] in LEAVES: x['neg'], x['its'], x['txt'] = LEAVES[x['o']]; x['o'] = 'chr'
    return out, r.distinct

def esc_leaf(rng):
    k = rng.random()
    if k < .35:
        c = rng.choice('abcdxyz019 _-"\'=<>,;:!@#%^&~`\n\t]})'.replace(')', '')); return (False, [[ord(c), ord(c)]], c)
    if k < .5:
        c = rng.choice('[]+*{}?\\|().'); return (False, [[ord(c), ord(c)]], '\\' + c)
    if k < .6: return LEAVES['dot']
    neg = rng.random() < .35; its, t = [], ''
    for _ in range(rng.randrange(1, 4)):
        a, b = sorted(rng.choice([0x21, 0x30, 0x35, 0x39, 0x41, 0x5a, 0x61, 0x62, 0x63, 0x7a, 0x7e, 0xc8, 0xfe]) for _ in range(2))
        if rng.random() < .5 or a == b: b = a; t += chr(a)
        else: t += chr(a) + '-' + chr(b)
        its.append([a, b])
    if rng.random() < .3: its.append([10, 10]); t += '\\n'
    if rng.random() < .2: its.append([45, 45]); t += '\\-'
    if rng.random() < .2: its.append([93, 93]); t += '\\]'
    return (neg, its, '[' + ('^' if neg else '') + t + ']')

def random_expr(rng, size):
    ast = []
    def put(**k): ast.append(dict({'l': 0, 'r': 0}, **k)); return len(ast)
    pool = [esc_leaf(rng) for _ in range(rng.randrange(1, 5))]
    def mk(n):
        if n <= 1:
            if rng.random() < .04: return put(o='eps')
            neg, its, txt = rng.choice(pool) if rng.random() < .8 else esc_leaf(rng)
            return put(o='chr', neg=neg, its=its, txt=txt)
        k = rng.random()
        if k < .3: l = mk(n - 1); return put(o=rng.choice(['star', 'plus', 'opt']), l=l)
        m = rng.randrange(1, n) if n > 2 else 1
        l = mk(m); r = mk(max(1, n - 1 - m)); return put(o='cat' if k < .7 else 'alt', l=l, r=r)
    mk(size); return ast

def spell(ast, n, ctx):
    x = ast[n - 1]; o = x['o']
    if o == 'chr': t = x['txt']
    elif o == 'eps': t = '()'
    elif o == 'cat': t = spell(ast, x['l'], 1) + spell(ast, x['r'], 1)
    elif o == 'alt': t = spell(ast, x['l'], 2) + '|' + spell(ast, x['r'], 3)
    else: t = spell(ast, x['l'], 4) + QUANT[o][0] + x['q']
    need = {'chr': 9, 'eps': 9, 'cat': 1, 'alt': 2}.get(o, 3)
    return '(' + t + ')' if ctx > need or x['g'] else t

def cp(s): return [ord(c) for c in s]

def derive(rng, ast, n, depth=0):
    """A string the expression matches (loops up to three times)."""
    x = ast[n - 1]; o = x['o']
    if o == 'eps': return []
    if o == 'chr':
        ok = [c for c in range(1 if x['neg'] else 0, 255) if any(a <= c <= b for a, b in x['its']) != x['neg']]
        return [rng.choice([ok[0], ok[-1], rng.choice(ok)])] if ok else [1]
    if o == 'cat': return derive(rng, ast, x['l']) + derive(rng, ast, x['r'])
    if o == 'alt': return derive(rng, ast, x['l'] if rng.random() < .5 else x['r'])
    k = {'opt': (0, 1), 'star': (0, 3), 'plus': (1, 3)}[o]
    return [c for _ in range(rng.randint(*k)) for c in derive(rng, ast, x['l'])]

def regex_case(rng, ast, plain):
    for x in ast:
        x['g'] = (not plain) and rng.random() < .1
        x['q'] = '' if plain or rng.random() < .5 or x['o'] not in QUANT else rng.choice(QUANT[x['o']][1])
    text = spell(ast, len(ast), 1)
    close = rng.choice(['', '/']) if not plain else ''
    tail = rng.choice(['', 'a', ' ;']) if close else ''
    strs = [[]]
    chars = [c for x in ast if x['o'] == 'chr' for i in x['its'] for c in (i[0], i[1], i[1] + 1) if c < 255] or [97]
    for k in range(2 if plain else 5):
        s = derive(rng, ast, len(ast))[:24]
        if k % 2:
            j = rng.randrange(len(s) + 1); m = rng.random()
            s = s[:j] + ([rng.choice(chars)] if m < .7 else []) + s[j + (m > .35):]
        strs.append(s)
    full = text + close + tail
    rec = {'ast': [{'o': x['o'], 'l': x['l'], 'r': x['r'], 'neg': x.get('neg', False), 'its': x.get('its', []), 'txt': cp(x.get('txt', '')), 'q': cp(x['q']), 'g': x['g']} for x in ast],
           'text': cp(full), 'close': len(close), 'tail': len(tail), 'strs': strs}
    cmd = '%d %s %d %s' % (len(full), ' '.join(map(str, rec['text'])), len(strs), ' '.join('%d %s' % (len(s), ' '.join(map(str, s))) for s in strs))
    return rec, cmd

def automata(pid, cmd, mode, aspects):
    chk = Check(pid, 'model_checking')
    rng = random.Random('regex-%d' % SEED)
    h = harness()
    exprs, gst = spec_exprs(6 if THOROUGH else 5)
    cases = [regex_case(rng, e, True) for e in exprs]
    cases += [regex_case(rng, random_expr(rng, rng.randrange(2, 16)), False) for _ in range(6000 if THOROUGH else 900)]
    out = drive(h, [cmd + ' ' + c[1] for c in cases])
    recs = []
    for (r, c), o in zip(cases, out):
        x = dict(r); x.update(o); recs.append(x)
    viol, st, gen = judge('Regex', recs, heap='3g', env={'MODE': mode}, consts='POSTCONDITION Ended\n', timeout=850)
    seen = set()
    for i, aspect, _ in viol:
        if aspect == 'spell': raise ToolError('spelling of the generator and of the specification differ: %s' % recs[i]['text'])
        if aspect not in aspects: continue
        if aspect == 'crash' and mode == 'dfa' and drive(h, ['RN ' + cases[i][1]])[0].get('k') == 'crash': continue   # the expression's own automaton: C09
        if (i, aspect) in seen: continue
        seen.add((i, aspect))
        t = ''.join(map(chr, recs[i]['text']))
        chk.violation(aspect, '%s for the expression %r %s' % (aspect, t, recs[i].get('why', '')), {'command': cmd + ' ' + cases[i][1], 'record': {k: v for k, v in recs[i].items() if k != 'ast'}})
        if len(seen) > 30: break
    chk.coverage.update(cases=len(recs), states=st + gst, transitions=gen, traces_validated_against_impl=len(recs), exhaustive_expressions=len(exprs), random_expressions=len(recs) - len(exprs),
                        rule='every expression of up to %d nodes over a, b, [^a] and the empty group, and random larger ones with classes, escapes, dot, redundant groups and all quantifier spellings; the product of the positions and the automata is explored over every string' % (6 if THOROUGH else 5))
    chk.sample({'expression': ''.join(map(chr, recs[len(exprs) // 2]['text']))})
    for r in recs[-3:]: chk.sample({'expression': ''.join(map(chr, r['text'])), 'strings': r['strs'], 'runs': r.get('runs')})
    chk.assumptions += ['the spelling ?+ (read as ? followed by a literal +), the empty class [] and unbalanced closing parentheses are left out', 'characters are bytes 0..254, the top one is reserved']
    return chk.finish()

def c09(): return automata('C09', 'RN', 'nfa', {'crash', 'read', 'language', 'simulation'})
def c10(): return automata('C10', 'RD', 'dfa', {'crash', 'deterministic', 'determinised', 'minimised', 'run'})
