"""C22: the graphs the command-line tool draws and how it ends, judged by Graphs.tla."""
import os, random, re, shutil, tempfile
from common import *
from grammar import *

TOKEN = re.compile(r'\s*(?:(->)|([{}\[\];=,])|"((?:[^"\\]|\\.)*)"|([A-Za-z0-9_.\x80-\xff]+))', re.S)
WORDS = {'node', 'edge', 'graph', 'digraph', 'subgraph', 'strict'}
class Malformed(Exception): pass

def dot(text):
    """Parses one directed graph.  Returns nodes {name: (clusters, attributes)}, edges [(from, to, attributes)], clusters [(path of names, label)], in order."""
    toks, p = [], 0
    text = text.rstrip()
    while p < len(text):
        m = TOKEN.match(text, p)
        if not m: raise Malformed('at %r' % text[p:p + 20])
        p = m.end()
        toks.append(('op', m.group(1) or m.group(2)) if m.group(1) or m.group(2) else ('id', m.group(3)) if m.group(3) is not None else ('word', m.group(4)))
    pos = [0]
    def peek(): return toks[pos[0]] if pos[0] < len(toks) else ('end', '')
    def take(want=None):
        t = peek()
        if want is not None and t != ('op', want): raise Malformed('%r instead of %r' % (t[1], want))
        pos[0] += 1; return t
    def name():
        t = take()
        if t[0] not in ('id', 'word') or (t[0] == 'word' and t[1].lower() in WORDS): raise Malformed('%r instead of a name' % t[1])
        return t[1]
    def attrs():
        out = {}
        while peek() == ('op', '['):
            take()
            while peek() != ('op', ']'):
                k = name(); take('='); out[k] = name()
                if peek() in (('op', ','), ('op', ';')): take()
            take(']')
        return out
    nodes, edges, clusters = {}, [], []
    def body(path):
        take('{'); label = None
        while peek() != ('op', '}'):
            t = peek()
            if t[0] == 'end': raise Malformed('cut off')
            if t == ('op', ';'): take(); continue
            if t == ('word', 'subgraph'):
                take(); sub = name()
                if any(c[0][-1] == sub for c in clusters if c[0]): raise Malformed('two clusters named ' + sub)
                at = len(clusters); clusters.append(None); clusters[at] = (path + (sub,), None)
                clusters[at] = (path + (sub,), body(path + (sub,))); continue
            if t[0] == 'word' and t[1].lower() in ('node', 'edge', 'graph'): take(); attrs(); continue
            a = name()
            if peek() == ('op', '='):
                take(); v = name()
                if a == 'label': label = v
                continue
            if peek() == ('op', '->'):
                take(); b = name(); edges.append((a, b, attrs())); continue
            if a in nodes: raise Malformed('%s is declared twice' % a)
            nodes[a] = (path, attrs())
        take('}'); return label
    if take() != ('word', 'digraph'): raise Malformed('no digraph')
    title = name(); body(())
    if peek()[0] != 'end': raise Malformed('something after the graph')
    for a, b, _ in edges:
        for x in (a, b):
            if x not in nodes: raise Malformed('%s is never declared' % x)
    return title, nodes, edges, clusters

def codes(s): return [ord(c) for c in s]
BOX = re.compile(r'\[(\d+)\](.*)', re.S)

def graph(what, text):
    """The drawing as places: see Graphs.tla."""
    title, nodes, edges, clusters = dot(text)
    num = {}
    for path, label in clusters:
        m = BOX.fullmatch(label or '')
        if not m: raise Malformed('cluster labelled %r' % label)
        num[path[-1]] = int(m.group(1))
    deep = what.startswith('atn')
    where = {}
    for n, (path, at) in nodes.items():
        if deep:
            m = BOX.fullmatch(at.get('xlabel', '')) ; d = re.fullmatch(r'\d+', at.get('label', ''))
            if not m and not d: raise Malformed('node %s has no number' % n)
            where[n] = [num[c] for c in path[1:]] + [int(m.group(1) if m else d.group(0))]
        else:
            m = re.fullmatch(r'(\D*?)(\d*)', n)
            if not m: raise Malformed('node %s has no number' % n)
            where[n] = [-1] if not m.group(2) else [-1, int(m.group(2))] if m.group(1) == 'A' else [int(m.group(2))]
    def wide(at): return 'penwidth' in at
    return {'title': codes(title),
            'nodes': [{'at': where[n], 'lab': codes(at.get('label', '')), 'dbl': at.get('shape') == 'doublecircle', 'thick': wide(at)} for n, (path, at) in nodes.items()],
            'edges': [{'from': where[a], 'to': where[b], 'lab': codes(at.get('label', '')), 'thick': wide(at)} for a, b, at in edges],
            'clusters': [{'at': [num[c] for c in path[1:]], 'lab': codes(label)} for path, label in clusters]}

def run_tool(tool, args, out=None, timeout=60):
    """Its exit code (None: it did not end), what it drew, what it said."""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1', UBSAN_OPTIONS='halt_on_error=1', LC_ALL='C')
    with tempfile.TemporaryFile(dir=scratch()) as fo, tempfile.TemporaryFile(dir=scratch()) as fe:
        try: rc = subprocess.run(['prlimit', '--fsize=20000000', tool] + (['-f', out] if out else []) + args, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, timeout=timeout, env=env).returncode
        except subprocess.TimeoutExpired: return None, '', 'timeout'
        fo.seek(0); fe.seek(0)
        text, err = fo.read().decode('latin-1'), fe.read(4000).decode('latin-1')
    if out and rc == 0:
        if text: return rc, None, 'something on the standard output too'
        if not os.path.exists(out): return rc, None, 'no file written'
        if os.path.isfile(out):
            with open(out, encoding='latin-1') as f: text = f.read()
    return rc, text, err

def spell(n): return ''.join(map(chr, n))

def asks_of(rng, r):
    """What to ask about a grammar: [(what, rule, node or depth, arguments)]."""
    out = [('verify', 0, 0, ['verify-grammar', '-g', 'G'])]
    rules = [spell(x['name']) for x in r.get('rules', [])]
    for d in {0, 1, 2, rng.randrange(3, 6)}:
        out.append(('atn', 1, d, ['generate-atn', '-g', 'G', '-d', str(d)]))
        out.append(('atnO', 1, d, ['generate-atn', '-g', 'G', '-d', str(d), '--optimize']))
    if not r.get('ok'): return [rng.choice(out), out[0], ('nfa', 1, 0, ['generate-nfa', '-g', 'G', '-p', 'S.0'])]
    for k, n in enumerate(rules):
        m = r['opt'][k]
        out.append(('catn', k + 1, 0, ['generate-catn', '-g', 'G', '-m', n]))
        for j in range(len(m)):
            w = ['-g', 'G', '-p', '%s.%d' % (n, j)]
            if m[j]['t'] == 're' or rng.random() < .15:
                out += [('nfa', k + 1, j, ['generate-nfa'] + w), ('dfa', k + 1, j, ['generate-dfa'] + w), ('dfaO', k + 1, j, ['generate-dfa'] + w + ['--optimize'])]
            if len(m[j]['tr']) > 1 or rng.random() < .1: out.append(('ldfa', k + 1, j, ['generate-ldfa'] + w))
        for j in (len(m), len(m) + 7, 1 << 31):
            if rng.random() < .3: out.append((rng.choice(['nfa', 'dfa', 'ldfa']), k + 1, j, None))
    out += [('catn', 0, 0, ['generate-catn', '-g', 'G', '-m', 'NoSuchRule']), ('nfa', 0, 0, ['generate-nfa', '-g', 'G', '-p', 'NoSuchRule.0'])]
    return [(w, r_, n, a or ['generate-' + w, '-g', 'G', '-p', '%s.%d' % (rules[r_ - 1], n)]) for w, r_, n, a in out]

def c22():
    chk = Check('C22', 'model_checking')
    rng = random.Random('C22-%d' % SEED)
    b = build_with_core([('grammar_harness', os.path.join(VERIF, 'harness', 'grammar_harness.cpp'), []), ('tool', os.path.join(REPO, 'src/tool/main.cpp'), ['-msse4.2', '-O0', '-g0', '-fno-sanitize=all', '-fsanitize=address'])], extra=SAN)
    tool = b['tool']
    os.environ['CENTAURUS_ALARM'] = '5'      # what takes longer to build is left out
    cases = [[('top.cgr', t)] for t in HAND + SPECIAL] + all_repo_grammars()
    for k in range(400 if THOROUGH else 110):
        c = grammar_files(rng, wild=False, depth=rng.choice([1, 1, 2]), ids=False)
        cases.append(c)
        if k % 9 == 0: cases.append([(c[0][0], c[0][1][:rng.randrange(len(c[0][1]))])] + c[1:])
    exprs = [e for e in REGEX + ['a b', '\\\\', '[ -~]', '[^ ]', '["\\\\]', '[\x80-\xa0]', '(a|b)++c', '[a-cx-z]*', '[\x01\x7f]'] if all(0 < ord(x) < 128 for x in e)]
    recs = read_all(b['grammar_harness'], 'oclvdO', cases)
    for r in recs:      # references to rules that are not there: C17's and C16's business
        names = [x['name'] for x in r.get('rules', [])]
        if any(n['t'] == 'ref' and n['name'] not in names for m in r.get('opt', []) for n in m): r['skip'] = True
    recs = [r for r in recs if not r.get('skip') and r.get('k') == 'grammar']
    top = tempfile.mkdtemp(dir=scratch())
    def one(kr):
        k, r = kr
        d = os.path.join(top, 'g%d' % k); os.makedirs(os.path.join(d, 'd', 'e'))
        for n, t in show(r):
            with open(os.path.join(d, n), 'wb') as f: f.write(t.encode('latin-1'))
        rr = random.Random('%s-%d' % (k, SEED)); r['asks'] = []
        asks = asks_of(rr, r)
        if len(asks) > 40 and not THOROUGH: asks = rr.sample(asks, 40)
        for what, ru, n, args in asks:
            args = [os.path.join(d, 'top.cgr') if a == 'G' else a for a in args]
            rc, text, err = run_tool(tool, args, os.path.join(d, 'out%d.dot' % len(r['asks'])) if rr.random() < .3 and what != 'verify' else None)
            answer(chk, r, what, ru, n, args, rc, text, err)
        shutil.rmtree(d, True)
        return r
    recs = parallel(one, enumerate(recs))
    # expressions given on the command line: the rule S : /e/ of one expression
    es = read_all(b['grammar_harness'], 'oclvdO', [[('top.cgr', 'S:/%s/;' % e)] for e in exprs])
    def expression(er):
        e, r = er; r['asks'] = []
        at = [k for m in r.get('opt', [])[:1] for k, n in enumerate(m) if n['t'] == 're']
        n = at[0] if at else 0
        for what, args in (('nfa', ['generate-nfa', '-e', e]), ('dfa', ['generate-dfa', '-e', e]), ('dfaO', ['generate-dfa', '-e', e, '--optimize'])):
            answer(chk, r, what, 1, n, args, *run_tool(tool, args))
        for bad in (e + ')', e + '/x', '(' + e, e + '|', e + '[a', ')' + e): answer(chk, r, 'bad', 0, 0, ['-e', bad], *run_tool(tool, [rng.choice(['generate-nfa', 'generate-dfa']), '-e', bad]))
        return r
    recs += [r for r in parallel(expression, zip(exprs, es)) if r.get('k') == 'grammar']
    # no file, no folder to write to, a full device, no command
    g = os.path.join(top, 'ok.cgr')
    with open(g, 'w') as f: f.write("S: 'a';")
    last = dict(recs[0]); last['asks'] = []; last['files'] = []
    for args, out in ((['verify-grammar', '-g', os.path.join(top, 'none.cgr')], None), (['generate-atn', '-g', os.path.join(top, 'none.cgr'), '-d', '1'], None), (['generate-catn', '-g', g, '-m', 'S'], os.path.join(top, 'none', 'x')),
                      (['generate-nfa', '-e', 'a'], '/dev/full'), (['generate-nfa', '-e', ''], None), ([], None), (['generate-everything'], None), (['generate-nfa'], None), (['generate-nfa', '-g', g, '-p', 'S'], None), (['generate-nfa', '-g', g, '-p', 'S.x'], None), (['generate-nfa', '-g', g, '-p', 'S.1x'], None)):
        rc, text, err = run_tool(tool, args, out)
        answer(chk, last, 'bad', 0, 0, (['-f', out] if out else []) + args, rc, text, err)
    recs.append(last)
    viol, st, gen = judge('Graphs', recs, heap='3g', timeout=800, consts='POSTCONDITION Ended\n')
    for i, aspect, rest in viol[:60]:
        k = int(rest or 0); a = recs[i]['asks'][k - 1] if k else {}
        chk.violation('%s-%s' % (aspect, a.get('what', '')), '%s: %s of %r (exit %s) %s' % (aspect, ' '.join(a.get('args', [])), show(recs[i]), a.get('rc'), a.get('why', '')), {'files': show(recs[i]), 'ask': a})
    asked = {}
    for r in recs:
        for a in r['asks']: asked[a['what']] = asked.get(a['what'], 0) + 1
    chk.coverage.update(cases=len(recs), asks=sum(asked.values()), states=st, transitions=gen, traces_validated_against_impl=sum(asked.values()), drawn=sum(1 for r in recs for a in r['asks'] if a['nodes']), refused=sum(1 for r in recs for a in r['asks'] if a['rc']),
                        nodes=sum(len(a['nodes']) for r in recs for a in r['asks']), edges=sum(len(a['edges']) for r in recs for a in r['asks']), **{'asked_' + k: v for k, v in asked.items()},
                        rule='the grammars of the repository, corner cases and random grammars: every rule, regular terminal and decision point, references unfolded to depths 0 to 5; expressions; everything that cannot be answered')
    for r in recs[5:len(recs):30]: chk.sample({'files': show(r), 'asks': [' '.join(a['args'][:1]) for a in r['asks']][:8]})
    chk.assumptions += ['drawings are compared as graphs: places, labels, accepting and long marks; not colours, layout or the text within states of determinised automata', 'no claim about the text of a literal in a network, nor about grammars that refer to rules that are not there', 'option -f comes first']
    return chk.finish()

SPECIAL = ["A: A1 A1 A1; A1: A11 | 'x'; A11: 'y' A11? ;", "A: B12 B12 B12 B12 B12 B12 B B B B B B B; B: 'x'; B12: 'y' B1; B1: 'z' /q+/;", "node: edge | 'x' graph; edge: /a+/; graph: /[\"\\\\]/ digraph?; digraph: 'y'|'z';",
           "S: /a++b/ | /(ab)*+c/ S;", "S: T U; T: /x/; U: T | 'u' S;", "S: S1 | S2 |> S3; S1: 'a' 'b'; S2: 'a' 'c' S4; S3: /[a-z]+/; S4: S1 S2 | /d/;", "S: /[ -~]/ | /[^a]/; ", "A: A_1 A_1_N0; A_1: /x/; A_1_N0: A_1 /y/;"]

def answer(chk, r, what, rule, n, args, rc, text, err):
    if rc is None: rc = -1
    a = {'what': what, 'r': rule, 'n': n if n < 1 << 31 else 2000000000, 'rc': rc, 'wellformed': True, 'nodes': [], 'edges': [], 'clusters': [], 'args': args, 'why': ''}
    if rc < 0 or 'ERROR: AddressSanitizer' in err or 'runtime error' in err: chk.violation('crash-%s' % what, 'signal %d: %s of %r: %s' % (-rc, ' '.join(args), show(r), err[-300:]), {'files': show(r), 'args': args})
    if rc == 0 and what not in ('verify', 'bad'):
        try:
            if text is None: raise Malformed(err)
            if len(text) > 3000000:
                if what.startswith('atn'): return      # unfolds into too much
                raise Malformed('endless')
            a.update(graph(what, text))
        except (Malformed, IndexError, KeyError) as e: a.update(wellformed=False, why=str(e))
    if rc > 0 and not err.strip(): a['rc'] = 0; a['why'] = 'not a word of explanation'
    r['asks'].append(a)
