"""C06: the Python package, its library and its processes (Callbacks.tla)."""
import json, os, random, signal, subprocess, sys, threading
from common import *
from grammar import *
from gen import gen_harness, cmd, cp, FIXED, structured, layered
from context import TREES, big_inputs
from life import clean_names

def library():
    """libpycentaurus.so, with the stand-in for asmjit, in a directory of its own."""
    d = os.path.join(scratch(), 'pylib'); os.makedirs(d, exist_ok=True)
    flags = ['g++', *CXXFLAGS, '-O1', '-DNDEBUG', '-msse4.2', '-fPIC', '-fvisibility=hidden', '-I' + os.path.join(VERIF, 'harness'), '-c']
    src = [os.path.join(REPO, 'src/core', f) for f in CORE_SRC + ['CodeGenEM64T.cpp']] + [os.path.join(REPO, 'src/pydll/PyCentaurus.cpp'), os.path.join(VERIF, 'harness', 'py_knob.cpp')]
    js = [(os.path.join(d, os.path.basename(f)[:-4] + '.o'), flags + [f, '-o', os.path.join(d, os.path.basename(f)[:-4] + '.o')]) for f in src]
    compile_all(js)
    so = os.path.join(d, 'libpycentaurus.so')
    compile_all([(so, ['g++', '-shared', *[o for o, _ in js], '-o', so, '-lpthread', '-lrt'])])
    return d

def drive_python(lib, cases, limit, jobs):
    """Runs cases through drivers side by side; what a driver leaves behind is ended with it.  A driver that dies or hangs is not restarted."""
    env = dict(os.environ, LC_ALL='C', CENTAURUS_DL_PATH=lib, PYTHONDONTWRITEBYTECODE='1')
    out = [None] * len(cases)
    def one(k):
        mine = list(range(k, len(cases), jobs))
        if not mine: return
        tmp = os.path.join(scratch(), 'py%d' % k); os.makedirs(tmp, exist_ok=True)
        err = open(os.path.join(tmp, 'err'), 'wb')
        p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'harness', 'py_driver.py'), os.path.join(REPO, 'src/python'), tmp], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=env, start_new_session=True)
        def feed():
            try:
                for i in mine: p.stdin.write((json.dumps(cases[i]) + '\n').encode()); p.stdin.flush()
                p.stdin.close()
            except OSError: pass
        threading.Thread(target=feed, daemon=True).start()
        n, dog = 0, None
        while n < len(mine):
            dog = threading.Timer(limit, lambda: os.killpg(p.pid, signal.SIGKILL)); dog.start()
            line = p.stdout.readline(); late = not dog.is_alive(); dog.cancel()
            if not line: break
            out[mine[n]] = json.loads(line); n += 1
        if n == len(mine): p.wait(timeout=60)
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait(); err.close()
        if n < len(mine):
            e = open(os.path.join(tmp, 'err'), errors='replace').read().strip().split('\n')[-1]
            out[mine[n]] = {'k': 'crash', 'why': 'no answer' if late else 'driver ended: %s %s' % (p.returncode, e[:200])}
        clean_names()
    ts = [threading.Thread(target=one, args=(k,)) for k in range(jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
    return out

def c06():
    chk = Check('C06', 'model_checking')
    rng = random.Random('C06-%d' % SEED)
    h = gen_harness(); lib = library()
    # grammars, and inputs derived from them; what the marker streams of the inputs are is decided by C18
    K = 8 if THOROUGH else 1
    gs = [(t, [s for s in ins if len(s) < 400 and rng.random() < .4] + [big_inputs(rng, k, m) for m in [12, 30, 80, 200, 600]], 3, 150) for _ in range(8 * K) for k, (t, ins) in enumerate(TREES)] + [(t, [s for s in ins if len(s) < 400], 3, 40) for t, ins in FIXED if len(t) < 300 and (K > 1 or ':' in t.split(';', 1)[1])]
    gs += [(layered(rng)[0][1] if k % 4 == 0 else structured(rng), [], 6, rng.choice([12, 40, 100, 200])) for k in range(120 * K)]
    # long flat inputs fill pages with values
    gs += [(TREES[1][0], ['a' * n + '.', 'ab' * n + '.'], 0, 10) for n in (150, 300, 500, 700)]
    recs = drive(h, [cmd('u', t, 4096, made, rng.randrange(10 ** 6), most, [(cp(s), 40) for s in ins]) for t, ins, made, most in gs], timeout=600)
    
    cases, use = [], []
    for (text, _, _, _), r in zip(gs, recs):
        if r['k'] != 'gen' or not r['ok']: continue
        runs = [x for x in r['runs'] if len(x['in']) < 2500 and (x['end'] >= 0 or rng.random() < .5)]
        names = [(''.join(map(chr, x['name'])), x['num']) for x in r['rules']]
        if not runs or any(not n.isascii() for n, _ in names): continue
        named = [x for x in names if rng.random() < rng.choice([.5, .9, 1])]
        if rng.random() < .3: named = names
        default = len(named) < len(names) or rng.random() < .5
        # rounds of start and stop, several inputs each
        runs = [rng.choice(runs) for _ in range(2)] + runs if len(runs) > 2 else runs
        rng.shuffle(runs); rounds, k = [], 0
        while k < len(runs): m = rng.choice([1, 2, 4, 6]); rounds.append((rng.choice([1, 1, 2, 3, 4]), runs[k:k + m])); k += m
        cases.append({'grammar': cp(text), 'page': rng.choice([16, 24, 32, 40, 64, 128, 256, 512, 1024, 0] if len(runs) > 2 else [512, 1024, 1032]), 'seed': rng.randrange(5), 'slow': rng.choice([0, 0, 2, 3]), 'missing': rng.random() < .15, 'named': [n for n, _ in named], 'default': default,
                      'names': [n for n, _ in names], 'unhandled': rng.choice(names)[0] if rng.random() < .1 else '', 'raising': rng.choice([2, 5, 11, 23, 60]) if rng.random() < .2 else 0, 'unsendable': rng.choice([2, 5, 11, 23, 60]) if rng.random() < .15 else 0,
                      'rounds': [[w, [x['in'] for x in xs]] for w, xs in rounds]})
        use.append((text, dict(names), [k for _, k in named], [(w, x) for w, xs in rounds for x in xs]))
    out = drive_python(lib, cases, 60, max(2, JOBS // 2))
    judged, of = [], []
    for c, u, o in zip(cases, use, out):
        if o is None: continue
        text, num, named, runs = u
        rec = {'k': o['k'], 'why': o.get('why', ''), 'left': o.get('left', 0), 'died': o.get('died', 0), 'missing': o.get('missing', True), 'big': False, 'attached': list(num.values()), 'named': named, 'raising': c['raising'], 'unsendable': c['unsendable'], 'runs': []}
        for (w, x), y in zip(runs, o.get('runs', [])):
            for q in y['calls']: q['by'] = num.get(q.pop('who'), 0)
            rec['runs'].append(dict(x, workers=w, seed=c['seed'], calls=y['calls'], result=y['result'], raised=y['raised'])); rec['runs'][-1].pop('chase', None)
        judged.append(rec); of.append((c, u))
    viol, st, gen = judge('Callbacks', judged, heap='3g', timeout=600)
    for ix, aspect, rest in viol:
        r, (c, u) = judged[ix], of[ix]; j = int(rest.split(',')[0]) if rest else 0
        x = r['runs'][j - 1] if 0 < j <= len(r['runs']) else {}
        chk.violation(aspect, '%s (run, call: %s) of %r on %r, pages of %d bytes, %s workers, handlers %s: %s' % (aspect, rest, u[0], ''.join(map(chr, x.get('in', []))), c['page'], x.get('workers'), c['named'], r['why']), {'text': u[0], 'case': c, 'run': x})
    # reading grammars through the package: the texts of C17
    rd = [c for c in texts(random.Random('C06-read-%d' % SEED)) if not any('\0' in t for _, t in c)]; rng.shuffle(rd); rd = rd[:3000 if THOROUGH else 400] + [[('top.cgr', t)] for t in ('S: T;', "S: 'a' T{1}; T: U*;")]
    enc = [{'files': [(cp(n), cp(t)) for n, t in c]} for c in rd]
    read, kept = [], []
    for c, o in zip(enc, drive_python(lib, enc, 30, JOBS)):
        if o is None: continue
        read.append({'files': [{'name': n, 'text': t} for n, t in c['files']], **o}); kept.append(o)
    more, st2, gen2 = judge('GrammarRead', read, heap='3g'); st += st2; gen += gen2
    for ix, aspect, _ in more:
        if aspect != 'line': chk.violation('read-' + aspect, '%s a grammar from Python: %r %s' % (aspect, show(read[ix]), read[ix].get('why', '')), {'files': show(read[ix]), 'record': kept[ix]})
    for r in read[-2:]:
        if r.get('parser') is not False: chk.violation('undefined', 'a parser of a grammar that uses a rule without a definition: %r %s' % (show(r), r.get('why', '')), {'files': show(r), 'record': r})
    runs = [x for r in judged for x in r['runs']]
    chk.coverage.update(cases=len(judged), inputs=len(runs), accepted=sum(x['end'] >= 0 for x in runs), read=len(read), missing=sum(c['missing'] for c, _ in of), unhandled=sum(c['unhandled'] != '' for c, _ in of), raised=sum(x['raised'] for x in runs), after_raised=sum(a['raised'] and not b['raised'] for r in judged for a, b in zip(r['runs'], r['runs'][1:])), calls=sum(len(x['calls']) for x in runs), values=sum(len(k['v']) for x in runs for k in x['calls']), returned=sum(x['result'] != 0 for x in runs),
                        rounds=sum(len(c['rounds']) for c, _ in of), states=st, transitions=gen, traces_validated_against_impl=len(runs),
                        rule='hand-written and random grammars with inputs derived from them and damaged; 1 to 4 worker processes, pages of 2 to 32 markers and of 8 MB, random sets of rules with handlers of their own, handlers that return nothing or values that are false, that raise or return what cannot be sent, handlers that take their time; several parses and several rounds of start and stop for each context')
    for r, (c, u) in list(zip(judged, of))[:40:8]: chk.sample({'grammar': u[0][:200], 'handlers': c['named'], 'inputs': [''.join(map(chr, x['in'])) for x in r['runs']][:3]})
    chk.assumptions += ['machine code through the stand-in for asmjit, as C18', 'the marker stream of an input is decided by C18', 'the Linux branch of the package, processes started by fork', 'the C locale: which characters beyond ASCII names may have is up to the locale']
    return chk.finish()
