"""C01-C05, C08: the stage runners under a controlled scheduler, monitored by RunnerTrace.tla."""
import hashlib, json, os, random, re, sys
from common import *

WRAPS = 'pthread_create pthread_join sem_open sem_close sem_unlink sem_post sem_wait sem_trywait sem_timedwait sched_yield usleep nanosleep shm_open shm_unlink mmap mmap64'.split()
VARIANTS = {'NR': [], 'PY': ['-DPYCENTAURUS=1'], 'LEGACY': ['-DHARNESS_LEGACY']}
NAMES = ['free', 'filling', 'filled', 'reducing', 'reduced', 'merging', 'done']
ASPECTS = {                      # which broken obligation breaks which property
    'C01': {'cycle', 'hold'},
    'C02': {'order', 'cycle', 'number'},
    'C03': {'stuck', 'exit', 'early', 'crash'},
    'C04': {'reduce', 'crash'},
    'C05': {'place', 'announce', 'number', 'counter'},
    'C08': {'dry', 'capture', 'stuck', 'exit', 'crash', 'cycle'},
}

def build(variants):
    jobs = [(os.path.join(scratch(), 'pipe_' + v),
             ['g++', *CXXFLAGS, '-O1', '-DNDEBUG', *VARIANTS[v], os.path.join(VERIF, 'harness', 'pipe_harness.cpp'), '-o', os.path.join(scratch(), 'pipe_' + v),
              *['-Wl,--wrap=' + w for w in WRAPS], '-lpthread', '-lrt']) for v in variants]
    return dict(zip(variants, compile_all(jobs)))

# --------------------------------------------------------------- scenarios
def tree_stream(rng, nodes, shape):
    """Markers of a random tree: [(k, id, off)], triples (id, start, end) distinct."""
    kids = {0: []}
    for i in range(1, nodes):
        if shape == 'chain': p = i - 1
        elif shape == 'flat': p = 0
        elif shape == 'comb': p = i - 1 if i % 2 else max(0, i - 2)
        elif shape == 'deep': p = max(0, i - 1 - (rng.random() < .3) * rng.randrange(1, 4))
        else: p = rng.randrange(i)
        kids.setdefault(p, []).append(i); kids.setdefault(i, [])
    ids = [rng.choice([1, 2, 3, 4, 5, 32767]) for _ in range(nodes)]
    out, off = [], rng.choice([0, 0, 1, 7, 4094, 2**31 - 3, 2**32 - 2, 2**47])
    seen = set()
    stack = [(0, None)]
    out.append(['S', ids[0], off]); starts = {0: off}
    work = [(0, iter(kids[0]))]
    while work:
        n, it = work[-1]
        c = next(it, None)
        off += rng.choice([0, 0, 1, 1, 2, 5, 300])
        if c is None:
            while (ids[n], starts[n], off) in seen: off += 1
            seen.add((ids[n], starts[n], off)); out.append(['E', ids[n], off]); work.pop()
        else:
            starts[c] = off; out.append(['S', ids[c], off]); work.append((c, iter(kids[c])))
    return out

def cut(rng, stream, words, mode):
    pages, i = [], 0
    while i < len(stream):
        n = words if mode == 'full' else rng.randrange(1, words + 1)
        pages.append(stream[i:i + n]); i += n
    return pages

def scenario(rng, variant, touch=False, dry=False, capture=None, maxpages=7, maxnodes=14, workers=None):
    while True:
        words = rng.choice([2, 3, 4, 5, 6, 8, 12, 16])
        if variant == 'LEGACY' and words < 4: continue
        nodes = rng.choice([1, 2, 3, 5, 8, maxnodes])
        st = tree_stream(rng, rng.randrange(1, nodes + 1), rng.choice(['rand', 'chain', 'flat', 'deep', 'comb']))
        mode = 'full' if variant == 'LEGACY' or rng.random() < .5 else 'any'
        pages = cut(rng, st, words, mode)
        if len(pages) <= maxpages and (len(pages) > 1 or rng.random() < .3): break
    B = rng.choice([1, 2, 2, 3, 3, 4]); W = workers or max(rng.randrange(1, min(3, B) + 1), rng.randrange(1, min(3, B) + 1))
    if W > B: B = W
    return dict(variant=variant, W=0 if dry else W, B=B, bytes=4096 if touch else words * 8, dry=int(dry),
                capture=int(rng.random() < .5 if capture is None else capture), touch=int(touch),
                xfer=int(variant == 'PY' or (variant == 'NR' and rng.random() < .7) or (variant == 'LEGACY' and rng.random() < .7)), counter=int(rng.random() < .7),
                valseed=rng.randrange(1 << 30), zeropct=rng.choice([0, 20, 20, 60, 100]), prefill=int(rng.random() < .7), pages=pages)

def script(s, scheds):
    a = ['scenario %d %d %d %d %d %d %d %d %d %d %d %d' % (s['W'], s['B'], s['bytes'], s['dry'], s['capture'], s['touch'], s['xfer'], s['counter'], s['valseed'], s['zeropct'], s['prefill'], len(s['pages']))]
    for p in s['pages']: a.append('page %d ' % len(p) + ' '.join('%s %d %d' % tuple(m) for m in p))
    return '\n'.join(a + scheds) + '\n'

def scen_line(s):
    return {'e': 'scenario', 'variant': s['variant'], 'B': s['B'], 'W': s['W'], 'dry': bool(s['dry']), 'xfer': bool(s['xfer']), 'zeros': s['variant'] == 'LEGACY',
            'words': s['bytes'] // 8, 'pages': [[[m[0], m[1], str(m[2])] for m in p] for p in s['pages']]}

def execute(bins, s, scheds, timeout=600):
    return execute_many(bins, s['variant'], [(s, scheds)], timeout)[0]

def execute_many(bins, variant, batch, timeout=600):
    """Runs scenarios [(scenario, schedules)]; returns per scenario [(run description, events, decisions)]."""
    r = run([bins[variant]], input=''.join(script(s, sc) for s, sc in batch).encode(), timeout=timeout)
    if r.returncode != 0: raise ToolError('harness: rc %d %s' % (r.returncode, r.stderr.decode(errors='replace')[:500]))
    out, cur, names = [], None, {}
    for line in r.stdout.decode(errors='replace').split('\n'):
        if not line: continue
        try: e = json.loads(line)
        except ValueError: raise ToolError('harness output: ' + line[:200])
        k = e['e']
        if k == 'scenario': runs = []; out.append(runs)
        elif k == 'run': cur = [e, [], 0]; runs.append(cur)
        elif k == 'states': names = {v: NAMES[i] for i, v in enumerate(e['v'])}
        elif k == 'st':
            if e['t'] < 0: continue
            if e['o'] == e['n']: continue
            cur[1].append({'e': 'st', 't': e['t'], 'b': e['b'], 'o': names.get(e['o'], '?'), 'n': names.get(e['n'], '?')})
        elif k == 'feed': cur[1].append({'e': 'feed', 't': 0, 'p': e['p'], 'aligned': bool(e['aligned'])})
        elif k == 'died': cur[1].append({'e': 'crash', 'why': 'died %d' % e['st']})
        elif k == 'meta': cur[2] = e['decisions']
        elif k in ('xfer', 'red', 'touch', 'exit', 'chunks', 'counter', 'end', 'stuck', 'crash'): cur[1].append(e)
        elif k == 'chunk': cur[1].append({'e': 'chunk', 'k': e['k'], 'size': e['size'], 'w': e['w']})
    return [[(r[0], r[1], r[2]) for r in runs] for runs in out]

# ----------------------------------------------------------------- monitor
def monitor(groups):
    """groups: [(scenario, [(desc, events)])].  Returns [(scenario, desc, events, aspect, event)], lines, states."""
    chunks, cur, n = [], [], 0
    limit = 15000
    for s, runs in groups:
        i = 0
        while i < len(runs):
            part = []
            m = 0
            while i < len(runs) and (m < limit - n or not part): part.append(runs[i]); m += len(runs[i][1]) + 1; i += 1
            cur.append((s, part)); n += m + 1
            if n >= limit: chunks.append(cur); cur, n = [], 0
    if cur: chunks.append(cur)
    def one(ix):
        path = os.path.join(scratch(), 'trace_%d_%d.ndjson' % (os.getpid(), id(chunks[ix]))); index = []
        with open(path, 'w') as f:
            def put(o, ref): f.write(json.dumps(o) + '\n'); index.append(ref)
            for s, runs in chunks[ix]:
                put(scen_line(s), None)
                for k, r in enumerate(runs):
                    put({'e': 'run', 'n': k}, None)
                    for e in r[1]: put(e, (s, r[0], r[1], e))
        res = tlc('RunnerTrace', 'RunnerTrace.cfg', env={'TRACE': path}, heap='3g')
        os.unlink(path)
        if not (res.ok and '"TRACE-END"' in res.out): raise ToolError('trace monitor: ' + (res.error or res.out)[-3000:])
        v = []
        for m in re.finditer(r'<<"VIOL", "(\w+)", (-?\d+), (\d+)>>', res.out):
            s, d, ev, e = index[int(m.group(3)) - 1]; v.append((s, d, ev, m.group(1), e))
        return v, len(index), res.distinct
    out = parallel(one, range(len(chunks)))
    return [x for o in out for x in o[0]], sum(o[1] for o in out), sum(o[2] for o in out)

def sched_again(d):
    if d['kind'] == 1: return ['random 1 %d %d' % (d['seed'], d['param'])]
    if d['kind'] == 3: return ['pcs 1 %d %d' % (d['seed'], d['param'])]
    if d['kind'] == 2: return ['pct 1 %d %d' % (d['seed'], d['param'])]
    return ['over %d ' % len(d['over']) + ' '.join('%d %d' % tuple(o) for o in d['over'])]

def report(chk, bins, viols):
    want = ASPECTS[chk.pid]
    byrun = {}
    for v in viols:
        if v[3] in want: byrun.setdefault((id(v[0]), json.dumps(v[1], sort_keys=True)), v)
    for v in list(byrun.values())[:12]:
        s, d, ev, aspect, e = v
        again = execute(bins, s, sched_again(d))
        vv, _, _ = monitor([(s, again)])
        if not any(x[3] in want for x in vv): raise ToolError('a rejected execution could not be repeated: %s' % d)
        chk.violation('%s-%s' % (s['variant'], aspect), 'the recorded execution breaks obligation "%s" at event %s' % (aspect, json.dumps(e)),
                      {'scenario': s, 'schedule': sched_again(d), 'event': e, 'trace': ev[:400]})

def spec_cases(nodes):
    """Complete behaviours of Reduction.tla: pages of markers and the occurrences without a value."""
    r = tlc('Reduction', None, cfgtext='CONSTANTS MaxNodes = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % nodes, heap='6g', timeout=1200)
    if not r.ok: raise ToolError('Reduction.tla: ' + r.error)
    return [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'<<"CASE", "(.*)">>', r.out)]

def case_scenarios(c, rng):
    """A specification behaviour as scenarios for the runners."""
    pages, off = [], rng.choice([0, 1, 2**32 - 3])
    zero = set(c['z'])
    for p in c['p']:
        q = []
        for k, n in p:
            off += 1; q.append([k, (1000 if n in zero else 0) + n, off])
        pages.append(q)
    out = []
    for v in ('NR', 'PY', 'LEGACY'):
        words = max(len(p) for p in pages)
        if v == 'LEGACY' and (words < 2 or any(len(p) < words for p in pages[:-1])): continue
        B = 1 + (len(pages) > 1)
        out.append(dict(variant=v, W=1, B=B, bytes=8 * words, dry=0, capture=0, touch=0, xfer=int(v == 'PY'), counter=1, valseed=1, zeropct=-1, prefill=1, pages=pages))
    return out

def replay_cases(chk, bins, cases, rng):
    scens = [s for c in cases for s in case_scenarios(c, rng)]
    batches = {}
    for s in scens: batches.setdefault(s['variant'], []).append(s)
    work = [(v, b[i:i + 200]) for v, b in batches.items() for i in range(0, len(b), 200)]
    def sched(s): return ['over 0'] if len(s['pages']) < 3 else ['random 1 %d 0' % (len(s['pages']) * 7 + s['pages'][0][0][2])]
    res = parallel(lambda w: execute_many(bins, w[0], [(s, sched(s)) for s in w[1]]), work)
    groups = [(s, r) for w, rs in zip(work, res) for s, r in zip(w[1], rs)]
    viols, lines, states = monitor(groups)
    report(chk, bins, viols)
    n = sum(len(r) for _, r in groups)
    for k, x in (('executions', n), ('traces_validated_against_impl', n), ('trace_events', lines), ('states', states), ('transitions', states), ('spec_behaviours_replayed', len(cases))): chk.count(k, x)

def reduction(chk, bins, quick_extra):
    """Model check Reduction.tla and run its behaviours on the real runners."""
    rng = random.Random('red%s-%d' % (chk.pid, SEED))
    c = 'Reduction_t.cfg' if THOROUGH else 'Reduction.cfg'
    r = require_model('Reduction', c, 'reduction of a paged marker stream', workers=JOBS, heap='6g', timeout=3000)
    chk.count('states', r.distinct); chk.count('transitions', r.generated); chk.coverage['model_Reduction'] = r.distinct
    small, big = spec_cases(3), spec_cases(4)
    cases = big if THOROUGH else small + rng.sample(big, min(quick_extra, len(big)))
    replay_cases(chk, bins, cases, rng)

def check(pid, variants, gen, nscen, per, level='model_checking', model=True):
    """gen(rng, i) -> scenario; per(rng, s) -> schedule commands."""
    chk = Check(pid, level)
    rng = random.Random('%s-%d' % (pid, SEED))
    bins = build(variants)
    scens = [gen(rng, i) for i in range(nscen)]
    scheds = [per(rng, s) for s in scens]
    results = parallel(lambda i: execute(bins, scens[i], scheds[i]), range(nscen))
    groups, total, distinct, seen = [], 0, 0, set()
    lens = []
    for s, runs in zip(scens, results):
        keep = []
        for r in runs:
            total += 1
            h = hashlib.md5(json.dumps([scen_line(s), r[1]]).encode()).digest()
            if h in seen: continue
            seen.add(h); keep.append(r); lens.append(len(r[1]))
        distinct += len(keep); groups.append((s, keep))
    viols, lines, states = monitor(groups)
    report(chk, bins, viols)
    chk.bins = bins
    chk.coverage.update(executions=total, traces_validated_against_impl=distinct, trace_events=lines, scenarios=nscen, states=states, transitions=states)
    chk.coverage['rule'] = 'random marker trees cut into pages, run on the real stage runners under random, priority-based and single/double-preemption schedules; identical executions are dropped before the monitor'
    for s, runs in groups[:3]:
        if runs: chk.sample({'scenario': {k: v for k, v in s.items()}, 'schedule': sched_again(runs[-1][0]), 'events': runs[-1][1][:60]})
    if model:
        cfgs = [('Pipeline', 'Pipeline_safety_t.cfg' if THOROUGH else 'Pipeline_safety.cfg'), ('Pipeline', 'Pipeline_live_t.cfg' if THOROUGH else 'Pipeline_live.cfg'), ('Pages', 'Pages.cfg')]
        if pid != 'C03': cfgs = [x for x in cfgs if 'live' not in x[1]]
        for m, c in cfgs:
            r = require_model(m, c, 'page protocol', workers=JOBS, heap='6g', timeout=3000)
            chk.coverage['states'] += r.distinct; chk.coverage['transitions'] += r.generated
            chk.coverage['model_' + c.split('.')[0]] = r.distinct
    chk.assumptions += ['sequentially consistent interleaving of atomic accesses (x86 atomics, default memory order)', 'semaphores emulated as counters, shared memory by an anonymous file']
    return chk

def mixed(rng, s, n):
    nt = 1 if s['dry'] else s['W'] + 2
    sd = rng.randrange(1 << 30)
    k = max(1, n // 5)
    return ['random %d %d 0' % (k, sd), 'random %d %d 70' % (k, sd + 1000), 'random %d %d 92' % (k, sd + 2000), 'pct %d %d 4' % ((k + 1) // 2, sd + 3000), 'pcs %d %d 30' % ((k + 1) // 2, sd + 5000), 'pcs %d %d 70' % ((k + 1) // 2, sd + 6000), 'bound2 %d %d' % (k, sd + 4000)]

K = 6 if THOROUGH else 1

def c01():
    vs = ['NR', 'PY', 'LEGACY']
    def gen(rng, i): return scenario(rng, vs[i % 3], touch=i % 3 < 2 and i % 2 == 0, maxnodes=14 if i < 40 else 40)
    def per(rng, s): return mixed(rng, s, 20 * K) + (['bound1 %d %d' % (1 if THOROUGH else 15, rng.randrange(1 if THOROUGH else 15))])
    return check('C01', vs, gen, 160 * K, per).finish()
def c02():
    vs = ['NR', 'PY', 'LEGACY']
    def gen(rng, i):
        s = scenario(rng, vs[i % 3], maxpages=9)
        return s
    def per(rng, s): return mixed(rng, s, 24 * K) + (['bound1 %d %d' % (1 if THOROUGH else 12, rng.randrange(1 if THOROUGH else 12))])
    return check('C02', vs, gen, 110 * K, per).finish()
def c03():
    vs = ['NR', 'PY', 'LEGACY']
    def gen(rng, i): return scenario(rng, vs[i % 3], dry=i % 8 == 7)
    def per(rng, s): return mixed(rng, s, 24 * K) + (['bound1 %d %d' % (1 if THOROUGH else 12, rng.randrange(1 if THOROUGH else 12))])
    return check('C03', vs, gen, 110 * K, per).finish()
def c04():
    vs = ['NR', 'PY', 'LEGACY']
    def gen(rng, i): return scenario(rng, vs[i % 3], maxnodes=40, maxpages=12)
    def per(rng, s):
        sd = rng.randrange(1 << 30)
        return rng.sample(['random 1 %d 0' % sd, 'random 1 %d 92' % sd, 'pct 1 %d 4' % sd, 'bound2 1 %d' % sd], 2) + ['pcs 1 %d 30' % sd, 'pcs 2 %d 60' % (sd + 1)]
    chk = check('C04', vs, gen, 600 * K, per, model=False)
    reduction(chk, chk.bins, 1500)
    return chk.finish()
def c05():
    vs = ['NR', 'PY', 'LEGACY']
    def gen(rng, i): return scenario(rng, vs[i % 3], touch=i % 4 == 0, maxnodes=30, maxpages=10)
    def per(rng, s): return mixed(rng, s, 20 * K)
    chk = check('C05', vs, gen, 120 * K, per, model=False)
    reduction(chk, chk.bins, 500)
    return chk.finish()
def c08():
    def gen(rng, i): return scenario(rng, 'NR' if i % 2 else 'PY', dry=i % 3 != 0, capture=i % 5 != 1, maxpages=12, maxnodes=40)
    def per(rng, s): return mixed(rng, s, 10 if s['dry'] else 30 * K)
    return check('C08', ['NR', 'PY'], gen, 120 * K, per).finish()
