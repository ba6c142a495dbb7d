"""C07: histories of runs on real shared memory, semaphores and threads (Life.tla)."""
import glob, os, random, re
from common import *
from pipe import tree_stream

def life_bins(variants=('NR', 'LEGACY')):
    src = os.path.join(VERIF, 'harness', 'life_harness.cpp')
    js = [(os.path.join(scratch(), 'life_' + v), ['g++', *CXXFLAGS, '-O1', '-DNDEBUG', *(['-DHARNESS_LEGACY=1'] if v == 'LEGACY' else []), src, '-o', os.path.join(scratch(), 'life_' + v), '-lpthread', '-lrt']) for v in variants]
    return dict(zip(variants, compile_all(js)))

def consts(w, runs, dry=()): return 'CONSTANTS W = %d\n Runs = %d\n Dry = {%s}\n' % (w, runs, ','.join(map(str, dry)))

def histories(w, runs, dry=(), num=0, seed=1):
    """Histories of the specification: all of them, or num random ones.  [[(op, run, runner)]]"""
    extra = ['-simulate', 'num=%d' % num, '-seed', str(seed), '-depth', '200'] if num else []
    r = tlc('LifeGen', None, extra=extra, cfgtext=consts(w, runs, dry) + 'SPECIFICATION GSpec\nINVARIANTS Clean Apart Repeatable Emit\nCHECK_DEADLOCK FALSE\n')
    out = [[(a, int(g), int(k)) for a, g, k in re.findall(r'<<"([csdw])", (\d+), (\d+)>>', m.group(1))] for m in re.finditer(r'<<\s*"HIST",\s*(<<.*?>>)\s*>>\n(?=[^ >])', r.out + '\nX', re.S)]
    if not out or 'Error' in r.out: raise ToolError('LifeGen: ' + (r.error or r.out)[-2000:])
    return out

def pages_of(rng, words, legacy):
    st = tree_stream(rng, rng.choice([1, 2, 3, 5, 9, 16]), rng.choice(['rand', 'chain', 'flat', 'deep', 'comb']))
    base = min(m[2] for m in st); st = [[m[0], m[1], m[2] - base] for m in st]
    out, i = [], 0
    while i < len(st):
        n = words if legacy or rng.random() < .5 else rng.randrange(1, words + 1)
        out.append(st[i:i + n]); i += n
    return out

def command(rng, h, w, runs, dry, legacy):
    ops = ' '.join('%s %d %d %d' % (o, g, k, rng.choice([0, 0, 0, 0, 1, 5])) for o, g, k in h)
    specs = []
    for g in range(1, runs + 1):
        words = rng.choice([4, 5, 8, 64]) if legacy else rng.choice([2, 3, 5, 8, 64]); pg = pages_of(rng, words, legacy)
        size = rng.choice([0, 1, 15, 100, 4032, 4080, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65536, 65537])
        specs.append('%d %d %d %d %d %d %d %d %s' % (w, rng.randrange(max(1, w), 2 * w + 3), words * 8, g in dry, rng.random() < .3, size, rng.randrange(1000), len(pg),
                                                      ' '.join('%d %s' % (len(p), ' '.join('%s %d %d' % tuple(m) for m in p)) for p in pg)))
    return '%d %s %d %s' % (len(h), ops, runs, ' '.join(specs))

def c07():
    pid = "C07"
    c = Check(pid, 'model_checking')
    rng = random.Random(SEED * 7919 + 7)
    bins = life_bins()
    # the specification alone
    model = [(2, 2, ()), (1, 3, (2,))] if not THOROUGH else [(3, 2, ()), (1, 3, ()), (2, 3, (2,))]
    for w, n, d in model:
        r = require_model('Life', None, 'life of %d runs' % n, cfgtext=consts(w, n, d) + 'INIT LInit\nNEXT LNext\nINVARIANTS Clean Apart Repeatable\nCHECK_DEADLOCK FALSE\n', workers=JOBS)
        c.count('model_states', r.distinct)
    K = 8 if THOROUGH else 1
    groups = [(1, 1, (), 0), (1, 1, (1,), 0), (2, 2, (), 400 * K), (1, 2, (), 400 * K), (1, 2, (2,), 200 * K), (1, 3, (), 200 * K), (3, 1, (), 300 * K), (4, 2, (1,), 150 * K)]
    hs = dict(zip(groups, parallel(lambda g: histories(*g, seed=rng_seed(g)), groups)))
    for g in groups:
        w, runs, dry, num = g
        todo = [h for h in hs[g] if len(h) > 2 or rng.random() < .02]
        for v in ('NR', 'LEGACY'):
            mine = list(todo)
            if v == 'LEGACY': mine = [h for h in mine if rng.random() < (.6 if THOROUGH else .25)]
            if not THOROUGH and num == 0 and v == 'NR': pass
            rng.shuffle(mine)
            if not mine: continue
            cmds = [command(rng, h, w, runs, dry, v == 'LEGACY') for h in mine]
            # one process per core, histories one after the other
            recs = drive(bins[v], cmds, timeout=800)
            clean_names()
            for r in recs:
                if r['k'] != 'life': r['ops'] = []; r['runs'] = []
            viol, st, gen = judge('LifeTrace', recs, consts=consts(w, runs, dry), heap='2g')
            for ix, aspect, rest in viol:
                c.violation('%s:%s' % (v.lower(), aspect), '%s runners, history %s: %s %s' % (v, ' '.join('%s%d.%d' % o for o in mine[ix]), aspect, recs[ix].get('why', '')), {'variant': v, 'command': cmds[ix], 'record': recs[ix]})
            c.count('histories', len(mine)); c.count('calls', sum(len(h) for h in mine)); c.count('trace_states', st)
            c.count('complete_runs', sum(1 for h in mine for o in h if o[0] == 'w' and o[2] == 0))
            if len(mine) > 3: c.sample(' '.join('%s%d.%d' % o for o in max(mine[:5], key=len)))
    c.assumptions += ['runs of one process follow each other: a parser runner is constructed after the previous one was destroyed', 'Linux branch of the runners']
    return c.finish()

def rng_seed(g): return SEED * 1000 + g[0] * 100 + g[1] * 10 + len(g[2])

def clean_names():
    """Names left behind by processes that are no more (of a crashed harness)."""
    for f in glob.glob('/dev/shm/*{57DF45C9-6D0C-4DD2-9B41-B71F8CF66B13}Centaurus[[]*[]]*'):
        m = re.search(r'\[(\d+)\]', f)
        if m and not os.path.exists('/proc/' + m.group(1)):
            try: os.unlink(f)
            except OSError: pass
