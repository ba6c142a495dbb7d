"""Runs cases (JSON lines) through the Python package and records what the handlers saw.  One JSON line per case.
usage: py_driver.py PACKAGE_DIR SCRATCH < cases   (CENTAURUS_DL_PATH: where the library is)"""
import json, multiprocessing, os, sys, time
sys.path.insert(0, sys.argv[1])
from centaurus import context as package
from centaurus import corelib

FALSY = [0, '', [], False, (), 0.0]
def code(seed, rule, s, e): return 0 if (rule + s + e + seed) % 5 == 0 else 1 + (rule * 4096 + s) * 4096 + e
def value(c):                       # what a handler returns for a code
    if c == 0: return None
    if c % 11 == 0: return FALSY[c % 6]
    return [c, 'x' * (c % 50)] if c % 3 == 0 else {'c': c} if c % 7 == 0 else c
class Unsendable(object):           # cannot go to another process
    def __init__(self, c): self.c, self.f = c, lambda: 0
def hit(every, seed, rule, s, e): return every and (rule * 5 + s * 3 + e + seed) % every == 0
def back(v):
    if v is None: return 0
    if isinstance(v, Unsendable): return v.c
    if isinstance(v, list) and len(v) == 2 and isinstance(v[0], int): return v[0]
    if isinstance(v, dict): return v.get('c', -2)
    if isinstance(v, int) and not isinstance(v, bool) and v: return v
    return -1 if not v and v in FALSY else -2

class Listener(object):
    def __init__(self, path, seed, slow): self.path, self.seed, self.slow = path, seed, slow
    def note(self, who, ctx):
        sym = ctx.symbol; rule, s, e = sym.id, sym.start, sym.end
        vals = [back(v) for v in ctx]
        n = len(ctx)
        if n != len(vals) or [back(ctx[i]) for i in range(n)] != vals or [back(ctx[i - n]) for i in range(n)] != vals or bool(ctx) != bool(vals): vals = [-3]
        for i in (n, -n - 1):           # no value of another occurrence
            try: ctx[i]; vals = [-3]
            except IndexError: pass
        c = code(self.seed, rule, s, e) if who else 0
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
        os.write(fd, (json.dumps({'who': who, 'rule': rule, 's': s, 'e': e, 'text': list(ctx.readbytes()), 'len': e - s, 'r': c, 'v': vals}) + '\n').encode()); os.close(fd)
        if self.slow and (s * 7 + e + rule) % self.slow == 0: time.sleep(.001 * ((s + e) % 4))
        if who and hit(CASE['raising'], self.seed, rule, s, e): raise (ValueError, KeyError, SystemExit)[s % 3]('%d' % s)
        return Unsendable(c) if c % 11 and who and hit(CASE['unsendable'], self.seed, rule, s, e) else value(c)
class Default(Listener):
    def defaultact(self, ctx): self.note('', ctx)
def handler(name): return lambda self, ctx: self.note(name, ctx)

# workers that come late to a run, now and then
def late(base):
    class Late(base):
        def __init__(self, *a):
            if CASE.get('slow'):
                n = int(time.time() * 1e6) ^ os.getpid()
                if n % 3 == 0: time.sleep(.001 * (n // 3 % 30))
            super(Late, self).__init__(*a)
    return Late
CASE = {}
started = []
class Process(multiprocessing.Process):
    def start(self): started.append(self); super(Process, self).start()
multiprocessing.Process = Process
for n in ('Stage2Runner', 'Stage3Runner'):
    if hasattr(package, n): setattr(package, n, late(getattr(package, n)))

def leftovers():
    return sum(1 for f in os.listdir('/dev/shm') if '[%d]' % os.getpid() in f) + len(multiprocessing.active_children())

def case(c, tmp):
    CASE.clear(); CASE.update(c)
    g = os.path.join(tmp, 'g.cgr'); inp = os.path.join(tmp, 'in'); log = os.path.join(tmp, 'log')
    with open(g, 'wb') as f: f.write(bytes(c['grammar']))
    corelib.CoreLib.verif_page(c['page'])
    package.Context.bank_size = c['page'] or 8 * 1024 * 1024
    ctx = package.Context(g)
    L = type('L', (Default if c['default'] else Listener,), {'parse' + n: handler(n) for n in c['named']})(log, c['seed'], c['slow'])
    out = {'k': 'py', 'left': 0, 'died': 0, 'missing': True, 'runs': []}
    if c['unhandled']:                          # a rule has no handler
        ctx.attach(type('U', (Listener,), {'parse' + n: handler(n) for n in c['names'] if n != c['unhandled']})(log, c['seed'], 0))
        try: ctx.start(1); out['missing'] = False
        except Exception: pass
    ctx.attach(L)
    for w, inputs in c['rounds']:
        ctx.start(w)
        if c['missing']:
            try: ctx.parse(inp + '.none'); out['missing'] = False
            except OSError: pass
        for i in inputs:
            if os.path.exists(log): os.unlink(log)
            with open(inp, 'wb') as f: f.write(bytes(i))
            r, raised = 0, False
            try: r = back(ctx.parse(inp))
            except Exception: raised = True
            calls = [json.loads(l) for l in open(log)] if os.path.exists(log) else []
            out['runs'].append({'calls': calls, 'result': r, 'raised': raised, 'workers': w})
        ctx.stop()
        out['died'] += sum(1 for p in started if p.exitcode); del started[:]
        out['left'] = max(out['left'], leftovers())
    corelib.CoreLib.verif_page(0)
    return out

def read(c, tmp):
    base = os.path.join(tmp, 'texts')
    for n, t in c['files']:
        f = os.path.join(base, ''.join(map(chr, n))); os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, 'wb') as h: h.write(bytes(t))
    for d in ('d', 'd/e'): os.makedirs(os.path.join(base, d), exist_ok=True)
    try:
        g = corelib.Grammar(os.path.join(base, 'top.cgr')); n = g.get_machine_num()
        out = {'k': 'grammar', 'ok': True, 'line': 0, 'rules': [{'name': [ord(x) for x in g.get_machine_name(k)], 'num': g.get_machine_id(g.get_machine_name(k))} for k in range(1, n + 1)]}
        try: corelib.Parser(g); out['parser'] = True
        except ValueError: out['parser'] = False
    except ValueError: out = {'k': 'grammar', 'ok': False, 'line': -1, 'rules': []}
    for n, t in c['files']: os.unlink(os.path.join(base, ''.join(map(chr, n))))
    return out

if __name__ == '__main__':
    tmp = sys.argv[2]
    for line in sys.stdin:
        c = json.loads(line)
        o = read(c, tmp) if 'files' in c else case(c, tmp)
        print(json.dumps(o)); sys.stdout.flush()
