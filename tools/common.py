"""Shared machinery: building from /repo's working tree, running TLC, evidence, verdicts."""
import atexit, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CENTAURUS_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
if TIER not in ('quick', 'thorough'): TIER = 'quick'
THOROUGH = TIER == 'thorough'
JOBS = max(1, min(8, os.cpu_count() or 1))
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CXXFLAGS = ['-std=c++11', '-g', '-funsigned-char', '-w', '-DCENTAURUS_BUILD_LINUX', '-I' + REPO + '/src/core']


class ToolError(Exception):
    """The machinery itself failed: no verdict."""


_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='centaurus_verif_')
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


def parallel(fn, items, jobs=JOBS):
    items = list(items)
    with concurrent.futures.ThreadPoolExecutor(max_workers=jobs) as ex:
        return list(ex.map(fn, items))


def compile_all(jobs):
    """jobs: list of (output, [command]).  Raises ToolError with the compiler's words."""
    def one(j):
        r = run(j[1], timeout=600)
        if r.returncode != 0:
            raise ToolError('build of %s failed:\n%s' % (j[0], r.stderr.decode(errors='replace')[:4000]))
        return j[0]
    return parallel(one, jobs)


CORE_SRC = ['ATN.cpp', 'CharClass.cpp', 'CompositeATN.cpp', 'Grammar.cpp', 'Util.cpp']

def build_core(opt='-O1', extra=()):
    """Objects of the library sources that need no code generator, built side by side."""
    d = os.path.join(scratch(), 'core' + hashlib.md5(repr((opt, extra)).encode()).hexdigest()[:6])
    os.makedirs(d, exist_ok=True)
    objs = [(os.path.join(d, s[:-4] + '.o'), s) for s in CORE_SRC]
    return [(o, ['g++', *CXXFLAGS, opt, '-DNDEBUG', *extra, '-c', os.path.join(REPO, 'src/core', s), '-o', o]) for o, s in objs]


def build_with_core(sources, opt='-O1', extra=(), libs=()):
    """sources: list of (name, harness source path, extra flags).  Returns name -> binary."""
    core = build_core(opt, tuple(extra))
    objs = [(os.path.join(scratch(), n + '.o'), ['g++', *CXXFLAGS, opt, '-DNDEBUG', *extra, *fl, '-I' + os.path.join(VERIF, 'harness'), '-c', s, '-o', os.path.join(scratch(), n + '.o')]) for n, s, fl in sources]
    compile_all(core + objs)
    out = {}
    links = []
    for n, s, fl in sources:
        b = os.path.join(scratch(), n)
        links.append((b, ['g++', *extra, os.path.join(scratch(), n + '.o'), *[o for o, _ in core], '-o', b, *libs, '-lpthread', '-lrt']))
        out[n] = b
    compile_all(links)
    return out


# ------------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = None
        for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found', out): pass
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = rc == 0 and 'No error has been found' in out
        k = out.find('Error:')
        self.error = None if self.ok else (out[k:k + 2500] if k >= 0 and 'analysis failed' not in out else out[-2500:])


def tlc(module, cfg, env=None, workers=1, timeout=600, heap='2g', extra=(), specdir=None, cfgtext=None, enough=0):
    d = tempfile.mkdtemp(dir=scratch(), prefix='tlc_')
    src = specdir or os.path.join(VERIF, 'spec')
    for f in os.listdir(src):
        if f.endswith('.tla') or f.endswith('.cfg'): shutil.copy(os.path.join(src, f), d)
    if cfgtext is not None:
        cfg = '_run.cfg'
        with open(os.path.join(d, cfg), 'w') as fh: fh.write(cfgtext)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    if env: e.update(env)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', JARS, 'tlc2.TLC', '-config', cfg, '-workers', str(workers),
           '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', *extra, module + '.tla']
    with open(os.path.join(d, 'out'), 'w') as fo:
        p = subprocess.Popen(cmd, stdout=fo, stderr=subprocess.STDOUT, cwd=d, env=e)
        end, rc, size = time.time() + timeout, None, 0
        while rc is None:
            try: rc = p.wait(timeout=.2 if time.time() > end - timeout + 5 else .05)
            except subprocess.TimeoutExpired:
                if time.time() > end or (enough and os.path.getsize(fo.name) > enough): p.kill(); p.wait(); rc = -9 if time.time() <= end else -14
    out = open(os.path.join(d, 'out'), errors='replace').read()
    shutil.rmtree(d, True)
    if rc == -14 and not enough: raise ToolError('TLC timed out on %s %s' % (module, cfg))
    return TLCResult(out, rc)


def require_model(module, cfg, what, **kw):
    """An exhaustive check of a model alone.  A failure here is a failure of the model: no verdict."""
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise ToolError('model %s/%s (%s) did not check:\n%s' % (module, cfg, what, r.error))
    return r


# ---------------------------------------------------------------- verdicts
class Check:
    def __init__(self, pid, level):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.coverage, self.assumptions = {}, []
        self.viol = {}        # key -> (what, replay)
        self.samples = []

    def elapsed(self): return time.time() - self.t0

    def count(self, name, n=1): self.coverage[name] = self.coverage.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 6: self.samples.append(s)

    def violation(self, key, what, replay):
        if key not in self.viol: self.viol[key] = (what, replay)

    def finish(self):
        known = {}
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == self.pid: known[m.group(2)] = m.group(3)
        cov = dict(self.coverage); cov['samples'] = self.samples
        new = [(k, v) for k, v in sorted(self.viol.items()) if k not in known]
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(self.elapsed(), 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        for k, (what, _) in sorted(self.viol.items()):
            if k in known: print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k]))
        if new:
            rd = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
            for i, (k, (what, replay)) in enumerate(new[:5]):
                path = os.path.join(rd, '%s-%d.json' % (self.pid, i))
                with open(path, 'w') as f: json.dump({'property': self.pid, 'key': k, 'what': what, 'replay': replay}, f, indent=1, default=str)
                print('%s: %s' % (k, what))
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        print('OK property=%s %s' % (self.pid, json.dumps({k: v for k, v in cov.items() if isinstance(v, int)})))
        return 0


def setup():
    """Nothing is prebuilt: every check builds from /repo's working tree.  Only make sure the tools are there."""
    for t in ('g++', 'java'):
        if shutil.which(t) is None: raise SystemExit('missing tool: ' + t)
    for j in JARS.split(':'):
        if not os.path.exists(j): raise SystemExit('missing ' + j)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    print('ok')


def main(fn):
    try:
        rc = fn()
    except ToolError as e:
        print('TOOL ERROR: %s' % e); sys.stdout.flush(); sys.exit(3)
    sys.stdout.flush()
    sys.exit(rc)


# --------------------------------------------------- judging recorded cases
def judge(module, records, shards=None, heap='3g', timeout=800, end='CASES-END', consts='', env=None, tally=None):
    """Hands recorded cases to a TLA+ module, which prints <<"VIOL", aspect, case, ...>> for each disagreement.
    Returns ([(record index, aspect, rest)], states, generated)."""
    if not records: return [], 0, 0
    shards = max(1, min(shards or JOBS, (len(records) + 19) // 20))
    parts = [list(range(k, len(records), shards)) for k in range(shards)]
    def one(ix):
        path = os.path.join(scratch(), '%s_%d_%d.ndjson' % (module, os.getpid(), ix[0]))
        with open(path, 'w') as f:
            for i in ix: f.write(json.dumps(records[i]) + '\n')
        r = tlc(module, None, env=dict(env or {}, CASES=path), heap=heap, timeout=timeout, enough=400000,
                cfgtext=consts + 'SPECIFICATION Spec\nINVARIANT Judged\nCHECK_DEADLOCK FALSE\n')
        os.unlink(path)
        v = [(ix[int(m.group(2)) - 1], m.group(1), m.group(3)) for m in re.finditer(r'<<"VIOL", "([\w-]+)", (\d+)(?:, (.*?))?>>', r.out)]
        # disagreements found stand even if TLC could not go through everything
        if not v and not (r.ok and '"%s"' % end in r.out): raise ToolError('%s: %s' % (module, (r.error or r.out)[-3000:]))
        if tally is not None:
            for m in re.finditer(r'<<"SORT", "([\w-]+)"', r.out): tally[m.group(1)] = tally.get(m.group(1), 0) + 1
        return v, r.distinct, r.generated
    out = parallel(one, parts)
    return [x for o in out for x in o[0]], sum(o[1] for o in out), sum(o[2] for o in out)


def drive(binary, cases, timeout=300, jobs=JOBS):
    """Feeds cases (strings, one command each) to a line-per-case harness, restarting it after a crash.
    Returns one parsed record per case; a crash or hang gives {'k': 'crash', 'why': ..}."""
    n = len(cases)
    size = max(1, (n + jobs - 1) // jobs)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0')
    def one(lo):
        out, i, hi = [], lo, min(n, lo + size)
        while i < hi:
            try: r = run([binary], input='\n'.join(cases[i:hi]).encode() + b'\n', timeout=timeout, env=env)
            except subprocess.TimeoutExpired: raise ToolError('harness %s timed out' % binary)
            lines = r.stdout.decode(errors='replace').split('\n')
            done = lines[:-1]
            for l in done:
                try: out.append(json.loads(l))
                except ValueError: raise ToolError('harness output: ' + l[:300])
            i += len(done)
            if r.returncode == 0 and i == hi: break
            if r.returncode >= 0 and r.returncode not in (134, 1): raise ToolError('harness %s: rc %d %s' % (binary, r.returncode, r.stderr.decode(errors='replace')[-500:]))
            if i < hi:
                err = r.stderr.decode(errors='replace')
                m = re.search(r'(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]*|Assertion [^\n]*)', err)
                out.append({'k': 'crash', 'why': 'hang' if r.returncode == -14 else 'signal %d %s' % (-r.returncode, m.group(1) if m else '')}); i += 1
        return out
    return [x for o in parallel(one, range(0, n, size)) for x in o]
