"""Shared machinery: builds the harness from the repository, runs scenarios, validates traces with TLC, writes evidence."""
import os, sys, json, resource, re, shutil, subprocess, tempfile, time, hashlib, random
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPEC = os.path.join(ROOT, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vf-%s-' % prop)
        self.binary = None
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []      # (key, message, replay path)
        self.clauses = set()
        self.notes = {}
        self.events = {}
        self.rng = random.Random('%s/%s' % (prop, seed))
        self.known = load_known(prop)
        self.known_hit = set()

    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def build(self):
        if self.binary is None:
            out = os.path.join(self.scratch, 'build')
            r = subprocess.run([os.path.join(ROOT, 'sim/build.sh'), REPO, out], capture_output=True, text=True)
            if r.returncode != 0:
                raise CheckError('build failed:\n' + r.stdout[-2000:] + r.stderr[-4000:])
            self.binary = os.path.join(out, 'simmodem')
        return self.binary

    def log(self, *a):
        print('[%s %.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def violation(self, key, message, files):
        """files: name -> content, saved for the replay"""
        for k, text in self.known:
            if key == k:
                if k not in self.known_hit:
                    self.known_hit.add(k)
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, text), flush=True)
                return
        n = len(self.violations) + 1
        d = os.path.join(ROOT, 'out', '%s-%d' % (self.prop, n))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for name, content in files.items():
            with open(os.path.join(d, name), 'w') as f:
                f.write(content)
        with open(os.path.join(d, 'message.txt'), 'w') as f:
            f.write('%s\n%s\n' % (key, message))
        self.violations.append((key, message, d))
        print('violation: %s %s' % (key, message), flush=True)

    def finish(self, level='model_checking'):
        cov = dict(self.notes)
        cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:5], events=self.events, clauses_evaluated=sorted(self.clauses))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        self.cleanup()
        for key, message, d in self.violations[:5]:
            print('VIOLATION property=%s replay=%s' % (self.prop, d), flush=True)
        return 1 if self.violations else 0

    def cleanup(self):
        if os.environ.get('VF_KEEP'):
            print('kept', self.scratch)
            return
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(prop):
    res = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


# ------------------------------------------------------------------ TLC
def tlc(ctx, module, cfg=None, env=None, timeout=600, mem='3g', workers='1', extra=()):
    meta = tempfile.mkdtemp(prefix='tlc', dir=ctx.scratch)
    gc = '-XX:+UseSerialGC' if workers == '1' else '-XX:+UseParallelGC'
    cmd = ['java', gc, '-Djava.io.tmpdir=' + meta, '-Xmx' + mem, '-Xss64m', '-cp', JAR, 'tlc2.TLC', '-workers', workers, '-metadir', meta, '-noGenerateSpecTE',
           '-config', cfg or module + '.cfg', *extra, module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('tlc timeout: ' + module)
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def stats(out):
    m = None
    for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found', out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def model_check(ctx, module, cfg=None, timeout=600, mem='8g', workers=str(CPUS), expect_ok=True, extra=(), env=None):
    """Exhaustive run. The specification does not depend on the code, so anything except success is an error of the check."""
    rc, out = tlc(ctx, module, cfg, timeout=timeout, mem=mem, workers=workers, extra=extra, env=env)
    if expect_ok and rc != 0:
        raise CheckError('model checking of %s %s failed:\n%s' % (module, cfg or '', out[-3000:]))
    gen, dist = stats(out)
    ctx.states += dist
    ctx.transitions += gen
    ctx.notes.setdefault('models', {})[cfg or module] = dict(distinct_states=dist, transitions=gen)
    ctx.log('model', cfg or module, dist, 'states', gen, 'transitions')
    return rc, out


def validate(ctx, module, traces, timeout=600, cfg=None):
    """traces: list of lists of events (dicts), each starting with 'begin'. Returns {trace index: [(line in trace, event, clause)]}"""
    if not traces:
        return {}
    nb = min(CPUS, max(1, len(traces) // 4))
    # balance by the number of events
    order = sorted(range(len(traces)), key=lambda k: -len(traces[k]))
    bins = [[] for _ in range(nb)]
    size = [0] * nb
    for k in order:
        b = size.index(min(size))
        bins[b].append(k)
        size[b] += len(traces[k])

    def one(b):
        path = os.path.join(ctx.scratch, 'batch%d-%d.ndjson' % (id(traces) % 100000, b))
        start = []
        n = 0
        with open(path, 'w') as f:
            for k in bins[b]:
                start.append((n, k))
                for e in traces[k]:
                    f.write(json.dumps(e) + '\n')
                    n += 1
        rc, out = tlc(ctx, module, cfg, env={'TRACE': path}, timeout=timeout)
        os.unlink(path)
        if rc != 0 or ('"DONE", %d>>' % n) not in out:
            raise CheckError('trace validation failed (%s):\n%s' % (module, out[-3000:]))
        bad = []
        for m in re.finditer(r'<<\s*"BAD",\s*(-?\d+),\s*(\d+),\s*"([^"]*)",\s*"([^"]*)"\s*>>', out):
            tid, line, ev, clause = int(m.group(1)), int(m.group(2)), m.group(3), m.group(4)
            s = max(x for x, k in start if x < line)
            bad.append((tid, line - s - 1, ev, clause))
        m = re.search(r'"CLAUSES",\s*\{([^}]*)\}', out)
        cl = set(re.findall(r'"([^"]+)"', m.group(1))) if m else set()
        gen, dist = stats(out)
        return bad, cl, gen, dist

    res = {}
    with ThreadPoolExecutor(nb) as ex:
        for bad, cl, gen, dist in ex.map(one, range(nb)):
            ctx.clauses |= cl
            ctx.transitions += gen
            ctx.states += dist
            for tid, line, ev, clause in bad:
                res.setdefault(tid, []).append((line, ev, clause))
    return res


# ------------------------------------------------------------------ harness
RUN_ENV = dict(VOLK_GENERIC='1', VOLK_ALIGNMENT='16')


def run_harness(ctx, mode, text, files, keep=None, timeout=200):
    """Runs one scenario. '@B@' in the texts is the directory of the run. Returns list of events."""
    d = tempfile.mkdtemp(prefix='run', dir=ctx.scratch)
    try:
        for name, content in files.items():
            data = content.replace('@B@', d) if isinstance(content, str) else content
            with open(os.path.join(d, name), 'wb' if isinstance(data, bytes) else 'w') as f:
                f.write(data)
        sp = os.path.join(d, 'scenario.txt')
        with open(sp, 'w') as f:
            f.write(text.replace('@B@', d))
        tp = os.path.join(d, 'trace.ndjson')
        e = dict(os.environ)
        e.update(RUN_ENV)
        e['TMPDIR'] = d
        try:
            # a broken program can print a lot
            with open(os.path.join(d, '.out') if keep is not None else os.devnull, 'wb') as so, open(os.path.join(d, '.err') if keep is not None else os.devnull, 'wb') as se:
                r = subprocess.run([ctx.build(), mode, sp, tp], env=e, stdin=subprocess.DEVNULL, stdout=so, stderr=se, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            return [dict(ev='anomaly', kind='timeout', msg='')]
        events = []
        if os.path.exists(tp):
            for line in open(tp, errors='replace'):
                try:
                    events.append(json.loads(line))
                except ValueError:
                    events.append(dict(ev='anomaly', kind='badline', msg=line[:100]))
        last = events[-1]['ev'] if events else ''
        if last not in ('end', 'anomaly'):
            events.append(dict(ev='anomaly', kind='died', msg='rc %d' % r.returncode))
        if keep is not None:
            keep['stderr'] = tail(os.path.join(d, '.err'), 6000)
            keep['stdout'] = tail(os.path.join(d, '.out'), 3000)
        return events
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tail(path, n):
    with open(path, 'rb') as f:
        f.seek(max(0, os.path.getsize(path) - n))
        return f.read().decode(errors='replace')


def pmap(fn, items, n=CPUS):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


def count_events(ctx, traces):
    for t in traces:
        for e in t:
            k = e['ev']
            ctx.events[k] = ctx.events.get(k, 0) + 1


def mine(prop, clause):
    ids, _, name = clause.partition(':')
    return 'ALL' in ids.split(',') or prop in ids.split(',')


def main(argv, registry):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in argv:
        tier = 'thorough'
    ctx = Ctx(prop, tier, seed)
    resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, resource.RLIM_INFINITY))
    try:
        registry[prop](ctx)
        rc = ctx.finish()
    except CheckError as e:
        print('ERROR', e, flush=True)
        ctx.cleanup()
        rc = 2
    except BaseException:
        ctx.cleanup()
        raise
    if rc == 0:
        print('OK property=%s states=%d transitions=%d traces=%d wall=%.1fs' % (prop, ctx.states, ctx.transitions, ctx.traces, time.time() - ctx.t0), flush=True)
    return rc
