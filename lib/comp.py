"""Component drivers: cases are run in the harness, recorded traces are validated with TLC."""
import json, os, re, random, time
import vf


class Case:
    """begin: fields of the event 'begin'; lines: input of the driver; files: name -> content"""
    def __init__(self, begin, lines, files=None, seed=None, strategy='mix'):
        self.begin, self.lines, self.files = begin, lines, files or {}
        self.seed, self.strategy = seed, strategy


def gen(ctx, module, simulate=None, env=None, depth=100, cfg=None, timeout=300, record=False):
    """Behaviours printed by the specification, parsed into python lists"""
    extra = ['-simulate', 'num=%d' % simulate, '-seed', str(ctx.seed), '-depth', str(depth)] if simulate else []
    rc, out = vf.tlc(ctx, module, cfg, env=env, extra=extra, timeout=timeout)
    if rc != 0:
        raise vf.CheckError('generation %s failed: %s' % (module, out[-2000:]))
    res = []
    for line in out.splitlines():
        if line.startswith('"GEN '):
            t = line[5:-1].replace('\\"', '"').replace('<<', '[').replace('>>', ']').replace('TRUE', 'true').replace('FALSE', 'false')
            if record:
                t = re.sub(r'(\w+) \|-> ', r'"\1": ', t)
                # records become objects: [a |-> 1] is printed with square brackets as well
                t = objects(t)
            res.append(json.loads(t))
    if not simulate:
        g, d = vf.stats(out)
        ctx.states += d
        ctx.transitions += g
    uniq = []
    seen = set()
    for r in res:
        k = json.dumps(r)
        if k not in seen:
            seen.add(k)
            uniq.append(r)
    ctx.notes.setdefault('generated_behaviours', {})[module] = ctx.notes.get('generated_behaviours', {}).get(module, 0) + len(uniq)
    return uniq


def objects(t):
    st, out = [], []
    for k, ch in enumerate(t):
        if ch == '[':
            o = re.match(r'\[\s*"\w+": ', t[k:]) is not None
            st.append(o)
            out.append('{' if o else '[')
        elif ch == ']':
            out.append('}' if st.pop() else ']')
        else:
            out.append(ch)
    return ''.join(out)


def text_of(cases, ids, seed, strategy):
    out = ['seed %d' % seed, 'strategy ' + strategy]
    for k, c in zip(ids, cases):
        out.append('case %d %s' % (k, json.dumps(c.begin)[1:-1]))
        out += c.lines
    return '\n'.join(out) + '\n'


def run_chunk(ctx, comp, cases, ids, rng_seed, total=None):
    """Returns {case index: events}. A crash ends the process: the rest of the cases is run by the next one."""
    res = {}
    todo = list(range(len(cases)))
    files = {}
    for c in cases:
        files.update(c.files)
    attempt = 0
    crashes = 0
    started = time.time()
    while todo and (total is None or len(total) <= 30):
        sub = [cases[k] for k in todo]
        seed = sub[0].seed or (rng_seed + attempt) % (1 << 30) + 1
        keep = {}
        ev = vf.run_harness(ctx, comp, text_of(sub, [ids[k] for k in todo], seed, sub[0].strategy), files, keep)
        cur = None
        done = set()
        for e in ev:
            if e['ev'] == 'begin':
                cur = e['id']
                res[cur] = []
            elif e['ev'] == 'end':
                continue
            if cur is None:
                raise vf.CheckError('component %s: %s %s' % (comp, e, keep.get('stderr', '')[-1500:]))
            e.pop('t', None)
            if e['ev'] == 'anomaly':
                e['msg'] = str(e.get('msg', ''))[:60]
            elif len(res[cur]) >= 20000:
                continue
            res[cur].append(e)
        for k in todo:
            t = res.get(ids[k], [])
            # endless loop: its beginning is enough
            if len(t) > 400 and t[-1]['ev'] == 'anomaly':
                res[ids[k]] = t[:250] + t[-1:]
        rest = [k for k in todo if ids[k] not in res]
        if len(rest) == len(todo):
            raise vf.CheckError('component %s does not work: %s' % (comp, keep.get('stderr', '')[-2000:]))
        if rest:
            crashes += 1
            if total is not None:
                total.append(1)
            if crashes > 20 or (crashes > 2 and time.time() - started > 15) or (total is not None and len(total) > 30):
                break
        todo = rest
        attempt += 1
    return res


def run_cases(ctx, comp, cases, per=60, first=0):
    """events of every case"""
    ctx.build()
    chunks = [list(range(k, min(k + per, len(cases)))) for k in range(0, len(cases), per)]
    base = ctx.rng.randrange(1, 1 << 30)
    out, total = {}, []
    for r in vf.pmap(lambda ch: run_chunk(ctx, comp, [cases[k] for k in ch], [k + first for k in ch], base + ch[0], total), chunks):
        out.update(r)
    return out


def check(ctx, comp, module, cases, nd=False, per=60, cfg=None):
    """Runs the cases, validates the traces. nd - the specification is nondeterministic, the trace should have an explanation"""
    if not cases or len(ctx.violations) >= 3:
        return {}
    traces = run_cases(ctx, comp, cases, per)
    lst = [traces[k] for k in sorted(traces)]
    vf.count_events(ctx, lst)
    ctx.traces += len(lst)
    if lst and len(ctx.samples) < 4:
        ctx.samples.append(dict(component=comp, case=cases[0].lines[:30], trace=[json.dumps(e) for e in lst[0][:25]]))
    bad = (validate_nd if nd else vf.validate)(ctx, module, lst, cfg=cfg)
    for k in sorted(bad):
        relevant = [b for b in bad[k] if vf.mine(ctx.prop, b[2])]
        if not relevant:
            continue
        c = cases[k]
        keep = {}
        vf.run_harness(ctx, comp, text_of([c], [k], c.seed or 1, c.strategy), c.files, keep)
        line, ev, clause = relevant[0]
        t = traces[k]
        files = {'case.txt': text_of([c], [k], c.seed or 1, c.strategy), 'trace.ndjson': '\n'.join(json.dumps(e) for e in t) + '\n', 'stderr.txt': keep.get('stderr', ''),
                 'README.txt': 'component %s, rejected: %s\nRun again: sim/build.sh %s /tmp/b; /tmp/b/simmodem %s case.txt out.ndjson (files of the case are next to it)\n' % (comp, relevant[:5], vf.REPO, comp)}
        for n, d in c.files.items():
            if isinstance(d, str):
                files[n] = d
        ctx.violation(clause, 'event %d %s breaks %s' % (line, json.dumps(t[min(line, len(t) - 1)])[:600], clause), files)
        if len(ctx.violations) >= 3:
            break
    ctx.notes.setdefault('cases', {})[comp] = ctx.notes.get('cases', {}).get(comp, 0) + len(lst)
    ctx.log('component', comp, len(lst), 'cases')
    return traces


def validate_nd(ctx, module, traces, timeout=800, cfg=None):
    """Each trace should be a behaviour of the specification"""
    if not traces:
        return {}
    nb = min(vf.CPUS, max(1, len(traces) // 4))
    order = sorted(range(len(traces)), key=lambda k: -len(traces[k]))
    bins = [order[b::nb] for b in range(nb)]

    def one(b):
        path = os.path.join(ctx.scratch, 'nd%s%d-%d.ndjson' % (module, id(traces) % 100000, b))
        n = 0
        ids = {}
        with open(path, 'w') as f:
            for k in bins[b]:
                ids[traces[k][0]['id']] = k
                for e in traces[k]:
                    f.write(json.dumps(e) + '\n')
                    n += 1
        rc, out = vf.tlc(ctx, module, cfg, env={'TRACE': path}, timeout=timeout)
        os.unlink(path)
        if rc != 0 or ('"DONE", %d>>' % n) not in out:
            raise vf.CheckError('trace validation failed (%s):\n%s' % (module, out[-3000:]))
        bad = []
        for m in re.finditer(r'<<\s*"STUCK",\s*(-?\d+),\s*(-?\d+)\s*>>', out):
            bad.append((ids[int(m.group(1))], int(m.group(2))))
        g, d = vf.stats(out)
        return bad, g, d

    res = {}
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(nb) as ex:
        for bad, g, d in ex.map(one, range(nb)):
            ctx.transitions += g
            ctx.states += d
            for k, off in bad:
                # off - number of explained events after begin + 1
                line = min(max(off, 0), len(traces[k]) - 1)
                e = traces[k][line]
                what = 'anomaly_' + e['kind'] if e['ev'] == 'anomaly' else e['ev']
                res.setdefault(k, []).append((line, e['ev'], 'ALL:no_explanation_for_' + what))
    return res


def models(ctx, *cfgs, **kw):
    """exhaustive model checking of several configurations: (module, cfg) or module"""
    def one(x):
        m, c = x if isinstance(x, tuple) else (x, None)
        return vf.model_check(ctx, m, c and c + '.cfg', workers='1' if len(cfgs) > 3 else '4', **kw)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(vf.CPUS) as ex:
        list(ex.map(one, cfgs))


def model_bugs(ctx, *cfgs):
    """defects seeded into the specification: the model should be able to see them"""
    for m, c in cfgs:
        rc, out = vf.tlc(ctx, m, c + '.cfg', workers='4')
        if not re.search(r'is violated|Deadlock reached|properties were violated', out):
            raise vf.CheckError('model %s %s does not see the defect: %s' % (m, c, out[-1500:]))
        ctx.notes.setdefault('seeded_model_bugs_found', []).append(c)
