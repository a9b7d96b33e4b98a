"""Whole-modem scenarios validated against Modem.tla"""
import json, re, random, time
import vf, scen

DROP = {'fopen', 'fclose', 'seof', 'rcvto', 'ceof', 'listen'}


def normalize(events, cfg, tid):
    ids = {}
    for e in events:
        if e['ev'] == 'resp' and e['st'] == 0 and e['c'] not in ids.values() and e['det'] not in ids:
            ids[e['det']] = e['c']
    out = [dict(ev='begin', id=tid, cfg=cfg)]
    for e in events:
        if e['ev'] in DROP:
            continue
        e = dict(e)
        e.pop('t', None)
        if e['ev'] == 'fault':
            w = e['what']
            m = re.search(r'\.(\d+)\.(cf32|s8)$', w)
            m2 = re.search(r'fwrite:txd(\d+)$', w)
            e['c'] = ids.get(int(m.group(1)), -1) if m else int(m2.group(1)) if m2 else -1
            e['dev'] = 'tx' if w == 'iio_push' or m2 else 'rx' if w == 'iio_refill' else ''
        if e['ev'] in ('creq', 'sdrreq'):
            for k in ('band', 'center', 'rate'):
                e[k] = str(e[k])
        if e['ev'] == 'anomaly':
            e['msg'] = ''
        out.append(e)
    return out


def run_one(ctx, s, keep=None):
    return vf.run_harness(ctx, 'run', s.text(), {'modem.conf': s.config_text()}, keep)


def check_scenarios(ctx, scens, module='ModemTrace', sample=True, filt=None):
    ctx.build()
    slow = []

    def run(s):
        # a change which makes most of the runs endless
        if len(slow) >= 16:
            return None
        started = time.time()
        r = run_one(ctx, s)
        if r and r[-1]['ev'] == 'anomaly' and (time.time() - started > 6 or len(r) > 40000):
            slow.append(1)
        return r
    raw = vf.pmap(run, scens)
    scens = [s for s, r in zip(scens, raw) if r is not None]
    # endless loop: its beginning is enough
    raw = [r if r is None or len(r) <= 6000 or r[-1]['ev'] != 'anomaly' else r[:4000] + r[-1:] for r in raw]
    raw = [r for r in raw if r is not None]
    traces = [normalize(t, s.cfg(), k) for k, (t, s) in enumerate(zip(raw, scens))]
    vf.count_events(ctx, traces)
    bad = vf.validate(ctx, module, traces)
    ctx.traces += len(traces)
    if sample and scens and len(ctx.samples) < 3:
        ctx.samples.append(dict(scenario=scens[0].text()[:1500], trace=[json.dumps(e) for e in traces[0][:25]]))
    other = 0
    for k in sorted(bad):
        relevant = [b for b in bad[k] if vf.mine(ctx.prop, b[2]) and (filt is None or filt(b[2]))]
        if not relevant:
            other += 1
            continue
        confirm(ctx, scens[k], module, relevant, raw[k])
        if len(ctx.violations) >= 3:
            break
    if other:
        ctx.notes['traces_with_findings_of_other_properties'] = ctx.notes.get('traces_with_findings_of_other_properties', 0) + other
    return raw, traces, bad


def confirm(ctx, s, module, relevant, first):
    """Runs the scenario again to collect the output of the modem. The first execution counts even when the second is different."""
    keep = {}
    t = run_one(ctx, s, keep)
    tr = normalize(t, s.cfg(), 0)
    bad = vf.validate(ctx, module, [tr])
    again = [b for b in bad.get(0, []) if vf.mine(ctx.prop, b[2])]
    note = ''
    if not again:
        note = 'The second execution of the same scenario had no violation.\n'
        again, t, tr = relevant, first, normalize(first, s.cfg(), 0)
    line, ev, clause = again[0]
    msg = 'event %d %s breaks %s (scenario with the seed %d%s)' % (line, json.dumps(tr[line]), clause, s.seed, ', not repeated' if note else '')
    ctx.violation(clause, msg, {'scenario.txt': s.text(), 'modem.conf': s.config_text(), 'trace.ndjson': '\n'.join(json.dumps(e) for e in t) + '\n',
                                'validated.ndjson': '\n'.join(json.dumps(e) for e in tr) + '\n', 'stderr.txt': keep.get('stderr', ''),
                                'README.txt': note + 'All rejected events: %s\nRun again: sim/build.sh %s /tmp/b; cd <this dir>; sed "s#@B@#$PWD#g" scenario.txt > s; /tmp/b/simmodem run s out.ndjson\n' % (again, vf.REPO)})
