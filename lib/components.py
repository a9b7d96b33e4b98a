"""Cases for the components."""
import random
import vf, comp
from comp import Case


# ------------------------------------------------------------------ queue
def queue_case(rng):
    bs = rng.choice([1, 2, 4, 8])
    size = rng.choice([1, 1, 2, 2, 3, 5])
    blocking = rng.random() < 0.5
    def delay():
        return ['y:%d' % rng.choice([1, 2, 5, 20])] if rng.random() < 0.4 else []
    p = []
    for _ in range(rng.randint(1, 12)):
        p += delay()
        p.append(rng.choice(['put:%d' % rng.randint(1, bs)] * 12 + ['put:0', 'put:%d' % (bs + 1), 'null:1']))
    c = []
    for _ in range(rng.randint(0, 4)):
        c += delay()
        c += ['take', 'comp'] if rng.random() < 0.7 else ['take'] + ['y:%d' % rng.choice([5, 30])] + ['comp']
    # every buffer which was put to the blocking queue should be taken, otherwise the consumer waits in the middle
    c = []
    c += delay() + ['drain']
    th = [['p'] + p, ['c'] + c]
    if rng.random() < 0.5:
        th.append(['i'] + delay() + delay() + ['int'] + (['int'] if rng.random() < 0.3 else []))
    else:
        th[0] += delay() + ['int'] + (['put:1'] if rng.random() < 0.3 else [])
    lines = ['queue %d %d %d' % (bs, size, blocking)] + [' '.join(t) for t in th]
    return Case(dict(bs=bs, size=size, blocking=blocking), lines)


def queue_gen(ctx, length, simulate=None):
    res = []
    for size, blocking, ops in comp.gen(ctx, 'QueueGen', simulate, env={'L': str(length)}, depth=length + 2):
        res.append(Case(dict(bs=3, size=size, blocking=blocking),
                        ['queue 3 %d %d' % (size, blocking), 's ' + ' '.join('%s:%d' % (o, n) if o == 'put' else o for o, n in ops)]))
    return res


def check_queue(ctx):
    comp.models(ctx, *[('QueueMC', 'QueueMC_%s%d' % (b, s)) for b in 'BN' for s in (1, 2, 3)],
                *[('QueueImpl', 'QueueImpl_%s%d%s' % (b, s, x)) for b in 'BN' for s in (1, 2, 3) for x in 'sdl'])
    comp.model_bugs(ctx, *[('QueueImpl', 'QueueImpl_bug%d' % k) for k in (1, 2, 3)])
    cases = [Case(dict(bs=b, size=s, blocking=k), ['queue %d %d %d' % (b, s, k), 's int take']) for b in (0, 1) for s in (0, 1) for k in (False, True)]
    cases += queue_gen(ctx, ctx.pick(4, 6))
    cases += queue_gen(ctx, 14, ctx.pick(250, 3000))
    comp.check(ctx, 'queue', 'QueueTrace', cases, nd=True, per=400)
    rng = random.Random('queue/%d' % ctx.seed)
    for _ in range(ctx.pick(1, 20)):
        comp.check(ctx, 'queue', 'QueueTrace', [queue_case(rng) for _ in range(3000)], nd=True, per=50)


# ------------------------------------------------------------------ list
def list_lines(ops):
    return ['%s %d' % (o, a[0] if o == 'add' else sum(1 << x for x in a)) for o, a in ops] + ['destroy 0']


def list_case(rng):
    n, nxt, ops = rng.randint(5, 40), 1, []
    alive = []
    for _ in range(n):
        q = rng.random()
        sub = [x for x in alive if rng.random() < 0.4]
        if q < 0.45 and nxt < 30:
            ops.append(('add', [nxt]))
            alive.append(nxt)
            nxt += 1
        elif q < 0.6:
            ops.append(('find', sub))
        elif q < 0.75:
            ops.append(('remove', sub))
            alive = [x for k, x in enumerate(alive) if not (x in sub and x == sub[0])]
        elif q < 0.87:
            ops.append(('destroyid', sub))
            alive = [x for k, x in enumerate(alive) if not (x in sub and x == sub[0])]
        elif q < 0.97:
            ops.append(('destroysel', sub))
            alive = [x for x in alive if x not in sub]
        else:
            ops.append(('destroy', []))
            alive = []
    return Case({}, list_lines(ops))


def check_list(ctx):
    cases = []
    for l, m, sim in ctx.pick([(4, 3, None), (9, 5, 150)], [(5, 4, None), (12, 6, 5000)]):
        cases += [Case({}, list_lines(ops)) for ops in comp.gen(ctx, 'ListGen', sim, env={'L': str(l), 'M': str(m)}, depth=l + 2)]
    rng = random.Random('list/%d' % ctx.seed)
    cases += [list_case(rng) for _ in range(ctx.pick(1000, 20000))]
    comp.check(ctx, 'list', 'ListTrace', cases, per=500)


# ------------------------------------------------------------------ file
def file_case(p, threads, faults=(), create=None):
    """p: rx, tx, have, max, rate, offset, extra (bytes of the incomplete sample), broken"""
    rate, off = p['rate'], p['offset']
    broken = p.get('broken', False)
    size = -2 if broken else p['have'] * 8 + p.get('extra', 0) if p['rx'] and not p.get('missing') else -1
    begin = dict(rx=p['rx'], tx=p['tx'], have=0 if broken else p['have'], max=p['max'], q=(off * 4 // rate) % 4 if off * 4 % rate == 0 else 0,
                 openable=not p.get('missing', False) and create is None, faulty=bool(faults), broken=broken)
    lines = ['file %s %s %d %d %d %d' % ('rxf' if p['rx'] else '-', 'txf' if p['tx'] else '-', rate, off, p['max'], size)]
    lines += ['fault %s %d %d' % f for f in list(faults) + ([create] if create else [])]
    return Case(begin, lines + ['t ' + ' '.join(t) for t in threads])


def file_gen(ctx, length, simulate=None):
    res = []
    for p, h in comp.gen(ctx, 'FileGen', simulate, env={'L': str(length)}, depth=length + 2, record=True):
        q = p['q']
        res.append(file_case(dict(rx=p['rx'], tx=p['tx'], have=p['have'], max=p['max'], rate=4000, offset=q * 1000), [['tx:%d' % n if o == 'tx' else o for o, n in h]]))
    return res


def file_random(rng):
    rate = rng.choice([4000, 9600, 48000, 44100, 1000000, 2147483648])
    both = rng.random() < 0.15
    rx = both or rng.random() < 0.6
    p = dict(rx=rx, tx=both or not rx, max=rng.choice([1, 2, 7, 32, 100]), rate=rate, offset=rng.choice([rate // 4, -rate // 4, rate // 2, -(rate // 2), rng.randint(-rate, rate), 1, -1, 0, 0]) if not both else 0)
    p['have'] = max(0, rng.choice([0, 1, p['max'] - 1, p['max'], p['max'] + 1, 2 * p['max'], rng.randint(0, 400)])) if rx else 0
    p['extra'] = rng.choice([0, 0, 1, 4, 7])
    faults, create = [], None
    q = rng.random()
    if rx and q < 0.05:
        p['missing'] = True
    elif rx and q < 0.1:
        p['broken'] = True
    elif rx and q < 0.25:
        faults = [('fread', rng.randint(1, 6), rng.choice([1, 1, 2, 9]))]
    elif not rx and q < 0.05:
        create = ('fopenw', 1, 1)
    elif not rx and q < 0.25:
        faults = [('fwrite:txf', rng.randint(1, 5), rng.randint(1, 2))]

    def delay():
        return ['%s:%d' % (rng.choice('ys'), rng.choice([1, 3, 10, 40]))] if rng.random() < 0.5 else []
    ths = []
    if rx:
        if p.get('broken'):
            ths.append(['rx'] * 2)
        else:
            ths.append(delay() + rng.choice([['drain'], ['rx'] * rng.randint(0, 2) + ['drain'], ['drain', 'rx']]))
            if rng.random() < 0.9:
                ths.append(delay() + delay() + ['stop'] + (['stop'] if rng.random() < 0.2 else []))
            else:
                ths[0] = ['stop'] + ths[0]
    if p['tx']:
        t = []
        for _ in range(rng.randint(0, 12)):
            t.append('tx:%d' % rng.choice([0, 1, p['max'], p['max'] + 1, rng.randint(0, p['max']), rng.randint(0, p['max'])]))
        if rng.random() < 0.2:
            t.insert(rng.randint(0, len(t)), 'stop')
        if not rx and rng.random() < 0.2:
            t.insert(rng.randint(0, len(t)), 'rx')
        ths.append(t)
    elif rng.random() < 0.2:
        ths.append(['tx:1'])
    return file_case(p, ths, faults, create)


def check_file(ctx):
    comp.check(ctx, 'file', 'FileTrace', file_gen(ctx, ctx.pick(3, 5)) + file_gen(ctx, 14, ctx.pick(200, 4000)), per=300)
    rng = random.Random('file/%d' % ctx.seed)
    for _ in range(ctx.pick(1, 20)):
        comp.check(ctx, 'file', 'FileTrace', [file_random(rng) for _ in range(2000)], per=60)


# ------------------------------------------------------------------ sdr-server
POSITIVE = '00020000000005'


def sdr_lines(rng, cf, off, sf, timeout, maxlen, cap, listening, script, threads, faults=()):
    def b4(v):
        return [((v % (1 << 32)) >> s) & 255 for s in (24, 16, 8, 0)]
    prompt, gap, n, total = True, 0, 0, 0
    for op in script:
        if op.startswith('s:'):
            total += int(op[2:])
            if n < 7:
                gap += int(op[2:])
        elif op.startswith('ans:'):
            if n < 7 and gap >= timeout * 1000 - 20:
                prompt = False
            n += len(op[4:]) // 2
            gap = 0
        elif op in ('fin', 'rst', 'shut') and n < 7:
            prompt = False
    begin = dict(band=b4(cf), offset=b4(off), rate=b4(sf), max=maxlen, timeout=timeout * 1000, listening=listening and not faults, prompt=prompt, steady=total)
    lines = ['sdr %d %d %d %d %d %d %d' % (cf, off, sf, timeout, maxlen, cap, listening)]
    lines += ['fault %s %d %d' % f for f in faults] + ['s ' + ' '.join(script)] + ['t ' + ' '.join(t) for t in threads]
    return Case(begin, lines)


def sdr_gen(ctx, length, simulate=None):
    """behaviours of the server generated by the specification"""
    res = []
    rng = random.Random('sdrgen/%d' % ctx.seed)
    for h in comp.gen(ctx, 'SdrGen', simulate, env={'L': str(length)}, depth=length + 3):
        script = ['req']
        for o, n in h:
            script.append({'a': 'ans:' + POSITIVE[:2 * n] if not any(x.startswith('ans') for x in script) else 'ans:' + POSITIVE[14 - 2 * n:], 'b': 'b:%d' % n, 's': 's:%d' % n, 'fin': 'fin', 'rst': 'rst'}[o])
        res.append(sdr_lines(rng, 437000000, 3000, 48000, 1, 3, 65536, True, script, [['drain']]))
    return res


def sdr_random(rng):
    big = 0xffffffff
    cf = rng.choice([437000000, 145900000, big, 1, rng.randint(1, big)])
    off = rng.choice([0, 0, 1000, -1000, rng.randint(-cf, big - cf)])
    off = max(-cf, min(off, big - cf))
    sf = rng.choice([48000, 96000, big, 1, rng.randint(1, big)])
    timeout = rng.choice([1, 2, 5])
    T = timeout * 1000
    maxlen = rng.choice([1, 2, 3, 7, 16, 100])
    faults = []
    if rng.random() < 0.06:
        faults = [(rng.choice(['socket', 'setsockopt', 'connect']), 1, 1)]
    listening = rng.random() < 0.97
    script = []

    def pause(p):
        if rng.random() < p:
            script.append('s:%d' % rng.choice([1, 50, T - 200, T - 200, T + 500, 3 * T]))
    script.append('req')
    pause(0.2)
    q = rng.random()
    if q < 0.72:
        ans = '000200%08x' % rng.choice([0, 1, big, rng.randint(0, big)])
    else:
        ans = rng.choice(['00020100000003', '000201ffffffff', '0002ff00000000', '00020200000000', '01020000000000', '00000000000000', '00010000000000', '00030000000000', 'ffffffffffffff', '0002', '000200', '00020000', '000200000000', ''])
    while ans:
        k = 2 * rng.choice([1, 2, 3, 7, 7, 7, 7])
        script.append('ans:' + ans[:k])
        ans = ans[k:]
        if ans:
            pause(0.3)
    for _ in range(rng.randint(0, 10) if sum(len(x) - 4 for x in script if x.startswith('ans:')) == 14 else 0):
        pause(0.35)
        script.append('b:%d' % rng.choice([1, 3, 4, 7, 8, 9, 8 * maxlen - 1, 8 * maxlen, 8 * maxlen + 1, 16 * maxlen, rng.randint(1, 40 * maxlen), rng.randint(1, 200)]))
    pause(0.3)
    e = rng.random()
    stop = rng.random() < 0.5
    script.append(rng.choice(['fin', 'fin', 'rst', 'shut']) if not stop or e < 0.3 else 'wait' if e < 0.65 else 'bye')
    if script[-1] == 'shut':
        script.append('wait')

    def delay():
        return ['%s:%d' % rng.choice([('y', 3), ('y', 30), ('s', 10), ('s', 700), ('s', 3000)])] if rng.random() < 0.6 else []
    ths = [delay() + rng.choice([['drain'], ['drain'], ['drain', 'rx']])]
    if stop:
        if rng.random() < 0.15:
            ths[0] = ['stop', 'rx']
        else:
            ths.append(delay() + delay() + ['stop'] + (['stop'] if rng.random() < 0.1 else []))
    return sdr_lines(rng, cf, off, sf, timeout, maxlen, 1 << 20 if stop else rng.choice([8, 64, 1024, 65536]), listening, script, ths, faults)


def check_sdr(ctx):
    comp.check(ctx, 'sdr', 'SdrTrace', sdr_gen(ctx, ctx.pick(3, 4)) + sdr_gen(ctx, 12, ctx.pick(300, 4000)), per=100)
    rng = random.Random('sdr/%d' % ctx.seed)
    for _ in range(ctx.pick(1, 20)):
        comp.check(ctx, 'sdr', 'SdrTrace', [sdr_random(rng) for _ in range(2500)], per=60)


# ------------------------------------------------------------------ configuration
SETTINGS = ['bind_address', 'port', 'read_timeout_seconds', 'buffer_size', 'queue_size', 'base_path', 'rx_sdr_type', 'tx_sdr_type', 'rx_sdr_server_address',
            'rx_sdr_server_port', 'rx_file_base_path', 'tx_file_base_path', 'tx_plutosdr_gain', 'rx_plutosdr_gain', 'tx_plutosdr_timeout_millis']
NUMBERS = ['port', 'read_timeout_seconds', 'buffer_size', 'queue_size', 'rx_sdr_server_port', 'tx_plutosdr_gain', 'rx_plutosdr_gain', 'tx_plutosdr_timeout_millis']
STRINGS = ['bind_address', 'base_path', 'rx_sdr_server_address', 'rx_file_base_path', 'tx_file_base_path']
STRING_CHARS = 'abcXYZ0189/._-: ;#=*()[]{},%\'$~@'
BIG = [0, 1 << 32, (1 << 32) + 8091, -(1 << 32) + 5]


def config_case(rng, values, extra=(), readable=True, tmpdir=None, broken=None):
    c = {n: dict(t='none', i=0, s='') for n in SETTINGS}
    lines = []
    for n, v in values:
        c[n] = v
        t = v['t']
        if t == 'int':
            x = str(v['i']) if rng.random() < 0.8 or v['i'] < 0 else hex(v['i'])
        elif t == 'big':
            x = '%dL' % BIG[v['i']]
        elif t == 'float':
            x = '%.2f' % (v['i'] / 100)
        elif t == 'bool':
            x = rng.choice(['true', 'false'])
        elif t == 'group':
            x = rng.choice(['{ a = 1; }', '[1, 2]', '(1, "a")'])
        else:
            x = '"%s"' % v['s']
        lines.append(' %s%s%s%s' % (n, rng.choice(['=', ' = ', ': ']), x, rng.choice(['', ';'])))
    if broken:
        lines.insert(rng.randint(0, len(lines)), ' ' + broken)
    if tmpdir:
        lines.append('tmpdir ' + tmpdir)
    return Case(dict(c=c, folder=tmpdir or '/tmp', readable=readable and not broken), lines + list(extra) + ([] if readable else ['missing']))


def config_gen(ctx, length, simulate=None):
    rng = random.Random('cfg/%d' % ctx.seed)
    res = []
    for vs in comp.gen(ctx, 'ConfigGen', simulate, env={'L': str(length)}, depth=length + 2, record=True):
        if len(vs) == 2 and vs[0][0] > vs[1][0]:
            continue
        vs = [(n, v) for n, v in vs]
        q = rng.random()
        if q < 0.02:
            res.append(config_case(rng, vs, readable=False))
        elif q < 0.04:
            res.append(config_case(rng, vs, broken=rng.choice(['port=', '"a"', 'x=1 y', '{', 'port="a', '@include "nofile"'])))
        elif q < 0.12:
            res.append(config_case(rng, vs, extra=['fault iio_lib 1 1']))
        else:
            rng.shuffle(vs)
            res.append(config_case(rng, vs, tmpdir=rng.choice([None, None, '/var/x'])))
    return res


def check_config(ctx):
    single = config_gen(ctx, 1)
    comp.check(ctx, 'config', 'ConfigTrace', single + config_gen(ctx, 2), per=400)
    # many settings at once, most of them are correct
    pool = {}
    for c in single:
        for n, v in c.begin['c'].items():
            if v['t'] != 'none':
                pool.setdefault(n, []).append(v)
    good = {n: [v for v in vs if v['t'] not in ('bool', 'group', 'big') and (v['t'] == 'str') == (n not in NUMBERS) and (v['t'] != 'float' or 'gain' in n) and (n not in NUMBERS or 'gain' in n or 1 <= v['i'] <= 65535)
                and ('type' not in n or v['s'] in ('sdr-server', 'plutosdr', 'file', 'none'))] for n, vs in pool.items()}
    good['rx_sdr_type'] = [v for v in good['rx_sdr_type'] if v['s'] != 'none']
    good['tx_sdr_type'] = [v for v in good['tx_sdr_type'] if v['s'] != 'sdr-server']
    rng = random.Random('config/%d' % ctx.seed)
    for _ in range(ctx.pick(1, 20)):
        cases = []
        for _ in range(3000):
            vs = []
            for n in SETTINGS:
                q = rng.random()
                if q < 0.015:
                    vs.append((n, rng.choice(pool[n])))
                elif q < 0.7:
                    vs.append((n, dict(t='int', i=rng.randint(1, 65535), s='')) if n in NUMBERS and rng.random() < 0.5 else (n, rng.choice(good[n])))
            if rng.random() < 0.2:
                # long strings of any characters
                vs = [(n, dict(t='str', i=0, s=''.join(rng.choice(STRING_CHARS) for _ in range(rng.choice([1, 79, 80, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 1100])))) if n in STRINGS and rng.random() < 0.6 else v) for n, v in vs]
            rng.shuffle(vs)
            cases.append(config_case(rng, vs, extra=['fault iio_lib 1 1'] if rng.random() < 0.05 else [], tmpdir=rng.choice([None, '/var/x'])))
        comp.check(ctx, 'config', 'ConfigTrace', cases, per=400)


# ------------------------------------------------------------------ PlutoSDR
RATES = dict(low=[0, 1, 520833, 48000], four=[520834, 600000, 1041666], two=[1041667, 2083333, 1500000], none=[2083334, 61440000, 3000000])


def pluto_cfg(rng, rate, simple=False):
    f = rng.choice([437000000, 70000000, 6000000000, 325000000, rng.randint(46000000, 6000000000)])
    r = rng.choice(RATES[rate])
    mode = rng.choice([0, 0, 0, 0, 1, 2, 3] + ([] if simple else [4]))
    return '%d,%d,%d,%d' % (f, r, mode, rng.randint(-356, 284))


def pluto_create(rng, s, kind, rate, simple=True):
    def one(d):
        # only one of two directions has the bad rate
        return pluto_cfg(rng, rate if kind != 'both' or rate != 'low' else rng.choice(['low', 'low', 'four']), simple) if kind in (d, 'both') else '-'
    a, b = one('rx'), one('tx')
    if kind == 'both' and rate == 'low':
        a = pluto_cfg(rng, 'low', simple)
        if rng.random() < 0.5:
            a, b = b, a
    elif kind == 'both' and rng.random() < 0.4:
        b = pluto_cfg(rng, rng.choice(['four', 'two', 'none']), simple)
    return 'cr:%d:%d:%s:%s:%d:%d' % (s, rng.random() < 0.5, a, b, rng.choice([1000, 10000, 1, 60000]), rng.choice([1, 2, 3, 7, 16, 32]))


def pluto_case(rng, threads, faults=(), conc=False):
    lines = ['pluto %d %d' % (rng.choice([0, 0, 2, 3]), rng.choice([1000, 1000, 20, 0]))] + ['fault %s %d %d' % f for f in faults]
    return Case(dict(conc=conc), lines + ['t ' + ' '.join(t) for t in threads])


def pluto_ops(rng, h):
    res = []
    for o, s, kind, rate in h:
        res.append({'cr': lambda: pluto_create(rng, s, kind, rate), 'de': lambda: 'de:%d' % s, 'rx': lambda: 'rx:%d' % s, 'st': lambda: 'st:%d' % s,
                    'tx': lambda: 'tx:%d:%d' % (s, rng.choice([0, 1, 2, 15, 16, 17, 40]))}[o]())
    return res


def pluto_random(rng):
    if rng.random() < 0.4:
        # threads create and destroy their own devices at once
        ths = []
        for s, kind in rng.choice([((0, 'rx'), (1, 'tx')), ((0, 'rx'), (1, 'tx'), (2, 'bad'))]):
            t = []
            for _ in range(rng.randint(1, 3)):
                t += ['y:%d' % rng.choice([1, 3, 10])] if rng.random() < 0.4 else []
                t.append('cr:%d:0:-:-:10:10' % s if kind == 'bad' and rng.random() < 0.3 else pluto_create(rng, s, 'rx' if kind == 'bad' else kind, 'low' if kind == 'bad' or rng.random() < 0.15 else rng.choice(['four', 'two', 'none'])))
                if kind != 'bad':
                    t += rng.choice([[], ['%s:%d' % (kind, s) + (':5' if kind == 'tx' else '')]])
                    t += ['y:%d' % rng.choice([1, 3, 10])] if rng.random() < 0.4 else []
                    t.append('de:%d' % s)
            ths.append(t)
        faults = [(rng.choice(['iio_ctx', 'iio_scan', 'iio_list0', 'iio_list', 'iio_attr', 'iio_buf', 'iio_findchn', 'iio_timeout']), rng.randint(1, 5), rng.randint(1, 2))] if rng.random() < 0.5 else []
        return pluto_case(rng, ths, faults, True)
    open_, t = {}, []
    for _ in range(rng.randint(2, 14)):
        s = rng.choice([0, 1])
        q = rng.random()
        busy = set(d for k in open_.values() for d in (['rx', 'tx'] if k == 'both' else [k]))
        if s not in open_:
            kinds = [k for k in ('rx', 'tx', 'both') if not busy & set(['rx', 'tx'] if k == 'both' else [k])]
            if rng.random() < 0.03:
                t.append('cr:%d:0:-:-:10:10' % s)
            elif kinds:
                k, r = rng.choice(kinds), rng.choice(['low', 'four', 'four', 'two', 'two', 'none', 'none'])
                t.append(pluto_create(rng, s, k, r, simple=rng.random() < 0.8))
                open_[s] = k
        elif q < 0.3:
            t.append('de:%d' % s)
            del open_[s]
        elif q < 0.6:
            t.append('rx:%d' % s)
        elif q < 0.9:
            t.append('tx:%d:%d' % (s, rng.choice([0, 1, 2, 5, 16, 33, 64])))
        else:
            t.append('st:%d' % s)
    faults = []
    if rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2])):
            n = rng.choice(PLUTO_FAULTS)
            faults.append((n, 1, 100000) if ':' in n else (n, rng.randint(1, 30 if n in ('iio_attr', 'iio_findchn') else 6), rng.choice([1, 1, 2, 5])))
    return pluto_case(rng, [t], faults)


PLUTO_FAULTS = ['iio_attr', 'iio_findchn', 'iio_no:ad9361-phy', 'iio_no:cf-ad9361-lpc', 'iio_no:cf-ad9361-dds-core-lpc', 'iio_ctx', 'iio_scan', 'iio_list', 'iio_list0', 'iio_timeout', 'iio_raw', 'iio_buf', 'iio_push', 'iio_refill']


def pluto_faults(rng, full):
    """each libiio call of the history fails once, then the same is opened again"""
    base = [[('cr', 0, 'rx', 'two'), ('cr', 1, 'tx', 'two'), ('de', 0, '', ''), ('cr', 0, 'rx', 'four'), ('tx', 1, '', ''), ('de', 1, '', ''), ('cr', 1, 'tx', 'none')],
            [('cr', 0, 'tx', 'four'), ('cr', 1, 'rx', 'none'), ('de', 0, '', ''), ('rx', 1, '', ''), ('cr', 0, 'tx', 'four')],
            [('cr', 0, 'both', 'none'), ('de', 0, '', ''), ('cr', 0, 'both', 'two'), ('rx', 0, '', ''), ('tx', 0, '', '')],
            [('cr', 0, 'rx', 'low'), ('cr', 0, 'rx', 'none'), ('cr', 1, 'tx', 'low'), ('cr', 1, 'tx', 'none'), ('de', 0, '', ''), ('tx', 1, '', ''), ('cr', 0, 'rx', 'two')]]
    res = []
    for b in base:
        for n in PLUTO_FAULTS:
            for k in range(1, 61 if n in ('iio_attr', 'iio_findchn') else 2 if ':' in n else 5):
                for c in (100000,) if ':' in n else (1, 2) if full else (1,):
                    ops = pluto_ops(rng, b)
                    res.append(pluto_case(rng, [ops + ['de:0', 'de:1', pluto_create(rng, 0, 'rx', 'two'), pluto_create(rng, 1, 'tx', 'two'), 'rx:0', 'tx:1:9']], [(n, k, c)]))
    return res


def check_pluto(ctx):
    rng = random.Random('pluto/%d' % ctx.seed)
    cases = [pluto_case(rng, [pluto_ops(rng, h)]) for h in comp.gen(ctx, 'PlutoGen', env={'L': str(ctx.pick(3, 4))}, depth=10) + comp.gen(ctx, 'PlutoGen', ctx.pick(300, 4000), env={'L': '12'}, depth=14)]
    cases += pluto_faults(rng, ctx.thorough())
    comp.check(ctx, 'pluto', 'PlutoTrace', cases, per=200)
    for _ in range(ctx.pick(1, 20)):
        comp.check(ctx, 'pluto', 'PlutoTrace', [pluto_random(rng) for _ in range(2500)], per=100)


# ------------------------------------------------------------------ doppler
def doppler_gold():
    import json, os
    return json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'doppler_gold.json')))


def doppler_lines(g, m, tx, fs, fc, off, start, mx, ops, tle=None):
    return ['doppler %s %r %r %r %d %d %d %d %d' % ('tx' if tx else 'rx', *m['station'], fs, fc, off, start, mx)] + ['tle ' + x for x in (tle or g['sats'][m['sat']])] + ops


def doppler_case(rng, g, split=None):
    tx = rng.random() < 0.4
    fs = rng.choice([100, 252, 1000, 2400, 4800, 9600, 20000, 48000])
    m = rng.choice([x for x in g['marks'] if x['sat'] < 3 or rng.random() < 0.2])
    if rng.random() < 0.4:
        m = rng.choice([x for x in g['marks'] if x['kind'] == 'pass' and x['sat'] < 2])
    live = rng.random() < 0.15
    limit = max(1.0, min(100000.0, 150000 if fs <= 20000 else 200000) / fs)
    secs = int(min(17, max(2, limit)))
    off = rng.choice([0, 0, rng.randint(-fs // 5, fs // 5)])
    mxd = max(abs(v) for v in m['d'][:secs + 3]) / 10.0 / 1e9
    room = 0.42 * fs - abs(off)
    fc = int(min(room / (mxd if not live else 3.7e-5), 2.4e9))
    if rng.random() < 0.3:
        fc = rng.randint(fc // 3, fc)
    total = secs * fs
    ops, sizes = [], []
    left = total
    if split:
        # in quarters of the second or around its borders
        exact = rng.random() < 0.5
        for k in split:
            sizes.append(k * fs // 4 if exact else {1: 1, 3: fs - 1, 4: fs, 5: fs + 1, 9: 2 * fs + 1}[k])
    else:
        mode = rng.choice(['const', 'random', 'border', 'small'])
        c = rng.randint(max(1, fs // 20), fs * 2)
        pos = 0
        while pos < total and len(sizes) < 150:
            if mode == 'const':
                n = c
            elif mode == 'random':
                n = rng.randint(1, max(1, 2 * fs))
            elif mode == 'small':
                n = rng.randint(1, max(2, fs // 8))
            else:
                rest = fs - pos % fs
                n = max(1, rng.choice([rest, rest - 1, rest + 1, rest + fs, rest // 2, 1, fs, 3 * fs]))
            sizes.append(n)
            pos += n
    # known shifts cover 20 seconds
    acc, keep = 0, []
    for n in sizes:
        if acc + n > 17 * fs or acc + n > 200000:
            break
        keep.append(n)
        acc += n
    sizes = keep or [1]
    mx = max(sizes) + rng.choice([0, 0, 1, fs])
    for n in sizes:
        if rng.random() < 0.04:
            ops.append(rng.choice(['null', 'empty', 'long', 'long %d' % fs]))
        if live and rng.random() < 0.3:
            ops.append('s %d' % rng.randint(1, 200000))
        ops.append('p %d' % n)
    start = 0 if live else m['start']
    tle, bad = None, False
    if rng.random() < 0.05:
        bad = True
        tle = [str(x) for x in g['sats'][m['sat']]]
        k = rng.choice([1, 2])
        q = rng.choice([i for i, ch in enumerate(tle[k]) if ch.isdigit()])
        tle[k] = tle[k][:q] + str((int(tle[k][q]) + rng.randint(1, 9)) % 10) + tle[k][q + 1:]
    gold = [] if live else [round(v * fc / 1e9) for v in m['d']]
    begin = dict(tx=tx, rate=fs, off=off, max=mx, batch=min(max(sizes), fs), bad=bad, gold=gold)
    return Case(begin, doppler_lines(g, m, tx, fs, fc, off, start, mx, ops, tle))


def check_doppler(ctx):
    vf.model_check(ctx, 'DopplerGen', 'DopplerGen_5.cfg')
    g = doppler_gold()
    rng = random.Random('doppler/%d' % ctx.seed)
    splits = [x[0] for x in comp.gen(ctx, 'DopplerGen')]
    if not ctx.thorough():
        splits = rng.sample(splits, 500)
    comp.check(ctx, 'doppler', 'DopplerTrace', [doppler_case(rng, g, s) for s in splits], per=40)
    for _ in range(ctx.pick(1, 15)):
        comp.check(ctx, 'doppler', 'DopplerTrace', [doppler_case(rng, g) for _ in range(1200)], per=40)


# ------------------------------------------------------------------ signal processing blocks
def splits(rng, n, mx, bad=True):
    """calls which consume n items"""
    ops, left = [], n
    mode = rng.choice(['one', 'max', 'random', 'random', 'mixed', 'all'])
    if mode == 'all' and n > mx:
        mode = 'max'
    while left > 0 and len(ops) < 400:
        m = {'one': 1, 'max': mx, 'all': n, 'random': rng.randint(1, mx), 'mixed': rng.choice([1, 1, 2, mx, rng.randint(1, mx)])}[mode]
        m = min(m, left, mx)
        ops.append('c %d' % m)
        left -= m
        if bad and rng.random() < 0.05:
            ops.append(rng.choice(['c 0', 'long %d' % (mx + rng.choice([1, 2, mx]))]))
    return ops


def block_case(rng, kind=None):
    kind = kind or rng.choice(['fir', 'fir', 'cfir', 'interp', 'dc', 'quad', 'fm', 'sig', 'mix', 'clock', 'gfsk', 'fsk', 'lpf', 'clpf'])
    mx = rng.choice([1, 2, 3, 5, 8, 16, 64])
    n = rng.randint(1, 60)
    a, taps, x, params, ok, tol = [0], [], [], [], True, 0
    bad = True
    if kind in ('fir', 'cfir', 'interp'):
        t = rng.choice([1, 2, 3, 4, 5, 8, 9, 13])
        taps = [rng.randint(-9, 9) for _ in range(t)]
        d = rng.choice([1, 1, 2, 3, 4, 5, t, t + 1]) if rng.random() < 0.97 else 0
        a = params = [d]
        ok = kind == 'interp' or 1 <= d <= t
        if kind == 'interp':
            a = params = [max(1, d)]
        x = [rng.randint(-50, 50) for _ in range(n * (2 if kind == 'cfir' else 1))]
    elif kind == 'dc':
        l = rng.choice([2, 3, 4, 5])
        a = params = [l]
        x = [rng.choice([10, -10, rng.randint(-20, 20)]) for _ in range(n)]
        tol, bad = 8, False
    elif kind == 'quad':
        g = rng.choice([1, 2])
        a = params = [g]
        ph = 0
        for _ in range(n):
            ph += rng.choice([0, 1, 2, 3, -1, -2, -3, 1, -1])
            x.append(ph % 8)
        tol = 2
    elif kind == 'fm':
        x = [rng.randint(-4, 4) for _ in range(n)]
        tol = 3
    elif kind in ('sig', 'mix'):
        a = [rng.choice([1, 2, 3]), 8 * rng.choice([1, 125, 1000, 6000])]
        params = a
        tol = 6
        if kind == 'mix':
            # the amplitude belongs to the signal source
            x = [rng.randint(-9, 9) for _ in range(2 * n)]
            tol = 100
    elif kind == 'clock':
        sps = rng.choice([1.25, 1.5, 2.0, 2.5, 4.0, 5.33, 10.0])
        params = [sps, sps * 3.14159 / 100, rng.choice([0.5, 0.1]), 0.0625, 0.01]
        n = rng.randint(1, 250)
        x = noisy(rng, n, sps)
        tol = 1
    elif kind == 'gfsk':
        sps = rng.choice([2, 3, 4, 5, 8, 10])
        a = [sps]
        params = [sps, rng.choice([0.3, 0.7, 1.5]), rng.choice([0.5, 0.3, 1.0])]
        n = rng.randint(1, 12)
        mx = rng.choice([1, 2, 3, 12])
        x = [rng.choice([0, 255, 0x55, rng.randint(0, 255)]) for _ in range(n)]
        tol = 2
    elif kind == 'fsk':
        baud = rng.choice([1200, 4800, 9600])
        dec = rng.choice([1, 1, 2, 3])
        fs = baud * dec * rng.choice([2, 4, 5])
        dev = min(rng.choice([baud // 2, baud, 5000]), (fs - baud) // 2 - 1)
        dev = max(dev, 100)
        params = [fs, baud, rng.choice([dev, -dev]), dec, rng.choice([baud // 2, 2000]), rng.randint(0, 1)]
        n = rng.randint(1, 400)
        import math
        ph = 0.0
        sps = fs / baud
        bits = [rng.randint(0, 1) for _ in range(int(n / sps) + 2)]
        for k in range(n):
            ph += 2 * math.pi * dev / fs * (1 if bits[int(k / sps)] else -1)
            x += [round(1000 * math.cos(ph) + rng.gauss(0, 30)), round(1000 * math.sin(ph) + rng.gauss(0, 30))]
        tol = 1
        mx = rng.choice([1, 3, 16, 64, 400])
    elif kind in ('lpf', 'clpf'):
        d = rng.choice([1, 1, 2, 3, 7])
        fs = 48000
        a, params = [d], [d, fs, rng.choice([2400, 5000, 12000]), rng.choice([2000, 5000, 9000])]
        n = rng.randint(1, 300)
        x = [rng.randint(-1000, 1000) for _ in range(n * (2 if kind == 'clpf' else 1))]
        tol = 1
        ok = True
    lines = ['block %s %d %s' % (kind, mx, ' '.join(repr(float(v)) if kind in ('clock', 'gfsk') else str(v) for v in params))]
    if kind in ('fir', 'cfir', 'interp'):
        lines.append('taps ' + ' '.join(map(str, taps)))
    if x:
        lines.append('x ' + ' '.join(map(str, x)))
    if kind in ('clock', 'gfsk', 'fsk', 'lpf', 'clpf') and ok:
        lines.append('ref')
    ops = splits(rng, n, mx, bad)
    if kind in ('sig', 'mix'):
        f = 0
        out = []
        for o in ops:
            if rng.random() < 0.3:
                f = rng.choice([0, 1, -1, 2, -2, 3, -3, 8, -8, 4])
            out.append(o + ' %d' % f if o.startswith('c ') else o)
        ops = out
        if kind == 'sig':
            ops = [o for o in ops if True]
    begin = dict(kind=kind, max=mx, a=a, taps=taps, x=x if kind in ('fir', 'cfir', 'interp', 'dc', 'quad', 'fm', 'mix') else [0] * len(x), ok=ok, tol=tol, bits=[])
    return Case(begin, lines + ops)


def noisy(rng, n, sps):
    bits = [rng.choice([-1, 1]) for _ in range(int(n / sps) + 3)]
    amp = rng.choice([300, 1000, 3000])
    off = rng.random()
    return [round(amp * bits[int(k / sps + off)] + rng.gauss(0, amp / 8)) for k in range(n)]


def check_blocks(ctx):
    rng = random.Random('blocks/%d' % ctx.seed)
    for _ in range(ctx.pick(1, 20)):
        comp.check(ctx, 'block', 'BlockTrace', [block_case(rng) for _ in range(4000)], per=60)


# ------------------------------------------------------------------ signal path
def loop_case(rng):
    baud = rng.choice([1200, 2400, 4800, 9600, 19200])
    dec = rng.choice([1, 1, 2, 3])
    sps = dec * rng.choice([2, 3, 4, 5, 8, 10])
    fs = baud * sps
    dev = rng.choice([baud // 4, baud // 2, baud, baud * 5 // 4])
    carson = dev + baud // 2
    if carson > fs * 0.45:
        dev = max(baud // 4, int(fs * 0.45) - baud // 2)
    if rng.random() < 0.2:
        dev = -dev
    # the filter of the symbols should not reach the half of the rate
    tw = rng.choice([baud // 4, baud // 2, 2000])
    tw = min(tw, fs // 4)
    dc = rng.random() < 0.4
    n = rng.choice([1, 3, 10, 40, 100])
    data = []
    kind = rng.choice(['random', 'random', 'random', 'text', 'counter'])
    for k in range(n):
        data.append(rng.randint(0, 255) if kind == 'random' else 0x55 ^ (k & 255) if kind == 'counter' else rng.randint(32, 126))
    balanced = [b for b in range(256) if bin(b).count('1') == 4]
    if dc:
        # long term imbalance is removed by the dc blocker together with the signal
        data = [rng.choice(balanced) for _ in data]
    # the clock is synchronized by the preamble, filters are flushed by the tail
    pre = [0xAA] * 24 + [rng.choice(balanced) for _ in range(12)]
    post = [rng.choice(balanced) for _ in range(28)]
    allb = pre + data + post
    bits = [(b >> (7 - k)) & 1 for b in allb for k in range(8)]
    foff = 0
    if dc and rng.random() < 0.5:
        foff = int(abs(dev) * rng.uniform(-0.05, 0.05))
    p = [fs, baud, dev, dec, tw, int(dc), rng.choice([1, 2, 7, 64, 2048]), rng.choice([1, 5, 64, 1000, 4096]), rng.choice([0, 0, 20, 50]), rng.choice([1000, 1000, 50, 20000]), foff, rng.randint(1, 1 << 30), rng.choice([0, 0, 1, 37])]
    begin = dict(kind='loop', bits=bits, first=len(pre) * 8, count=n * 8, sps=sps, samples=len(bits) * sps + p[12], params=p)
    return Case(begin, ['loop ' + ' '.join(map(str, p)), 'b ' + ' '.join(map(str, allb))])


def tone_case(rng):
    cx = rng.random() < 0.6
    fs = rng.choice([9600, 48000, 240000])
    dec = rng.choice([1, 1, 2, 3, 5])
    cutoff = rng.randint(fs // 40, fs * 2 // 5)
    tw = rng.randint(max(1, fs // 60), max(2, min(cutoff, fs // 2 - cutoff, fs // 8)))
    q = rng.random()
    f = rng.randint(0, max(0, cutoff - tw)) if q < 0.5 else rng.randint(min(cutoff + tw, fs // 2), fs // 2)
    if cx and rng.random() < 0.5:
        f = -f
    if not cx and (f < fs // 100 or f > fs * 49 // 100 or any(abs(2 * f * dec % fs - e) < fs // 20 for e in (0, fs))):
        # rms of the short real tone should be close to its amplitude
        cx = True
    begin = dict(kind='tone', cutoff=cutoff, tw=tw, f=abs(f), params=[], bits=[], first=0, count=0, sps=1, samples=0)
    return Case(begin, ['tone %d %d %d %d %d %d %d' % (cx, dec, fs, cutoff, tw, f, rng.choice([1, 16, 1000]))])


def mmse_case(rng):
    c, a, b = rng.randint(-9, 9), rng.randint(-200, 200), rng.randint(-1000, 1000)
    n = 24
    x = [c * k * k + a * k + b for k in range(n)]
    begin = dict(kind='mmse', c=c, a=a, b=b, params=[], bits=[], first=0, count=0, sps=1, samples=0)
    return Case(begin, ['mmse ' + ' '.join(map(str, x))] + ['m %d %d %d' % (rng.randint(0, n - 8), rng.choice([0, 1000, 500, rng.randint(0, 1000)]), rng.randint(0, 3)) for _ in range(10)])


def check_signal(ctx):
    rng = random.Random('signal/%d' % ctx.seed)
    for _ in range(ctx.pick(1, 20)):
        comp.check(ctx, 'block', 'SignalTrace', [loop_case(rng) for _ in range(700)] + [tone_case(rng) for _ in range(600)] + [mmse_case(rng) for _ in range(200)], per=40)
