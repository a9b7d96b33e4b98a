"""One function for each property."""
import random
import vf, scen, modem
import components

SCALE = 1.0


def families(ctx, spec, filt=None):
    """spec: list of (family, number of scenarios in the quick tier)"""
    for name, n in spec:
        n = int(ctx.pick(n, n * 20) * SCALE)
        gen = getattr(scen, name)
        rng = random.Random('%s/%s/%d' % (ctx.prop, name, ctx.seed))
        done = 0
        while done < n and len(ctx.violations) < 3:
            k = min(1500, n - done)
            modem.check_scenarios(ctx, [gen(rng) for _ in range(k)], filt=filt)
            done += k
        ctx.notes.setdefault('scenarios', {})[name] = done
        ctx.log('family', name, done, 'scenarios')


def steps(ctx, spec):
    """spec: list of (rx, tx, kinds of the requests, number of scenarios in the quick tier): all short histories of the
    specification (sampled in the quick tier) and some longer ones"""
    import comp
    for rx, tx, kinds, n in spec:
        rng = random.Random('%s/%s/%s/%s/%d' % (ctx.prop, rx, tx, kinds, ctx.seed))
        hs = []
        for sim, l, nc, k in ((None, 4, 2, 2), (n * 2, 7, 3, 1), (n * 2, 12, 4, 1)):
            x = comp.gen(ctx, 'ModemGen', sim if not ctx.thorough() or sim is None else sim * 10, env=dict(L=str(l), NC=str(nc), KINDS=kinds), depth=l + 2, timeout=600)
            rng.shuffle(x)
            hs += x[:int(ctx.pick(n * k / 4, 100000) * SCALE)]
        for k in range(0, len(hs), 1500):
            modem.check_scenarios(ctx, [scen.from_history(rng, h, rx, tx) for h in hs[k:k + 1500]])
            if len(ctx.violations) >= 3:
                return
        ctx.notes.setdefault('scenarios', {})['ModemGen %s %s %s' % (rx, tx, kinds)] = len(hs)
        ctx.log('ModemGen', rx, tx, kinds, len(hs), 'histories')


def steps_check(*spec):
    return lambda ctx: steps(ctx, spec)


def modem_check(*spec):
    return lambda ctx: families(ctx, spec)


def both(*fs):
    def run(ctx):
        for f in fs:
            f(ctx)
    return run


def model(*names, deep=(), bugs=()):
    """thread level model of the server: the mechanisms are right, the defects introduced into the model are visible"""
    def run(ctx):
        import comp
        comp.models(ctx, *[('ModemImpl', 'ModemImpl_' + n) for n in names + (tuple(deep) if ctx.thorough() else ())], timeout=3000)
        comp.model_bugs(ctx, *[('ModemImpl', 'ModemImpl_bug_' + n) for n in bugs])
    return run


SDR, SDRTX = ('sdr', 'none', 'abx'), ('sdr', 'file', 'atp')
PLUTO, FILES = ('pluto', 'pluto', 'atx'), ('file', 'file', 'atx')
REGISTRY = {
    'C01': components.check_queue,
    'C21': components.check_signal,
    'C17': both(components.check_file, modem_check(('gen_file', 500))),
    'C18': both(components.check_sdr, modem_check(('gen_rx', 600))),
    'C13': components.check_config,
    'C12': both(model('tr_pluto', 'pp_stop'), components.check_pluto, modem_check(('gen_pluto', 500), ('gen_mix', 300)), steps_check(PLUTO + (300,))),
    'C20': both(components.check_pluto, modem_check(('gen_pluto', 700))),
    'C14': components.check_blocks,
    'C15': both(components.check_doppler, modem_check(('gen_file', 300))),
    'C16': components.check_list,
    'C02': both(model('tt_close', 'ttt', 'pp_close', 'tr_pluto', bugs=['close_first', 'close_first_rx']),
                modem_check(('gen_tx', 800), ('gen_mix', 600), ('gen_pluto', 400)), steps_check(PLUTO + (300,), SDRTX + (200,))),
    'C03': both(model('rs_close', 'rr_stop', deep=['rr_close', 'rr_close_eof', 'rr_bye_eof', 'rr_eof2'], bugs=['no_lock', 'late_forget']),
                modem_check(('gen_rx', 1300), ('gen_mix', 300)), steps_check(SDR + (500,))),
    'C04': both(model('rr_stop', 'pp_close', deep=['rr_eof2', 'rr_close_eof', 'rr_close'], bugs=['no_wait', 'no_pill', 'pill_first']),
                modem_check(('gen_rx', 1300), ('gen_mix', 300), ('gen_file', 400)), steps_check(SDR + (300,))),
    'C05': both(model('pbr', 'rs_close', deep=['rr_close', 'rr_bye_eof'], bugs=['late_forget']), modem_check(('gen_mix', 1400), ('gen_file', 300)), steps_check(SDR + (200,), SDRTX + (300,))),
    'C06': both(model('pbr', 'tt_close', bugs=['close_first']), modem_check(('gen_mix', 900), ('gen_tx', 500), ('gen_rx', 500), ('gen_requests', 200)), steps_check(SDRTX + (300,))),
    'C07': modem_check(('gen_requests', 1500),),
    'C08': both(modem_check(('gen_tx', 1000), ('gen_mix', 700)), steps_check(SDRTX + (300,))),
    'C09': modem_check(('gen_tx', 1400), ('gen_pluto', 300), ('gen_file', 300)),
    'C10': both(model('pbr', 'pp_stop', 'tt_stop', 'rr_close_stop'), modem_check(('gen_mix', 1200), ('gen_rx', 500), ('gen_tx', 400), ('gen_file', 300), ('gen_pluto', 400)), steps_check(PLUTO + (200,), SDR + (200,))),
    'C11': both(model('rr_stop', 'tt_stop', 'pp_stop', 'rr_close_stop', deep=['rr_eof_stop']), modem_check(('gen_mix', 1200), ('gen_rx', 400), ('gen_file', 300)), steps_check(SDRTX + (300,), FILES + (200,))),
    'C19': both(model('rr_stop', deep=['rr_eof_stop', 'rr_eof2'], bugs=['no_join']), modem_check(('gen_rx', 800), ('gen_mix', 600), ('gen_file', 500)), steps_check(SDR + (300,))),
}
TECHNIQUE = {}
NOTES = {}
