#!/usr/bin/env python3
"""Writes lib/doppler_gold.json: satellites, moments of interest, shifts of 1 GHz (x10 Hz) at these moments.
usage: mkdoppler.py <simmodem built from the original sources>"""
import json, subprocess, sys, tempfile, os
def tle(name, l1, l2):
    def ck(s):
        s = s.ljust(68)[:68]
        return s + str(sum(int(c) if c.isdigit() else 1 if c == '-' else 0 for c in s) % 10)
    return [name, ck(l1), ck(l2)]
SATS = [
    tle('LUCKY-7', '1 44406U 19038W   20069.88080907  .00000505  00000-0  32890-4 0  999', '2 44406  97.5270  32.5584 0026284 107.4758 252.9348 15.12089395 3752'),
    tle('ISS (ZARYA) [+]', '1 25544U 98067A   20069.51782528  .00001264  00000-0  29621-4 0  999', '2 25544  51.6465 124.9360 0005142 342.0810 125.4470 15.4927655421670'),
    tle('MOLNIYA 1-93', '1 28163U 04005A   20069.12345678 -.00000012  00000-0  10000-3 0  999', '2 28163  64.1480  40.1230 6877290 271.4420  17.2390  2.0062130112150'),
    tle('GEO', '1 36499U 10011A   20069.40000000 -.00000082  00000-0  00000-0 0  999', '2 36499   0.0480 270.1000 0002400 120.5000 100.1000  1.0027110034500'),
]
STATIONS = [(53.72, 47.57, 0.0), (-33.9, -70.5, 0.5), (0.0, 179.99, 0.0), (78.2, 15.4, 0.45)]
# 2020-03-10, a leap day, the end of a year
T0 = 1583841600
def run(cases):
    with tempfile.TemporaryDirectory() as d:
        lines = ['seed 1', 'strategy mix']
        for k, (s, st, t, fc, n) in enumerate(cases):
            lines += ['case %d "a":1' % k, 'doppler rx %r %r %r 1 %d 0 %d 1' % (*st, fc, t)] + ['tle ' + x for x in s] + ['p 1'] * n
        open(d + '/c', 'w').write('\n'.join(lines) + '\n')
        subprocess.run([sys.argv[1], 'doppler', d + '/c', d + '/o'], check=True)
        res = []
        for l in open(d + '/o'):
            e = json.loads(l)
            if e['ev'] == 'begin': res.append(None)
            elif e['ev'] == 'ref': res[-1] = e['d']
        return res
out = []
for si, s in enumerate(SATS):
    for st in STATIONS:
        # approach: the fastest change of the shift during two days
        grid = list(range(T0, T0 + 2 * 86400, 30))
        r = run([(s, st, t, 10**9, 1) for t in grid])
        best = sorted(range(len(grid) - 1), key=lambda k: r[k + 1][0] - r[k][0], reverse=True)[:1]
        t = grid[best[0]]
        marks = [('pass', t), ('day', T0 - 3 + 86400), ('leapday', 1582934398), ('newyear', 1577836797), ('any', T0 + 12345)]
        for kind, t in marks:
            d = run([(s, st, t, 10**9, 20)])[0]
            out.append(dict(sat=si, kind=kind, station=st, start=t, d=d))
json.dump(dict(sats=SATS, marks=out), open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib/doppler_gold.json'), 'w'), indent=0)
for o in out: print(o['sat'], o['kind'], o['station'], o['start'], o['d'][:3], o['d'][1]-o['d'][0])
