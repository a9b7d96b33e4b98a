"""Scenarios for the whole modem."""
import json, copy
import pb

RXDEF = dict(cf=437000000, sf=48000, baud=4800, dec=2, dev=5000, tw=2000, dc=0, off=0, dest=0, dump=True)
TXDEF = dict(cf=437000000, sf=48000, baud=4800, dev=5000, off=0, dump=True)


class Scen:
    def __init__(self, rng, rx='sdr', tx='none', over=False, **conf):
        self.rng = rng
        self.rx, self.tx, self.over = rx, tx, over
        addrs, ports = ['127.0.0.1', '127.0.0.1'], [8091, 8090]
        if rng.random() < 0.3:
            addrs = [rng.choice(['127.0.0.1', '127.0.0.2', '0.0.0.0', '10.1.2.3']), rng.choice(['127.0.0.3', '192.168.0.255', '10.200.1.2'])]
            ports = [rng.choice([8091, 1025, 65535, 32768]), rng.choice([8090, 1026, 65534, 8091])]
        self.conf = dict(bind_address='"%s"' % addrs[0], port=ports[0], read_timeout_seconds=2, buffer_size=64, queue_size=512, base_path='"@B@"',
                         rx_sdr_type={'sdr': '"sdr-server"', 'pluto': '"plutosdr"', 'file': '"file"'}[rx],
                         tx_sdr_type={'none': '"none"', 'file': '"file"', 'pluto': '"plutosdr"'}[tx])
        if rx == 'sdr':
            self.conf.update(rx_sdr_server_address='"%s"' % addrs[1], rx_sdr_server_port=ports[1])
        self.conf.update(conf)
        self.head = ['addrs %s %s' % ('127.0.0.1' if addrs[0] == '0.0.0.0' else addrs[0], addrs[1]), 'ports %d %d' % tuple(ports)]
        self.actors = []
        self.ncid = 0
        self.faults = []
        self.strategy = rng.choice(['mix', 'mix', 'mix', 'rand', 'pct'])
        self.seed = rng.randrange(1, 1 << 30)
        self.cap = 1024
        self.iiorx = 512
        self.note = ''

    def cid(self):
        self.ncid += 1
        return self.ncid

    def actor(self, kind, name):
        a = Actor(self, kind, name)
        self.actors.append(a)
        return a

    def fault(self, name, nth=1, count=1):
        self.faults.append((name, nth, count))

    def config_text(self):
        return ''.join('%s=%s\n' % (k, v) for k, v in self.conf.items())

    def text(self):
        out = ['seed %d' % self.seed, 'strategy ' + self.strategy, 'config @B@/modem.conf', 'base @B@', 'cap %d' % self.cap, 'iiorx %d' % self.iiorx]
        out += self.head
        out += ['fault %s %d %d' % f for f in self.faults]
        for a in self.actors:
            out.append('actor %s %s' % (a.kind, a.name))
            out += [' ' + l for l in a.lines]
        return '\n'.join(out) + '\n'

    def cfg(self):
        return dict(rx=self.rx, tx=self.tx, over=self.over, timeout=self.conf.get('tx_plutosdr_timeout_millis', 10000))


class Actor:
    def __init__(self, s, kind, name):
        self.s, self.kind, self.name = s, kind, name
        self.lines = []

    def add(self, *ls):
        self.lines += ls
        return self

    def meta(self, **f):
        return self.add('meta ' + json.dumps(f)[1:-1])

    def connect(self, c=None):
        self.c = c if c is not None else self.s.cid()
        self.add('connect %d' % self.c)
        return self.c

    def send(self, data, pieces=1, gap=0):
        return self.add('send %s %d %d' % (data.hex() or '-', pieces, gap))

    def creq(self, kind, exp, r=None, c=None):
        r = r or {}
        c = self.c if c is None else c
        sps = r.get('sf', 1) // max(1, r.get('baud', 1)) if kind == 'tx' else 1
        k = (r['cf'], r['cf'] + r.get('off', 0), r['sf']) if kind == 'rx' and exp != 'invalid' else (0, 0, 0)
        radio = {}
        if exp == 'ok' and kind in ('rx', 'tx') and getattr(self.s, kind) == 'pluto':
            f = r['cf'] + (r.get('off', 0) if kind == 'rx' else 0)
            radio = dict(radio=[f // 1000000, f % 1000000, r['sf'] // 1000000, r['sf'] % 1000000, 0, int(float(self.s.conf.get(kind + '_plutosdr_gain', 0)) * 100)])
        return self.meta(ev='creq', c=c, kind=kind, exp=exp, **radio, band=k[0], center=k[1], rate=k[2], sps=sps, dump=bool(r.get('dump', False)), dest=r.get('dest', 0))

    def split(self, n):
        """random split of the message into segments"""
        rng = self.s.rng
        if rng.random() < 0.5:
            return 1, 0
        return rng.randint(2, 5), rng.choice([0, 0, 50, 300])

    def rx(self, exp='ok', pieces=None, **kw):
        r = dict(RXDEF)
        if self.s.rx == 'pluto':
            r.update(cf=437000000 + self.c, sf=600000, baud=60000, tw=20000, dev=50000)
        if self.s.rx == 'file':
            r.update(file=dict(filename='rxd%d' % self.c))
        r.update(kw)
        self.s.head.append('rxparam %d %d %d %d %d %d %d %s %d %d' % (self.c, r['sf'], r['baud'], r['dev'], r['dec'], r['tw'], r['dc'], self.s.conf['buffer_size'], 1 if r['dump'] else 0, r['dest']))
        self.doppler(r)
        if self.s.rx == 'file' and r.get('off', 0) != 0:
            self.s.head.append('rxoff %d %d' % (self.c, r['off']))
        self.creq('rx', exp, r)
        body = pb.message(pb.RX, pb.rx_request(r))
        p, g = pieces or self.split(len(body))
        return self.send(body, p, g)

    def tx(self, exp='ok', pieces=None, **kw):
        r = dict(TXDEF)
        f = '-'
        if self.s.tx == 'pluto':
            r.update(cf=437000000 + self.c, sf=600000, baud=60000, dev=50000)
        if self.s.tx == 'file':
            r.update(file=dict(filename='txd%d' % self.c))
            f = 'txd%d' % self.c
        r.update(kw)
        self.s.head.append('txparam %d %d %d %d %d %d %s' % (self.c, r['sf'], r['baud'], r['dev'], r['off'], 1 if r['dump'] else 0, f))
        self.doppler(r)
        self.creq('tx', exp, r)
        body = pb.message(pb.TX, pb.tx_request(r))
        p, g = pieces or self.split(len(body))
        return self.send(body, p, g)

    def doppler(self, r):
        """correction is requested: r['start'] is the time of its beginning"""
        if 'start' in r:
            r['doppler'] = dict(tle=TLE, lat=0, lon=0, alt=0)
            r['file'] = dict(r['file'], start=r['start'])
            self.s.head.append('dopp %d %d %d %d' % (self.c, r['cf'], r['start'], self.s.conf['buffer_size']))

    def bye(self):
        return self.meta(ev='cbye', c=self.c).send(pb.message(pb.SHUTDOWN))

    def ping(self):
        return self.creq('ping', 'ping').send(pb.message(pb.PING))

    def txdata(self, data, pieces=1, gap=0):
        # some messages have the size around the limit
        pad = self.s.rng.choice([32768, 32768, 32767, 1 << 14, 300, 20000]) if self.s.rng.random() < 0.08 else 0
        return self.add('txdata %s %d %d %d' % (data.hex() or '-', pieces, gap, pad))

    def badtx(self, data):
        return self.meta(ev='cbadtx', c=self.c).send(data)


# ---------------------------------------------------------------- families
def rnd_bytes(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


def finish(s, quiesce=True, stop_after=None):
    d = s.actor('driver', 'driver')
    sig = s.rng.choice([15, 15, 2, 1])
    if stop_after is not None:
        d.add('rsleep %d' % stop_after, 'stop 0 %d' % sig)
        if s.rng.random() < 0.3:
            d.add('rsleep %d' % s.rng.choice([0, 5, 3000]), 'stop 0 %d' % s.rng.choice([15, 2, 1]))
        return d
    d.add('waitclients')
    if quiesce:
        d.add('sleep 30000').meta(ev='quiesce')
    return d.add('stop 0 %d' % sig)


def junk_frames(a, rng, tx=False):
    """messages that should be ignored (or answered with the failure)"""
    k = rng.randrange(7 if tx else 5)
    n = rng.choice([0, 1, 5, 40, 1024, 3000])
    if k == 0:
        a.send(pb.message(rng.choice([6, 7, 100, 255]), rnd_bytes(rng, n)), *a.split(1))
    elif k == 1:
        a.send(pb.message(pb.TXDATA, rnd_bytes(rng, n), ver=rng.choice([1, 2, 255])), *a.split(1))
    elif k == 2:
        a.send(pb.message(rng.choice([pb.RX, pb.TX, pb.RESPONSE]), rnd_bytes(rng, n)), *a.split(1))
    elif k == 3:
        a.send(pb.message(pb.PING))
    elif k == 4:
        a.send(pb.message(pb.SHUTDOWN, ver=1))
    elif k == 5:
        # malformed protobuf
        a.badtx(pb.message(pb.TXDATA, rng.choice([b'\x0a\x05abc', b'\xff\xff\xff', b'\x0a\xff\xff\xff\xff\x0f', b'\x08'])))
    else:
        m = rng.choice([32769, 40000])
        a.badtx(pb.message(pb.TXDATA, b'', length=m)).add('zeros %d' % m)


def gen_tx(rng, kind=None, faults=True):
    tx = kind or rng.choice(['file', 'file', 'pluto'])
    rx = 'pluto' if tx == 'pluto' and rng.random() < 0.3 else 'sdr'
    s = Scen(rng, rx=rx, tx=tx, buffer_size=rng.choice([16, 64, 100, 1024]))
    if tx == 'pluto':
        s.conf['buffer_size'] = rng.choice([64, 256, 1024])
    n = rng.randint(2, 4)
    for i in range(n):
        a = s.actor('client', 'c%d' % i)
        for j in range(rng.randint(1, 3)):
            if rng.random() < 0.7:
                a.add('rsleep %d' % rng.choice([5, 50, 400]))
            prev = a.c if j else None
            a.connect()
            q = rng.random()
            if q < 0.08:
                a.ping().add('eof')
                continue
            if q < 0.16:
                a.tx(exp='invalid', fsk=False).add('eof')
                continue
            off = rng.choice([0, 0, 1000, -2500]) if tx == 'file' else 0
            a.tx(off=off, dump=rng.random() < 0.6)
            if rng.random() < 0.9:
                a.add('resp 1')
            sent = 0
            for k in range(rng.choice([0, 1, 1, 2, 3])):
                if rng.random() < 0.2:
                    junk_frames(a, rng, True)
                m = rng.choice([1, 2, 7, 30, 64, 65, 130]) if tx == 'file' else rng.choice([1, 2, 7, 20])
                a.txdata(rnd_bytes(rng, m), *a.split(m))
                sent += 1
                if rng.random() < 0.7:
                    a.add('rsleep 20')
            e = rng.random()
            if e < 0.3:
                a.add('rsleep 100', 'close')
            elif e < 0.45:
                a.add('abort')
            elif e < 0.75:
                a.bye().add('eof')
            elif e < 0.85:
                a.add('shutwr', 'eof')
            else:
                a.add('sleep 500')
                if j < 2 and rng.random() < 0.7:
                    a.add('close')
            if rng.random() < 0.6 and e < 0.85:
                a.add('waitsclose %d' % a.c)
    if faults and rng.random() < 0.25:
        if tx == 'pluto':
            s.fault('iio_push', rng.randint(1, 6), rng.randint(1, 2))
        else:
            if rng.random() < 0.5:
                s.fault('pthread_create', rng.randint(2, 4))
            else:
                s.fault('fwrite:txd%d' % rng.choice([0, 0, 1, 2]), rng.randint(1, 4))
    finish(s, stop_after=rng.choice([None, None, None, 200, 1500]))
    return s


def sdr_script(a, rng, big=False):
    """behaviour of one connection to sdr-server"""
    q = rng.random()
    if q < 0.10:
        k = rng.choice(['reject', 'garbage 0', 'garbage 1', 'silent', 'noresp', 'eof', 'short'])
        if k == 'noresp':
            a.add('sleep %d' % rng.choice([500, 2500, 9000]), 'eof')
        elif k == 'eof':
            a.add('eof')
        elif k == 'silent':
            a.add('silent')
        elif k == 'short':
            a.add('silent', 'raw 0002', 'sleep 100', 'eof')
        else:
            a.add(k)
            if rng.random() < 0.5:
                a.add('eof')
        return
    if rng.random() < 0.3:
        a.add('sleep %d' % rng.choice([10, 300, 1500]))
    a.add('accept')
    if rng.random() < 0.2:
        a.add('shutmode 2 %d' % rng.choice([100, 3000]))
    for i in range(rng.randint(0, 6)):
        n = rng.choice([1, 3, 16, 63, 64, 65, 100, 256, 700])
        a.add('push %d %d' % (n, rng.choice([0, 0, 5, 60])))
        if rng.random() < 0.7:
            a.add('sleep %d' % rng.choice([1, 50, 300, 300, 2500]))
    q = rng.random()
    if q < 0.3:
        if rng.random() < 0.4:
            a.add('partial %d' % rng.randint(1, 7))
        a.add('sleep %d' % rng.choice([0, 0, 100, 2500]))
        a.add(rng.choice(['eof', 'eof', 'eof', 'abort']))


# the last ones differ only in the way the same frequency is split between the center and the offset
KEYS = [dict(cf=437000000, sf=48000), dict(cf=437000000, sf=48000, off=3000), dict(cf=437000000, sf=96000), dict(cf=145900000, sf=48000), dict(cf=437000000, sf=48000, off=-3000),
        dict(cf=437003000, sf=48000), dict(cf=437006000, sf=48000, off=-3000)]


def rx_client(s, a, rng, keys, dest=None):
    a.connect()
    dest = rng.choice([0, 0, 1, 2]) if dest is None else dest
    key = rng.choice(keys)
    kw = dict(key, dest=dest, dump=rng.random() < 0.85)
    kw.update(rng.choice([dict(), dict(), dict(dec=1), dict(dec=4), dict(dc=1), dict(baud=2400), dict(baud=9600, dec=1)]))
    if rng.random() < 0.06:
        a.rx(exp='invalid', **dict(kw, **rng.choice([dict(fsk=False), dict(baud=0), dict(dec=0), dict(sf=0)])))
        a.add('eof')
        return False
    a.rx(**kw)
    a.add('resp 1')
    return dest


def gen_rx(rng, nclients=None):
    s = Scen(rng, rx='sdr', buffer_size=rng.choice([16, 64, 100, 256]))
    if rng.random() < 0.3:
        s.conf['read_timeout_seconds'] = 1
    keys = rng.sample(KEYS, rng.choice([1, 1, 2, 3]))
    for b in {k['cf'] for k in keys}:
        for nth in range(4):
            sdr_script(s.actor('sdr', '%d.%d' % (b, nth)), rng)
        s.actor('sdr', '%d' % b).add('accept', 'push 40 0')
    for i in range(nclients or rng.randint(2, 5)):
        a = s.actor('client', 'c%d' % i)
        for j in range(rng.randint(1, 2)):
            if rng.random() < 0.8:
                a.add('rsleep %d' % rng.choice([5, 100, 600, 3000]))
            d = rx_client(s, a, rng, keys)
            if d is False:
                continue
            if rng.random() < 0.1:
                junk_frames(a, rng)
            q = rng.random()
            if q < 0.25:
                a.add('eof') if q < 0.08 else a.add('rsleep 2000')
                if q < 0.08:
                    # waits for the end of the stream, which can never happen
                    a.lines.pop()
                    a.add('sleep 500')
                a.add('close')
            elif q < 0.4:
                a.add('rsleep 1000', 'abort')
            elif q < 0.7:
                a.add('rsleep 2000')
                a.bye().add('eof')
            elif q < 0.78:
                a.add('rsleep 500', 'shutwr', 'eof')
            else:
                if d:
                    a.add('stay')
                break
            if rng.random() < 0.5:
                a.add('waitsclose %d' % a.c)
    finish(s, stop_after=rng.choice([None, None, None, 400, 2500]))
    return s


def bad_client(s, a, rng):
    """client that does not follow the protocol"""
    a.connect()
    k = rng.randrange(8)
    if k == 0:      # sends nothing
        a.add('sleep %d' % rng.choice([100, 3000, 9000]), rng.choice(['close', 'abort', 'eof']))
    elif k == 1:    # part of the header
        a.creq('other', 'invalid').add('send %s 1 0' % rnd_bytes(rng, rng.randint(1, 5)).hex(), 'sleep %d' % rng.choice([10, 3000]), rng.choice(['close', 'abort', 'eof']))
    elif k == 2:    # unknown protocol or type
        a.creq('other', 'invalid').send(pb.message(rng.choice([0, 5, 77, 255, pb.PING]), rnd_bytes(rng, rng.choice([0, 10])), ver=rng.choice([1, 255]))).add('eof')
    elif k == 3:
        a.creq('other', 'invalid').send(pb.message(rng.choice([pb.TXDATA, pb.SHUTDOWN, pb.RESPONSE, 9, 200]), rnd_bytes(rng, rng.choice([0, 10])))).add('eof')
    elif k == 4:    # malformed protobuf
        a.creq('other', 'invalid').send(pb.message(rng.choice([pb.RX, pb.TX]), rng.choice([b'\xff\xff\xff\xff', b'\x08', b'\x52\x10ab']))).add('eof')
    elif k == 5:    # length is more than sent
        a.creq('other', 'invalid').send(pb.message(rng.choice([pb.RX, pb.TX]), rnd_bytes(rng, 10), length=rng.choice([11, 100, 65535, 0x7fffffff, 0xffffffff])))
        a.add('sleep %d' % rng.choice([10, 5000]), rng.choice(['close', 'abort', 'eof', 'shutwr']))
    elif k == 6:
        a.add(rng.choice(['close', 'abort']))
    else:
        a.ping()
        a.add(rng.choice(['close', 'abort', 'eof', 'resp 1']))


def gen_mix(rng):
    tx = rng.choice(['none', 'file', 'file', 'pluto'])
    rx = rng.choice(['sdr', 'sdr', 'sdr', 'pluto'])
    s = Scen(rng, rx=rx, tx=tx, buffer_size=rng.choice([64, 100, 256]))
    s.cap = rng.choice([64, 1024, 4096])
    keys = rng.sample(KEYS, rng.choice([1, 2]))
    if rx == 'sdr':
        for b in {k['cf'] for k in keys}:
            for nth in range(3):
                sdr_script(s.actor('sdr', '%d.%d' % (b, nth)), rng)
            s.actor('sdr', '%d' % b).add('accept', 'push 300 5')
    s.iiorx = rng.choice([512, 2048])
    for i in range(rng.randint(2, 6)):
        a = s.actor('client', 'c%d' % i)
        for j in range(rng.randint(1, 3)):
            if rng.random() < 0.8:
                a.add('rsleep %d' % rng.choice([5, 100, 600, 3000]))
            q = rng.random()
            if q < 0.3:
                bad_client(s, a, rng)
                if a.lines[-1].startswith(('resp', 'shutwr')):
                    break
                continue
            if q < 0.55 and tx != 'none':
                a.connect()
                a.tx(dump=rng.random() < 0.5)
                a.add('resp 1')
                for k in range(rng.randint(0, 3)):
                    if rng.random() < 0.3:
                        junk_frames(a, rng, True)
                    a.txdata(rnd_bytes(rng, rng.choice([1, 7, 20])))
                    if rng.random() < 0.5:
                        a.add('rsleep 300')
                if rng.random() < 0.15:
                    # part of the message
                    a.add('send %s 1 0' % pb.message(pb.TXDATA, b'abc', length=100).hex(), 'abort')
                    continue
            else:
                a.connect()
                dest = rng.choice([0, 1, 2, 2])
                if rx == 'sdr':
                    a.rx(dest=dest, dump=rng.random() < 0.8, **rng.choice(keys))
                else:
                    a.rx(dest=dest, dump=rng.random() < 0.8)
                a.add('resp 1')
                if rng.random() < 0.2:
                    junk_frames(a, rng)
            e = rng.random()
            if e < 0.2:
                a.add('rsleep 1000', 'close')
            elif e < 0.35:
                a.add('rsleep 1000', 'abort')
            elif e < 0.5:
                a.bye().add('eof')
            elif e < 0.58:
                a.add('shutwr', 'eof')
            elif e < 0.85:
                a.add('stay')
                break
            else:
                break   # never reads
    for i in range(rng.choice([0, 0, 1, 1, 2])):
        n = rng.randrange(6)
        if n == 0:
            s.fault('pthread_create', rng.randint(2, 8))
        elif n == 1:
            s.fault('fopenw', rng.randint(1, 5))
        elif n == 2:
            s.fault('fwrite:rx.sdr2demod.%d.cf32' % rng.randrange(4), rng.randint(1, 3))
        elif n == 3:
            s.fault('fwrite:rx.demod2client.%d.s8' % rng.randrange(4), rng.randint(1, 3))
        elif n == 4:
            s.fault('fwrite:tx.mod2sdr.%d.cf32' % rng.randrange(4), rng.randint(1, 2))
        else:
            s.fault(*rng.choice([('connect', rng.randint(1, 3)), ('socket', rng.randint(2, 4)), ('iio_refill', rng.randint(1, 3)), ('iio_push', rng.randint(1, 3)), ('iio_ctx', 1), ('iio_buf', rng.randint(1, 2))]))
    finish(s, stop_after=rng.choice([None, None, 0, 20, 400, 2500]))
    return s


def shift(rng, tx):
    """shift of the frequency: constant or Doppler correction"""
    r = {}
    if rng.random() < 0.35:
        r['off'] = rng.choice([1, 1000, -2500, 4800, rng.randint(-4000, 4000)])
    if rng.random() < 0.35:
        r.update(start=rng.choice([1583840449, 1583840000, rng.randint(1583800000, 1584000000)]), cf=rng.choice([437525000, 145900000, 2400000000, 1000000]))
        if rng.random() < 0.7:
            r.update(sf=4800, baud=1200, dev=600, **({} if tx else dict(tw=400, dec=1)))
    return r


def gen_file(rng):
    """receiver and transmitter are files"""
    s = Scen(rng, rx='file', tx=rng.choice(['none', 'file', 'file']), buffer_size=rng.choice([16, 64, 100, 256, 1000]))
    s.conf['queue_size'] = rng.choice([1, 2, 3, 16])
    if rng.random() < 0.3:
        s.cap = rng.choice([64, 1024])
    for i in range(rng.randint(1, 4)):
        a = s.actor('client', 'c%d' % i)
        for j in range(rng.randint(1, 3)):
            if rng.random() < 0.6:
                a.add('rsleep %d' % rng.choice([5, 100, 600]))
            q = rng.random()
            a.connect()
            if s.tx == 'file' and q < 0.3:
                dop = shift(rng, True)
                a.tx(dump=rng.random() < 0.4, **dop)
                a.add('resp 1')
                for k in range(rng.randint(0, 3)):
                    a.txdata(rnd_bytes(rng, rng.choice([1, 7, 20, 65] + ([200, 300] if 'start' in dop else []))))
                    if rng.random() < 0.5:
                        a.add('rsleep 100')
            else:
                dest = rng.choice([0, 0, 1, 2])
                bs = s.conf['buffer_size']
                missing = rng.random() < 0.06
                if not missing:
                    s.head.append('rxfile %d %d rxd%d %d' % (a.c, rng.choice([0, 1, bs - 1, bs, bs + 1, 3 * bs, rng.randint(1, 2000), rng.randint(1, 5000)]), a.c, rng.choice([0, 0, 0, 1, 5])))
                dop = shift(rng, False)
                if 'start' in dop and not missing:
                    s.head[-1] = 'rxfile %d %d rxd%d 0' % (a.c, rng.choice([1, bs, bs + 1, rng.randint(9000, 11000), rng.randint(1, 5000)]), a.c)
                kw = dop if 'baud' in dop else rng.choice([dict(), dict(), dict(dec=1), dict(dec=4), dict(dc=1), dict(baud=2400), dict(baud=9600, dec=1)])
                a.rx(exp='internal' if missing else 'ok', dest=dest, dump=rng.random() < 0.85, **dict(dop, **kw))
                a.add('resp 1')
                if rng.random() < 0.15:
                    junk_frames(a, rng)
            e = rng.random()
            if e < 0.2:
                a.add('rsleep 1000', 'close')
            elif e < 0.35:
                a.add('rsleep 1000', 'abort')
            elif e < 0.55:
                a.add('rsleep 500')
                a.bye().add('eof')
            elif e < 0.62:
                a.add('shutwr', 'eof')
            elif e < 0.92:
                a.add('stay')
                break
            else:
                break   # never reads
            if rng.random() < 0.4:
                a.add('waitsclose %d' % a.c)
    for i in range(rng.choice([0, 0, 0, 1])):
        s.fault(*rng.choice([('pthread_create', rng.randint(2, 8)), ('fopenw', rng.randint(1, 5)), ('fwrite:rx.sdr2demod.%d.cf32' % rng.randrange(3), rng.randint(1, 3)),
                             ('fwrite:rx.demod2client.%d.s8' % rng.randrange(3), rng.randint(1, 3)), ('fwrite:txd%d' % rng.randrange(3), rng.randint(1, 3))]))
    finish(s, stop_after=rng.choice([None, None, None, 20, 400, 2500]))
    return s


# ------------------------------------------------------------ decision table of requests
TLE = ['LUCKY-7', '1 44406U 19038W   20069.88080907  .00000505  00000-0  32890-4 0  9992', '2 44406  97.5270  32.5584 0026284 107.4758 252.9348 15.12089395 37524']
U32 = (1 << 32) - 1


def digits(v):
    assert 0 <= v < 10 ** 24
    return [v % 10 ** 6, v // 10 ** 6 % 10 ** 6, v // 10 ** 12 % 10 ** 6, v // 10 ** 18]


def signed(v):
    return dict(neg=v < 0, abs=digits(abs(v)))


def request_record(r, kind, wf=True):
    d = r.get('doppler')
    f = r.get('file')
    parsed = True
    if d is not None:
        parsed = d.get('tle') == TLE and not (f is not None and f.get('start', 0) > 10 ** 17)
    return dict(wf=wf, type=r.get('type', 1), cf=digits(r['cf']), sf=digits(r['sf']), baud=digits(r['baud']), off=signed(r.get('off', 0)),
                dec=digits(r.get('dec', 1)), dest=r.get('dest', 0), tw=digits(r.get('tw', 2000)), dev=signed(r.get('dev', 5000)), fsk=bool(r.get('fsk', True)),
                doppler=dict(present=d is not None, lines=len(d['tle']) if d else 0, parsed=parsed),
                file=dict(present=f is not None, usable=bool(f is None or f.get('usable', True))))


def drop_field(body, rng):
    """removes one required field"""
    pos, fields = 0, []
    while pos < len(body):
        start = pos
        v = sh = 0
        while True:
            b = body[pos]
            pos += 1
            v |= (b & 0x7f) << sh
            sh += 7
            if b < 128:
                break
        num, wt = v >> 3, v & 7
        if wt == 0:
            while body[pos] & 0x80:
                pos += 1
            pos += 1
        else:
            l = sh = 0
            while True:
                b = body[pos]
                pos += 1
                l |= (b & 0x7f) << sh
                sh += 7
                if b < 128:
                    break
            pos += l
        fields.append((num, body[start:pos]))
    req = [k for k, (n, x) in enumerate(fields) if n <= 6]
    k = rng.choice(req)
    return b''.join(x for i, (n, x) in enumerate(fields) if i != k)


def mutate(rng, r, kind, s):
    dev = s.rx if kind == 'rx' else s.tx
    sf, baud, dec = r['sf'], r['baud'], max(1, r.get('dec', 1))
    m = rng.randrange(15)
    if m == 0:
        r['type'] = rng.choice([0, 2, 5, 1000000])
    elif m == 1:
        r['cf'] = rng.choice([0, 1, U32, U32 + 1, 5 * 10 ** 9, 10 ** 13]) if dev != 'pluto' else rng.choice([0, r['cf'] % 10 ** 10 and r['cf'] + 10 ** 10])
    elif m == 2:
        r['sf'] = rng.choice([0, 1, 2, baud - 1, baud, baud * dec, baud * dec - 1, baud * 2, baud * 255, baud * 256 - 1, baud * 256, 520833, 520834, 2 * (abs(r['dev']) + baud // 2), 2 * (abs(r['dev']) + baud // 2) - 1])
    elif m == 3:
        r['baud'] = rng.choice([0, 1, 2, 3, sf, sf + 1, sf // 2, sf // 255, sf // 256, sf // 257, max(1, sf // dec), max(1, sf // dec) + 1, sf // 16])
    elif m == 4:
        if dev == 'pluto':
            r['off'] = rng.choice([100000, -200000, 0])
        else:
            r['off'] = rng.choice([1, -1, -r['cf'], -r['cf'] - 1, U32 - r['cf'], U32 - r['cf'] + 1, 10 ** 12, -10 ** 12])
    elif m == 5:
        r['dec'] = rng.choice([0, 1, 2, 8, 10, 11, 254, 255, 256, 257, 258, 512, 513, 65536, 65537, U32])
    elif m == 6:
        r['dest'] = rng.choice([3, 4, 100, 256, 257])
    elif m == 7:
        r['tw'] = rng.choice([0, 100, 20000, 10 ** 6, U32])
    elif m == 8:
        r['dev'] = rng.choice([0, -5000, sf // 2, sf // 2 - baud // 2, sf // 2 - baud // 2 + 1, -(sf // 2), sf, 10 ** 10, 1])
    elif m == 9:
        r['fsk'] = False
    elif m == 10:
        d = rng.randrange(6)
        tle = list(TLE)
        if d == 0:
            tle = tle[:rng.randint(0, 2)]
        elif d == 1:
            tle = tle + [tle[2]] * rng.randint(1, 2)
        elif d == 2:
            tle[1] = tle[1][:-1] + '3'
        elif d == 3:
            tle[2] = rng.choice(['', 'A' * 200, tle[1]])
        elif d == 4:
            tle[0] = 'A' * rng.choice([0, 1, 23, 24, 25, 79, 80, 81, 300])
        r['doppler'] = dict(tle=tle, lat=53720000, lon=47570000, alt=rng.choice([0, 100]))
        r['doppler_ok'] = tle[1:] == TLE[1:] and len(tle) == 3
    elif m == 11:
        r['file'] = None
    elif m == 12:
        r['file'] = dict(filename='nodir/x', usable=False)
    elif m == 13:
        r['wf'] = False
    else:
        r['file'] = dict(filename='rxd' if kind == 'rx' else 'txdz', start=rng.choice([1, 10 ** 9, 10 ** 18]))
        r['filex'] = True


def gen_requests(rng, n=25):
    rx = rng.choice(['sdr', 'sdr', 'pluto', 'file'])
    tx = rng.choice(['none', 'file', 'file', 'pluto'])
    s = Scen(rng, rx=rx, tx=tx, buffer_size=64)
    s.conf['read_timeout_seconds'] = 3
    s.actor('sdr', '*').add('accept', 'push 10 0')
    a = s.actor('client', 'c0')
    for i in range(n):
        kind = rng.choice(['rx', 'tx'])
        a.connect()
        dev = rx if kind == 'rx' else tx
        r = dict(RXDEF if kind == 'rx' else TXDEF, dump=rng.random() < 0.2)
        if kind == 'rx':
            r['dest'] = rng.choice([0, 1, 2])
        if dev == 'pluto':
            r.update(cf=437000000 + a.c, sf=600000, baud=60000, dev=50000)
        if dev == 'file' or rng.random() < 0.1:
            name = ('rxd%d' if kind == 'rx' else 'txd%d') % a.c
            r['file'] = dict(filename=name)
        if kind == 'rx' and rx == 'file':
            s.head.append('rxfile %d 20 @B@/rxd%d' % (a.c, a.c))
        for k in range(rng.choice([0, 1, 1, 1, 1, 2, 2, 3])):
            mutate(rng, r, kind, s)
        if r.pop('filex', False) and dev == 'file' and r.get('file') and r['file'].get('usable', True):
            r['file']['filename'] = ('rxd%d' if kind == 'rx' else 'txd%d') % a.c
        wf = r.pop('wf', True)
        for k, v in (('cf', 437000000), ('sf', 48000), ('baud', 4800), ('dec', 2)):
            if r.get(k, 0) < 0 or r.get(k, 0) > (U32 if k in ('baud', 'dec') else 10 ** 13):
                r[k] = v
        rec = request_record(r, kind, wf)
        if r.pop('doppler_ok', False):
            rec['doppler']['parsed'] = not (r.get('file') is not None and r['file'].get('start', 0) > 10 ** 17)
        # limit the work of the real code
        if r['sf'] > 10 ** 6 * max(1, min(r['baud'], abs(r['dev']) + 1)) or r['sf'] > 10 ** 9 or (kind == 'rx' and r['tw'] > 0 and r['sf'] > 10 ** 5 * r['tw']):
            r['sf'] = 48000
            rec['sf'] = digits(48000)
        if kind == 'rx':
            body = pb.rx_request(r)
            key = [str(r['cf']), str(r['cf'] + r.get('off', 0)), str(r['sf'])]
        else:
            body = pb.tx_request(r)
            key = ['0', '0', '0']
        if not wf:
            body = drop_field(body, rng)
        if rng.random() < 0.08:
            # a field which is not known to the server
            total = rng.choice([32767, 32768, 32768, 32769, 32769, 40000, 65536, 5000])
            body += b'\xfa\x7f' + pb.varint(total - len(body) - 5 | 1 << 20)[:2] + pb.varint((total - len(body) - 5) >> 14) + b'x' * (total - len(body) - 5)
            assert len(body) == total
            rec['wf'] = wf and total <= 32768
        sps = r['sf'] // max(1, r['baud'])
        a.meta(ev='creq', c=a.c, kind=kind, exp='table', r=rec, band=key[0], center=key[1], rate=key[2], sps=sps if sps < 1000 else 1, dump=bool(r['dump']), dest=r.get('dest', 0))
        s.head.append('kind %d %s' % (a.c, kind[0]))
        msg = pb.message(pb.RX if kind == 'rx' else pb.TX, body)
        a.send(msg, *a.split(len(msg)))
        a.add('resp 1')
        if rng.random() < 0.3:
            a.add('rsleep 50')
        a.bye().add('eof', 'waitsclose %d' % a.c)
    finish(s)
    return s


def gen_pluto(rng):
    """RX and TX with PlutoSDR: rates around the thresholds of the filter, failures of libiio"""
    rx = rng.choice(['pluto', 'pluto', 'sdr'])
    s = Scen(rng, rx=rx, tx='pluto' if rx == 'sdr' else rng.choice(['pluto', 'pluto', 'pluto', 'none', 'file']), buffer_size=rng.choice([1, 2, 16, 64, 256]))
    if rng.random() < 0.7:
        s.conf.update(tx_plutosdr_gain=rng.choice(['-10.0', '0', '-89.75', '-0.25']), rx_plutosdr_gain=rng.choice(['12.5', '40', '71.0', '0.0', '-3.0']))
    if rng.random() < 0.5:
        s.conf['tx_plutosdr_timeout_millis'] = rng.choice([1, 2000, 60000])
    if rx == 'sdr':
        for nth in range(3):
            sdr_script(s.actor('sdr', '437000000.%d' % nth), rng)
        s.actor('sdr', '437000000').add('accept', 'push 40 0')
    s.iiorx = rng.choice([0, 512, 512])

    def rate():
        return rng.choice([520834, 520840, 600000, 1041666, 1041667, 1041668, 2083333, 2083334, 2083336, 3000000])
    for i in range(rng.randint(2, 5)):
        a = s.actor('client', 'c%d' % i)
        for j in range(rng.randint(1, 3)):
            if rng.random() < 0.8:
                a.add('rsleep %d' % rng.choice([5, 100, 600]))
            a.connect()
            sf = rate()
            tx = s.tx != 'none' and rng.random() < 0.5
            low = rng.random() < 0.08
            if tx:
                if s.tx == 'pluto':
                    if low:
                        a.tx(exp='internal', sf=rng.choice([520833, 48000]), baud=rng.choice([4800, 9600]))
                    else:
                        a.tx(sf=sf, baud=rng.choice([sf // 10, sf // 4]), off=rng.choice([0, 0, 3000, -3000]), dump=rng.random() < 0.3)
                else:
                    a.tx(dump=False)
            elif s.rx == 'pluto':
                if low:
                    a.rx(exp='internal', sf=rng.choice([520833, 48000]), baud=4800, dest=0)
                else:
                    off = rng.choice([0, 5000, -5000])
                    # the id of the client is found by the frequency of the device
                    a.rx(sf=sf, baud=sf // 10, tw=20000 if sf < 1000000 else sf // 20, dev=50000, off=off, cf=437000000 + a.c - off, dest=rng.choice([0, 2]), dump=rng.random() < 0.5)
            else:
                a.rx(dest=2)
            a.add('resp 1')
            if tx:
                for k in range(rng.randint(0, 2)):
                    a.txdata(rnd_bytes(rng, rng.choice([1, 2, 9])))
            e = rng.random()
            if e < 0.3:
                a.add('rsleep 600', 'close')
            elif e < 0.4:
                a.add('rsleep 600', 'abort')
            elif e < 0.7:
                a.add('rsleep 600').bye().add('eof')
            elif e < 0.8:
                a.add('stay')
                break
            if rng.random() < 0.7 and e < 0.7:
                a.add('waitsclose %d' % a.c)
    q = rng.random()
    if q < 0.5:
        n = rng.choice(['iio_attr', 'iio_attr', 'iio_findchn', 'iio_ctx', 'iio_scan', 'iio_list', 'iio_list0', 'iio_timeout', 'iio_raw', 'iio_buf', 'iio_push', 'iio_refill', 'pthread_create'])
        s.fault(n, rng.randint(2, 8) if n == 'pthread_create' else rng.randint(1, 40 if n in ('iio_attr', 'iio_findchn') else 4), rng.choice([1, 1, 2]))
    elif q < 0.55:
        s.fault('iio_no:' + rng.choice(['ad9361-phy', 'cf-ad9361-lpc', 'cf-ad9361-dds-core-lpc']), 1, 1000000)
    finish(s, stop_after=rng.choice([None, None, None, 200, 1500]))
    return s


# ---------------------------------------------------------------- histories generated from the specification
STREAMS = dict(a=dict(cf=437000000, sf=48000), b=dict(cf=145900000, sf=48000))


def from_history(rng, h, rx, tx):
    """h: steps of ModemGen.tla"""
    s = Scen(rng, rx=rx, tx=tx, buffer_size=rng.choice([64, 100, 256]))
    s.note = json.dumps(h)
    spacing = rng.choice([20, 200, 3000])
    t, times = 200, []
    for k, step in enumerate(h):
        t += spacing if step[3] and k else 0
        times.append(t)
    actors, kinds, streams, stop = {}, {}, {k: [] for k in STREAMS}, None
    for (what, who, d, _), at in zip(h, times):
        if what in ('push', 'eof'):
            streams[d].append((at, 'eof' if what == 'eof' else 'push %d %d' % (rng.choice([1, 16, 64, 65, 300, 700]), rng.choice([0, 0, 5]))))
            continue
        if what == 'stop':
            stop = at
            continue
        if what == 'conn':
            a = actors[who] = s.actor('client', 'c%d' % who)
            kinds[who] = d
            a.add('until %d' % at)
            a.connect()
            one = (1, 0)
            if d in STREAMS:
                kw = dict(STREAMS[d]) if rx == 'sdr' else {}
                if rx == 'file':
                    s.head.append('rxfile %d %d rxd%d %d' % (a.c, rng.choice([1, 64, 100, 300, 2000]), a.c, rng.choice([0, 0, 5])))
                a.rx(dest=rng.choice([0, 1, 2, 2]), dump=rng.random() < 0.9, pieces=one, **kw)
            elif d == 't':
                a.tx(dump=rng.random() < 0.6, pieces=one)
            elif d == 'p':
                a.ping()
            else:
                rng.choice([lambda: a.rx(exp='invalid', pieces=one, baud=0), lambda: a.tx(exp='invalid', pieces=one, fsk=False)])()
            continue
        a = actors[who]
        a.add('until %d' % at)
        if what == 'bye':
            a.bye()
        elif what == 'close':
            a.add('close')
        elif what == 'abort':
            a.add('abort')
        elif what == 'shut':
            a.add('shutwr')
        elif what == 'data':
            a.txdata(rnd_bytes(rng, rng.choice([1, 7, 64, 130])))
        elif what == 'junk':
            junk_frames(a, rng, kinds[who] == 't')
    for a in actors.values():
        if a.lines[-1] not in ('close', 'abort'):
            a.add('stay')
    if rx == 'sdr':
        for k, v in STREAMS.items():
            a = s.actor('sdr', '%d' % v['cf']).add('accept')
            for at, op in streams[k]:
                a.add('at %d' % at, op)
    d = s.actor('driver', 'driver')
    if stop is not None:
        d.add('until %d' % stop, 'stop 0 %d' % rng.choice([15, 2, 1]))
        return s
    d.add('until %d' % (t + 1), 'waitclients', 'sleep 30000').meta(ev='quiesce')
    d.add('stop 0 15')
    return s
