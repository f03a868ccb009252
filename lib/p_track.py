"""C26, C27: what is said to the tracker, and what is made of its answers."""
from vlib import *
from genben import *

Z = {'up': [0], 'dn': [0], 'left': [0]}
BIG = [0, 1, 9, 10, 255, 65536, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]


def dig(n):
    return [int(c) for c in str(n)]


def name(rng):
    return 'n%d' % rng.randrange(10 ** 9)


def announce(rng, own=b'/announce', ops=None, st=None, pid=None, port=None):
    if pid is None:
        pid = [rng.randrange(256) for _ in range(20)] if rng.random() < .7 else list(b'-GO0001-' + bytes(rng.choice(b' +&=%?#/;~"<>\x00\xff-_.azAZ09') for _ in range(12)))
    if st is None:
        st = {k: dig(rng.choice(BIG)) for k in ('up', 'dn', 'left')}
    return {'op': 'announce', 'name': name(rng), 'own': list(own), 'pid': pid, 'port': rng.choice([0, 1, 80, 6881, 60666, 65535]) if port is None else port,
            'st': st, 'ops': ops or []}


def ownurl(rng):
    seg = lambda: bytes(rng.choice(b'abcXYZ019-_.~!$\'()*,:@+') for _ in range(rng.randint(1, 5)))
    esc = lambda: b'%%%02x' % rng.randrange(1, 256)
    part = lambda: b''.join(rng.choice([seg, seg, esc])() for _ in range(rng.randint(1, 3)))
    t = b''.join(b'/' + part() for _ in range(rng.randint(0, 3)))
    if any(x in (b'.', b'..') for x in t.split(b'/')):
        t = b'/announce'
    if rng.random() < .8:
        ps = []
        for _ in range(rng.randint(1, 4)):
            k, v = part(), rng.choice([part, lambda: b''])()
            ps.append(rng.choice([k + b'=' + v, k + b'=' + v + b'/' + v, k, k + b'=' + v + b'=' + v, k + b'=' + v + b'?']))
        t += b'?' + b'&'.join(ps)
    return t


UNUSABLE = [b'', b'foo', b':', b'::', b'/announce', b'http', b'http:', b'http:/', b'http://', b'http:///announce', b'://127.0.0.1:PORT/', b'http//127.0.0.1:PORT/a',
            b'udp://127.0.0.1:PORT/announce', b'ftp://127.0.0.1:PORT/a', b'file:///etc/passwd', b'wss://127.0.0.1:PORT/', b'mailto:a@b', b'data:,x', b'javascript:x',
            b'http://127.0.0.1:99999/announce', b'http://127.0.0.1:-1/a', b'http://127.0.0.1:x/a', b'http://[::1', b'http://[::1/a', b'http://::1]/a',
            b'http://127.0.0.1:PORT\x00/', b'http://127.0.0.1:PORT/\x7f', b'http://127.0.0.1:PORT/a\nb', b'\x00', b'\xff\xfe', b' http://127.0.0.1:PORT/', b'http://127.0 .0.1:PORT/',
            b'http://%zz/', b'http://127.0.0.1:PORT/%zz', b'http://127.0.0.1:PORT/%', b'1http://127.0.0.1:PORT/', b'//127.0.0.1:PORT/a', b'?', b'#', b'http:127.0.0.1', b'http://127.0.0.1:PORT:PORT/']


def unusable(rng):
    sc = [{'op': 'unusable', 'url': list(u), 'dead': False, 'name': name(rng)} for u in UNUSABLE]
    sc += [{'op': 'unusable', 'url': list(b'http://127.0.0.1:PORT/a'), 'dead': True, 'name': name(rng)} for _ in range(3)]
    for _ in range(1000 if THOROUGH else 200):     # junk that names no reachable host
        u = rbytes(rng, 30)
        if b'http' not in u.lower():
            sc.append({'op': 'unusable', 'url': list(u), 'dead': False, 'name': name(rng)})
    return sc


def c26(ctx):
    rng = ctx.rng
    gen = emitted(ctx, 'MTracker')
    sc = [announce(rng, bytes(g['own'])) for g in gen if 'own' in g]
    sc += [announce(rng, ops=g['ops'], st={'up': [0], 'dn': [0], 'left': [1, 3]}) for g in gen if 'ops' in g]
    sc += [announce(rng, ownurl(rng)) for _ in range(20000 if THOROUGH else 1500)]
    for b in range(256):
        sc.append(announce(rng, pid=[b] * 20))
        sc.append(announce(rng, pid=[(b + 13 * i) % 256 for i in range(20)]))
    for port in range(0, 65536, 101 if THOROUGH else 997):
        sc.append(announce(rng, port=port))
    for k in ('up', 'dn', 'left'):
        for n in BIG:
            sc.append(announce(rng, st=dict(Z, **{k: dig(n)})))
    for a in BIG:                                  # what remains, at the limits
        for b in BIG:
            sc.append(announce(rng, st={'up': [0], 'dn': [0], 'left': dig(a)}, ops=[{'k': 'left', 'n': dig(b)}, {'k': 'left', 'n': [1]}]))
    for _ in range(3000 if THOROUGH else 300):
        ops = [{'k': rng.choice(['up', 'dn', 'left']), 'n': dig(rng.choice([0, 1, 16384, 2 ** 20, 2 ** 32, 2 ** 50]))} for _ in range(rng.randint(1, 12))]
        sc.append(announce(rng, st={'up': dig(rng.choice([0, 5])), 'dn': [0], 'left': dig(rng.choice([0, 2 ** 20, 2 ** 33, 2 ** 63]))}, ops=ops))
    sc += unusable(rng)
    rng.shuffle(sc)
    conform(ctx, 'JTracker', 'tracker', sc, classify=lambda r: r['op'], case_ms=60000)


IPS = [b'1.2.3.4', b'0.0.0.0', b'255.255.255.255', b'127.0.0.1', b'::1', b'::', b'fe80::1', b'2001:db8::ff00:42:8329', b'1:2:3:4:5:6:7:8', b'::ffff:1.2.3.4', b'1::8', b'1:2:3:4:5:6:7::',
       b'2001:DB8::A', b'::1.2.3.4', b'0:0:0:0:0:0:0:0']
BADIPS = [b'', b'256.1.1.1', b'1.2.3', b'1.2.3.4.5', b'1.2.3.', b'a.b.c.d', b' 1.2.3.4', b'1.2.3.4 ', b'01.2.3.4', b'1.2.3.004', b'-1.2.3.4', b'1.2.3.4:80', b'host.invalid', b'localhost',
          b':::', b'1::2::3', b'1:2:3:4:5:6:7', b'1:2:3:4:5:6:7:8:9', b'12345::', b'::g', b'fe80::1%eth0', b'[::1]', b'\x01\x02\x03\x04', b'0x7f.1.1.1', b'1.2.3.4\x00', b'2130706433', b'1::2:3:4:5:6:7:8']


def tval(rng, p=.15):
    n = lambda: rng.choice([0, 1, 1800, 2 ** 31, 2 ** 32, 2 ** 63 - 1, rng.randrange(10 ** 6)])
    odd = lambda good: good if rng.random() > p / 6 else rng.choice([-1, -2 ** 63, b'5', [], {}, [good], b''])
    if rng.random() < .5:
        peers = bytes(rng.randrange(256) for _ in range(6 * rng.choice([0, 1, 2, 3, 50, 200]) + (rng.randrange(6) if rng.random() < p else 0)))
    else:
        peers = []
        for _ in range(rng.choice([0, 1, 2, 5, 30])):
            e = {b'ip': rng.choice(IPS) if rng.random() > p / 4 else rng.choice(BADIPS), b'port': rng.choice([0, 1, 80, 6881, 65535]) if rng.random() > p / 4 else
                 rng.choice([65536, -1, 2 ** 32 + 80, 2 ** 63 - 1, -2 ** 63, 65536 + 80, b'80']), b'peer id': rbytes(rng, 20)}
            if rng.random() < p / 4:
                e.pop(rng.choice(list(e)))
            if rng.random() < .1:
                e[b'extra'] = rval(rng, 1)
            peers.append(e if rng.random() > p / 8 else rng.choice([b'x', 1, [], {}]))
    d = {b'interval': odd(n()), b'complete': odd(n()), b'incomplete': odd(n()), b'peers': odd(peers)}
    if rng.random() < .4:
        d[b'warning message'] = odd(rbytes(rng, 12))
    if rng.random() < .4:
        d[b'min interval'] = odd(n())
    if rng.random() < p / 4:
        d[b'failure reason'] = odd(b'no')
    if rng.random() < p / 4:
        d.pop(rng.choice(list(d)))
    if rng.random() < .3:
        d[rng.choice([b'tracker id', b'downloaded', b'external ip', b'peers6', b'x'])] = rval(rng, 1)
    return d


def c27(ctx):
    rng = ctx.rng
    gen = emitted(ctx, 'MTracker')
    bodies = [bytes(g['body']) for g in gen if 'body' in g]
    bodies += [enc(tval(rng, 0 if i % 2 else .5)) for i in range(15000 if THOROUGH else 2500)]
    for ip in IPS + BADIPS:
        for port in (0, 80, 65535, 65536):
            bodies.append(enc({b'complete': 1, b'incomplete': 2, b'interval': 3, b'peers': [{b'ip': ip, b'peer id': b'p' * 20, b'port': port}, {b'ip': b'9.8.7.6', b'peer id': b'q', b'port': 5}]}))
    for n in range(0, 40):
        bodies.append(enc({b'complete': 1, b'incomplete': 2, b'interval': 3, b'peers': bytes(rng.randrange(256) for _ in range(n))}))
    good = enc({b'complete': 5, b'incomplete': 2, b'interval': 1748, b'min interval': 874, b'peers': b'\x01\x02\x03\x04\x1a\xe1', b'warning message': b'w'})
    for i in range(len(good)):
        bodies.append(good[:i])
        for x in (b'0', b'e', b'-', b'\xff'):
            bodies.append(good[:i] + x + good[i + 1:])
    bodies += [b'', b'i5e', b'le', b'de', b'4:spam', b'<html>', b'd', b'd14:failure reason2:noe', good + b'x', b'l' * 5000, b'd8:intervali1e' * 300]
    for _ in range(10000 if THOROUGH else 1500):      # damaged ones
        b = bytearray(enc(tval(rng, .1)))
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(b) + 1)
            b[i:i + rng.choice([0, 1, 2])] = bytes(rng.choice(b'0123456789:deil-\x00\xff') for _ in range(rng.choice([0, 1, 1])))
        bodies.append(bytes(b))
    for n in [255, 256, 257, 300, 1000] + [2 ** 14, 65536 // 6 + 1] + ([65535, 65536, 65537] if THOROUGH else []):     # many peers
        bodies.append(enc({b'complete': n, b'incomplete': 0, b'interval': 1, b'peers': rng.randbytes(6 * n)}))
    for n in [255, 256, 257, 300] + ([1000] if THOROUGH else []):
        bodies.append(enc({b'complete': n, b'incomplete': 0, b'interval': 1, b'peers': [{b'ip': b'%d.2.3.%d' % (i // 256, i % 256), b'peer id': b'%020d' % i, b'port': i} for i in range(n)]}))
    sc = []
    for b in bodies:
        sc.append({'op': 'answer', 'name': 'n', 'body': list(b), 'seg': rng.choice([1, 7, 1 << 20, 1 << 20]) if len(b) < 400 else 1 << 20, 'chunked': rng.random() < .3, 'cut': False})
        if b and rng.random() < .1:
            sc.append(dict(sc[-1], cut=True))
    rng.shuffle(sc)
    conform(ctx, 'JTracker', 'tracker', sc, classify=lambda r: 'cut' if r['cut'] else ('read' if r['out']['ok'] else 'refused') if 'out' in r else 'none', case_ms=60000)


CHECKS = {
    'C26': (c26, 'TLA+ specification of announce requests (URLs, percent-encoding, counts; model checked with TLC on small universes); TLC judges the raw requests the real client sends to a local tracker',
            'All announce URLs made of 6 paths, 12 queries and 3 fragments; all sequences of 3 changes of the counts; every byte value in the peer id and, over thousands of torrents, in the infohash; seeded URLs; unusable URLs.',
            ['announce URLs whose own parameters are among those the client adds are left out', 'the loopback network works']),
    'C27': (c27, 'TLA+ specification of tracker responses (bencoding, both peer lists, addresses; model checked with TLC on small universes); TLC judges what the real client reads from a local tracker',
            'All answers made by choosing for each key to give it properly, not at all, mistyped or negative (generated by TLC); every truncation and many edits of a good one; seeded ones; delivered whole, in parts, chunked and cut off.',
            ['a mistyped optional key may be refused or ignored', 'an entry with an impossible address or port may be left out, or the answer be refused', 'only HTTP status 200']),
}
