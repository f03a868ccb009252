"""C29: command line options."""
from vlib import *

KEYS = ['i', 'w', 'p', 'cmd', 'u', 'd']


def line(rng, **kw):
    g = {k: {'there': False, 'b': []} for k in KEYS}
    g['i'] = {'there': True, 'b': list(b't.torrent')}
    for k, v in kw.items():
        g[k] = {'there': v is not None, 'b': list(v or b'')}
    order = KEYS[:]
    rng.shuffle(order)
    return {'g': g, 'order': order, 'eq': rng.random() < .5}


SIZES = [2 ** k + j for k in (0, 7, 10, 20, 30, 31, 32, 33, 43, 44, 53, 54, 62, 63, 64) for j in (-1, 0, 1)] + [10 ** 18, 10 ** 19, 10 ** 30, 8589934591, 8589934592]


def limits(rng):
    for n in SIZES:
        for u in (b'', b'B', b'b', b'K', b'k', b'M', b'm', b'G', b'g'):
            for sign in (b'', b'-'):
                yield sign + b'%d' % n + u
    for u in b'BKMGbkmg':
        for c in (b'%c', b'1%c%c', b'-%c', b'1 %c', b'%c1', b'1%ci', b'1%cb', b'+1%c', b'1.5%c', b' 1%c', b'1%c ', b'0x1%c', b'1_0%c', b'--1%c', b'1-%c', b'-%c1', b'1,0%c', b'1%c\n'):
            yield c % ((u,) * c.count(b'%c'))
    for c in range(1, 256):
        yield b'5' + bytes([c])
        yield bytes([c]) + b'5'
    yield from ('5K', '5\u212a', '\uff15', '5\uff2b', '\u0665', '1e3', '1E3', '5KB', '5KiB', '5kb', 'inf', '-1', '-1B', '-2', '0', '-0', '-0G', '00', '007K', '-007k', '0000000000000000000000000000000000001G',
                '-9223372036854775808', '-9223372036854775809', '9223372036854775807', '9223372036854775808', '18446744073709551615', '18446744073709551616', '-', '', '8388607T', '1t', '1p')


def c29(ctx):
    rng = ctx.rng
    gen = emitted(ctx, 'MOptions')
    sc = []
    for i, g in enumerate(gen):
        if THOROUGH or len(g['s']) < 4 or rng.random() < .2:
            sc.append(line(rng, **{'ud'[i % 2]: bytes(g['s'])}))
    for t in limits(rng):
        t = t if isinstance(t, bytes) else t.encode()
        for k in 'ud':
            sc.append(line(rng, **{k: t}))
    good = [b'0', b'5', b'10k', b'3M', b'2G', b'-1', b'-1B', b'7b', b'-5K', None]
    for u in good:                       # neither limit is taken for the other
        for d in good:
            sc.append(line(rng, u=u, d=d, p=b'%d' % rng.randrange(65536)))
    for p in [0, 1, 80, 1023, 1024, 32767, 32768, 60666, 65534, 65535, 65536, 65537, 65536 + 80, 2 ** 31, 2 ** 32, 2 ** 32 + 80, 2 ** 63, 2 ** 64, 2 ** 64 + 80, 10 ** 30]:
        sc.append(line(rng, p=b'%d' % p))
    for p in [b'', b'-1', b'-80', b'x', b'80x', b' 80', b'+80', b'8 0', b'0x50', b'080', b'1e3', b'80.0']:
        sc.append(line(rng, p=p))
    for _ in range(3000 if THOROUGH else 300):
        sc.append(line(rng, p=b'%d' % rng.randrange(70000)))
    for c in [b'swarm', b'info', b'', b'Swarm', b'INFO', b'swarm ', b' info', b'inf', b'info2', b'create', b'-', b'swarminfo', None]:
        for i in [b't.torrent', None, b'']:
            for w in [None, b'', b'.', b'/x/y', b'w']:
                sc.append(line(rng, cmd=c, i=i, w=w))
    for t in [b' ', b'-', b'--', b'a b', b'\xff\xfe', b'-i', b'=', b'a=b', b'x' * 3000, b'\n', b'../..', '\u00e9'.encode()]:
        sc.append(line(rng, i=t))
        sc.append(line(rng, w=t))
    for _ in range(3000 if THOROUGH else 300):
        sc.append(line(rng, i=bytes(rng.randrange(1, 256) for _ in range(rng.randint(1, 9))), w=rng.choice([None, bytes(rng.randrange(1, 256) for _ in range(5))]), u=rng.choice(good), d=rng.choice(good),
                       p=rng.choice([None, b'5', b'65535']), cmd=rng.choice([None, b'info', b'swarm'])))
    conform(ctx, 'JOptions', 'opts', sc, classify=lambda r: 'accepted' if r['out']['ok'] else 'refused', case_ms=60000)


CHECKS = {
    'C29': (c29, 'TLA+ specification of the options (all short texts model checked with TLC against a second definition); TLC judges what the real code makes of real command lines, one process each',
            'All texts of limits of up to 3 (thorough: 4) characters over 15 letters (generated by TLC), sizes around every power of two with every unit and sign, every single byte before and after a digit, ports, commands and paths.',
            ['spellings of ports in other bases are left open', 'each option is given at most once']),
}
