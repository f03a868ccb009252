"""C13, C14: the peer wire messages."""
from vlib import *

TYPES = ['choke', 'unchoke', 'interested', 'uninterested', 'have', 'bitfield', 'request', 'piece', 'keepalive']
TID = {'choke': 0, 'unchoke': 1, 'interested': 2, 'uninterested': 3, 'have': 4, 'bitfield': 5, 'request': 6, 'piece': 7}
Z = [0, 0, 0, 0]


def n4(rng):
    return rng.choice([Z, [0, 0, 0, 1], [0, 0, 1, 0], [0, 1, 0, 0], [1, 0, 0, 0], [255] * 4, [127, 255, 255, 255], [128, 0, 0, 0],
                       [0, 0, 64, 0], [rng.randrange(256) for _ in range(4)]])


def msg(rng, big=False):
    t = rng.choice(TYPES)
    m = {'t': t, 'a': Z, 'b': Z, 'c': Z, 'block': []}
    if t in ('have', 'request', 'piece'):
        m['a'] = n4(rng)
    if t in ('request', 'piece'):
        m['b'] = n4(rng)
    if t == 'request':
        m['c'] = n4(rng)
    if t in ('bitfield', 'piece'):
        n = rng.choice([0, 1, 2, 3, 4, 5, 12, 13, 40, 247, 256, rng.randrange(300)])
        if big:
            n = rng.choice([1000, 4096, 16384, 20000, 65536 - 9, 65536])
        if t == 'bitfield':
            n = max(n, 1)
        k = rng.random()
        m['block'] = [0] * n if k < .2 else [rng.choice([0, 0, 0, 5, 1, 4, 6, 7]) for _ in range(n)] if k < .5 else [rng.randrange(256) for _ in range(n)]
    return m


def enc(m):
    t = m['t']
    if t == 'keepalive':
        return [0, 0, 0, 0]
    p = {'have': m['a'], 'request': m['a'] + m['b'] + m['c'], 'piece': m['a'] + m['b'] + m['block'], 'bitfield': m['block']}.get(t, [])
    return list((1 + len(p)).to_bytes(4, 'big')) + [TID[t]] + p


def raw(b):
    return {'ms': [], 'tail': list(b)}


def c13(ctx):
    rng = ctx.rng
    sc = [s for s in emitted(ctx, 'MWire') if s['ms']]
    for _ in range(30000 if THOROUGH else 4000):
        sc.append({'ms': [msg(rng) for _ in range(rng.choice([1, 1, 2, 3, 5, 9]))], 'tail': rng.choice([[], [], [0], [0, 0, 0, 5, 4], enc(msg(rng))[:-1]])})
    for t in ('have', 'request', 'piece'):      # every bit of every number
        for f in 'abc'[:{'have': 1, 'request': 3, 'piece': 2}[t]]:
            for i in range(32):
                m = {'t': t, 'a': Z, 'b': Z, 'c': Z, 'block': []}
                m[f] = list((1 << i).to_bytes(4, 'big'))
                sc.append({'ms': [m], 'tail': []})
    for n in range(0, 300):
        for t in ('piece', 'bitfield'):
            if n or t == 'piece':
                sc.append({'ms': [{'t': t, 'a': Z, 'b': Z, 'c': Z, 'block': [rng.randrange(256) for _ in range(n)]}], 'tail': [0, 0]})
    for _ in range(60 if THOROUGH else 10):
        sc.append({'ms': [msg(rng, True) for _ in range(2)], 'tail': []})
    for n in [65527, 65528, 65535, 65536, 65537, 70000, 131072 + 5] + ([1 << 20, 1 << 22] if THOROUGH else []):     # long ones
        for t in ('piece', 'bitfield'):
            sc.append({'ms': [{'t': t, 'a': Z, 'b': n4(rng), 'c': Z, 'block': list(rng.randbytes(n))}, msg(rng)], 'tail': [0, 0]})
    sc.append({'ms': [msg(rng) for _ in range(400)], 'tail': []})
    for ms, n in ((1, 1025), (1, 5000), (1, 70000), (3, 700), (7, 10000)):     # very many
        sc.append({'ms': [dict(m, a=Z) if m['t'] == 'have' else m for m in [msg(rng) for _ in range(ms)] if len(m['block']) < 60] or [{'t': 'have', 'a': Z, 'b': Z, 'c': Z, 'block': []}], 'tail': [], 'n': n})
    conform(ctx, 'JWire', 'wire', sc, classify=lambda r: 'sequences of %s' % (len(r['ms']) if len(r['ms']) < 5 else 'more'))


def mutate(rng, b):
    b = list(b)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        k = rng.random()
        if not b or k < .2:
            b.insert(rng.randint(0, len(b)), rng.choice([0, 1, 5, 255, rng.randrange(256)]))
        elif k < .4:
            del b[rng.randrange(len(b))]
        elif k < .6:
            b = b[:rng.randint(0, len(b))]
        elif k < .9:
            i = rng.randrange(min(len(b), rng.choice([5, 5, 400])))
            b[i] = rng.choice([0, 1, 2, 5, 7, 8, 9, 13, 20, 127, 128, 255, (b[i] + 1) % 256, (b[i] - 1) % 256])
        else:
            b += enc(msg(rng))
    return b


def c14(ctx):
    rng = ctx.rng
    sc = [s for s in emitted(ctx, 'MWire') if not s['ms']]
    # every length with every type, exactly complete, one byte short, and with more following
    for t in list(range(0, 12)) + [20, 127, 128, 254, 255]:
        for n in range(1, 24):
            body = [t] + [rng.randrange(256) for _ in range(n - 1)]
            h = list(n.to_bytes(4, 'big'))
            sc += [raw(h + body), raw((h + body)[:-1]), raw(h + body + [0, 0, 0, 1, 1]), raw([0, 0, 0, 1, 2] + h + body + [0, 0, 0, 1, 3])]
        for h in ([255] * 4, [255, 255, 255, 254], [255, 255, 255, 252], [255, 255, 255, 251], [128, 0, 0, 0], [127, 255, 255, 255], [0, 1, 0, 0], [1, 0, 0, 0]):
            for k in (0, 1, 4, 8, 12, 13, 60):
                sc.append(raw(h + [t] + [0] * k))
                sc.append(raw([0, 0, 0, 0] + h + [t] + [rng.randrange(256) for _ in range(k)]))
    # every cut of valid sequences
    for _ in range(60 if THOROUGH else 15):
        d = sum((enc(m) for m in [msg(rng) for _ in range(3)]), [])[:400]
        sc += [raw(d[:k]) for k in range(len(d) + 1)]
    for _ in range(60000 if THOROUGH else 12000):
        sc.append(raw(mutate(rng, sum((enc(msg(rng)) for _ in range(rng.choice([1, 2, 4]))), []))))
    for _ in range(20000 if THOROUGH else 4000):
        sc.append(raw([rng.choice([0, 0, 0, 1, 5, 13, rng.randrange(256)]) for _ in range(rng.randrange(40))]))
    for n in (1 << 12, 1 << 14):
        sc.append(raw([0] * n))
        sc.append(raw([0, 0, 0, 1, 5] * (n // 5)))
        sc.append(raw([0, 0, 0, 1, 99] * (n // 5)))
    conform(ctx, 'JWire', 'wire', sc, classify=lambda r: 'byte strings', case_ms=10000)


TECH = 'TLA+ specification of the wire format (inverse and prefix-safe, checked with TLC); TLC judges recorded encodings and decodings of the real code'
CHECKS = {
    'C13': (c13, TECH, 'All sequences of up to 2 of 20 messages with 8 tails (generated by TLC), all block lengths below 300, every bit of every number, seeded sequences, up to 70000 messages; buffers are overwritten after decoding and the messages read again.',
            ['empty bitfields, which no torrent has, may be decoded or refused']),
    'C14': (c14, TECH, 'All byte strings of up to 5 bytes over 8 values (generated by TLC), every type with every small length and extreme lengths, every cut of valid sequences, seeded mutations.',
            ['what is decoded after the first malformed frame is only checked for crashes, termination and accounting', 'empty bitfields, which no torrent has, may be decoded or refused']),
}
