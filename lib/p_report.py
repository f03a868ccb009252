"""C32: what the info command says."""
from vlib import *
from genben import *
from p_tor import tdict, wreck, shuffled, ORD

NAMES = [b for b in ORD if b'\n' not in b] + [b'x]', b'[x', b'a : b', b'100%', b'%s', b'%v %d', b'Length: [5 b]', b'Name: [y]', b'q' * 300, b'  lead', b'trail ', b'\t', b'Files:', b'\r']


def clean(v):
    """Without line breaks: these would make other lines."""
    if isinstance(v, bytes):
        return v.replace(b'\n', b'_')
    if isinstance(v, list):
        return [clean(x) for x in v]
    if isinstance(v, dict):
        return {k: (x if k == b'pieces' else clean(x)) for k, x in v.items()}
    return v


def one(n, name=b'f', announce=b'http://t/a', plen=None):
    plen = plen or max(n, 1)
    return enc({b'announce': announce, b'info': {b'name': name, b'length': n, b'piece length': plen, b'pieces': b'h' * (20 * -(-n // plen))}})


def many(sizes, plen, names, name=b'd'):
    return enc({b'announce': b'x', b'info': {b'name': name, b'piece length': plen, b'pieces': b'h' * (20 * -(-sum(sizes) // plen)),
                b'files': [{b'length': z, b'path': p} for z, p in zip(sizes, names)]}})


def c32(ctx):
    rng = ctx.rng
    texts = [one(g['n']) for g in emitted(ctx, 'MReport')]
    for k in range(0, 63):
        for j in (-1, 0, 1):
            if 0 <= 2 ** k + j < 2 ** 63:
                texts.append(one(2 ** k + j))
    for n in (2 ** 63 - 1, 10 ** 18, 5242880, 999, 1000, 1023 * 1024 + 1018, 1023 * 1024 + 1019, 1024 ** 2 - 6, 1024 ** 3 - 5 * 1024, 2 ** 60 - 1):
        texts.append(one(n))
    for name in NAMES:
        texts.append(one(1000, name))
        texts.append(one(1000, b'n', name))
        texts.append(many([5, 1536], 1024, [[name], [b'b', name]], name))
    for nf in (0, 1, 2, 3, 10, 60):
        for plen in (1, 1000, 16384, 2 ** 20 + 1):
            z = [rng.choice([0, 1, 999, 1023, 1024, 1025, 2 ** 20, 3 * 2 ** 20 + 1, rng.randrange(2 ** 22)]) if plen > 1 else rng.randrange(3) for _ in range(nf)]
            while sum(z) // plen > 60:
                plen *= 2
            texts.append(many(z, plen, [[b'p%d' % i] * (1 + i % 3) for i in range(nf)]))
    for n in (1, 9, 10, 99, 100, 101):         # numbers of pieces
        texts.append(one(n * 7, plen=7))
        texts.append(one(n * 7 - 6, plen=7))
    for i in range(8000 if THOROUGH else 1200):
        t = clean(tdict(rng, odd=.05 if i % 3 == 0 else 0, junk=.2, big_=i % 4 == 0))
        if rng.random() < .2:
            t = wreck(rng, t)
        c = rng.random()
        texts.append(enc(t) if c < .7 else shuffled(rng, t) if c < .85 else mutate(rng, enc(t)).replace(b'\n', b'_'))
    sc = [{'op': 'report', 'in': list(t), 'wd': rng.choice(['wd', 'wd', './wd/', '', 'none']), 'there': list(rng.choice([b'', b'f', b'd', b'n']))} for t in texts]
    rng.shuffle(sc)
    gotor = build_gotor()
    conform(ctx, 'JReport', 'report', sc, case_ms=60000, classify=lambda r: 'reported' if r.get('out', {}).get('ok') else 'refused',
            drive_fn=lambda s: drive(ctx, 'report', s, 60000, env={'GOTOR': gotor}),
            describe=lambda r: 'torrent file %r -> %s' % (bytes(r['in'])[:600], repr(bytes(r['out']['text']))[:900] if 'out' in r else r.get('why', '')[:500]))


CHECKS = {
    'C32': (c32, 'TLA+ specification of the report over that of torrent files (sizes and units model-checked with TLC); TLC judges what the real command prints for generated torrents',
            'Lengths around every step of the units (generated by TLC) and every power of two, odd names, up to 60 files, and seeded torrents, well-formed and not; the files around are compared before and after.',
            ['names and URLs without line breaks', 'a torrent of one file need not be shown as a list of files']),
}
