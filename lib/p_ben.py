"""C01, C02: bencoding."""
from vlib import *
from genben import *


V_DEEP = 3
for _ in range(60):
    V_DEEP = [V_DEEP]


def model_ben(ctx):
    model(ctx, 'MBencode')


def c01(ctx):
    model_ben(ctx)
    rng = ctx.rng
    n = 40000 if THOROUGH else 8000
    sc = []
    leaves = [*INTS, b'', b'a', b'\x00', b'\xff\xfe', b'i1e', bytes(range(256)), b'0123456789' * 11, [], {}, [[]], [{}], {b'a': {}},
              *[Bad(k) for k in Bad.KINDS], Sized('int', 2 ** 62), Sized('int8', -128), Sized('int16', -32768), Sized('int32', 2 ** 31 - 1)]
    for v in leaves:
        for w in (v, [v], [b'x', v, 3], {b'k': v}, {b'a': [v], b'b': 1}, [{b'q': [[v]]}]):
            sc.append({'op': 'enc', 'v': V(w)})
    for k in (b'', b'b', b'\xc3\xa9', b'\x80', b'a\x00', b'aa', b'B', b'10', b'9', b'a'):
        sc.append({'op': 'enc', 'v': V({k: 1, b'm': 2, b'\x7f': 3})})
    # dictionaries whose keys sort differently as text, by length or as signed bytes
    keys = [b'a', b'aa', b'ab', b'b', b'A', b'\x80', b'\xff', b'\x00', b'a\x00', b'\xc3\xa9', b'z', b'0', b'10', b'9', b'~', b' ']
    for _ in range(n // 8):
        ks = rng.sample(keys, rng.randint(1, len(keys)))
        sc.append({'op': 'enc', 'v': V({k: rint(rng) for k in ks})})
    for _ in range(n):
        sc.append({'op': 'enc', 'v': V(rval(rng, rng.choice([1, 2, 3, 4, 5]), empty=rng.choice([0, 0, .1]), bad=rng.choice([0, 0, 0, .05])))})
    for _ in range(n // 20):
        sc.append({'op': 'enc', 'v': V([rbytes(rng, rng.choice([99, 100, 101, 999, 1000, 1001])), {rbytes(rng, 300): 1}])})
    v = 5
    for d in range(60):
        v = [v] if d % 2 else {b'n': v}
        sc.append({'op': 'enc', 'v': V(v)})
    conform(ctx, 'JBencode', 'ben', sc, classify=lambda r: 'encoded' if r.get('out', {}).get('ok') else 'refused')
    large(ctx)


def c02(ctx):
    model_ben(ctx)
    rng = ctx.rng
    sc = [{'op': 'dec', 'in': list(t)} for t in exhaustive(6 if THOROUGH else 5)]
    n = 60000 if THOROUGH else 12000
    for _ in range(n):
        v = rval(rng, rng.choice([0, 1, 2, 3, 4]), empty=.15)
        c = rng.random()
        if c < .25:
            t = enc(v)
        elif c < .6:
            t = messy(rng, v)
        else:
            t = mutate(rng, enc(v) if rng.random() < .7 else messy(rng, v))
        if rng.random() < .03:
            t += rng.choice([b'e', b'i1e', b'\x00'])
        sc.append({'op': 'dec', 'in': list(t)})
    # integers and lengths around every limit
    for x in INTS + [2 ** 63, -2 ** 63 - 1, 2 ** 64, 2 ** 64 - 1, 2 ** 64 + 5, 10 ** 19, -10 ** 30, 10 ** 40]:
        for t in (b'i%de', b'i0%de', b'i%d', b'i %de', b'i%dx', b'li%dee', b'd1:ai%dee'):
            sc.append({'op': 'dec', 'in': B(t % x)})
        for t in (b'%d:', b'%d:abc', b'l%d:ae', b'd%d:ai1ee', b'0%d:abcdefghijk'):
            sc.append({'op': 'dec', 'in': B(t % x)})
    whole = enc({b'a': [1, b'xyz', {}], b'bc': {b'd': -5, b'e': b''}, b'z': []})
    for i in range(len(whole) + 1):
        sc.append({'op': 'dec', 'in': B(whole[:i])})
        for c in b'ilde0:-9\xff':
            sc.append({'op': 'dec', 'in': B(whole[:i] + bytes([c]) + whole[i + 1:])})
    # lookups
    for _ in range(n // 6):
        d = {rbytes(rng, 4, empty=True): rval(rng, 2, empty=.2) for _ in range(rng.randint(0, 5))}
        k = rng.choice(list(d)) if d and rng.random() < .8 else rbytes(rng, 4, empty=True)
        for g in ('string', 'int', 'uint', 'dict', 'list'):
            sc.append({'op': 'get', 'v': V(d), 'key': list(k), 'getter': g})
    for x in INTS:
        for g in ('int', 'uint'):
            sc.append({'op': 'get', 'v': V({b'k': x}), 'key': B('k'), 'getter': g})
    # deep nesting
    for n_ in (1, 2, 10, 500, 1000):
        for kind in 'ld':
            for m in (n_, n_ - 1, 0, n_ + 1):
                sc.append({'op': 'deep', 'kind': kind, 'n': n_, 'm': m})
    conform(ctx, 'JBencode', 'ben', sc, classify=lambda r: r['op'] + (' accepted' if r.get('out', {}).get('ok') else ' refused'))
    large(ctx)
    # nesting that could exhaust the stack
    deep = [{'op': 'deep', 'kind': kind, 'n': n_, 'm': m} for n_ in (9999, 10000, 10001, 200000, 12000000) for kind in 'ld' for m in (n_, 0)]
    conform(ctx, 'JBencode', 'ben', deep, case_ms=120000, shards=3, classify=lambda r: 'very deep')


def large(ctx):
    """Many elements, deep in sum though no one of them is; and long strings."""
    wide = [{'op': 'long', 'kind': k, 'n': n_} for k in 'sldk' for n_ in (1000, 65535, 65536, 70001, (1 << 20) + 5, (1 << 24) + 1)]
    for kind in 'ld':
        for n_, inner in ((1, [[]]), (900, []), (9990, b'x'), (10050, []), (10050, {}), (10050, 7), (25000, []), (300, V_DEEP), (2100, [[[{b'a': []}]]]), (1100, {b'a': {b'b': [{}]}})):
            wide.append({'op': 'wide', 'kind': kind, 'n': n_, 'in': list(enc(inner))})
    conform(ctx, 'JBencode', 'ben', wide, case_ms=60000, classify=lambda r: r['op'])


T = 'TLA+ grammar model-checked with TLC; TLC judges every recorded call of the real code'
CHECKS = {
    'C01': (c01, T, 'Model checking of the grammar (all texts over 8 symbols to length 6, a small universe of values); every recorded '
            'Encode/Decode call on seeded values is compared with the model by TLC. Assumes values are only what the generator makes.',
            ['strings up to some 10^5 bytes, lists and dictionaries of some 10^4 entries, nesting up to 60 in encoded values']),
    'C02': (c02, T, 'All texts over the 8 structural symbols up to length 5 (6 in thorough), every truncation and many mutations of larger ones, '
            'number limits and very deep nesting, decoded by the real code and judged by the model in TLC.',
            ['every well-formed text is accepted up to a nesting of 1000; deeper ones may be refused',
             'tolerated spellings (leading zeros in lengths, minus zero, unsorted or repeated keys, trailing bytes) may be refused or read as meant']),
}
