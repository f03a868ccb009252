"""C03-C07: torrent files, piece layout, creation."""
from vlib import *
from genben import *

ORD = [b'a', b'b', b'file.txt', b'..a', b'a..', b'...', b' ', b'\xc3\xa9', b'\xff\xfe', b'-', b'~', b'a b', b'.hidden', b'\n', b'C:\\x', b'%2e', b'*', b'\x7f']
ODD = [b'..', b'.', b'', b'/', b'/etc/x', b'../x', b'../../../../../../../../etc/passwd', b'a/../../b', b'a//b', b'a/b', b'a/', b'/..', b'../wd2/f',
       b'../wd', b'../wd/x', b'./x', b'a/..', b'..//', b'a\x00b', b'x/../y', b'.../..', b'....//', b'..\\x', b'/tmp', b'wd', b'a/./b', b' ..', b'.. ']
WDS = [b'wd', b'./wd', b'wd/', b'', b'.', b'..', b'../..', b'/', b'a/../wd', b'/scratch', b'/scratch/x/', b'//scratch', b'wd/sub', b'/a/..', b'\xff', b'wd/../../q']


def comp(rng, odd):
    return rng.choice(ODD) if rng.random() < odd else rng.choice(ORD)


def extra(rng, d, p):
    """Add keys that the loader does not know."""
    while rng.random() < p:
        k = rng.choice([b'comment', b'x', b'', b'private', b'source', b'zz', b'aaa', b'info2', b'path.utf-8', b'md5sum', b'info', rbytes(rng, 6)])
        if k not in d:
            d[k] = rval(rng, 2, empty=.3)
    return d


def tdict(rng, odd=0.0, junk=.4, big_=False):
    """A well-formed torrent as a Python value."""
    plen = rng.choice([1, 2, 3, 5, 7, 16384, 65537, 2 ** 20])
    nf = rng.choice([0, 1, 1, 2, 3, 5])
    sizes = [rng.choice([0, 1, 2, 3, plen - 1, plen, plen + 1, rng.randint(0, 3 * plen)]) for _ in range(max(nf, 1))]
    if big_:
        plen = rng.choice([2 ** 31, 2 ** 33 + 7, 2 ** 45, 2 ** 62 - 1, I63 - 1])
        sizes = [rng.choice([plen // 2, plen, 1, 0]) for _ in range(max(nf, 1))]
        while sum(sizes) > I63 - 1:
            sizes.pop()
    total = sum(sizes)
    n = -(-total // plen)
    while n > 60:
        plen *= 2
        n = -(-total // plen)
    info = {b'name': comp(rng, odd), b'piece length': plen, b'pieces': bytes(rng.randrange(256) for _ in range(20 * n))}
    if nf == 0:
        info[b'length'] = sizes[0]
    else:
        info[b'files'] = [extra(rng, {b'length': z, b'path': [comp(rng, odd) for _ in range(rng.choice([1, 1, 2, 3]))]}, junk / 2) for z in sizes]
    extra(rng, info, junk)
    return extra(rng, {b'announce': rng.choice([b'http://t/a', b'x', b'', rbytes(rng)]), b'info': info}, junk)


def wreck(rng, t):
    """Break one thing in a torrent value."""
    info = t[b'info']
    where = rng.choice([t, info, info, info])
    if isinstance(info.get(b'files'), list) and info[b'files'] and rng.random() < .5:
        where = rng.choice(info[b'files'])
        if not isinstance(where, dict):
            return t
    ks = [k for k in where if k in (b'announce', b'info', b'name', b'piece length', b'pieces', b'length', b'files', b'path')]
    if not ks:
        return t
    k = rng.choice(ks)
    c = rng.random()
    v = where[k]
    if c < .25:
        del where[k]
    elif c < .5:
        where[k] = rng.choice([0, -1, 5, b'', b'5', [], {}, [b'a'], [[]], {b'length': 1}])
    elif isinstance(v, int):
        where[k] = rng.choice([0, -1, -v, v + 1, v - 1, I63 - 1, -I63, 2 ** 62, 2 ** 63 - 20, v * 2 if v < 2 ** 62 else 1])
    elif isinstance(v, bytes):
        where[k] = rng.choice([v + b'x', v[:-1], v * 2, v + bytes(20), v[:-20], v[20:] + b'y' * 40, b''])
    elif isinstance(v, list):
        w = list(v)
        i = rng.randrange(len(w) + 1)
        w.insert(i, rng.choice([1, b'', b'a', [], {}, [b'a'], {b'length': 0, b'path': [b'q']}, {b'length': -3, b'path': [b'q']}, {b'path': [b'q']},
                                {b'length': 0, b'path': []}, {b'length': I63 - 1, b'path': [b'q']}, {b'length': 0, b'path': [1]}]))
        where[k] = w
    else:
        where[k] = rng.choice([[], b'x', 3])
    return t


def shuffled(rng, v):
    """Encode with dictionary keys in any order."""
    if isinstance(v, list):
        return b'l' + b''.join(shuffled(rng, x) for x in v) + b'e'
    if isinstance(v, dict):
        it = list(v.items())
        rng.shuffle(it)
        return b'd' + b''.join(enc(k) + shuffled(rng, x) for k, x in it) + b'e'
    return enc(v)


def load(text, wd=b'wd'):
    return {'op': 'load', 'in': list(text), 'wd': list(wd)}


def many():
    """Many pieces, many files, deep paths."""
    res = []
    for n, plen, last in ((300, 1, 1), (5000, 16384, 1), (65535, 2, 2), (65536, 2, 1), (65537, 2, 2), (70001, 16384, 5)):
        length = (n - 1) * plen + last
        for k in (n, n - 1, n + 1):
            res.append({'op': 'many', 'n': k, 'plen': plen, 'length': length, 'nf': 0, 'deep': 0})
    for nf, deep in ((13, 0), (100, 1), (300, 0), (3000, 2), (2, 20), (2, 60), (3, 300)):
        for n, k in ((40, 40), (40, 41), (1, 1)):
            res.append({'op': 'many', 'n': k, 'plen': 100, 'length': n * 100 - 7, 'nf': nf, 'deep': deep})
    return res


def describe(rec):
    if rec['op'] == 'many':
        return json.dumps(rec)
    return 'torrent file %r in %r -> %s' % (bytes(rec['in']), bytes(rec['wd']), json.dumps(rec.get('out', rec.get('why', '')))[:700])


def grown(rng, prop):
    """Torrents with an unknown key whose value is deep or has many elements."""
    res = []
    for _ in range(3):
        t = tdict(rng, junk=0)
        for k in (b'a', b'comment', b'zz', b'ia', b'iz'):
            if k.startswith(b'i'):
                if prop == 'C03':      # elsewhere than in info: its slice is sought in the text without the key
                    continue
                inner = enc(t[b'info'])
                text = enc(t)
                at = text.index(inner) + (1 if k == b'ia' else len(inner) - 1)
                k = b'a' if k == b'ia' else b'zz'
            else:
                text = enc(t)
                at = text.index(b'4:info') if k == b'comment' else 1 if k == b'a' else len(text) - 1
            for pre, op_, mid, close, n in ((b'', b'l', b'', b'e', 110), (b'', b'l', b'', b'e', 960), (b'', b'd1:a', b'i3e', b'e', 930), (b'l', b'le', b'e', b'', 11000),
                                            (b'l', b'd1:ali1eee', b'e', b'', 5100), (b'70000:', b'7654321', b'', b'', 10000), (b'l', b'2:ab', b'e', b'', 11000)):
                sc = load(text)
                sc['grow'] = {'at': at, 'pre': list(enc(k) + pre), 'open': list(op_), 'mid': list(mid), 'close': list(close), 'n': n}
                res.append(sc)
    return res


def judge_loads(ctx, sc, prop):
    return conform(ctx, 'JMetainfo', 'tor', sc, extra_env={'PROP': prop}, describe=describe,
                   classify=lambda r: 'loaded' if r.get('out', {}).get('ok') else 'refused')


def universe(ctx):
    sc = generate(ctx, 'MMetainfo')
    for s in sc:
        s['wd'] = list(b'wd')
    return sc


def c03(ctx):
    rng = ctx.rng
    sc = universe(ctx)
    for _ in range(12000 if THOROUGH else 2500):
        t = tdict(rng, odd=.05, junk=.7)
        if rng.random() < .1:
            t = wreck(rng, t)
        c = rng.random()
        text = enc(t) if c < .4 else shuffled(rng, t) if c < .7 else messy(rng, t) if c < .85 else mutate(rng, enc(t))
        if rng.random() < .1:
            text += rng.choice([b'e', b'\n', enc({b'info': {}}), b'4:info'])
        if rng.random() < .1:      # the key info elsewhere too
            t[b'a'] = {b'info': t.get(b'info', 1)}
            t[b'z'] = [b'info', enc(t)]
            text = enc(t) if rng.random() < .5 else shuffled(rng, t)
        sc.append(load(text))
    # info given twice, in every spelling
    for _ in range(40):
        a, b = tdict(rng), tdict(rng)
        sc.append(load(b'd' + enc(b'announce') + enc(b'x') + enc(b'info') + enc(a[b'info']) + enc(b'info') + enc(b[b'info']) + b'e'))
        sc.append(load(b'd' + enc(b'announce') + enc(b'x') + b'04:info' + shuffled(rng, a[b'info']) + b'e'))
    sc += grown(rng, 'C03')
    judge_loads(ctx, sc, 'C03')


def c04(ctx):
    rng = ctx.rng
    sc = universe(ctx)
    n = 12000 if THOROUGH else 2500
    for i in range(n):
        t = tdict(rng, odd=.1 if i % 4 == 0 else 0, junk=.3, big_=i % 6 == 0)
        c = rng.random()
        if c < .5:
            for _ in range(rng.choice([1, 1, 2])):
                if b'info' in t and isinstance(t[b'info'], dict):
                    t = wreck(rng, t)
        text = enc(t)
        if c > .9:
            text = mutate(rng, text)
        elif c > .8:
            text = messy(rng, t)
        sc.append(load(text))
    # sums of lengths at and beyond the limit
    for a, b in ((2 ** 62, 2 ** 62), (I63 - 1, 1), (I63 - 1, 0), (2 ** 62, 2 ** 62 - 1), (I63 - 1, I63 - 1), (I63 - 2, 1)):
        for plen in (I63 - 1, 2 ** 62, 2 ** 61, I63 - 2, 1 << 40):
            for k in (0, 1, 2, 3, 4, 5):
                f = [{b'length': a, b'path': [b'a']}, {b'length': b, b'path': [b'b']}]
                sc.append(load(enc({b'announce': b'x', b'info': {b'name': b'n', b'piece length': plen, b'pieces': b'h' * (20 * k), b'files': f}})))
                sc.append(load(enc({b'announce': b'x', b'info': {b'name': b'n', b'piece length': plen, b'pieces': b'h' * (20 * k), b'length': a}})))
    for text in (b'', b'd', b'de', b'le', b'i1e', b'4:info', b'd4:infodee', b'd8:announce0:4:infodee'):
        sc.append(load(text))
    sc += grown(rng, 'C04')
    sc += many()
    judge_loads(ctx, sc, 'C04')


def c05(ctx):
    rng = ctx.rng
    model(ctx, 'MMetainfo', env={'OUT': ''})
    sc = []
    # every short path of odd and ordinary components
    cs = [b'..', b'.', b'', b'a', b'wd', b'wd2', b'/', b'../wd2']
    import itertools
    for wd in (b'wd', b'', b'.', b'..', b'/scratch/wd'):
        for name in (b'..', b'a', b'', b'.', b'/', b'../wd2', b'../wd', b'wd/..', b'../../x', b'/scratch/wd/../y', b'..a', b'../..'):
            for n in (0, 1, 2):
                for p in itertools.product(cs, repeat=n):
                    info = {b'name': name, b'piece length': 1, b'pieces': b'h' * 20}
                    if n:
                        info[b'files'] = [{b'length': 1, b'path': list(p)}]
                    else:
                        info[b'length'] = 1
                    sc.append(load(enc({b'announce': b'x', b'info': info}), wd))
    for i in range(12000 if THOROUGH else 2500):
        t = tdict(rng, odd=rng.choice([0, .2, .6]), junk=.1)
        sc.append(load(enc(t), rng.choice(WDS)))
    # paths longer than any name a system may take
    for deep in (20, 40, 300):
        for tail in ([], [b'..'] * 3, [b'..'] * deep, [b'..'] * (deep + 1), [b'..'] * (deep + 2), [b'..'] * (deep + 3) + [b'x'], [b'../..'], [b'']):
            for part in (b'a', b'abc'):
                if deep * len(part) < 6000:
                    info = {b'name': b'n', b'piece length': 1, b'pieces': b'h' * 20, b'files': [{b'length': 1, b'path': [part] * deep + tail}]}
                    sc.append(load(enc({b'announce': b'x', b'info': info}), rng.choice([b'wd', b'', b'/scratch/wd'])))
    for name in (b'a/' * 2100 + b'..', b'a' * 4200, b'a' * 5000 + b'/../../..', b'a/' * 2100 + b'../' * 2101 + b'x', b'a/' * 2100 + b'../' * 2100 + b'x', b'./' * 2100 + b'..', b'x/../' * 1000 + b'..'):
        for info in ({b'name': name, b'length': 1}, {b'name': b'n', b'files': [{b'length': 1, b'path': [name]}]}, {b'name': b'n', b'files': [{b'length': 1, b'path': [b'a', name, b'b']}]}):
            info.update({b'piece length': 1, b'pieces': b'h' * 20})
            sc.append(load(enc({b'announce': b'x', b'info': info})))
    judge_loads(ctx, sc, 'C05')


def P(n):
    return [n >> 20, n & 0xfffff]


def c06(ctx):
    rng = ctx.rng
    sc = generate(ctx, 'MLayout', 'MLayoutDeep.cfg' if THOROUGH else 'MLayout.cfg')

    def add(lens, plen):
        n = -(-sum(lens) // plen)
        if n <= 400:
            sc.append({'op': 'layout', 'lens': [P(x) for x in lens], 'plen': P(plen), 'n': n})

    for _ in range(8000 if THOROUGH else 1500):
        plen = rng.choice([1, 2, 3, 4, 7, 16, 100, 16384, 65536, 2 ** 20 + 1])
        nf = rng.choice([1, 2, 3, 6, 12, 30])
        pool = [0, 0, 1, 2, plen - 1, plen, plen + 1, 2 * plen, 2 * plen - 1, 3 * plen + 1]
        add([rng.choice(pool) if rng.random() < .8 else rng.randint(0, 5 * plen) for _ in range(nf)], plen)
    for _ in range(600 if THOROUGH else 120):      # beyond 4 GiB
        plen = rng.choice([2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 5, 2 ** 40, 2 ** 24])
        pool = [0, 1, plen - 1, plen, plen + 1, 2 * plen, 3 * plen + 1, 2 ** 32, 2 ** 33 - 1, 2 ** 41]
        add([rng.choice(pool) for _ in range(rng.choice([1, 2, 3, 6]))], plen)
    for nf in (9, 12, 17, 40, 70):      # many files in a piece
        for plen in (nf, nf - 3, 100):
            add([1] * nf, plen)
            add([1, 0] * (nf // 2) + [3], plen)
            add([3 * plen + 1] + [1] * nf + [2 * plen], plen)
    # many pieces
    for lens, plen in (([70000], 1), ([16384 * 66000 + 1], 16384), ([65000, 5, 0, 1, 1, 2000], 1), ([65535, 65535, 7], 2), ([2 ** 36 + 5, 9], 2 ** 20)):
        n = -(-sum(lens) // plen)
        at = sorted(rng.sample(range(n), 40) + [i for i in (0, 1, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, n - 2, n - 1) if i < n])
        sc.append({'op': 'layout', 'lens': [P(x) for x in lens], 'plen': P(plen), 'n': n, 'at': at})
    conform(ctx, 'JLayout', 'tor', sc, case_ms=90000, classify=lambda r: '%d files' % len(r['lens']) if len(r['lens']) < 5 else 'more files')


def c07(ctx):
    rng = ctx.rng
    model(ctx, 'MLayout')
    sc = []

    def add(sizes, plen, **kw):
        single = len(sizes) == 1
        names = ['f%d' % i for i in range(len(sizes))]
        if not single:
            for i in range(len(names)):
                c = rng.random()
                if c < .3:
                    names[i] = 'd%d/%s' % (rng.randint(0, 2), names[i])
                elif c < .4:
                    names[i] = 'd0/e/' + names[i]
                elif c < .5:
                    names[i] = names[i] + rng.choice([' x', '.bin', 'é', '-', '\\', '\\b', '\ny', ' ', '..', '%2e', ':1', '"'])
                elif c < .55:
                    names[i] = rng.choice(['..', '.', ' ', '\\', '-', 'é\\', 'C:\\', '~', '...']) + names[i]
        files = []
        for nm, z in zip(names, sizes):
            if z <= 200:
                files.append({'path': nm, 'b': [rng.randrange(256) for _ in range(z)]})
            else:
                files.append({'path': nm, 'seed': rng.randrange(1 << 30), 'n': z})
        sc.append(dict({'op': 'create', 'name': names[0] if single else rng.choice(['tor', 'a b', 'x']), 'plen': plen, 'files': files,
                        'abs': rng.random() < .5}, **kw))

    for _ in range(6000 if THOROUGH else 1200):
        plen = rng.choice([1, 1, 2, 3, 4, 5, 7, 16, 33, 64, 100, 128])
        nf = rng.choice([1, 1, 2, 3, 5])
        sizes = [rng.choice([0, 1, 2, plen - 1, plen, plen + 1, 2 * plen, rng.randint(0, 40)]) for _ in range(nf)]
        if sum(sizes) == 0 or sum(sizes) // plen > 120:
            continue
        kw = {}
        if rng.random() < .05:
            kw['drop'] = rng.randrange(nf)
        add(sizes, plen, **kw)
    # more pieces than a few thousand
    for sizes, plen in (([9001], 2), ([4097], 1), ([8000, 3, 2200], 2), ([6000, 7000], 3)):
        add(sizes, plen)
    for k in (13, 40, 300):      # many files
        add([rng.choice([0, 1, 2, 5]) for _ in range(k)], 7)
        add([rng.choice([1, 3]) for _ in range(k)], 64)
    # one piece, said to be far longer than all there is
    for exp in (24, 31, 32, 40, 48, 62, 63):
        for sizes in ([9], [3, 0, 4], [130]):
            add(sizes, sum(sizes) + 1, exp=exp)
    for plen in (0, -1, -2 ** 31):
        add([5, 3], plen)
        add([5], plen)
    M = 1 << 20
    for plen in (M, M + 1, 3 * M, 5 * M - 1, 5 * M, 5 * M + 1, 6 * M, 16384 * 3, 9 * M, 2 * M + 511):
        for sizes in ([5 * M], [5 * M + 1], [10 * M], [2 * M, 3 * M, 1], [plen, plen], [plen - 1, 2, plen - 1], [11 * M + 12345], [M, 4 * M, 5 * M],
                      [0, plen + 1, 0]):
            if THOROUGH or rng.random() < .5:
                add(sizes, plen)
    if THOROUGH:
        for _ in range(60):
            plen = rng.randint(1 << 14, 8 * M)
            add([rng.randint(0, 7 * M) for _ in range(rng.choice([1, 2, 4]))], plen)
    conform(ctx, 'JCreate', 'tor', sc, case_ms=60000, classify=lambda r: 'refused' if not r.get('out', {}).get('ok') else 'big' if r['out']['created']['length'] > 10 ** 5 else 'small')


TM = 'TLA+ specification of metainfo (Metainfo/Paths over Bencode), model-checked with TLC; TLC judges every recorded load of the real code'
TL = 'TLA+ layout specification model-checked with TLC (cursor machine = declarative partition); TLC judges the layouts the real code reports'
CHECKS = {
    'C03': (c03, TM, 'The small universe of torrents enumerated by TLC, and seeded larger ones with unknown keys, nesting, empty strings, any key order, '
            'repeated keys and byte mutations; the hash is located among the slices of the file by the harness and TLC decides whether that slice is the info value.',
            ['SHA-1 has no collisions among the slices of one file']),
    'C04': (c04, TM, 'Every combination of present, absent, mistyped and bad values of the keys in a small universe enumerated by TLC, and seeded ones, some of tens of thousands of pieces or files.',
            ['files given two paths alike, or a text repeating a key, may be refused or read', 'a torrent giving both length and files is not judged']),
    'C05': (c05, TM, 'All names and paths of up to two components over a set of odd components in several working directories, and seeded longer ones (beyond 4096 bytes); '
            'names are resolved without following symbolic links.', ['a name or path that is not ordinary may be refused, whatever it resolves to']),
    'C06': (c06, TL, 'All file lists of up to 4 files of up to 4 bytes and piece lengths up to 5 (5 and 7 in thorough), and seeded larger ones, also beyond 4 GiB, and with 70000 pieces.',
            ['zero-length segments and the place of zero-length files in queries are ignored']),
    'C07': (c07, TL.replace('layouts the real code reports', 'recorded creations'), 'Seeded contents over small piece lengths and sizes around the 5 MiB buffer, up to 300 files, piece lengths far beyond the content; '
            'the created metainfo, the one loaded from its encoding and the verification of the files are recorded and judged.',
            ['not empty payloads; a single file is created under its own name; distinct ordinary paths']),
}
