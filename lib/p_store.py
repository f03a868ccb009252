"""C08-C11: storage of the payload."""
import itertools
from vlib import *

MB = 1 << 20
HI = [1, -1, 2, 1 << 20, -(1 << 30)]


def tor(rng, maxfiles=4, maxlen=6):
    n = rng.randint(1, maxfiles)
    lens = [rng.choice([0, 1, 2, 3, maxlen]) for _ in range(n)]
    if sum(lens) == 0:
        lens[0] = 3
    names = (['a', 'd/b', 'd/e/c', 'z'] + ['g%d' % i for i in range(n)])[:n]
    c = rng.random()
    content = [rng.randrange(256) for _ in range(sum(lens))] if c < .8 else [0] * sum(lens) if c < .9 else [rng.randrange(2) for _ in range(sum(lens))]
    return {'files': [{'path': p, 'len': x} for p, x in zip(names, lens)], 'plen': rng.choice([1, 2, 3, 4, 5, 16]), 'content': content}


def pieces(t):
    c, p = t['content'], t['plen']
    return [c[i:i + p] for i in range(0, len(c), p)]


def ev_write(rng, t, i=None, good=.75):
    ps = pieces(t)
    i = rng.randrange(len(ps)) if i is None else i
    d = list(ps[i])
    if rng.random() > good:
        c = rng.random()
        if c < .3:
            d[rng.randrange(len(d))] ^= 1 << rng.randrange(8)
        elif c < .45:
            d = d[:-1]
        elif c < .6:
            d = d + [0]
        elif c < .8:
            d = list(rng.choice(ps))
        else:
            i = rng.choice([-1, len(ps), len(ps) + 1, i])
            if rng.random() < .3:
                return {'e': 'write', 'i': i, 'data': d, 'hi': rng.choice(HI)}
    return {'e': 'write', 'i': i, 'data': d}


def ev_read(rng, t, i=None):
    ps = pieces(t)
    if i is None:
        i = rng.randrange(len(ps)) if rng.random() < .9 else rng.choice([-1, len(ps), len(ps) + 1])
    n = len(ps[i]) if 0 <= i < len(ps) else t['plen']
    if rng.random() < .03:
        return {'e': 'read', 'i': i, 'hi': rng.choice(HI), 'cap': t['plen'], 'fill': 3}
    return {'e': 'read', 'i': i, 'cap': n + rng.choice([0, 0, 1, 5]), 'fill': rng.randrange(256)}


def history(rng, length, maxfiles=4):
    t = tor(rng, maxfiles)
    paths = [f['path'] for f in t['files']]
    lens = {f['path']: f['len'] for f in t['files']}
    init = []
    for p in paths + ['other']:
        if rng.random() < .4:
            init.append({'name': p, 'b': [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, lens.get(p, 2), lens.get(p, 2) + 2]))]})
    evs = [{'e': 'ocatall'}] if rng.random() < .9 else []
    while len(evs) < length:
        c = rng.random()
        if c < .35:
            evs.append(ev_write(rng, t))
        elif c < .7:
            evs.append(ev_read(rng, t))
        elif c < .77:
            a, b = rng.choice(paths), rng.choice(paths + ['m1', 'd/m2', 'd/e/m3', 'm1'])
            if rng.random() < .4:
                a, b = b, a
            evs.append({'e': 'move', 'from': a, 'to': b})
        elif c < .82:
            evs.append({'e': 'close', 'path': rng.choice(paths + ['m1'])})
        elif c < .84:
            evs.append({'e': 'closeall'})
        elif c < .89:
            p = rng.choice(paths)
            evs.append({'e': 'ocat', 'path': p, 'len': rng.choice([lens[p], lens[p], max(0, lens[p] - 1), lens[p] + 2])})
        elif c < .92:
            evs.append({'e': 'ocatall'})
        elif c < .97:
            evs.append({'e': 'put', 'path': rng.choice(paths), 'b': [rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 6, 8]))]})
        else:
            evs.append({'e': 'del', 'path': rng.choice(paths)})
    if rng.random() < .5:
        evs += [ev_read(rng, t, i) for i in range(len(pieces(t)))]
    return dict(t, op='hist', init=init, dirs=['d/e'], evs=evs)


def fixed_histories(depth):
    """Every sequence of a few operations on a small torrent."""
    t = {'files': [{'path': 'a', 'len': 1}, {'path': 'd/b', 'len': 3}], 'plen': 2, 'content': [11, 22, 33, 44]}
    acts = [
        {'e': 'write', 'i': 0, 'data': [11, 22]}, {'e': 'write', 'i': 1, 'data': [33, 44]}, {'e': 'write', 'i': 1, 'data': [33, 45]},
        {'e': 'read', 'i': 0, 'cap': 3, 'fill': 5}, {'e': 'read', 'i': 1, 'cap': 2, 'fill': 5}, {'e': 'move', 'from': 'a', 'to': 'm'},
        {'e': 'move', 'from': 'm', 'to': 'a'}, {'e': 'move', 'from': 'a', 'to': 'd/b'}, {'e': 'close', 'path': 'a'}, {'e': 'closeall'},
        {'e': 'ocatall'}, {'e': 'ocat', 'path': 'd/b', 'len': 2}, {'e': 'put', 'path': 'a', 'b': [9, 9]}, {'e': 'del', 'path': 'd/b'}]
    for seq in itertools.product(acts, repeat=depth):
        yield dict(t, op='hist', init=[{'name': 'a', 'b': [7]}], dirs=['d'], evs=[{'e': 'ocatall'}] + [dict(a) for a in seq]
                   + [{'e': 'read', 'i': 0, 'cap': 2, 'fill': 1}, {'e': 'read', 'i': 1, 'cap': 2, 'fill': 1}])


def describe_hist(rec):
    return json.dumps({k: rec.get(k) for k in ('x', 'why', 'files', 'plen', 'content', 'init', 'evs')})[:1500]


def c08(ctx):
    rng = ctx.rng
    model(ctx, 'MHist')
    sc = [history(rng, rng.choice([4, 8, 14])) for _ in range(6000 if THOROUGH else 1200)]
    for _ in range(40):      # many files in a piece
        h = history(rng, 8, rng.choice([12, 20, 40]))
        sc.append(h)
    sc += list(fixed_histories(4 if THOROUGH else 2))
    if not THOROUGH:
        f3 = list(fixed_histories(3))
        sc += rng.sample(f3, 700)
    conform(ctx, 'JHist', 'store', sc, describe=describe_hist, classify=lambda r: 'histories')
    for s in sc:
        for e in s['evs']:
            ctx.count(e['e'])


def rle(rng, n):
    """A content of n bytes as a few runs."""
    res, b = [], rng.randrange(256)
    while n > 0:
        k = n if rng.random() < .4 else rng.randint(1, n)
        b = rng.choice([x for x in (0, 1, 7, 255, 9) if not res or x != res[-1][0]])
        res.append([b, k])
        n -= k
    return res


def c09(ctx):
    rng = ctx.rng
    model(ctx, 'MPrepare')
    sizes = [0, 1, 5, 4096, MB - 1, MB, MB + 1, 2 * MB - 1, 2 * MB, 2 * MB + 1, 3 * MB + 12345, 5 * MB]
    sc = []
    # every pair of an existing and a wanted size
    for old in [None] + sizes:
        for new in sizes:
            init = [] if old is None else [{'name': 'd/f', 'r': rle(rng, old)}]
            sc.append({'op': 'prep', 'files': [{'path': 'd/f', 'len': new}], 'init': init, 'evs': [{'e': 'prep'}, {'e': 'prep'}]})
    for _ in range(1500 if THOROUGH else 250):
        n = rng.choice([1, 2, 3, 5])
        pool = sizes if rng.random() < .4 else [0, 1, 2, 3, 100, 5000]
        files = [{'path': p, 'len': rng.choice(pool)} for p in ['a', 'x/b', 'x/y/c', 'x/y/d', 'w/e'][:n]]
        init = []
        for f in files + [{'path': 'x/other', 'len': 5}, {'path': 'extra', 'len': 5}]:
            if rng.random() < .5:
                s = rng.choice([f['len'], f['len'] + 1, max(0, f['len'] - 1), rng.choice(pool)])
                init.append({'name': f['path'], 'r': rle(rng, s)})
        evs = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            m = max(f['len'] for f in files)
            evs.append({'e': 'cut', 'limit': rng.choice([0, 1, MB, m // 2, max(0, m - 1), rng.randint(0, m), m, 2 * MB]), 'how': rng.choice(['crash', 'error'])})
        evs += [{'e': 'prep'}, {'e': 'prep'}]
        sc.append({'op': 'prep', 'files': files, 'init': init, 'evs': evs})
    for k in (9, 33, 60, 130):      # many files
        files = [{'path': '%s/f%d' % ('abc'[i % 3], i), 'len': rng.choice([0, 1, 2, 3, 50])} for i in range(k)]
        init = [{'name': f['path'], 'r': rle(rng, rng.choice([f['len'], f['len'] + 1, f['len'] // 2]))} for f in files if rng.random() < .5]
        sc.append({'op': 'prep', 'files': files, 'init': init, 'evs': [{'e': 'prep'}, {'e': 'prep'}]})
    # while descriptors are scarce, a file that is there cannot always be opened
    for _ in range(40 if THOROUGH else 10):
        n = rng.choice([1, 1, 2, 3])
        files = [{'path': p, 'len': rng.choice([1, 100, 5000])} for p in ['a', 'x/b', 'x/y/c'][:n]]
        init = [{'name': f['path'], 'r': rle(rng, rng.choice([f['len'], f['len'], f['len'] + 7, f['len'] // 2]))} for f in files if rng.random() < .9]
        sc.append({'op': 'prep', 'files': files, 'init': init, 'evs': [{'e': 'cut', 'limit': 0, 'how': 'crowd'}, {'e': 'prep'}, {'e': 'prep'}]})
    conform(ctx, 'JPrep', 'store', sc, case_ms=60000, describe=lambda r: json.dumps(r)[:1500],
            classify=lambda r: 'interrupted' if any(e['e'] == 'cut' and not e.get('ok') for e in r['evs']) else 'whole')


def c10(ctx):
    rng = ctx.rng
    cfg = 'MStorageDeep.cfg' if THOROUGH else 'MStorage.cfg'
    l1, l2, plen = (3, 4, 3) if THOROUGH else (2, 3, 2)
    sc = []
    for g in emitted(ctx, 'MStorage', cfg, timeout=500):
        init = [d for d in g['init'] if d['b'] != [-1]]
        for direct in (False, True):
            sc.append({'op': 'startup', 'files': [{'path': 'f1', 'len': l1}, {'path': 'd/f2', 'len': l2}], 'plen': plen,
                       'content': list(range(1, l1 + l2 + 1)), 'init': init, 'direct': direct, 'big': False})
    for _ in range(3000 if THOROUGH else 800):
        t = tor(rng, 4, 12)
        init, at = [], 0
        for f in t['files']:
            right = t['content'][at:at + f['len']]
            at += f['len']
            c = rng.random()
            if c < .15:
                continue
            b = list(right)
            if c > .4:
                for _ in range(rng.choice([1, 1, 2, 5])):
                    if b:
                        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            if c > .7:
                b = b[:rng.randint(0, len(b))] if rng.random() < .5 else b + [rng.randrange(256)] * rng.choice([1, 3])
            init.append({'name': f['path'], 'b': b})
        if len(t['files']) == 1:
            t['files'][0]['path'] = 'a'
        sc.append(dict(t, op='startup', init=init, direct=rng.random() < .3, big=False))
    # pieces of realistic size
    for _ in range(60 if THOROUGH else 14):
        n = rng.choice([1, 2, 4])
        plen = rng.choice([16384, 65536, 1 << 18, MB, 100000])
        files = [{'path': p, 'len': rng.choice([0, 1, plen - 1, plen, plen + 1, rng.randint(0, 6 * plen)])} for p in ['a', 'd/b', 'd/c', 'e'][:n]]
        if sum(f['len'] for f in files) == 0:
            files[0]['len'] = plen + 5
        for f in files:
            if rng.random() < .8:
                f['cut'] = f['len'] if rng.random() < .6 else rng.choice([0, max(0, f['len'] - 1), f['len'] + 3, rng.randint(0, f['len'])])
                f['flip'] = [] if rng.random() < .4 else [rng.choice([0, max(0, f['len'] - 1), rng.randint(0, f['len'])]) for _ in range(rng.choice([1, 2, 4]))]
        sc.append({'op': 'startup', 'files': files, 'plen': plen, 'content': {'seed': rng.randrange(1 << 30), 'n': sum(f['len'] for f in files)},
                   'init': [], 'direct': rng.random() < .3, 'big': True})
    # very many pieces
    for n, k in ((65537, 1), (70000, 1), (66000, 3)):
        files = [{'path': 'a', 'len': n}] if k == 1 else [{'path': 'a', 'len': 65530}, {'path': 'b', 'len': 4}, {'path': 'c/d', 'len': n - 65534}]
        for f in files:
            f['cut'], f['flip'] = f['len'], [i for i in (0, 255, 3, 65535, 65534, f['len'] - 1) if i < f['len']]
        sc.append({'op': 'startup', 'files': files, 'plen': 1, 'content': {'seed': n, 'n': n}, 'init': [], 'direct': k == 1 and n == 70000, 'big': True})
    for k in (9, 12, 40):      # many files in a piece
        files = [{'path': 'f%d' % i, 'len': rng.choice([1, 2, 3])} for i in range(k)]
        c = [rng.randrange(256) for _ in range(sum(f['len'] for f in files))]
        at, init = 0, []
        for f in files:
            init.append({'name': f['path'], 'b': c[at:at + f['len']]})
            at += f['len']
        for bad in (False, True):
            init = [dict(d, b=[d['b'][0] ^ 1] + d['b'][1:]) if bad and i == k - 1 else d for i, d in enumerate(init)]
            for plen in (len(c), 2 * k // 2 + 3):
                sc.append({'op': 'startup', 'files': files, 'plen': plen, 'content': c, 'init': init, 'direct': False, 'big': False})
    # one piece, whose length is said to be far beyond all there is
    for exp in (24, 31, 32, 33, 40, 45, 53, 62, 63):
        for direct in (False, True):
            n = rng.choice([1, 2, 9, 30])
            c = [rng.randrange(256) for _ in range(n)]
            good = rng.random() < .7
            sc.append({'op': 'startup', 'files': [{'path': 'a', 'len': n}], 'plen': n, 'exp': exp, 'content': c,
                       'init': [{'name': 'a', 'b': c if good else [x ^ 1 for x in c]}], 'direct': direct, 'big': False})
    conform(ctx, 'JStartup', 'store', sc, case_ms=60000, describe=lambda r: json.dumps(r)[:1500],
            classify=lambda r: ('large, ' if r['big'] else '') + ('complete' if r.get('out', {}).get('complete') else 'incomplete'))


def c11(ctx):
    rng = ctx.rng
    model(ctx, 'MConc')

    def lockstep(n, plen, np, nt):
        """Threads that meet on one piece after the other."""
        cut = rng.choice([plen * np // 2 + rng.randint(-plen // 2, plen // 2), plen * (np // 2)])
        files = [{'path': 'a', 'len': cut}, {'path': 'b', 'len': plen * np - cut - rng.randint(0, plen - 1)}]
        order = list(range(np))
        rng.shuffle(order)
        th = []
        for t in range(nt):
            ops = []
            for i in order:
                for _ in range(2):
                    c = rng.random()
                    ops.append({'e': 'write' if t == 0 and c < .8 else 'read' if c < .85 else 'bad' if c < .93 else 'write', 'i': i})
            th.append(ops)
        return {'op': 'conc', 'files': files, 'plen': plen, 'content': {'seed': rng.randrange(1 << 30), 'n': sum(f['len'] for f in files)},
                'seed': rng.randrange(1 << 30), 'threads': th, 'lockstep': True}

    def free(np, nt, nops):
        files, left = [], rng.randint(np, 8 * np)
        while left > 0:
            n = rng.randint(0, left)
            files.append({'path': 'f%d' % len(files), 'len': n})
            left -= n
            if len(files) == 5:
                files.append({'path': 'f5', 'len': left})
                break
        total = sum(f['len'] for f in files)
        plen = max(1, -(-total // np))
        n = -(-total // plen)
        th = []
        for t in range(nt):
            ops = []
            for _ in range(nops):
                c = rng.random()
                ops.append({'e': 'read' if c < .5 else 'write' if c < .85 else 'bad' if c < .95 or t else 'move', 'i': rng.randrange(n)})
                if ops[-1]['e'] == 'move':
                    ops[-1]['i'] = rng.randrange(len(files))
            th.append(ops)
        return {'op': 'conc', 'files': files, 'plen': plen, 'content': [rng.randrange(256) for _ in range(total)], 'seed': rng.randrange(1 << 30),
                'threads': th, 'lockstep': False}

    def desc(r):
        return json.dumps({k: v for k, v in r.items() if k not in ('threads', 'content')})[:1500]

    k = 6 if THOROUGH else 1
    big = [lockstep(0, rng.choice([1 * MB, 2 * MB, 512 * 1024]), 16, 4) for _ in range(40 * k)]
    conform(ctx, 'JConc', 'store', big, case_ms=120000, shards=4, hard=True, describe=desc, classify=lambda r: 'large pieces')
    small = [free(rng.choice([1, 2, 4]), rng.choice([4, 8]), rng.choice([10, 25])) for _ in range(400 * k)]
    conform(ctx, 'JConc', 'store', small, case_ms=60000, hard=True, describe=desc, classify=lambda r: 'small pieces')
    conform(ctx, 'JConc', 'store', [free(2, 8, 20) for _ in range(60 * k)] + [lockstep(0, 70000, 12, 6) for _ in range(4 * k)], case_ms=120000, race=True, hard=True,
            describe=desc, classify=lambda r: 'under the race detector')


TS = 'TLA+ file-system specification (inodes, handles), model-checked with TLC; TLC judges recorded histories of the real code against it'
CHECKS = {
    'C08': (c08, TS, 'All sequences of 2 (thorough: 4) of 14 operations, a sample of those of 3, and seeded histories of up to 24 operations on torrents of up to 40 files, with the whole disk recorded after each.',
            ['when a piece lies in several files of which some are closed, the open ones may get their part', 'a closing of all files that meets an already closed one may stop there']),
    'C09': (c09, 'TLA+ specification of preparation with interruptions, model-checked with TLC; TLC judges recorded preparations of the real code',
            'All pairs of 12 sizes around multiples of 1 MiB, and seeded sets of files with interruptions by a file size limit (crash and error); many files, and want of descriptors.', ['interruptions other than at a file size limit are only model-checked']),
    'C10': (c10, 'TLA+ storage specification with deaths at every byte, model-checked with TLC; every disk a death leaves is given to the real startup and judged by TLC',
            'All disks left by a death at any byte of preparing or storing on a small torrent with every mix of right and wrong bytes, and seeded larger ones, up to 70000 pieces.', []),
    'C11': (c11, 'TLA+ locking model checked with TLC; TLC judges recorded concurrent calls (segments as registers)',
            'Recorded schedules of up to 8 goroutines, also under the race detector; schedules are those the Go scheduler produces.', ['sampled schedules']),
}
