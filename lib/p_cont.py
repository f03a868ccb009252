"""C12, C30: bitfields and containers."""
import itertools
from vlib import *


def need(n):
    return (n + 7) // 8


def bits_history(rng, length):
    evs, n = [], -1
    while len(evs) < length:
        c = rng.random()
        if n < 0 or c < .04:
            if rng.random() < .5:
                n = rng.choice([0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 31, 33, 64, 65, rng.randint(0, 80)])
                evs.append({'e': 'new', 'n': n})
            else:
                ev = adopt(rng)
                evs.append(ev)
                if len(ev['b']) > 5 and need(ev['n']) == len(ev['b']) - 5 and ev['n'] >= 0:
                    n = ev['n']
        elif c < .75 and n > 0:
            evs.append({'e': 'set', 'i': rng.choice([rng.randrange(n), n - 1, 0, rng.randrange(n)]), 'v': rng.random() < .65})
        elif c < .82:
            evs.append({'e': 'fill'})
        elif c < .95:
            m = rng.choice([n, n + 1, n - 1, need(n) * 8, need(n) * 8 - 7, need(n) * 8 + 1, need(n) * 8 - 8, 0, -1, rng.randint(0, 90)])
            evs.append({'e': 'nbits', 'n': m})
            if m >= 0 and need(m) == need(n):
                n = m
        else:
            ev = adopt(rng)
            evs.append(ev)
            if len(ev['b']) > 5 and need(ev['n']) == len(ev['b']) - 5 and ev['n'] >= 0:
                n = ev['n']
    return {'evs': evs}


def adopt(rng):
    k = rng.choice([0, 1, 1, 2, 3, 5])
    b = [rng.choice([0, 255, 1, 128, rng.randrange(256)]) for _ in range(k)]
    n = rng.choice([8 * k, 8 * k - 1, 8 * k - 7, 8 * k - 8, 8 * k + 1, 0, -1, rng.randint(0, 8 * k + 9)])
    b5 = [0, 0, 0, 1 + k, 5] + b
    if rng.random() < .05:
        b5 = b5[:rng.randrange(6)]
    return {'e': 'adopt', 'b': b5, 'n': n}


def small_bits():
    """Every short sequence on fields of up to 10 bits."""
    for n in range(0, 11):
        ops = [{'e': 'fill'}] + [{'e': 'nbits', 'n': m} for m in range(-1, 18)]
        ops += [{'e': 'set', 'i': i, 'v': v} for i in {0, n // 2, n - 1} if 0 <= i < n for v in (True, False)]
        for seq in itertools.product(ops, repeat=2):
            hs = [dict(o) for o in seq]
            yield {'evs': [{'e': 'new', 'n': n}] + ([{'e': 'set', 'i': 0, 'v': True}] if n else []) + hs
                   if ok_seq(n, hs) else [{'e': 'new', 'n': n}]}
    for b in range(256):
        for n in (1, 4, 7, 8):
            yield {'evs': [{'e': 'adopt', 'b': [0, 0, 0, 2, 5, b], 'n': n}, {'e': 'nbits', 'n': 8}, {'e': 'fill'}]}
    for k in range(0, 4):
        for n in range(-2, 30):
            yield {'evs': [{'e': 'adopt', 'b': [0] * 5 + [165] * k, 'n': n}, {'e': 'adopt', 'b': [9] * k, 'n': n}]}


def ok_seq(n, evs):
    """Indices stay in range."""
    m = n
    for e in evs:
        if e['e'] == 'nbits' and e['n'] >= 0 and need(e['n']) == need(m):
            m = e['n']
        if e['e'] == 'set' and e['i'] >= m:
            return False
    return True


def c12(ctx):
    rng = ctx.rng
    model(ctx, 'MBits')
    seen, sc = set(), []
    for s in small_bits():
        t = json.dumps(s)
        if t not in seen:
            seen.add(t)
            sc.append(s)
    for _ in range(8000 if THOROUGH else 1500):
        h = bits_history(rng, rng.choice([6, 15, 40]))
        m = -1
        sc.append(h)
    for n in (65535, 65536, 65537, 70001):      # very many
        at = [i for i in (0, 255, 256, 65534, 65535, 65536, 65537, n - 1) if i < n]
        sc.append({'evs': [{'e': 'new', 'n': n}, {'e': 'fill'}] + [{'e': 'set', 'i': i, 'v': False} for i in rng.sample(at, 3)] + [{'e': 'nbits', 'n': need(n) * 8}, {'e': 'nbits', 'n': n}]})
        sc.append({'evs': [{'e': 'new', 'n': n}] + [{'e': 'set', 'i': i, 'v': True} for i in at]})
        sc.append({'evs': [{'e': 'adopt', 'b': [0] * 5 + [255] * (need(n) - 1) + [128], 'n': n}, {'e': 'set', 'i': n - 2, 'v': False}, {'e': 'fill'}]})
    for n in (255, 256, 257, 1000, 1001):
        sc.append({'evs': [{'e': 'new', 'n': n}, {'e': 'fill'}, {'e': 'set', 'i': n - 1, 'v': False}, {'e': 'set', 'i': n - 1, 'v': True},
                           {'e': 'set', 'i': n // 2, 'v': False}, {'e': 'nbits', 'n': need(n) * 8}]})
    conform(ctx, 'JBits', 'bits', sc, classify=lambda r: 'histories')


def list_history(rng, length):
    n = rng.choice([1, 2, 3])
    ls, free, evs = [[] for _ in range(n)], [], []
    while len(evs) < length:
        i = rng.randrange(n)
        c = rng.random()
        if c < .4:
            evs.append({'e': 'data', 'l': i + 1})
            ls[i].insert(0, len(evs))
        elif c < .75 and ls[i]:
            x = rng.choice([ls[i][0], ls[i][-1], rng.choice(ls[i])])
            ls[i].remove(x)
            free.append(x)
            evs.append({'e': 'remove', 'l': i + 1, 'node': x})
        elif c < .97 and free:
            x = free.pop(rng.randrange(len(free)))
            ls[i].insert(0, x)
            evs.append({'e': 'node', 'l': i + 1, 'node': x})
        elif c > .985:
            ls[i] = []
            evs.append({'e': 'clear', 'l': i + 1})
    return {'op': 'list', 'n': n, 'evs': evs}


def all_lists(depth):
    """Every sequence of operations on two lists and up to three nodes."""
    def go(ls, free, evs):
        if evs:
            yield list(evs)
        if len(evs) == depth:
            return
        for i in (0, 1):
            n = sum(map(len, ls)) + len(free)
            if n < 3:
                k = len(evs) + 1
                yield from go([([k] + ls[j] if j == i else ls[j]) for j in (0, 1)], free, evs + [{'e': 'data', 'l': i + 1}])
            for x in ls[i]:
                yield from go([([y for y in ls[j] if y != x] if j == i else ls[j]) for j in (0, 1)], free + [x],
                              evs + [{'e': 'remove', 'l': i + 1, 'node': x}])
            for x in free:
                yield from go([([x] + ls[j] if j == i else ls[j]) for j in (0, 1)], [y for y in free if y != x],
                              evs + [{'e': 'node', 'l': i + 1, 'node': x}])
    for evs in go([[], []], [], []):
        if len(evs) == depth:
            yield {'op': 'list', 'n': 2, 'evs': [dict(e) for e in evs]}


def c30(ctx):
    rng = ctx.rng
    model(ctx, 'MCont')
    sc = list(all_lists(6 if THOROUGH else 5))
    k = 5 if THOROUGH else 1
    sc += [list_history(rng, rng.choice([8, 25, 60])) for _ in range(600 * k)]
    keys = [b'', b'a', b'b', b'A', b'aa', b'\x00', b'\x00a', b'\xff', b'127.0.0.1:1', b'127.0.0.1:11', b'\xc3\xa9']
    for _ in range(600 * k):
        ks = rng.sample(keys, rng.choice([1, 2, 3, len(keys)]))
        sc.append({'op': 'set', 'evs': [{'e': rng.choice(['add', 'add', 'remove', 'has']), 'key': list(rng.choice(ks))} for _ in range(rng.choice([4, 12, 30]))]})
    for n in (70, 300, 400):      # many members
        ks = [list(b'%d' % i) for i in range(n)]
        rng.shuffle(ks)
        evs = [{'e': 'add', 'key': k} for k in ks] + [{'e': rng.choice(['add', 'has', 'remove']), 'key': rng.choice(ks)} for _ in range(30)] + [{'e': 'remove', 'key': k} for k in rng.sample(ks, n // 8)]
        sc.append({'op': 'set', 'evs': evs})
        evs = [{'e': 'data', 'l': 1} for _ in range(n)]
        evs += [x for i in rng.sample(range(1, n), 20) for x in ({'e': 'remove', 'l': 1, 'node': i}, {'e': 'node', 'l': 2, 'node': i})] + [{'e': 'data', 'l': 1}, {'e': 'clear', 'l': 1}, {'e': 'data', 'l': 1}]
        sc.append({'op': 'list', 'n': 2, 'evs': evs})
    for seq in itertools.product(('add', 'remove', 'has'), ('a', 'b'), repeat=3):
        sc.append({'op': 'set', 'evs': [{'e': seq[i], 'key': list(seq[i + 1].encode())} for i in (0, 2, 4)]})
    for n in range(0, 26):
        for size in list(range(1, 28)) + [100, 1 << 20]:
            sc.append({'op': 'segment', 'data': [rng.randrange(256) for _ in range(n)], 'size': size})
    for n, size in ((4200, 1), (9000, 2), (8193, 2), (30000, 7), (66000, 16384)):
        sc.append({'op': 'segment', 'data': [rng.randrange(256) for _ in range(n)], 'size': size})
    for n in range(1, 9):
        for i in range(n):
            sc.append({'op': 'swap', 'data': [rng.randrange(4) for _ in range(n)], 'i': i})
            sc.append({'op': 'swap', 'data': list(range(n)), 'i': i})
    conform(ctx, 'JCont', 'cont', sc, classify=lambda r: r['op'])


CHECKS = {
    'C12': (c12, 'TLA+ specification of a bitfield as a set (bytes model checked against it with TLC); TLC judges recorded histories of the real code',
            'All fields of up to 10 bits under pairs of operations, all bytes adopted, and seeded histories with every byte and count recorded after each step; fields of more than 65536 bits.',
            ['indices outside the field are not used', 'whether spare bits that were set survive filling or renumbering is left open']),
    'C30': (c30, 'TLA+ specification of lists as sequences and sets (pointer model checked against it with TLC); TLC judges recorded histories of the real code',
            'All sequences of 5 (thorough: 6) operations on two lists and three nodes, all small segmentations, and seeded histories, also with hundreds of members.',
            ['a node is removed from the list it is in, and pushed only when in none', 'nodes of a cleared list are not used again']),
}
