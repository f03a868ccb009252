"""C20, C21: choosing pieces."""
from vlib import *


def seq(n, have, peers, evs):
    return {'op': 'seq', 'n': n, 'have': have, 'peers': peers, 'th': [evs], 'par': [False], 'bulk': False}


def drained(s):
    """A script from the model; in the end everybody left chooses until nothing is left."""
    evs = [{'e': e['e'], 'p': e['p'], 'i': e['i']} for e in s['evs']]
    return seq(s['n'], s['have'], s['peers'], evs + drain(evs, s['peers'], s['n']))


def drain(evs, peers, n, limit=None):
    gone = {e['p'] for e in evs if e['e'] == 'unreg'}
    left = [p for p in range(1, peers + 1) if p not in gone]
    return [{'e': 'next', 'p': p, 'i': []} for _ in range(limit or n + 1) for p in left]


def history(rng, peers, n, length, join=False):
    """A random history. join: peers come in order, in crowds."""
    evs, gone, came = [], set(), []
    todo = list(range(1, peers + 1))
    have = [i for i in range(n) if rng.random() < .2]
    has = set(have)
    while len(evs) < length:
        c = rng.random()
        live = [p for p in came if p not in gone]
        if todo and (not live or c < (.5 if join else .15)):
            p = todo.pop(0)
            came.append(p)
            evs.append({'e': 'bf', 'p': p, 'i': [i for i in range(n) if rng.random() < rng.choice([.2, .6, 1])]})
        elif not live:
            break
        elif c < .6:
            k = rng.choice([1, 1, 2])
            evs.append({'e': 'reg', 'p': rng.choice(live), 'i': [rng.randrange(n) for _ in range(k)]})
        elif c < .65:
            evs.append({'e': 'bf', 'p': rng.choice(live), 'i': [rng.randrange(n)]})
        elif c < .75 - (.08 if join and todo else 0):
            p = rng.choice(live if not gone or rng.random() < .7 else sorted(gone))
            gone.add(p)
            evs.append({'e': 'unreg', 'p': p, 'i': []})
        elif c < .78:
            i = rng.randrange(n)
            if i not in has:
                has.add(i)
                evs.append({'e': 'got', 'p': 1, 'i': [i]})
        else:
            evs.append({'e': 'next', 'p': rng.choice(live), 'i': []})
    used = [p for p in came if p not in gone]
    return seq(n, have, peers, evs + [{'e': 'next', 'p': p, 'i': []} for _ in range(3) for p in used[:12]])


def crowd(rng, k, n):
    """k peers, all of which have piece 0, and fewer the following ones."""
    evs = []
    for p in range(1, k + 1):
        evs.append({'e': 'bf', 'p': p, 'i': [0] + [i for i in range(1, n) if p % (i + 1) == 0 or p <= 64 - i]})
        if rng.random() < .1:
            evs.append({'e': 'next', 'p': rng.randint(1, p), 'i': []})
    order = list(range(1, k + 1))
    rng.shuffle(order)
    for j, p in enumerate(order):
        evs.append({'e': 'unreg', 'p': p, 'i': []})
        if j + 1 < k and rng.random() < .4:
            evs.append({'e': 'next', 'p': rng.choice(order[j + 1:]), 'i': []})
        if rng.random() < .1 and j + 1 < k:
            evs.append({'e': 'reg', 'p': rng.choice(order[j + 1:]), 'i': [rng.randrange(n)]})
    return seq(n, [], k, evs)


def conc(rng, threads, each, n, peers):
    pre = [{'e': 'bf', 'p': p, 'i': [i for i in range(n) if rng.random() < .7]} for p in range(1, peers + 1)]
    th, owner = [pre], list(range(1, peers + 1))
    for t in range(threads):
        evs = []
        mine = [p for p in owner if p % threads == t] if rng.random() < .5 else None
        left = set()
        joins = [peers + 2 * t + 1, peers + 2 * t + 2]
        for _ in range(each):
            ps = [p for p in (mine or owner) if p not in left]
            if not ps:
                break
            c, p = rng.random(), rng.choice(ps)
            if joins and c < .3:
                p = joins.pop()
                if mine is not None:
                    mine.append(p)
                evs.append({'e': 'bf', 'p': p, 'i': [i for i in range(n) if rng.random() < .8]})
                evs.append({'e': 'next', 'p': p, 'i': []})
            elif c < .6:
                evs.append({'e': 'next', 'p': p, 'i': []})
            elif c < .85 or mine is None:
                evs.append({'e': rng.choice(['reg', 'reg']), 'p': p, 'i': [rng.randrange(n)]})
            else:
                left.add(p)
                evs.append({'e': 'unreg', 'p': p, 'i': []})
        th.append(evs)
    # nobody may act for a peer that another thread lets leave
    gone = {e['p']: k for k, evs in enumerate(th) for e in evs if e['e'] == 'unreg'}
    for k in range(1, len(th)):
        th[k] = [e for e in th[k] if gone.get(e['p'], k) == k]
    flat = [e for evs in th for e in evs]
    th.append(drain(flat, peers + 2 * threads, n, 2))
    return {'op': 'conc', 'n': n, 'have': [0] if rng.random() < .3 else [], 'peers': peers + 2 * threads, 'th': th,
            'par': [False] + [True] * threads + [False], 'bulk': False}


def sequential(ctx):
    rng = ctx.rng
    model(ctx, 'MPicker', 'MPickerDeep.cfg')
    if THOROUGH:
        model(ctx, 'MPicker', 'MPickerDeeper.cfg', timeout=700)
    gen = emitted(ctx, 'MPicker')
    rng.shuffle(gen)
    sc = [drained(s) for s in (gen if THOROUGH else gen[:7000])]
    k = 5 if THOROUGH else 1
    for _ in range(300 * k):
        sc.append(history(rng, rng.choice([1, 2, 3, 6]), rng.choice([1, 2, 4, 9]), rng.choice([10, 30, 60])))
    for _ in range(10 * k):
        sc.append(history(rng, 130, rng.choice([2, 5]), 300, True))
    for n, few in ((70000, (3, 4, 255, 65535, 65536, 65539, 66000, 69999)), (300, (1, 254, 255, 256, 299))):     # many pieces
        for _ in range(2):
            ev = [{'e': 'bf', 'p': p, 'i': sorted(rng.sample(few, rng.randint(2, len(few))))} for p in (1, 2, 3)] + [{'e': 'reg', 'p': p, 'i': [rng.choice(few)]} for p in (1, 2, 3)]
            ev += [{'e': 'next', 'p': rng.choice([1, 2, 3]), 'i': []} for _ in range(4)] + [{'e': 'unreg', 'p': 1, 'i': []}]
            sc.append(seq(n, [2], 3, ev + drain(ev, 3, n, 6)))
    for kk in (62, 63, 64, 65, 66, 100, 128, 130):
        sc.append(crowd(rng, kk, rng.choice([2, 4])))
    return sc


def c20(ctx):
    rng = ctx.rng
    if not conform(ctx, 'JPicker', 'picker', sequential(ctx), cfg='JPicker.cfg', classify=lambda r: r['op']):
        return
    k = 4 if THOROUGH else 1
    sc = [conc(rng, rng.choice([2, 3, 4]), rng.choice([3, 6]), rng.choice([2, 3, 6]), rng.choice([2, 3, 4])) for _ in range(1500 * k)]
    if not conform(ctx, 'JPicker', 'picker', sc, cfg='JPicker.cfg', classify=lambda r: r['op'], hard=True, race=True):
        return
    sc = []
    for _ in range(60 * k):
        n, p = rng.choice([20, 60, 200]), rng.choice([2, 4, 8, 16])
        ann = [[i for i in range(n) if rng.random() < rng.choice([.3, 1, 1])] for _ in range(p)]
        for a in ann:
            rng.shuffle(a)
        sc.append({'op': 'bulk', 'n': n, 'have': [i for i in range(n) if rng.random() < .1], 'peers': 0, 'th': [], 'par': [], 'bulk': True, 'bulkann': ann})
    if not conform(ctx, 'JPickBulk', 'picker', sc, classify=lambda r: r['op'], hard=True, shards=2):
        return
    conform(ctx, 'JPickBulk', 'picker', sc[:20 * k], classify=lambda r: r['op'], hard=True, race=True, shards=4)


def c21(ctx):
    conform(ctx, 'JPicker', 'picker', sequential(ctx), cfg='JPickerRare.cfg', classify=lambda r: r['op'])


CHECKS = {
    'C20': (c20, 'TLA+ specification of the piece tracker (buckets model checked against it with TLC); TLC judges recorded sequential calls and searches an explanation of recorded concurrent ones (under the race detector)',
            'All call sequences of 4 calls, 2 peers, 2 pieces (sampled in quick) followed by choosing until nothing is left, seeded histories of up to 130 peers, concurrent histories of 2-4 threads, and up to 16 peers choosing at once; 70000 pieces.',
            ['a peer that left does not return under the same handler', 'every bitfield of a peer contains what it announced before', 'peers differ in id, address or port']),
    'C21': (c21, 'TLA+ specification of availability and rarest-first choice (buckets model checked against it with TLC); TLC judges recorded histories of the real code',
            'The same sequential histories, with up to 130 peers announcing, leaving and choosing around 63 announcements of a piece; 70000 pieces.',
            ['availabilities of 63 and more are equal', 'a peer that left does not return under the same handler']),
}
