"""C23, C24: rate limited transfers; C25: the read loop."""
from vlib import *


def scripts(ctx, live):
    rng = ctx.rng
    model(ctx, 'MRate')
    model(ctx, 'MRate', 'MRateLive.cfg')
    gen = emitted(ctx, 'MRateSeq', 'MRateSeqDeep.cfg' if THOROUGH else None)
    rng.shuffle(gen)
    sc = gen[:40000 if THOROUGH else 3000]
    for _ in range(2000 if THOROUGH else 300):   # longer ones; how long to wait is only a hint
        sc.append(longer(rng))
    for _ in range(1000 if THOROUGH else 300):   # crowds
        d, k, m = rng.choice('rw'), rng.choice([2, 4, 8, 8, 24]), rng.choice([5, 5, 5, 300, 5000, 20000])
        free = rng.random() < .3
        sc.append({'op': 'seq', 'evs': [{'e': 'set', 'd': d, 'v': 1, 'n': 0, 'want': 0}] +
                   [e for j in range(6) for e in ([] if free and j else
                                                  [{'e': 'ask', 'd': d, 'v': m, 'n': k, 'want': 1 + k * j},
                                                   {'e': 'set', 'd': d, 'v': -1, 'n': 0, 'want': k + k * j},
                                                   {'e': 'set', 'd': d, 'v': -1 if free else m * k * (j + 1) + 1, 'n': 0, 'want': k + k * j}])] +
                   [{'e': 'ask', 'd': d, 'v': m, 'n': k, 'want': k * (j + 2)} for j in range(5) if free]})
    return sc


def longer(rng):
    st = {d: {'rate': -1, 'used': 0, 'wait': 0, 'done': 0} for d in 'rw'}
    size = {'r': rng.choice([1, 3, 100]), 'w': rng.choice([1, 4, 1000])}
    evs = []
    for _ in range(rng.choice([8, 16])):
        d = rng.choice('rw')
        x = st[d]
        if rng.random() < .6:
            n = rng.choice([1, 1, 1, 2, 8])
            evs.append({'e': 'ask', 'd': d, 'v': size[d], 'n': n})
            x['wait'] += n
        else:
            v = rng.choice([-1, -2, -1000000, 0, 1, size[d], size[d] + 1, 2 * size[d] - 1, 2 * size[d], 5 * size[d], 5 * size[d] + 1])
            evs.append({'e': 'set', 'd': d, 'v': v, 'n': 0})
            x['rate'] = max(v, -1)
        while x['wait'] and (x['rate'] == -1 or x['used'] < x['rate']):
            x['wait'] -= 1
            x['done'] += 1
            x['used'] += size[d]
        evs[-1]['want'] = st['r']['done'] + st['w']['done']
    return {'op': 'seq', 'evs': evs}


def lanes(rng, n):
    ls = []
    for _ in range(n):
        rate = rng.choice([1, 7, 64, 100, 1000, 16397, 100000])
        m = rng.choice([1, 10, 99, 100, 101, 1000])
        m = min(m, 3 * rate)
        m = max(m, rate // 300 + 1)
        k = rng.choice([2, 3, 3, 4] + ([8] if THOROUGH else []))
        per = -(-rate // m)          # that many pass per refill
        ls.append({'rate': rate, 'm': m, 'n': per * k + 1, 'threads': rng.choice([1, 2, 5]), 'd': rng.choice('rw'), 'other': rng.random() < .3})
    for d in 'rw':
        for other in (True, False):
            ls.append({'rate': -1, 'm': 100, 'n': 2000, 'threads': 4, 'd': d, 'other': other})
            ls.append({'rate': -7, 'm': 100, 'n': 2000, 'threads': 4, 'd': d, 'other': other})
    return {'op': 'timed', 'lanes': ls}


def data(rng):
    for m in (4096, 16384, 16397, 40000):
        for rate in (-1, 1, 5000, 70000):
            yield {'op': 'data', 'd': 'w', 'm': m, 'k': 0, 'rate': rate, 'fail': False, 'eager': False, 'data': list(rng.randbytes(m))}
            for k in (0, 1460):
                yield {'op': 'data', 'd': 'r', 'm': m, 'k': k, 'rate': rate, 'fail': False, 'eager': False, 'data': list(rng.randbytes(m + 7))}
    for m in (0, 1, 2, 5, 64, 300):
        for rate in (-1, 1, 10000):
            for fail in (False, True):
                yield {'op': 'data', 'd': 'w', 'm': m, 'k': 0, 'rate': rate, 'fail': fail, 'eager': False, 'data': [rng.randrange(256) for _ in range(m)]}
                for extra in (-m, -1, 0, 1, 40):
                    if m + extra < 0 or extra == -m and m == 0:
                        continue
                    for k in (0, 1, 3, 63):
                        for eager in (False, True):
                            if m:
                                yield {'op': 'data', 'd': 'r', 'm': m, 'k': k, 'rate': rate, 'fail': fail, 'eager': eager,
                                       'data': [rng.randrange(256) for _ in range(m + extra)]}


def c23(ctx):
    sc = scripts(ctx, False)
    if not conform(ctx, 'JRate', 'rate', sc, cfg='JRate.cfg', classify=lambda r: r['op'], case_ms=120000, hard=True):
        return
    sc = [lanes(ctx.rng, 14) for _ in range(24 if THOROUGH else 8)]
    if not conform(ctx, 'JRate', 'rate', sc, cfg='JRate.cfg', classify=lambda r: r['op'], case_ms=300000, hard=True):
        return
    if not race(ctx, 'JRate.cfg'):
        return
    import p_sess, p_idle
    if not p_sess.pace(ctx) or not p_idle.virtual_rates(ctx, 'JPace.cfg'):
        return
    sc = scripts(ctx, False)[:1500] + [lanes(ctx.rng, 0)]
    conform(ctx, 'JRate', 'rate', sc, cfg='JRateFree.cfg', classify=lambda r: r['op'] + ' (no limit)', case_ms=300000)


def c24(ctx):
    sc = scripts(ctx, True) + list(data(ctx.rng))
    if not conform(ctx, 'JRate', 'rate', sc, cfg='JRateLive.cfg', classify=lambda r: r['op'], case_ms=120000):
        return
    conform(ctx, 'JRate', 'rate', [lanes(ctx.rng, 14) for _ in range(24 if THOROUGH else 8)], cfg='JRateLive.cfg', classify=lambda r: r['op'], case_ms=300000)
    import p_idle
    if race(ctx, 'JRateLive.cfg'):
        p_idle.virtual_rates(ctx, 'JPaceLive.cfg')


def race(ctx, cfg):
    """Some of it again under the race detector."""
    rng = ctx.rng
    return conform(ctx, 'JRate', 'rate', [longer(rng) for _ in range(200)], cfg=cfg, classify=lambda r: 'race', race=True, case_ms=120000)


def c25(ctx):
    rng = ctx.rng
    model(ctx, 'MReadLoop')
    sc = []
    for s in emitted(ctx, 'MReadSeq'):
        s = {'op': 'seq', 'evs': [{'e': e['e'], 'b': e['b']} for e in s['evs']]}
        kinds = {e['e'] for e in s['evs']}
        s['buf'] = rng.choice([1, 4, 4, 8, 16384])
        s['tcp'] = not kinds & {'err', 'dataerr'} and rng.random() < .3
        s['lag'] = rng.random() < .3
        s['drain'] = rng.random() < .7
        sc.append(s)
    rng.shuffle(sc)
    if not THOROUGH:
        sc = sc[:8000]
    for _ in range(2000 if THOROUGH else 400):     # more of it
        evs, n = [], 0
        for _ in range(rng.choice([5, 20])):
            m = rng.choice([1, 3, 10, 100])
            evs.append(rng.choice([{'e': 'data', 'b': [(n + i) * 7 % 256 for i in range(m)]}, {'e': 'take', 'b': []}, {'e': 'take', 'b': []},
                                   {'e': 'ready', 'b': []}, {'e': 'idle', 'b': []}]))
            n += len(evs[-1]['b'])
        if rng.random() < .5:
            evs.append({'e': rng.choice(['finish', 'burst']), 'b': []})
            if evs[-1]['e'] == 'burst':
                evs[-1]['b'] = [1, 2, 3]
        sc.append({'op': 'seq', 'evs': evs, 'buf': rng.choice([1, 7, 64, 16384]), 'tcp': rng.random() < .5, 'drain': True, 'lag': rng.random() < .3})
    for tcp in (False, True):
        sc += [{'op': 'timeout', 'buf': 4, 'tcp': tcp, 'evs': []}] * 3
    for n, alone in ((5000, True), (70000, True), (5000, False), (1 << 20, False)):     # very many
        for tcp in (False, True):
            sc.append({'op': 'many', 'n': n, 'alone': alone, 'buf': 16384 if n > 5000 or alone else rng.choice([1, 3]), 'tcp': tcp, 'evs': []})
    cl = lambda r: r['op'] + (' tcp' if r['tcp'] else '')
    if not conform(ctx, 'JReadLoop', 'rloop', sc, classify=cl, case_ms=60000):
        return
    conform(ctx, 'JReadLoop', 'rloop', rng.sample(sc, 600), classify=lambda r: 'race', race=True, case_ms=60000)


CHECKS = {
    'C23': (c23, 'TLA+ specification of the rate limiter (goroutines, refills and rate changes model checked with TLC); TLC judges recorded transfers of the real code',
            'All sequences of 4 (thorough: 5) transfers and rate changes in both directions before the first refill (generated by TLC; sampled in quick), longer seeded ones, and concurrent transfers over several refills under a bound that holds whatever the timing.',
            ['a refill comes no earlier than one second after the limiter was made, except that starting it may refill', 'timing is only judged in ways that a slow machine cannot make false']),
    'C24': (c24, 'TLA+ specification of the rate limiter (liveness model checked with TLC); TLC judges recorded transfers of the real code',
            'The same sequences, where every transfer that can proceed has to; data, short reads, and errors of the stream over all small sizes; stopping after each timed run.',
            ['a transfer that can proceed is given 8 s', 'streams keep the contracts of io.Reader and io.Writer']),
    'C25': (c25, 'TLA+ specification of the hand-over (loop with its channels and deadlines model checked against it with TLC, including that finishing always stops it); TLC judges recorded runs of the real code',
            'All sequences of 6 arrivals, takes, readies and finishes (generated by TLC; sampled in quick) on a scripted connection and on TCP, with five buffer sizes; seeded longer ones.',
            ['the consumer says it is ready once per buffer, before it takes the next', 'finishing, and handing over what arrived, is given 5 s']),
}
