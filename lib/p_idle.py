"""C31: sessions in virtual time; and the limiter in virtual time, for C23 and C24."""
from vlib import *
from p_sess import Tor, hand, req, have, bitf, frame, u4, SESS

S = 1000


def small(ctx):
    rng = ctx.rng
    n = rng.choice([3, 5, 9])
    return Tor(4, [4 * n - 1], held=rng.sample(range(n), n - 2) if rng.random() < .6 else None)


def words(rng, tor):
    """Something that a peer that wants to stay may say."""
    r = rng.random()
    if r < .5:
        return u4(0)
    if r < .6:
        return have(rng.randrange(tor.n))
    if r < .7:
        return frame(20, bytes(rng.randrange(256) for _ in range(rng.randrange(9))))
    if r < .85:
        i = rng.choice(sorted(tor.held))
        return req(i, 0, 1 + rng.randrange(tor.length(i)))
    return frame(rng.randrange(4))


def talk(rng, tor, times, partly=False):
    """Acts that say something at each of these times; a message may be spread over several of them."""
    rest, acts = b'', []
    for t in times:
        if not rest:
            rest = words(rng, tor)
        k = rng.randrange(1, len(rest) + 1) if partly else len(rest)
        acts.append({'t': t, 'a': 'send', 'b': list(rest[:k])})
        rest = rest[k:]
    return acts


def conn(tor, t0, acts, win=0, h=None):
    return {'win': win, 'acts': [{'t': t0, 'a': 'open'}, {'t': t0, 'a': 'send', 'b': list(hand(tor) if h is None else h)}] + acts}


def idle(tor, conns, until):
    last = max(a['t'] for c in conns for a in c['acts'])
    return {'op': 'idle', 'tor': tor.json(), 'conns': conns, 'until': max(until, last + 1)}


def lane(ctx, tor, pattern):
    """A schedule of the model: half a minute each, and a bit of play."""
    rng = ctx.rng
    times, prev = [], 0
    for i, b in enumerate(pattern):
        if b:
            t = i * 30 * S + (0 if rng.random() < .4 else rng.choice([1, -1, 37, -900, 5000, -7000, 14000]))
            t = max(t, prev)
            times.append(t)
            prev = t
    return conn(tor, 0, talk(rng, tor, times, rng.random() < .3))


def c31(ctx):
    rng = ctx.rng
    model(ctx, 'MIdle', 'MIdleLate.cfg', expect=12)
    model(ctx, 'MIdle', 'MIdleHasty.cfg', expect=12)
    model(ctx, 'MTeardown')
    pats = [g['p'] for g in emitted(ctx, 'MIdle')]
    rng.shuffle(pats)
    sc = []
    for k in range(0, len(pats), 16):
        tor = small(ctx)
        sc.append(idle(tor, [lane(ctx, tor, p) for p in pats[k:k + 16]], (330 + 30 * rng.randrange(8)) * S + 123))
    for _ in range(400 if THOROUGH else 60):       # gaps around two minutes, and long ones
        tor = small(ctx)
        cs = []
        for _ in range(8):
            t, times = 0, []
            for _ in range(rng.choice([1, 3, 8])):
                t += rng.choice([119 * S, 119 * S + 900, 119 * S + 999, 100 * S, 60 * S, 59 * S, 61 * S, 1, 120 * S - 1, rng.randrange(1, 119 * S)] + [rng.choice([121 * S, 126 * S, 130 * S, 200 * S])] * (rng.random() < .2))
                times.append(t)
            a = talk(rng, tor, times, rng.random() < .3)
            if rng.random() < .2:
                a.append({'t': times[-1] + rng.choice([0, 1, 50 * S, 119 * S]), 'a': 'close'})
            cs.append(conn(tor, 0, a))
        sc.append(idle(tor, cs, rng.choice([200, 500, 1500]) * S + 77))
    for _ in range(100 if THOROUGH else 30):       # a long life, and no or half a handshake
        tor = small(ctx)
        cs = [conn(tor, 0, talk(rng, tor, range(rng.choice([50, 110, 119]) * S, 3500 * S, rng.choice([50, 100, 119]) * S), rng.random() < .5))]
        for _ in range(4):
            h = hand(tor)
            h = rng.choice([b'', h[:1], h[:20], h[:67], h[:47] + b'x' + h[48:]])
            cs.append(conn(tor, rng.randrange(100) * S, [], h=h))
        sc.append(idle(tor, cs, 3600 * S))
    sc += heirs(ctx, 200 if THOROUGH else 50) + deafs(ctx, 60 if THOROUGH else 12) + guests(ctx, 300 if THOROUGH else 40)
    rng.shuffle(sc)
    if conform(ctx, 'JIdle', 'idle', sc, cfg='JIdle.cfg', drive_fn=lambda x: drive_virt(ctx, x), classify=lambda r: '%d connections' % len(r.get('links', [])),
               describe=brief):
        return


def heirs(ctx, n):
    """What was asked of one who died is asked of another."""
    rng, sc = ctx.rng, []
    for _ in range(n):
        n = rng.choice([4, 9])
        tor = Tor(4, [4 * n - 1], held=rng.sample(range(n), n - 3))
        lacked = [i for i in range(n) if i not in tor.held]
        mine = rng.sample(lacked, rng.randint(1, 3))
        quiet = conn(tor, 0, [{'t': 0, 'a': 'send', 'b': list(bitf(n, mine))}])
        if rng.random() < .3:
            quiet['acts'] += [{'t': rng.choice([40, 100]) * S, 'a': 'send', 'b': list(u4(0))}]
        others = []
        for i in mine:
            t0 = rng.choice([1, 60, 119, 130, 250]) * S
            others.append(conn(tor, t0, [{'t': t0, 'a': 'send', 'b': list(have(i))}]))
            for t in range(t0 + 100 * S, 390 * S, 100 * S):
                others[-1]['acts'].append({'t': t, 'a': 'send', 'b': list(u4(0))})
        sc.append(idle(tor, [quiet] + others, 400 * S))
    return sc


def deafs(ctx, n):
    """Those who take nothing, and say nothing any more, next to one who is served."""
    rng, sc = ctx.rng, []
    for _ in range(n):
        tor = Tor(16384, [16384 * 3], held=[0, 2])
        cs = []
        for _ in range(3):
            t1 = rng.choice([0, 10, 100]) * S
            cs.append(conn(tor, 0, [{'t': t1, 'a': 'deaf'}, {'t': t1, 'a': 'send', 'b': list((have(1) + req(0, 0, 16384) * rng.choice([1, 10, 50])))}], win=rng.choice([1000, 65536])))
        t = [t * S for t in range(50, 1000, 100)]
        cs.append(conn(tor, 0, [{'t': x, 'a': 'send', 'b': list(have(1) + req(2, x // S, 5))} for x in t]))
        sc.append(idle(tor, cs, 1000 * S))
    return sc


def guests(ctx, n):
    """Peers that come, announce, leave, offend or fall silent over minutes."""
    rng, sc = ctx.rng, []
    for _ in range(n):
        m = rng.choice([1, 2, 5, 8, 9, 17, 33])
        plen = rng.choice([3, 3, 20000])
        tor = Tor(plen, [plen * m - rng.randrange(min(plen, 3))], held=rng.sample(range(m), rng.choice([0, 0, m // 3, m // 2])))
        cs, until = [], rng.choice([200, 300]) * S
        for _ in range(rng.choice([2, 3, 5, 8])):
            t = t0 = rng.choice([0, 0, 1, 50, 99, 100, 101, 333, 5000, 50000, 125000])
            has = rng.sample(range(m), rng.choice([1, m, rng.randint(0, m)]))
            acts = []
            if rng.random() < .5:
                first = has[:rng.randint(0, len(has))] if rng.random() < .5 else has
                acts.append({'t': t, 'a': 'send', 'b': list(bitf(m, first))})
                has = [i for i in has if i not in first]
            for i in has:
                t += rng.choice([0, 0, 1, 49, 100, 250, 9000])
                acts.append({'t': t, 'a': 'send', 'b': list(have(i))})
            end = rng.choice(['stays', 'stays', 'silent', 'close', 'offends'])
            if end == 'stays':
                for x in range(t + 100 * S, until, 100 * S):
                    acts.append({'t': x, 'a': 'send', 'b': list(u4(0))})
            elif end == 'close':
                acts.append({'t': t + rng.choice([1, 99, 150, 1000, 70 * S]), 'a': 'close'})
            elif end == 'offends':
                acts.append({'t': t + rng.choice([1, 99, 150, 1000, 70 * S]), 'a': 'send', 'b': list(have(m + rng.randrange(3)))})
            cs.append(conn(tor, t0, acts))
        sc.append(idle(tor, cs, until))
    return sc


def brief(r):
    d = dict(r)
    d['links'] = [{k: l[k] for k in ('opened', 'ins', 'outs', 'by', 'at', 'deaf', 'sent')} for l in d.get('links', [])]
    d.pop('tor', None)
    return summary(d)


def rates(ctx, n):
    """Transfers over minutes."""
    rng = ctx.rng
    sc = []
    for x in range(n):
        evs, t = [], 0
        total = {'r': 0, 'w': 0}
        rate = {}
        m = rng.choice([1, 7, 100, 1000, 16397])
        for _ in range(rng.choice([1, 2, 4, 8])):
            for d in rng.choice(['r', 'w', 'rw']):
                if d not in rate or rng.random() < .4:
                    rate[d] = rng.choice([-1, 0, 1, m, m + 1, 2 * m - 1, 3 * m, 5 * m, 10 * m, m // 2 + 1])
                    evs.append({'t': t, 'a': 'set', 'd': d, 'v': rate[d], 'n': 0})
                k = rng.choice([1, 2, 5, 20])
                evs.append({'t': t + rng.choice([0, 1, 500]), 'a': 'ask', 'd': d, 'v': rng.choice([m, m, max(1, m // 3)]), 'n': k})
                total[d] += k * m
            t += rng.choice([0, 1, 10, 999, 1000, 1001, 2500, 60000, 600000])
        evs.sort(key=lambda e: e['t'])
        t = evs[-1]['t']
        if rng.random() < .8:       # all may pass in the end
            for d in 'rw':
                v = rng.choice([-1, 2 * m, m, 1000 * m])
                evs.append({'t': t + 1, 'a': 'set', 'd': d, 'v': v, 'n': 0})
        t += 1 + (2 * max(total.values()) // m + 10) * 1000
        sc.append({'op': 'vrate', 'evs': evs, 'until': t})
    return sc


def virtual_rates(ctx, cfg):
    return conform(ctx, 'JPace', 'vrate', rates(ctx, 2000 if THOROUGH else 250), cfg=cfg, drive_fn=lambda x: drive_virt(ctx, x), classify=lambda r: 'virtual time')


def sessions(ctx, cfg, sc):
    """Sessions in virtual time for other properties."""
    ctx.rng.shuffle(sc)
    return conform(ctx, 'JIdle', 'idle', sc, cfg=cfg, drive_fn=lambda x: drive_virt(ctx, x), classify=lambda r: 'virtual time, %d connections' % len(r.get('links', [])), describe=brief)


CHECKS = {
    'C31': (c31, 'TLA+ specification of quiet connections (timers, schedules of the peer and the end of a session model-checked with TLC); TLC judges sessions of the real code recorded in virtual time',
            'All schedules of the peer over 10 half minutes (generated by TLC), gaps within a millisecond of two minutes, an hour of session, heirs of the dead, peers that take nothing.',
            SESS + ['time is the fake clock of testing/synctest; the connection is an in-memory one with windows and deadlines']),
}
