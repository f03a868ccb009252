"""C15-C19, C22, C28: the client on its connections."""
import hashlib
from vlib import *
from genben import enc

PSTR = b'\x13BitTorrent protocol'


def content(a, b):
    return bytes((7 * o + 13 * (o // 256) + 5) % 256 for o in range(a, b))


_memo = {}


def payload(n):
    if n not in _memo:
        _memo[n] = content(0, n)
    return _memo[n]


class Tor:
    def __init__(self, plen, files, name='t', held=None, damage=None, said=None):
        """files: lengths, or (path, length); held: indices, all others are damaged on the disk."""
        files = [f if isinstance(f, tuple) else ('f%d' % i, f) for i, f in enumerate(files)]
        self.plen, self.total = plen, sum(n for _, n in files)
        self.n = -(-self.total // plen)
        p = payload(self.total)
        assert said is None or self.n == 1      # said: a piece length beyond all there is
        info = {b'name': name.encode(), b'piece length': said or plen, b'pieces': b''.join(hashlib.sha1(p[i * plen:(i + 1) * plen]).digest() for i in range(self.n))}
        self.multi = len(files) > 1
        if self.multi:
            info[b'files'] = [{b'length': n, b'path': [c.encode() for c in path.split('/')]} for path, n in files]
        else:
            info[b'length'] = self.total
            info[b'name'] = files[0][0].encode()
        self.info = enc(info)
        self.ih = hashlib.sha1(self.info).digest()
        self.held = set(range(self.n)) if held is None else set(held)
        self.files, at = [], 0
        for path, n in files:
            self.files.append({'path': path, 'len': n, 'flip': [], 'missing': False, 'at': at})
            at += n
        for i in range(self.n):
            if i not in self.held:
                o = i * plen
                for f in self.files:
                    if f['at'] <= o < f['at'] + f['len']:
                        f['flip'].append(o - f['at'])

    def length(self, i):
        return min(self.plen, self.total - i * self.plen)

    def json(self):
        return {'plen': self.plen, 'files': self.files, 'multi': self.multi, 'name': 't', 'info': list(self.info)}


def u4(n):
    return (n % 2 ** 32).to_bytes(4, 'big')


def frame(t, *parts):
    b = bytes([t]) + b''.join(p if isinstance(p, bytes) else u4(p) for p in parts)
    return u4(len(b)) + b


def req(i, b, n):
    return frame(6, i, b, n)


def have(i):
    return frame(4, i)


def bits(n, s):
    b = bytearray(-(-n // 8))
    for i in s:
        b[i // 8] |= 128 >> i % 8
    return bytes(b)


def bitf(n, s):
    return frame(5, bits(n, s))


CNT = [0]


def hand(tor, pid=None, ih=None, reserved=bytes(8)):
    CNT[0] += 1
    return PSTR + reserved + (tor.ih if ih is None else ih) + (pid or b'-XX0000-%012d' % CNT[0])


class Script:
    def __init__(self, tor, kind='serve', **kw):
        self.s = dict({'op': 'session', 'kind': kind, 'tor': tor.json(), 'conns': [], 'stages': [], 'allowkb': 0, 'limit': 0, 'unit': 0, 'nstats': 0, 'rarest': False}, **kw)
        self.t = tor

    def conn(self, **opt):
        self.s['conns'].append(opt)
        return len(self.s['conns']) - 1

    def stage(self, *lanes):
        self.s['stages'].append([l for l in lanes])
        return self

    def lane(self, b, until, cuts=(), gap=1000, end='close', wait_first=None, **opt):
        """Open, send, wait, close."""
        c = self.conn(**opt)
        acts = [{'a': 'open', 'c': c}]
        if wait_first:
            b0, u0, b = wait_first
            acts += [{'a': 'send', 'c': c, 'b': list(b0)}, dict(u0, a='until', c=c)]
        acts += [{'a': 'send', 'c': c, 'b': list(b), 'cuts': list(cuts), 'gap': gap}]
        if until:
            acts.append(dict(until, a='until', c=c))
        if end:
            acts.append({'a': end, 'c': c})
        return acts


def last(i, b, n):
    return {'last': [i, b, n]}


def cutsets(rng, n, many):
    """Ways to cut n bytes."""
    res = [[], list(range(1, n))] if n < 300 else [[]]
    res += [[k] for k in rng.sample(range(1, n), min(n - 1, many))]
    for _ in range(many):
        res.append(sorted(rng.sample(range(1, n), min(n - 1, rng.choice([2, 3, 5])))))
    return res


def chunks(lst, n):
    return [lst[i:i + n] for i in range(0, len(lst), n)]


SMALL = lambda held=(0, 2): Tor(5, [13], held=held)


def menu(ctx):
    """The messages of the model, and a stream of each pair of the smaller menu."""
    model(ctx, 'MSession', 'MSessionTwo.cfg')
    gen = emitted(ctx, 'MSession', 'MSessionDeep.cfg' if THOROUGH else None)
    msgs = []
    for g in gen:
        if len(g['parts']) == 1:
            msgs.append(bytes(g['stream'][:g['parts'][0]]))
    return msgs, gen


SENT = req(2, 0, 3)


def streams(ctx, rng, msgs, gen, k):
    ss = [[bytes(g['stream'])[sum(g['parts'][:i]):sum(g['parts'][:i + 1])] for i in range(len(g['parts']))] for g in gen]
    ss = ss if THOROUGH or len(ss) < 400 else rng.sample(ss, 400)
    for _ in range(k):
        ss.append([rng.choice(msgs) for _ in range(rng.choice([2, 2, 3, 4, 8]))])
    return ss


def serve(lanes_of, tor, lanes, per=150, **kw):
    """Scripts of many lanes at once each; a lane is a function of the script."""
    res = []
    for part in chunks(lanes, per):
        s = Script(tor, **kw)
        s.stage(*[lanes_of(s, x) for x in part])
        res.append(s.s)
    return res


def c15(ctx):
    rng = ctx.rng
    msgs, gen = menu(ctx)
    lanes = []
    for ms in streams(ctx, rng, msgs, gen, 4000 if THOROUGH else 500):
        b = b''.join(ms) + SENT
        for cuts in cutsets(rng, 68 + len(b), 2 if len(ms) > 1 else 4):
            lanes.append((b, cuts))
    whole = [req(0, i, 1) for i in range(5)]        # every boundary of a stream of requests, and the handshake
    mix = whole[0] + frame(20, b'ab') + whole[1] + u4(0) + whole[2] + frame(9, b'xy') + SENT
    for k in range(1, 68 + len(mix)):
        lanes.append((mix, [k]))
        lanes.append((mix, sorted({k, min(k + 1, 67 + len(mix))})))
    for k in range(0, 68 + len(mix), 3):
        lanes.append((mix, list(range(k, 68 + len(mix), rng.choice([1, 2, 5, 17])))))
    rng.shuffle(lanes)
    sc = []
    for held in ((0, 2), (0, 1, 2)):
        tor = SMALL(held)
        part = lanes if held == (0, 2) else lanes[:len(lanes) // 4]
        sc += serve(lambda s, x: s.lane(hand(tor) + x[0], last(2, 0, 3), cuts=x[1], gap=rng.choice([0, 200, 1000, 3000])), tor, part)
    # What fills the receive buffer, and more
    tor = Tor(64, [64 * 20 + 3])
    for _ in range(12 if THOROUGH else 4):
        ls = []
        for _ in range(8):
            ms, size = [], rng.choice([16384 - 68, 16384, 16383, 16385, 33000, 50000])
            while sum(map(len, ms)) < size:
                r = rng.random()
                i = rng.randrange(20)
                ms.append(frame(rng.choice([20, 9, 77]), bytes(rng.randrange(256) for _ in range(rng.choice([1, 100, 3000, 16384])))) if r < .2 else
                          u4(0) if r < .3 else have(i) if r < .5 else req(i, rng.randrange(60), rng.randint(1, 4)))
            b = b''.join(ms) + req(20, 0, 3)
            ls.append((b, rng.choice([[], sorted(rng.sample(range(1, len(b)), 20)), list(range(1, 200)), [16384, 32768], [16383], [68]])))
        sc += serve(lambda s, x: s.lane(hand(tor) + x[0], last(20, 0, 3), cuts=x[1], gap=rng.choice([0, 500])), tor, ls)
    # Long messages, and many at once
    for size in [16380, 32764, 65531, 65536, 70000, 140000, 300000] + ([500000, 1000000, 1048576] if THOROUGH else []):
        long = frame(rng.choice([20, 9, 200]), content(3, size - 1 + 3))
        some = b''.join(req(i % 20, i % 50, 2) for i in range(20))
        many = b''.join(rng.choice([have(rng.randrange(21)), u4(0), frame(rng.randrange(4))]) for _ in range(min(7500, size // 9)))
        sc += serve(lambda s, x: s.lane(hand(tor) + x[0], last(20, 0, 3), cuts=x[1], gap=300), tor,
                    [(some + long + some[:17] + req(20, 0, 3), []), (long + some + long + req(20, 0, 3), sorted(rng.sample(range(1, 2 * size), 10))), (many + some + req(20, 0, 3), [])][:3 if size < 200000 else 1])
    # Very many messages, all of which want an answer
    for _ in range(2):
        rs = [(i, b, 1) for i in range(20) for b in range(64)] * 4
        rng.shuffle(rs)
        rs = rs[:4500]
        sc += serve(lambda s, x: s.lane(hand(tor) + b''.join(req(*r) for r in rs) + req(20, 0, 3), last(20, 0, 3)), tor, [0])
    # Announcements in parts: what is announced is then asked for
    for _ in range(150 if THOROUGH else 40):
        n = rng.choice([3, 9, 16, 17, 70])
        tor = Tor(4, [4 * n - 1], held=[0])
        want = rng.sample(range(1, n), rng.choice([1, 1, 2]))
        b = rng.choice([b'', frame(20, b'x'), u4(0)]) + (bitf(n, want) if rng.random() < .5 else b''.join(rng.choice([b'', u4(0)]) + have(i) for i in want)) + rng.choice([b'', frame(20, b'x')])
        h = hand(tor)
        cuts = rng.choice([[], list(range(1, 68 + len(b))), [rng.randrange(1, 68 + len(b))], [68], [68, rng.randrange(69, 68 + len(b))]])
        s = Script(tor, 'asks')
        s.stage(s.lane(h + b, {'nreq': len(want), 'pieces': True, 'plen': 4, 'total': tor.total}, cuts=cuts, end=None))
        sc.append(s.s)
    judge(ctx, sc)


def judge(ctx, sc, race=False, case_ms=120000, env=None):
    ctx.rng.shuffle(sc)
    return conform(ctx, 'JSession', 'session', sc, classify=classify, case_ms=case_ms, race=race, describe=describe,
                   drive_fn=lambda x: drive(ctx, 'session', x, case_ms, race, env=env))


def classify(r):
    return '%s (%d connections)' % (r['kind'], len(r.get('links', r.get('conns', []))))


def describe(r):
    d = dict(r)
    if 'links' in d and len(d['links']) > 3:
        d['links'] = d['links'][:2] + ['...']
    return summary(d)


def c16(ctx):
    rng = ctx.rng
    msgs, _ = menu(ctx)
    tor = SMALL()
    lanes = []
    h = hand(tor)
    good = lambda b, cuts=(), **kw: lanes.append((b, {'nmsg': 2}, cuts))
    bad = lambda b, cuts=(), **kw: lanes.append((b, {'closed': True}, cuts))
    for i in range(68):                          # every byte changed
        for v in {h[i] ^ 1, h[i] ^ 0x80, 0, 255, rng.randrange(256)} - {h[i]}:
            b = h[:i] + bytes([v]) + h[i + 1:]
            (good if 20 <= i < 28 or i >= 48 else bad)(b)
    for n in range(68):                          # every truncation, and nothing more
        bad(h[:n])
    for b in (b'GET / HTTP/1.1\r\n\r\n' * 8, bytes(68), bytes(200), b'\xff' * 68, b'\x13' + bytes(67), b'\x12' + h[1:], b'\x14' + h[1:], h[1:] + b'x', b'\x00' + h, b'\x13bitTorrent protocol' + h[20:],
              b'\x13BitTorrent Protocol' + h[20:], h[:28] + tor.ih[::-1] + h[48:], h[:28] + tor.ih[1:] + tor.ih[:1] + h[48:], h[:28] + bytes(20) + h[48:],
              h[:28] + hashlib.sha1(b'').digest() + h[48:], h[:28] + tor.ih.hex().encode()[:20] + h[48:], h[:20] + tor.ih + h[28:], h[:47] + h[48:] + b'x', tor.ih + h, h[:20] + h[28:] + bytes(8)):
        for cuts in ([], list(range(1, min(len(b), 68)))):
            bad(b, cuts)
            bad(b + SENT, cuts)
    for i in range(28, 48):                      # an infohash that agrees up to here, then anything
        bad(h[:i] + bytes(x ^ 0xa5 for x in h[i:48]) + h[48:])
        bad(h[:28] + bytes(x ^ 0xa5 for x in h[28:i + 1]) + h[i + 1:])
    for k in range(1, 68):                       # in parts
        good(h, [k])
        if k > 1:
            good(h, sorted(rng.sample(range(1, 68), rng.choice([2, 3, 10]))))
    good(h, list(range(1, 68)))
    for _ in range(20):
        good(hand(tor, bytes(rng.randrange(256) for _ in range(20)), reserved=bytes(rng.randrange(256) for _ in range(8))))
    for _ in range(3000 if THOROUGH else 200):   # random damage
        b = bytearray(h)
        for _ in range(rng.choice([1, 2, 5])):
            b[rng.randrange(68)] = rng.randrange(256)
        b = bytes(b)
        ok = b[:20] == h[:20] and b[28:48] == h[28:48]
        (good if ok else bad)(b)
    rng.shuffle(lanes)
    sc = serve(lambda s, x: s.lane(x[0], x[1], cuts=x[2], gap=rng.choice([0, 200, 1500])), tor, lanes)
    # Requests in the wake of a bad handshake are not answered
    # Peers that go before they are done with the handshake
    ls = [(h[:n], e) for n in range(0, 69, 3) for e in ('close', 'reset', 'shut')]
    sc += serve(lambda s, x: s.lane(x[0], None if x[1] != 'shut' else {'bytes': 0}, end=x[1], loose=True), tor, ls)
    # The peers that the client calls
    answers = []
    for i in list(range(20)) + list(range(28, 48)):
        answers.append((h[:i] + bytes([h[i] ^ rng.choice([1, 128, 255])]) + h[i + 1:], False))
    for i in list(range(20, 28)) + [48, 60, 67]:
        answers.append((h[:i] + bytes([h[i] ^ 0x11]) + h[i + 1:], True))
    for n in (0, 1, 19, 20, 28, 47, 48, 67):
        answers.append((h[:n], False))
    answers += [(bytes(68), False), (bytes(100), False), (h[1:] + b'x', False), (b'HTTP/1.1 400 Bad Request\r\n\r\n' * 4, False)]
    answers += [(h, True)] * 5 + [(h + bitf(tor.n, [1]), True), (h + have(1), True), (h + u4(0), True)]
    part = [(b, ok, cuts) for b, ok in answers for cuts in [[]]] + [(h, True, [k]) for k in range(1, 68, 4)] + [(h + SENT, True, list(range(1, 68)))]
    for grp in chunks(part, 60):
        s = Script(tor)
        lanes = []
        for b, ok, cuts in grp:
            c = s.conn(out=True)
            acts = [{'a': 'accept', 'c': c}, {'a': 'until', 'c': c, 'bytes': 68}, {'a': 'send', 'c': c, 'b': list(b), 'cuts': cuts, 'gap': 500}]
            acts.append({'a': 'until', 'c': c, 'nmsg': 1} if ok else {'a': 'until', 'c': c, 'closed': True})
            if ok:
                acts += [{'a': 'send', 'c': c, 'b': list(SENT)}, {'a': 'until', 'c': c, 'last': [2, 0, 3]}] if SENT not in b else [{'a': 'until', 'c': c, 'last': [2, 0, 3]}]
            acts.append({'a': 'close', 'c': c})
            lanes.append(acts)
        s.stage(*lanes)
        sc.append(s.s)
    # and that go away
    s = Script(tor)
    lanes = []
    for k in range(30):
        c = s.conn(out=True, loose=True)
        n = rng.choice([0, 1, 30, 68])
        lanes.append([{'a': 'accept', 'c': c}] + ([{'a': 'until', 'c': c, 'bytes': 68}] if k % 2 else []) + [{'a': 'send', 'c': c, 'b': list(h[:n])}, {'a': rng.choice(['close', 'reset']), 'c': c}])
    s.stage(*lanes)
    c = s.conn()
    s.stage([{'a': 'open', 'c': c}, {'a': 'send', 'c': c, 'b': list(h + SENT)}, dict(last(2, 0, 3), a='until', c=c)])
    sc.append(s.s)
    judge(ctx, sc)


def valid(tor, rng, k, big=16384):
    """Requests that have to be answered, no two the same."""
    res = set()
    held = sorted(tor.held)
    for _ in range(k):
        i = rng.choice(held)
        n = tor.length(i)
        m = rng.choice([1, n, rng.randint(1, n)])
        m = min(m, big)
        b = rng.choice([0, n - m, rng.randint(0, n - m)])
        res.add((i, b, m))
    res = list(res)
    rng.shuffle(res)
    return res


def invalid(tor, rng, k):
    for _ in range(k):
        i = rng.choice([tor.n, tor.n + 1, 2 ** 31, 2 ** 32 - 1, 2 ** 16, 2 ** 24]) if rng.random() < .2 else rng.randrange(tor.n)
        n = tor.length(i) if i < tor.n else tor.plen
        b = rng.choice([0, 1, n - 1, n, n + 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32 - n, tor.plen, rng.randrange(2 ** 32)])
        m = rng.choice([1, n, n + 1, tor.plen, n - b + 1 if b <= n else 1, 2 ** 32 - 1, 2 ** 31, 2 ** 32 - b, 2 ** 32 - b + 1, 16384, 16385, rng.randrange(2 ** 32)]) % 2 ** 32
        if i >= tor.n or i not in tor.held or b + m > n or m == 0:
            yield (i, b, m)


def tors(rng):
    T = [Tor(5, [13], held=[0, 2]), Tor(5, [13]), Tor(1, [9], held=[0, 3, 8]), Tor(7, [3, 0, 9, 1, 20], held=[0, 2, 4]), Tor(4, [16]), Tor(4, [4, 4, 4, 2], held=[1, 3]), Tor(100, [40]),
         Tor(64, [64 * 17 + 1], held=[0, 16, 17, 8]), Tor(16, [('a/b', 5), ('a/c', 50), ('d', 0), ('e', 9)]), Tor(300, [700, 1, 500], held=[0, 3, 4])]
    return T


def c17(ctx):
    rng = ctx.rng
    msgs, gen = menu(ctx)
    sc = []
    for tor in tors(rng):
        lanes = []
        sent = rng.choice(sorted(tor.held))
        mark = (sent, tor.length(sent) - 1, 1)
        for _ in range(20 if THOROUGH else 8):   # many in a row
            rs = [r for r in valid(tor, rng, rng.choice([1, 5, 40, 200])) if r != mark] + [mark]
            lanes.append((b''.join(req(*r) for r in rs), mark))
        for r in invalid(tor, rng, 400 if THOROUGH else 60):      # a wrong one between right ones
            before = [x for x in valid(tor, rng, rng.choice([0, 1, 3])) if x != mark]
            after = [x for x in valid(tor, rng, rng.choice([0, 1, 2])) if x != mark]
            lanes.append((b''.join(req(*x) for x in before + [r] + after + [mark]), mark))
        sc += serve(lambda s, x: s.lane(hand(tor) + x[0], last(*x[1])), tor, lanes, per=70)
    # All requests of a small torrent
    for held in ([0, 2], [0, 1, 2]):
        tor = Tor(5, [13], held=held)
        lanes = []
        ok = []
        for i in range(5):
            for b in range(8):
                for n in range(9):
                    (ok if i in tor.held and n and b + n <= tor.length(i) else lanes).append((i, b, n))
        ok.remove((2, 0, 3))
        lanes = [req(*r) + SENT for r in lanes] + [b''.join(req(*r) for r in ok) + SENT] + [req(*r) + SENT for r in ok]
        sc += serve(lambda s, x: s.lane(hand(tor) + x, last(2, 0, 3)), tor, lanes, per=100)
    # Real block sizes
    for plen, files, held in ((16384, [16384 * 2 + 77], None), (32768, [32768 + 16384, 20000], None), (40000, [100001], [0, 2])):
        tor = Tor(plen, files, held=held)
        lanes = []
        for _ in range(3 if THOROUGH else 1):
            i = max(tor.held)
            mark = (i, 0, min(16384, tor.length(i)))
            rs = [r for r in valid(tor, rng, 3) if r != mark] + [mark]
            lanes.append((b''.join(req(*r) for r in rs), rs[-1]))
        sc += serve(lambda s, x: s.lane(hand(tor) + x[0], last(*x[1])), tor, lanes)
    # A piece length far beyond what there is
    for said in (2 ** 31 + 1, 2 ** 40, 2 ** 62):
        for files in ([41], [20, 21, 0]):
            tor = Tor(41, files, said=said)
            lanes = [b''.join(req(0, b, n) for b in range(5) for n in (1, 41 - b)), req(0, 0, 42), req(0, 41, 1), req(1, 0, 1), req(0, 2 ** 31, 2 ** 31), req(0, 0, 2 ** 31)]
            sc += serve(lambda s, x: s.lane(hand(tor) + x + req(0, 7, 3), last(0, 7, 3)), tor, lanes)
    # Very many of one peer
    tor = Tor(64, [64 * 20 + 3], held=[0, 3, 7, 20])
    rs = [(i, b, n) for i in (0, 3, 7) for b in range(60) for n in range(1, 5)] * 6
    rng.shuffle(rs)
    sc += serve(lambda s, x: s.lane(hand(tor) + b''.join(req(*r) for r in rs) + req(20, 0, 3), last(20, 0, 3)), tor, [0])
    # Peers at once, on the same and on different pieces
    for _ in range(40 if THOROUGH else 8):
        tor = Tor(64, [64 * 9 + 5, 300], held=None if rng.random() < .5 else [0, 3, 9, 13])
        mark = (max(tor.held), 1, 1)
        sc += serve(lambda s, x: s.lane(hand(tor) + b''.join(req(*r) for r in valid(tor, rng, 150) if r != mark) + req(*mark), last(*mark)), tor, [0] * 8)
    if judge(ctx, sc):
        sc = []
        for _ in range(4):
            tor = Tor(64, [64 * 9 + 5, 300])
            mark = (max(tor.held), 1, 1)
            sc += serve(lambda s, x: s.lane(hand(tor) + b''.join(req(*r) for r in valid(tor, rng, 60) if r != mark) + req(*mark), last(*mark)), tor, [0] * 6)
        judge(ctx, sc, race=True)


def act(a, c=None, **kw):
    d = dict(kw, a=a)
    if c is not None:
        d['c'] = c
    return d


def server(s, tor, rng, k=40, spread=1.0):
    """A peer that is served all the time."""
    c = s.conn()
    mark = (max(tor.held), tor.length(max(tor.held)) - 1, 1)
    rs = [r for r in valid(tor, rng, k, 2000) if r != mark]
    acts = [act('open', c), act('send', c, b=list(hand(tor))), act('until', c, nmsg=2)]
    for i, r in enumerate(rs):
        acts.append(act('send', c, b=list(req(*r))))
        if i % 4 == 0:
            acts.append(act('until', c, **last(*r)))
        acts.append(act('sleep', ms=int(1000 * spread / len(rs))))
    return acts + [act('send', c, b=list(req(*mark))), act('until', c, **last(*mark))]


def newcomer(s, tor):
    mark = (max(tor.held), 0, 1)
    return s.lane(hand(tor) + req(*mark), last(*mark), end=None)


def junk(rng, tor, n):
    """What no peer should send."""
    r = rng.random()
    if r < .2:
        return bytes(rng.randrange(256) for _ in range(n))
    if r < .3:
        return b'\xff' * n
    if r < .4:
        return bytes(n)
    if r < .5:      # claims to be long
        return u4(rng.choice([2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32 - 4, 2 ** 32 - 5, 2 ** 30, 2 ** 24, 1048577])) + bytes([rng.randrange(10)]) + bytes(n)
    if r < .6:      # the wrong length of a known type
        t = rng.choice([4, 5, 6, 7, 8])
        return frame(t, bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 4, 5, 7, 8, 11, 12, 13])))) * max(1, n // 10)
    if r < .7:
        return bitf(tor.n, []) + frame(5, bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, -(-tor.n // 8), 200])))) + have(rng.choice([tor.n, tor.n + rng.randrange(9), rng.randrange(2 ** 32)]))
    if r < .8:
        return b''.join(req(*x) for x in invalid(tor, rng, max(1, n // 17)))
    if r < .9:
        return b''.join(frame(7, rng.randrange(2 ** 32), rng.randrange(2 ** 32), bytes(rng.randrange(50))) for _ in range(max(1, n // 20)))
    ms = [rng.choice([have(rng.randrange(tor.n)), bitf(tor.n, range(tor.n)), req(max(tor.held), 0, 1), frame(rng.randrange(4)), u4(0), frame(20, b'x' * rng.randrange(30))]) for _ in range(max(1, n // 8))]
    b = bytearray(b''.join(ms))
    for _ in range(rng.choice([1, 3])):
        b[rng.randrange(len(b))] = rng.randrange(256)
    return bytes(b)


def hostile(s, tor, rng, out=False):
    c = s.conn(loose=True, **({'out': True} if out else {}))
    acts = [act('accept' if out else 'open', c)]
    h = hand(tor)
    if not out and rng.random() < .15:
        h = rng.choice([h[:rng.randrange(68)], bytes(rng.randrange(256) for _ in range(100)), b''])
    if out and rng.random() < .4:
        h = rng.choice([h[:rng.randrange(68)], bytes(68), b''])
    acts.append(act('send', c, b=list(h)))
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        b = junk(rng, tor, rng.choice([1, 4, 5, 17, 60, 300, 3000]))
        acts.append(act('send', c, b=list(b), cuts=sorted(rng.sample(range(1, len(b)), min(len(b) - 1, rng.choice([0, 0, 1, 3])))) if len(b) > 1 else [], gap=rng.choice([0, 100, 5000])))
        if rng.random() < .3:
            acts.append(act('sleep', ms=rng.choice([1, 10, 60, 150])))
    if rng.random() < .2:
        acts.append(act('shut', c))
    if rng.random() < .5:
        acts.append(act('sleep', ms=rng.choice([1, 30, 150, 400])))
    acts.append(act(rng.choice(['close', 'reset']), c))
    return acts


def stalled(s, tor, rng, k, end):
    """Asks for a lot, and reads nothing of it."""
    i = max(tor.held, key=lambda i: tor.length(i))
    n = min(tor.length(i), 16384)
    c = s.conn(noread=True, loose=True, count=True)
    acts = [act('open', c), act('send', c, b=list(hand(tor))), act('send', c, b=list(req(i, 0, n)), repeat=k), act('sleep', ms=300)]
    return acts + [act(end, c)] if end else acts


def disturbed(ctx, rng, n):
    sc = []
    for x in range(n):
        tor = rng.choice([Tor(64, [64 * 9 + 5, 300], held=rng.choice([None, [0, 3, 9, 13]])), Tor(5, [13], held=[0, 2]), Tor(16384, [16384 * 6 + 77], held=rng.choice([None, [0, 2, 6]]))])
        s = Script(tor, **({'up': '500M'} if rng.random() < .4 else {}))
        lanes = [server(s, tor, rng) for _ in range(2)]
        lanes += [hostile(s, tor, rng) for _ in range(rng.choice([5, 20, 40]))]
        lanes += [hostile(s, tor, rng, out=True) for _ in range(rng.choice([0, 3, 10]))]
        rng.shuffle(lanes)
        last = []
        if tor.plen > 10000:     # they stay until all others were served
            stay = [stalled(s, tor, rng, 4000, None) for _ in range(3)]
            s.stage(*stay)
            last = [[act(rng.choice(['close', 'reset']), l[0]['c'])] for l in stay]
        s.stage(*lanes).stage(newcomer(s, tor))
        if last:
            s.stage(*last).stage(newcomer(s, tor))
        sc.append(s.s)
    return sc


def crowds(ctx, rng, n):
    sc = []
    for x in range(n):
        kind = x % 5
        tor = Tor(64, [64 * 9 + 5, 300], held=rng.choice([None, [0, 3, 9, 13]]))
        s = Script(tor, **({'nofile': rng.choice([40, 64])} if kind == 1 else {}))
        first, held, rest = [], [], []
        if kind == 0:          # many at once, all of them served
            for _ in range(200):
                rs = list(dict.fromkeys(valid(tor, rng, 5)))
                rest.append(s.lane(hand(tor) + b''.join(req(*r) for r in rs), last(*rs[-1])))
            s.stage(*rest)
        elif kind == 1:        # more than there are descriptors for
            k = s.conn()
            first = [act('open', k), act('send', k, b=list(hand(tor))), act('until', k, nmsg=2)]
            s.stage(first)
            crowd = [s.conn(loose=True) for _ in range(100)]
            s.stage(*[[act('open', c), act('send', c, b=list(hand(tor))), act('sleep', ms=300)] for c in crowd])
            marks = list(dict.fromkeys(valid(tor, rng, 20)))
            s.stage([x for r in marks for x in (act('send', k, b=list(req(*r))), act('until', k, **last(*r)))])
            s.stage(*[[act(rng.choice(['close', 'reset']), c)] for c in crowd])
        elif kind == 2:        # all of them go at once, at different points
            k = s.conn()
            s.stage(server(s, tor, rng, 60, 1.5), *[hostile(s, tor, rng) for _ in range(120)])
        elif kind == 4:        # those who are slow to say anything keep nobody waiting
            k = s.conn()
            s.stage([act('open', k), act('send', k, b=list(hand(tor))), act('until', k, nmsg=2)])
            idle = [s.conn(loose=True) for _ in range(60)]
            s.stage(*[[act('open', c)] + ([act('send', c, b=list(hand(tor)[:rng.randrange(1, 68)]))] if j % 2 else []) for j, c in enumerate(idle)])
            marks = list(dict.fromkeys(valid(tor, rng, 20)))
            s.stage([x for r in marks for x in (act('send', k, b=list(req(*r))), act('until', k, **last(*r)))], newcomer(s, tor), newcomer(s, tor))
            s.stage(*[[act(rng.choice(['close', 'reset']), c)] for c in idle])
        else:                  # away before they are accepted
            s.stage(server(s, tor, rng), *[[x for _ in range(10) for x in (lambda c: [act('open', c), act(rng.choice(['reset', 'close']), c)])(s.conn(loose=True))] for _ in range(10)])
        s.stage(newcomer(s, tor))
        sc.append(s.s)
    return sc


def c18(ctx):
    rng = ctx.rng
    menu(ctx)
    sc = disturbed(ctx, rng, 150 if THOROUGH else 30) + crowds(ctx, rng, 30 if THOROUGH else 10)
    # what breaks a decoder, alone and with one who is served
    tor = SMALL()
    lanes = []
    for t in range(-1, 10):
        for n in (0, 1, 2, 4, 5, 8, 9, 12, 13, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 5, 2 ** 32 - 4, 2 ** 32 - 1):
            lanes.append(u4(n) + (bytes([t]) if t >= 0 else b'') + bytes(min(n, 13)))
    s = Script(tor)
    s.stage(server(s, tor, rng, 60, 1.5), *[s.lane(hand(tor) + b, {'closed': True, 'ms': 100}, loose=True) for b in lanes])
    s.stage(newcomer(s, tor))
    sc.append(s.s)
    # Very many over time
    sc.append(churned(rng, 'serve'))
    # Nobody but the peers of the tracker: no answer, no handshake, nobody there
    s = Script(tor)
    s.stage(server(s, tor, rng), *[[act('accept', c), act('sleep', ms=rng.choice([0, 500, 1200])), act('close', c)] for c in [s.conn(out=True, loose=True) for _ in range(10)]], *[[act('sleep', ms=10)] for c in [s.conn(out=True) for _ in range(5)]])
    s.stage(newcomer(s, tor))
    sc.append(s.s)
    if judge(ctx, sc):
        judge(ctx, disturbed(ctx, rng, 40 if THOROUGH else 6), race=True)


def churned(rng, kind):
    tor = Tor(64, [64 * 9 + 5, 300], held=rng.choice([None, [0, 3, 9, 13]]))
    s = Script(tor, kind, **({'base': True, 'allowkb': 4096, 'nstats': 2} if kind == 'ends' else {}))
    s.stage(*[[act('churn', n=600, b=list(hand(tor)))] for _ in range(4)])
    if kind == 'ends':
        s.stage([act('stats')])
    s.stage(newcomer(s, tor))
    return s.s


def ending(s, tor, rng, out=False):
    """A session that ends at some point, from one side or the other."""
    c = s.conn(loose=True, **({'out': True} if out else {}))
    h = hand(tor)
    acts = [act('accept' if out else 'open', c)]
    how = rng.choice(['close', 'close', 'reset', 'shut'])
    x = rng.randrange(9)
    if x == 0:
        acts.append(act('send', c, b=list(h[:rng.randrange(68)])))
    elif x == 1:
        acts.append(act('send', c, b=list(bytes(68))))
    else:
        acts.append(act('send', c, b=list(h)))
        if x == 2:
            acts.append(act('until', c, nmsg=1))
        elif x == 3:
            acts.append(act('send', c, b=list(bitf(tor.n, rng.sample(range(tor.n), rng.randint(1, tor.n))))))
            acts.append(act('sleep', ms=rng.choice([0, 50, 150, 250])))
        elif x == 4:
            acts.append(act('send', c, b=list(b''.join(have(i) for i in rng.sample(range(tor.n), rng.randint(1, tor.n))))))
            acts.append(act('sleep', ms=rng.choice([0, 50, 150, 250])))
        elif x == 5:
            acts.append(act('send', c, b=list(b''.join(req(*r) for r in valid(tor, rng, 20, 200)))))
            acts.append(act('sleep', ms=rng.choice([0, 1, 50])))
        elif x == 6:       # the client ends it
            acts.append(act('send', c, b=list(rng.choice([have(tor.n), u4(2 ** 31), frame(5, bytes(tor.n + 9)), req(tor.n, 0, 1), req(max(tor.held), 1, tor.plen)]))))
            acts.append(act('until', c, closed=True, ms=rng.choice([100, 300])))
        elif x == 7:       # in the middle of a message
            acts.append(act('send', c, b=list(have(0) + req(0, 0, 1)[:rng.randrange(17)])))
        else:
            acts.append(act('send', c, b=list(junk(rng, tor, 50))))
    if how == 'shut':
        acts += [act('shut', c), act('until', c, closed=True, ms=rng.choice([0, 200]))]
        how = 'close'
    return acts + [act(how, c)]


def c19(ctx):
    rng = ctx.rng
    menu(ctx)
    sc = []
    for x in range(40 if THOROUGH else 8):
        plen = rng.choice([64, 65536])
        n = rng.choice([7, 16])
        tor = Tor(plen, [plen * n - 3], held=None if x % 4 == 0 else rng.sample(range(n), rng.randint(1, n - 1)))
        s = Script(tor, 'ends', base=True, allowkb=4096, nstats=2)
        for wave in range(2):
            s.stage(*([ending(s, tor, rng) for _ in range(150)] + [ending(s, tor, rng, out=True) for _ in range(20 if wave == 0 and x % 2 else 0)] +
                      [stalled(s, tor, rng, 300, rng.choice(['close', 'reset'])) for _ in range(5 if plen > 1000 else 0)]))
            s.stage([act('stats')])
        s.stage(newcomer(s, tor))
        sc.append(s.s)
    # In the middle of what is sent to them, and with only one kind of end each
    for x in range(60 if THOROUGH else 15):
        tor = Tor(16384, [16384 * 7 + 5], held=None if x % 4 == 0 else [0, 3, 7])
        s = Script(tor, 'ends', base=True, allowkb=4096, nstats=2)
        lanes = []
        for _ in range(60):
            c = s.conn(loose=x % 15 not in (2, 7, 8, 12, 13, 14), out=x % 15 >= 12, **({'count': True} if x % 15 == 9 else {}))
            h = hand(tor)
            lanes.append([[act('open', c), act('send', c, b=list(h)), act('until', c, nmsg=2), act('close', c)],
                          [act('open', c), act('send', c, b=list(h)), act('until', c, nmsg=2), act('reset', c)],
                          [act('open', c), act('send', c, b=list(h)), act('until', c, nmsg=2), act('shut', c), act('until', c, closed=True)],
                          [act('open', c), act('send', c, b=list(h + have(tor.n))), act('until', c, closed=True)],
                          [act('open', c), act('send', c, b=list(h + bitf(tor.n, range(tor.n)))), act('until', c, nreq=5), act('close', c)],
                          [act('open', c), act('send', c, b=list(h + bitf(tor.n, range(tor.n)))), act('until', c, nreq=1), act('reset', c)],
                          [act('open', c), act('send', c, b=list(h[:60])), act('close', c)],
                          [act('open', c), act('send', c, b=list(h[:60])), act('until', c, closed=True)],
                          [act('open', c), act('send', c, b=list(bytes(68))), act('until', c, closed=True)],
                          [act('open', c), act('send', c, b=list(h + req(0, 0, 16384) * 30)), act('until', c, bytes=20000), act('reset', c)],
                          [act('open', c), act('send', c, b=list(h + u4(2 ** 31))), act('until', c, closed=True)],
                          [act('open', c), act('reset', c)],
                          [act('accept', c), act('until', c, bytes=68), act('send', c, b=list(bytes(68))), act('until', c, closed=True)],
                          [act('accept', c), act('until', c, bytes=68), act('send', c, b=list(h[:50])), act('until', c, closed=True)],
                          [act('accept', c), act('until', c, bytes=68), act('send', c, b=list(h)), act('until', c, nmsg=1), act('shut', c), act('until', c, closed=True)]][x % 15])
            if x % 4 == 0:
                lanes[-1] = [a for a in lanes[-1] if 'nreq' not in a]
        s.stage(*lanes).stage([act('stats')])
        sc.append(s.s)
    # While it waits to be allowed to send
    for x in range(20 if THOROUGH else 5):
        tor = Tor(16384 * 64, [16384 * 64 * 7], held=[6])
        s = Script(tor, 'ends', base=True, allowkb=9000, nstats=2, up='200')
        lanes = []
        for j in range(4):
            c = s.conn(loose=True)
            b = hand(tor) + (have(j) if j != 3 else b''.join(req(6, 20 * i, 20) for i in range(20)))
            lanes.append([act('open', c), act('send', c, b=list(b)), act('until', c, nmsg=2), act('sleep', ms=rng.choice([150, 300, 500])), act(rng.choice(['close', 'reset', 'shut']), c)])
        s.stage(*lanes).stage([act('sleep', ms=1000), act('stats')])
        sc.append(s.s)
    sc.append(churned(rng, 'ends'))
    # What was asked of one who leaves is asked of others
    for x in range(200 if THOROUGH else 40):
        sc.append(heirs(rng, x))
    for x in range(60 if THOROUGH else 16):
        sc.append(rarest(rng, x))
    if not judge(ctx, sc):
        return
    import p_idle
    p_idle.sessions(ctx, 'JIdleBack.cfg', p_idle.guests(ctx, 600 if THOROUGH else 90) + p_idle.heirs(ctx, 200 if THOROUGH else 40) + p_idle.deafs(ctx, 30 if THOROUGH else 8))


LEAVE = ['close', 'reset', 'shut', 'offence', 'junk']


def leave(rng, c, tor):
    x = rng.choice(LEAVE)
    if x == 'offence':
        return [act('send', c, b=list(have(tor.n))), act('sleep', ms=50), act('close', c)]
    if x == 'junk':
        return [act('send', c, b=list(u4(2 ** 32 - 1) + b'\x00')), act('sleep', ms=50), act('close', c)]
    if x == 'shut':
        return [act('shut', c), act('until', c, closed=True, ms=2000), act('close', c)]
    return [act(x, c)]


def heirs(rng, x):
    n = rng.choice([4, 9, 16])
    tor = Tor(4, [4 * n - 1], held=rng.sample(range(n), rng.randint(0, n - 4)))
    lacked = [i for i in range(n) if i not in tor.held]
    k = rng.randint(1, min(4, len(lacked)))
    mine = rng.sample(lacked, k)
    s = Script(tor, 'asks')
    a = s.conn(out=x % 3 == 2, )
    tell = lambda i: rng.choice([bitf(n, i), b''.join(have(j) for j in i)])
    first = ([act('accept', a), act('until', a, bytes=68)] if x % 3 == 2 else [act('open', a)]) + [act('send', a, b=list(hand(tor) + tell(mine))), act('until', a, nreq=k, pieces=True, plen=4, total=tor.total)]
    if rng.random() < .3:          # announced after it was asked
        first += [act('send', a, b=list(have(rng.choice(mine)))), act('sleep', ms=30)]
    others = [s.conn() for _ in mine]
    early = rng.random() < .5      # the others are there before it leaves
    come = [[act('open', c), act('send', c, b=list(hand(tor) + tell([i])))] for c, i in zip(others, mine)]
    if early:
        s.stage(first).stage(*[l + [act('until', c, nmsg=2), act('sleep', ms=rng.choice([20, 250]))] for l, c in zip(come, others)])
        s.stage(leave(rng, a, tor)).stage(*[[act('until', c, nreq=1, pieces=True, plen=4, total=tor.total)] for c in others])
    else:
        s.stage(first + leave(rng, a, tor)).stage([act('sleep', ms=rng.choice([0, 20, 150]))])
        s.stage(*[l + [act('until', c, nreq=1, pieces=True, plen=4, total=tor.total)] for l, c in zip(come, others)])
    s.stage([act('sleep', ms=150)])
    return s.s


def rarest(rng, x):
    """Those who are gone do not make a piece less rare."""
    n = 24
    tor = Tor(4, [4 * n], held=[])
    s = Script(tor, 'asks', rarest=True)
    ps = list(range(n))
    rng.shuffle(ps)
    hot, cold = ps[0], ps[1]
    busy = [s.conn() for _ in range(2)]       # each has been asked for as many as can be
    lanes = []
    for k, c in enumerate(busy):
        own = ps[2 + 8 * k:10 + 8 * k]
        lanes.append([act('open', c), act('send', c, b=list(hand(tor) + bitf(n, own))), act('until', c, nreq=1, pieces=True, plen=4, total=tor.total), act('sleep', ms=300),
                      act('send', c, b=list(have(cold))), act('sleep', ms=300)])
    s.stage(*lanes)
    gone = [s.conn() for _ in range(rng.choice([3, 4, 6]))]
    lanes = []
    for k, c in enumerate(gone):
        b = bitf(n, [hot]) if rng.random() < .5 else have(hot)
        if rng.random() < .3:
            b += have(hot)
        lanes.append([act('open', c), act('send', c, b=list(hand(tor) + b)), act('until', c, nmsg=2), act('sleep', ms=rng.choice([20, 150]))] + leave(rng, c, tor))
    s.stage(*lanes).stage([act('sleep', ms=150)])
    c = s.conn()
    s.stage([act('open', c), act('send', c, b=list(hand(tor) + bitf(n, [hot, cold]))), act('until', c, nreq=1, pieces=True, plen=4, total=tor.total), act('sleep', ms=200)])
    return s.s


def wants(rng, big):
    plen = rng.choice([16383, 16384, 16385, 32768, 32767, 40000, 49153, 65536, 100000]) if big else rng.choice([1, 2, 4, 5, 100, 1000])
    n = rng.choice([1, 2, 3, 5, 6, 8, 9] if big else [1, 2, 3, 7, 8, 9, 16, 17, 30, 65])
    lastlen = rng.choice([1, plen, plen - 1, plen // 2 + 1, rng.randint(1, plen), 16384, 16385, 1, 16383])
    lastlen = max(1, min(plen, lastlen))
    total = (n - 1) * plen + lastlen
    cut = rng.choice([[total], [total], [1, total - 1] if total > 1 else [1]])
    tor = Tor(plen, cut, held=rng.sample(range(n), rng.choice([0, 0, 1, n // 2, n - 1, n]) if n > 1 else rng.choice([0, 0, 1])))
    return tor


def c22(ctx):
    rng = ctx.rng
    menu(ctx)
    sc = []
    for x in range(900 if THOROUGH else 130):
        sc.append(asking(rng, wants(rng, x % 2 == 0), x))
    for x in range(200 if THOROUGH else 40):
        sc.append(singles(rng))
    # very many pieces
    n = 70001
    for tell in (lambda i: bitf(n, i), lambda i: b''.join(have(j) for j in i)):
        far = [65536 + 3, 69999]
        tor = Tor(1, [n], held=[i for i in range(n) if i not in far])
        s = Script(tor, 'asks')
        c = s.conn()
        s.stage([act('open', c), act('send', c, b=list(hand(tor) + tell(far))), act('until', c, nreq=2, pieces=True, plen=1, total=n, ms=20000), act('sleep', ms=100)])
        sc.append(s.s)
    if not judge(ctx, sc):
        return
    import p_idle
    p_idle.sessions(ctx, 'JIdleAsks.cfg', p_idle.guests(ctx, 2000 if THOROUGH else 250) + p_idle.heirs(ctx, 100 if THOROUGH else 20))


def singles(rng):
    """Peers that have little each."""
    n = rng.choice([7, 8, 9, 16, 17, 24, 33, 64, 70])
    tor = Tor(3, [3 * n - rng.randrange(3)], held=rng.sample(range(n), n // 4))
    s = Script(tor, 'asks')
    own = list(range(n))
    rng.shuffle(own)
    lanes = []
    while own and len(lanes) < 20:
        c = s.conn()
        mine, own = own[:1 + len(lanes) % 2], own[1 + len(lanes) % 2:]
        acts = [act('open', c), act('send', c, b=list(hand(tor) + rng.choice([bitf(n, mine), b''.join(have(i) for i in mine)])))]
        lacked = [i for i in mine if i not in tor.held]
        acts.append(act('until', c, nreq=1, pieces=True, plen=3, total=tor.total) if lacked else act('until', c, nmsg=2))
        lanes.append(acts)
    s.stage(*lanes).stage([act('sleep', ms=250)])
    return s.s


def asking(rng, tor, x):
    n = tor.n
    lacked = [i for i in range(n) if i not in tor.held]
    s = Script(tor, 'asks')
    k = rng.choice([1, 1, 2, 3, 5])
    lanes = []
    for j in range(k):
        c = s.conn(out=rng.random() < .3)
        has = set(rng.sample(range(n), rng.choice([1, n, rng.randint(0, n)]))) if rng.random() < .8 else set(range(n))
        acts = ([act('accept', c), act('until', c, bytes=68)] if s.s['conns'][c].get('out') else [act('open', c)]) + [act('sleep', ms=rng.choice([0, 0, 50, 150])), act('send', c, b=list(hand(tor)))]
        mode = rng.choice(['bits', 'haves', 'both', 'slow', 'late'])
        told = list(has)
        rng.shuffle(told)
        half = told[:len(told) // 2]
        if mode == 'bits':
            acts.append(act('send', c, b=list(bitf(n, has))))
        elif mode == 'haves':
            acts.append(act('send', c, b=list(b''.join(have(i) for i in told))))
        elif mode == 'both':
            acts.append(act('send', c, b=list(bitf(n, half) + b''.join(have(i) for i in told))))
        elif mode == 'slow':
            for part in chunks(told, max(1, len(told) // 3)):
                acts += [act('send', c, b=list(b''.join(have(i) for i in part))), act('sleep', ms=rng.choice([1, 60, 110]))]
        else:
            acts += [act('send', c, b=list(bitf(n, half))), act('sleep', ms=150), act('send', c, b=list(b''.join(have(i) for i in told[len(half):])))]
        if rng.random() < .15:      # what there is not
            acts.append(act('send', c, b=list(rng.choice([have(n), have(n + rng.randrange(9)), have(2 ** 32 - 1), frame(5, b'\xff' * -(-n // 8)), frame(5, b'\xff' * (1 + -(-n // 8)))]))))
        w = len([i for i in has if i in lacked])
        if k == 1 and w:
            acts.append(act('until', c, nreq=1, pieces=True, plen=tor.plen, total=tor.total))
        acts.append(act('quiet', c, ms=350))
        if k > 1 and rng.random() < .2:
            acts.append(act(rng.choice(['close', 'reset']), c))
        lanes.append(acts)
    s.stage(*lanes).stage([act('sleep', ms=260 if k > 1 else 50)])
    s.stage(*[[act('quiet', c, ms=250)] for c in range(len(s.s['conns']))])
    return s.s


def c28(ctx):
    rng = ctx.rng
    menu(ctx)
    sc = []
    for x in range(1200 if THOROUGH else 160):
        sc.append(starting(rng, x))
    for n, held in ((65600, None), (70001, [0, 65534, 65536, 69999])):     # very many pieces
        tor = Tor(1, [n], held=held)
        s = Script(tor)
        s.stage(*[s.lane(hand(tor), {'nmsg': 2}) for _ in range(2)])
        sc.append(s.s)
    judge(ctx, sc, env={'GOTOR': build_gotor()})


def starting(rng, x):
    plen = rng.choice([1, 2, 3, 5, 16, 100])
    n = rng.choice([1, 2, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100] + [1000] * (x % 10 == 0)) if x % 3 else 1 + x // 3 % 40
    total = (n - 1) * plen + rng.randint(1, plen)
    files = [total]
    if rng.random() < .5:
        files, left = [], total
        names = ['a', 'b/c', 'b/d', 'b/e/f', 'g', 'h', 'i', 'j']
        while left and len(files) < 7:
            m = rng.choice([0, 1, plen, rng.randint(0, left), left])
            m = min(m, left)
            files.append((names[len(files)], m))
            left -= m
        if left:
            files.append((names[len(files)], left))
        if len(files) == 1:
            files = [total]
    r = rng.choice([0, 0, .1, .5, .9, 1])
    tor = Tor(plen, files, held=[i for i in range(n) if rng.random() >= r])
    for f in tor.files:
        y = rng.random()
        if y < .1:
            f['missing'] = True
        elif y < .25 and f['len']:
            f['cut'] = rng.choice([0, 1, f['len'] - 1, f['len'] + 1, f['len'] + 5, rng.randrange(f['len'])])
            f['flip'] = [z for z in f['flip'] if z < f['len']]
    s = Script(tor, real=x % 2 == 0)
    look = lambda: s.lane(hand(tor), {'nmsg': 2})
    s.stage(look()).stage(*[look() for _ in range(3)])
    # whatever peers announce or send
    c = s.conn(loose=True)
    s.stage([act('open', c), act('send', c, b=list(hand(tor) + bitf(n, range(n)) + have(n - 1) + frame(7, 0, 0, content(0, tor.length(0))))), act('sleep', ms=20), act('close', c)])
    s.stage(look())
    return s.s


def pace(ctx):
    """The limits of a client, on its connections (C23)."""
    rng = ctx.rng
    sc = []
    n = 16384
    for up, limit, dn, k in (('40000', 40000, '-1', 1), ('39K', 39 * 1024, '-1', 4), ('100000B', 100000, '5B', 3), ('1B', 1, '-1', 3), ('20k', 20480, '1M', 20)) if not THOROUGH else \
            [(str(l), l, rng.choice(['-1', '1B', '1M']), k) for l in (1, 5000, 16397, 20000, 100000, 300000) for k in (1, 2, 10)]:
        tor = Tor(n, [n * 4])
        s = Script(tor, 'pace', up=up, dn=dn, limit=limit, unit=n + 13)
        s.stage(*[(lambda c: [act('open', c), act('send', c, b=list(hand(tor))), act('send', c, b=list(req(j % 4, 0, n)), repeat=200), act('sleep', ms=3300)])(s.conn(count=True)) for j in range(k)])
        sc.append(s.s)
    # No limit, or none on what is sent
    for up, dn in (('-1B', '1B'), ('-1', '-1'), ('-5', '100'), ('-1B', '0')):
        tor = Tor(n, [n * 4])
        s = Script(tor, 'pace', up=up, dn=dn)
        s.stage(*[(lambda c: [act('open', c), act('send', c, b=list(hand(tor))), act('send', c, b=list(req(j % 4, 0, n)), repeat=200), act('until', c, bytes=200 * n, ms=20000)])(s.conn(count=True, atleast=200 * n)) for j in range(3)])
        sc.append(s.s)
    return judge(ctx, sc)


SESS = ['peers are simulated on the loopback interface, which neither loses nor reorders bytes',
        'offending messages (out of range, malformed) may be ignored or end the connection: the protocol leaves this open']
TECH = 'TLA+ specification (Session, Wire, Tracker) model-checked with TLC (MSession); recorded sessions of a real client process judged by TLC against it (JSession)'
CHECKS = {
    'C15': (c15, TECH, 'Streams of messages of every kind under every division (sampled beyond small ones), up to 4500 requests in one stream; each script is a client process on loopback.', SESS),
    'C16': (c16, TECH, 'Every byte of a handshake wrong, every length of it, both directions, with and without bytes behind it.', SESS),
    'C17': (c17, TECH, 'All requests of a small torrent (offsets and lengths around each end), seeded ones of others, thousands of requests of one peer, several peers at once, piece lengths far beyond the payload, the race detector.', SESS),
    'C18': (c18, TECH, 'Seeded hostile peers (malformed, cut, absurd, silent, vanishing) next to honest ones, 2400 connections over time, the race detector.', SESS),
    'C19': (c19, TECH, 'Every kind of end of a connection, both directions, sampled schedules, churn of thousands of connections, ends in virtual time.', SESS),
    'C22': (c22, TECH, 'Seeded torrents, disks and announcements (bitfields, have messages, choking, leaving), up to 70001 pieces.', SESS),
    'C28': (c28, TECH, 'Seeded disks with damage, missing, cut and longer files, up to 70001 pieces; half through the real command.', SESS),
}
