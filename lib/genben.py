"""Inputs for the bencoding properties."""
import itertools

ALPHA = b'ilde01:-'
I63 = 2 ** 63


def B(s):
    return list(s if isinstance(s, (bytes, bytearray)) else s.encode('latin1'))


def exhaustive(maxlen):
    for n in range(maxlen + 1):
        for t in itertools.product(ALPHA, repeat=n):
            yield bytes(t)


def big(n):
    return {'neg': n < 0, 'd': [int(c) for c in str(abs(n))]}


def V(v, rng=None):
    """Describe a Python value as a value of the specification."""
    if isinstance(v, bool) or v is None or isinstance(v, float):
        return {'t': 'x', 'kind': {True: 'bool', False: 'bool', None: 'nil'}.get(v, 'float64')}
    if isinstance(v, int):
        return dict(t='i', **big(v))
    if isinstance(v, (bytes, bytearray)):
        return {'t': 's', 'b': list(v)}
    if isinstance(v, list):
        return {'t': 'l', 'v': [V(x) for x in v]}
    if isinstance(v, dict):
        return {'t': 'd', 'kv': [{'k': list(k), 'v': V(x)} for k, x in sorted(v.items())]}
    if isinstance(v, Bad):
        return {'t': 'x', 'kind': v.kind}
    if isinstance(v, Sized):
        return dict(t='i', go=v.go, **big(v.n))
    raise ValueError(v)


class Bad:
    KINDS = ['bool', 'nil', 'uint', 'uint8', 'uint16', 'uint32', 'uint64', 'float64', 'bytes', 'strings', 'map', 'struct', 'ptr']

    def __init__(self, kind):
        self.kind = kind


class Sized:
    def __init__(self, go, n):
        self.go, self.n = go, n


def enc(v):
    """Bencode a Python value (only used to make inputs)."""
    if isinstance(v, int):
        return b'i%de' % v
    if isinstance(v, (bytes, bytearray)):
        return b'%d:%s' % (len(v), bytes(v))
    if isinstance(v, list):
        return b'l' + b''.join(enc(x) for x in v) + b'e'
    if isinstance(v, dict):
        return b'd' + b''.join(enc(k) + enc(x) for k, x in sorted(v.items())) + b'e'
    raise ValueError(v)


INTS = [0, 1, -1, 9, 10, -10, 255, 256, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 53 + 1, I63 - 1, -I63, -I63 + 1,
        999999999, 10 ** 18, 123456789012345678]


def rint(rng):
    c = rng.random()
    if c < .5:
        return rng.choice(INTS)
    if c < .8:
        return rng.randint(-1000, 1000)
    return rng.randint(-I63, I63 - 1)


def rbytes(rng, maxn=12, empty=False):
    n = rng.choice([1, 1, 2, 3, 5, maxn]) if not empty else rng.choice([0, 0, 1, 2, maxn])
    c = rng.random()
    if c < .4:
        return bytes(rng.choice(b'abcxyz') for _ in range(n))
    if c < .6:
        return bytes(rng.choice(b'ilde0123456789:-') for _ in range(n))
    return bytes(rng.randrange(256) for _ in range(n))


def rval(rng, depth, empty=0.0, bad=0.0):
    c = rng.random()
    if rng.random() < bad:
        return Bad(rng.choice(Bad.KINDS))
    if depth == 0 or c < .45:
        if c < .2 or (depth == 0 and c < .5):
            return rint(rng)
        return rbytes(rng, empty=rng.random() < empty)
    if c < .7:
        return [rval(rng, depth - 1, empty, bad) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
    return {rbytes(rng, 6, empty=rng.random() < empty): rval(rng, depth - 1, empty, bad) for _ in range(rng.choice([0, 1, 2, 3, 5]))}


def messy(rng, v):
    """Encode with the liberties that some writers take."""
    if isinstance(v, int):
        if rng.random() < .1:
            return rng.choice([b'i-0e', b'i0%de' % abs(v), b'i--%de' % abs(v), b'ie', b'i-e', b'i+%de' % abs(v), b'i%d ' % v,
                               b'i%d.0e' % v, b'i1%018d%de' % (0, abs(v)), b'i9223372036854775808e', b'i-9223372036854775809e'])
        return enc(v)
    if isinstance(v, (bytes, bytearray)):
        if rng.random() < .15:
            return rng.choice([b'0%d:%s' % (len(v), v), b'%d:%s' % (len(v) + 1, v), b'-%d:%s' % (len(v), v), b':' + v,
                               b'%d%s' % (len(v), v), b'99999999999999999999:' + v, b'9223372036854775807:' + v,
                               b'18446744073709551615:' + v, b'+%d:%s' % (len(v), v), b'4294967297:' + v, b' %d:%s' % (len(v), v)])
        return enc(v)
    if isinstance(v, list):
        return b'l' + b''.join(messy(rng, x) for x in v) + (b'e' if rng.random() < .95 else b'')
    items = list(v.items())
    if rng.random() < .5:
        rng.shuffle(items)
    else:
        items.sort()
    if items and rng.random() < .1:
        items.append(rng.choice(items))
    out = b'd'
    for k, x in items:
        kk = messy(rng, k) if rng.random() < .9 else rng.choice([b'i3e', b'le', b'de'])
        out += kk + (messy(rng, x) if rng.random() < .97 else b'')
    return out + (b'e' if rng.random() < .95 else b'')


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        c = rng.random()
        if not b:
            break
        i = rng.randrange(len(b))
        if c < .3:
            b[i] = rng.choice(b'ilde0123456789:-\x00\xff ')
        elif c < .5:
            del b[i]
        elif c < .7:
            b.insert(i, rng.choice(b'ilde0123456789:-\x00\xff '))
        elif c < .85:
            del b[i:]
        else:
            j = rng.randrange(len(b))
            b[i:i] = b[j:j + rng.randrange(6)]
    return bytes(b)
