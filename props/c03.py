"""Rolling n dice: the divide-and-double roll is executed on dice with symbolic faces and weights for every count in the bound
(and counts that are sequences, fractions or dice); the result is compared with the multinomial distribution of the sum."""
import math

from sx.run import Case
from .common import die, mixture, roll_dist, wide

BOUNDS = ('counts -4..9 with 2 symbolic faces and symbolic weights, -2..3 with 3 symbolic faces, up to 7 with 3 concrete faces and symbolic weights, '
          'up to 50 with 2 symbolic faces and concrete weights; up to 12 with 3-12 given faces (two symbolic weights); side counts -7..9; die-valued counts with up to 3 outcomes in -2..3')
LARGE = 3      # paths per case also replayed with inputs beyond float precision
BUDGET = {'quick': 500, 'thorough': 1800}


def neg(pairs):
    return [(-v, w) for v, w in pairs]


def rolls(pairs, n):
    return roll_dist(pairs, n) if n >= 0 else neg(roll_dist(pairs, -n))


def simple(S, n, k=2, zero=False):
    d, p = die(S, 'd', k, lo=0 if zero else 1, hi=50)
    S.same_dist(S.lib.roll(n, d), rolls(p, n))


def symcount(S, lo, hi):
    n = S.int('n', lo, hi)
    d, p = die(S, 'd', 2, hi=50)
    r = S.lib.roll(n, d)
    n = S.lib and int(n)
    S.same_dist(r, rolls(p, n))


def concfaces(S, n, faces):
    d, p = die(S, 'd', faces=faces, hi=20)
    S.same_dist(S.lib.roll(n, d), rolls(p, n))


def many(S, n, k, start=1, step=1):
    d, p = wide(S, 'd', k, start, step, sym=2)
    acc = {0: 1}
    for _ in range(abs(n)):
        nxt = {}
        for v, w in acc.items():
            for x, q in p:
                nxt[v + x] = nxt.get(v + x, 0) + w * q
        acc = nxt
    S.same_dist(S.lib.roll(n, d), list(acc.items()) if n >= 0 else neg(acc.items()))


def big(S, n, w):
    a, b = S.int('a'), S.int('b')
    S.assume(a < b)
    S.same_dist(S.lib.roll(n, S.lib.RV([a, b], w)), rolls([(a, w[0]), (b, w[1])], n))


def sides(S, lo, hi, n, form):
    """n dice of m sides"""
    L = S.lib
    m = S.int('m', lo, hi)
    if form == 'roll':
        r = L.roll(n, m)
    elif form == 'one':
        r = L.roll(m)
        n = 1
    elif form == 'text':
        m = int(m)
        r = L.roll('%dd%d' % (n, m))
    elif form == 'text1':
        m = int(m)
        r = L.roll('d%d' % m)
        n = 1
    elif form == 'alt':
        D = S.mod('altcast').D
        r = n * D * m
    elif form == 'alt1':
        D = S.mod('altcast').D
        r = D * m
        n = 1
    m = int(m)
    f = list(range(1, m + 1)) if m > 0 else list(range(m, 0)) if m < 0 else [0]
    S.same_dist(r, rolls([(x, 1) for x in f], n))


def faces_from(S, form, n):
    """dice whose faces come from a sequence-like value"""
    L = S.lib
    a, b, c = S.ints('x', 3)
    if form == 'seq':
        d, f = L.Seq(a, b), [a, b]
    elif form == 'get_seq':
        d, f = L.get_seq([a, [b]]), [a, b]
    elif form == 'list':
        d, f = [a, [b, c]], [a, b, c]
    elif form == 'tuple':
        d, f = (a, b), [a, b]
    elif form == 'range':
        d, f = range(2, 5), [2, 3, 4]
    elif form == 'mixed':
        d, f = [a, range(1, 3), b], [a, 1, 2, b]
    elif form == 'one':
        d, f = L.Seq(a), [a]
    elif form == 'real':
        r = S.real('r')
        d, f = r, [r]
    elif form == 'bool':
        d, f = L.Seq(True, a), [1, a]
    S.same_dist(L.roll(n, d), rolls([(x, 1) for x in f], n))
    if n == 1:
        S.same_dist(L.roll(d), [(x, 1) for x in f], 'single argument')


def count_form(S, form):
    L = S.lib
    d, p = die(S, 'd', 2, hi=50)
    if form == 'seq':
        a, b = S.int('a', -2, 3), S.int('b', -2, 2)
        n, e = L.Seq(a, b), a + b
    elif form == 'list':
        a, b = S.int('a', -2, 3), S.int('b', -2, 2)
        n, e = [a, (b,)], a + b
    elif form == 'range':
        a = S.int('a', 0, 2)
        n, e = range(1, a + 1), sum(range(1, a + 1))
    elif form == 'empty':
        n, e = L.Seq(), 0
    elif form == 'real':
        n = S.real('n', -2, 3)
        e = math.ceil(n)
    elif form == 'bool':
        n = S.choose('n', [False, True])
        e = int(n)
    r = L.roll(n, d)
    S.same_dist(r, rolls(p, int(e)))


def count_die(S, counts, d='sym'):
    """the number of dice is itself rolled"""
    L = S.lib
    n, pn = die(S, 'n', faces=counts, hi=50)
    if d == 'sym':
        x, p = die(S, 'd', 2, hi=50)
    elif d == 'seq':
        a, b = S.int('a'), S.int('b')
        x, p = L.Seq(a, b), [(a, 1), (b, 1)]
    else:
        x, p = d, [(i, 1) for i in range(1, d + 1)]
    S.same_dist(L.roll(n, x), mixture([(rolls(p, c), w) for c, w in pn]))


def count_pool(S, d):
    """(2 dice) d sides"""
    L = S.lib
    n, pn = die(S, 'n', faces=(1, 2), hi=20)
    two = roll_dist(pn, 2)
    S.same_dist(L.roll(L.roll(2, n), d), mixture([(rolls([(i, 1) for i in range(1, d + 1)], c), w) for c, w in two]))


def nested(S, n, m):
    """n rolls of (m rolls of a die)"""
    L = S.lib
    d, p = die(S, 'd', 2, hi=50)
    S.same_dist(L.roll(n, L.roll(m, d)), rolls(p, n * m))


def history(S, ns, same):
    """several rolls in a row: each is exact on its own"""
    L = S.lib
    d, p = die(S, 'd', 2, hi=50)
    e, q = (d, p) if same else die(S, 'e', faces=None, n=2, hi=50)
    for i, n in enumerate(ns):
        x, y = (d, p) if i % 2 == 0 else (e, q)
        S.same_dist(L.roll(n, x), rolls(y, n), 'roll %d' % i)


def equal_faces(S, n):
    """dice with the same faces but other weights"""
    L = S.lib
    a, b = S.int('a'), S.int('b')
    S.assume(a < b)
    w, u = S.weights('w', 2, 1, 50), S.weights('u', 2, 1, 50)
    S.same_dist(L.roll(n, L.RV([a, b], w)), rolls([(a, w[0]), (b, w[1])], n))
    S.same_dist(L.roll(n, L.RV([a, b], u)), rolls([(a, u[0]), (b, u[1])], n))


def reject(S, what):
    L = S.lib
    a = S.int('a', 1, 6)
    if what == 'realdie':
        r = S.real('r', 0, 4)
        S.assume(not r == math.floor(r))
        S.check(S.raises(lambda: L.roll(L.RV([r], [1]), a)) is not None, 'a die with fractional faces cannot be a count')
    elif what == 'text2':
        S.check(S.raises(lambda: L.roll('2d6', a)) is not None, 'text and a side count')
    elif what == 'badtext':
        t = S.choose('t', ['2x6', 'd', '', '2d6d1', 'xd3'])
        S.check(S.raises(lambda: L.roll(t)) is not None, 'malformed text')


def cases(tier):
    c = []
    for n in list(range(-4, 10)):
        c.append(Case(simple, n=n, weight=2 if abs(n) > 5 else 1))
    for n in range(-2, 4):
        c.append(Case(simple, n=n, k=3, weight=2, max_time=25))
    for n in (0, 1, 2, 3, -2):
        c.append(Case(simple, n=n, zero=True))
        c.append(Case(simple, n=n, k=1))
    c.append(Case(symcount, lo=-3, hi=5))
    for n in (2, 3, 4, 5, 6, 7, -3):
        for f in ((1, 2, 3), (-2, 0, 5), (0, 0.5, 2)):
            c.append(Case(concfaces, n=n, faces=f))
    c.append(Case(concfaces, n=3, faces=(1, 2, 3, 4, 5, 6)))
    c.append(Case(concfaces, n=11, faces=(0, 1)))
    c.append(Case(concfaces, n=13, faces=(0, 1)))
    c.append(Case(concfaces, n=2, faces=tuple(range(1, 13))))
    for n, k in ((2, 6), (2, 10), (2, 20), (3, 6), (3, 10), (4, 4), (4, 6), (5, 4), (5, 6), (6, 3), (7, 3), (8, 3), (9, 3), (10, 3), (12, 3), (-4, 4), (-5, 3)):
        c.append(Case(many, n=n, k=k, gcd='one', wtie=True, max_time=20))
        if n < 5:
            c.append(Case(many, n=n, k=k, start=-3, step=2, gcd='one', wtie=True, max_time=20))
    for n in (10, 11, 12, 13, 15, 16, 17, 20, 31, 32, 33, 47, 50):
        c.append(Case(big, n=n, w=(1, 2)))
    for n in (12, 19, 25, 50):
        c.append(Case(big, n=n, w=(1, 1)))
    for form in ('roll', 'text', 'alt'):
        for n in (-2, 0, 1, 2, 3):
            c.append(Case(sides, lo=-7 if n < 3 else -4, hi=9 if n < 3 else 5, n=n, form=form))
    for form in ('one', 'text1', 'alt1'):
        c.append(Case(sides, lo=-20, hi=20, n=1, form=form))
    c.append(Case(sides, lo=95, hi=101, n=1, form='roll'))
    c.append(Case(sides, lo=1, hi=6, n=5, form='roll'))
    for f in ('seq', 'get_seq', 'list', 'tuple', 'range', 'mixed', 'one', 'real', 'bool'):
        for n in (1, 2, -1, 0):
            c.append(Case(faces_from, form=f, n=n, max_time=12, weight=2 if n == 2 else 1))
    for f in ('seq', 'list', 'range', 'empty', 'real', 'bool'):
        c.append(Case(count_form, form=f))
    for ct in ((1, 2), (0, 1), (0, 2), (-1, 2), (1, 2, 3), (-2, 0, 1), (3,), (0,), (-1,), (2, 4)):
        c.append(Case(count_die, counts=ct, gcd='one', wtie=True))
        c.append(Case(count_die, counts=ct, d=4, gcd='one', wtie=True))
    c.append(Case(count_die, counts=(1, 2), d='seq', gcd='one', wtie=True))
    c.append(Case(count_pool, d=3, gcd='one', wtie=True))
    c.append(Case(count_pool, d=2, gcd='one', wtie=True))
    for n, m in ((2, 2), (3, 2), (2, 3), (-1, 2), (2, -1), (2, 0), (1, 3)):
        c.append(Case(nested, n=n, m=m))
    for ns in ((2, 2, 3), (4, 2, 3, 5), (3, 3, 6, 6), (1, 1, 2, 2), (-2, 2, 2, -3)):
        for same in (True, False):
            c.append(Case(history, ns=ns, same=same, max_time=15, gcd='one', wtie=True))
    for n in (2, 3, 5):
        c.append(Case(equal_faces, n=n, gcd='one', wtie=True))
    for w in ('realdie', 'text2', 'badtext'):
        c.append(Case(reject, what=w))
    if tier == 'thorough':
        for n in (10, 11, 12):
            c.append(Case(simple, n=n, max_time=600, weight=5))
        for n in (4, 5):
            c.append(Case(simple, n=n, k=3, max_time=900, max_paths=10 ** 6, weight=6))
        for n in (2, 3):
            c.append(Case(simple, n=n, k=4, max_time=900, max_paths=10 ** 6, weight=6))
        for n in range(1, 120):
            c.append(Case(big, n=n, w=(1, 2)))
        for n in range(8, 12):
            c.append(Case(concfaces, n=n, faces=(1, 2, 3), max_time=300))
        for ct in ((-2, -1, 0, 1, 2, 3), (4, 5), (1, 6)):
            c.append(Case(count_die, counts=ct, gcd='one', wtie=True, max_time=300))
    return c
