"""Equality of dice: the real dices_are_equal and hash are executed on pairs of symbolic dice, numbers and sequences (lowest terms computed exactly);
the verdict is compared with equality of the two distributions."""
from sx.run import Case
from .common import roll_dist, total

BOUNDS = ('dice of 1-3 arbitrary faces with weights 1..6 (2 faces; 0..3 where one may be impossible) or 1..3 (3 faces), given in any order and with repeated faces; numbers, nested sequences, ranges, pools of 2-3, sums, differences, selections and mixtures '
          'of dice with weights 1..3; weights N and N+0..2 for N up to 1e25, faces 1e-12 apart; both kinds of blanks; both argument orders')
BUDGET = {'quick': 500, 'thorough': 900}
E = dict(gcd='exact', nl=True)


def build(S, nm, kind):
    """-> (value, distribution); """
    L = S.lib
    if kind[0] == 'd':
        n = int(kind[1])
        v, w = S.ints(nm + 'v', n, -9, 9), S.weights(nm + 'w', n, 1, {1: 9, 2: 6, 3: 3}[n])
        return L.RV(v, w), list(zip(v, w))
    if kind == 'f':
        w = S.weights(nm + 'w', 2, 1, 6)
        return L.RV([1, 2], w), [(1, w[0]), (2, w[1])]
    if kind == 'z':
        w = S.weights(nm + 'w', 2, 0, 3)
        S.assume(w[0] + w[1] > 0)
        return L.RV([1, 2], w), [(1, w[0]), (2, w[1])]
    if kind == 'tri':
        w = S.weights(nm + 'w', 3, 1, 3)
        return L.RV([2, 1, 2], w), [(1, w[1]), (2, w[0] + w[2])]
    if kind == 'num':
        x = S.int(nm)
        return x, [(x, 1)]
    if kind == 'real':
        x = S.real(nm)
        return x, [(x, 1)]
    if kind == 'seq':
        x, y = S.int(nm + 'x', -9, 9), S.int(nm + 'y', -9, 9)
        return L.Seq(x, y), [(x, 1), (y, 1)]
    if kind == 'list':
        x, y = S.int(nm + 'x', -9, 9), S.int(nm + 'y', -9, 9)
        return [x, [y, 2]], [(x, 1), (y, 1), (2, 1)]
    if kind == 'range':
        return range(1, 3), [(1, 1), (2, 1)]
    if kind == 'const':
        x = S.int(nm)
        return L.RV.from_const(x), [(x, 1)]
    if kind == 'int':
        m = S.int(nm, 1, 4)
        return L.roll(m), [(i, 1) for i in range(1, m + 1)]
    if kind == 'pool':
        w = S.weights(nm + 'w', 2, 1, 3)
        return L.roll(2, L.RV([0, 1], w)), roll_dist([(0, w[0]), (1, w[1])], 2)
    if kind == 'cmp':
        w = S.weights(nm + 'w', 2, 1, 6)
        return L.RV([3, 5], w) > 4, [(0, w[0]), (1, w[1])]
    raise ValueError(kind)


def same(S, p, q):
    """do these lists denote the same faces with the same probabilities?"""
    def norm(pairs):
        out = []
        for v, w in pairs:
            for e in out:
                if S.val_eq(e[0], v):
                    e[1] = e[1] + w
                    break
            else:
                out.append([v, w])
        return out
    p, q = norm(p), norm(q)
    tp, tq = total(p), total(q)
    if len(p) != len(q):
        return False
    for v, w in p:
        for x, u in q:
            if S.val_eq(v, x):
                if not S.val_eq(w * tq, u * tp):
                    return False
                break
        else:
            return False
    return True


def pair(S, a, b):
    L = S.lib
    x, p = build(S, 'a', a)
    y, q = build(S, 'b', b)
    exp = same(S, p, q)
    S.check(bool(L.RV.dices_are_equal(x, y)) == exp, 'equal exactly when the distributions are')
    S.check(bool(L.RV.dices_are_equal(y, x)) == exp, 'in either order')
    S.check(bool(L.RV.dices_are_equal(x, x)), 'equal to itself')
    if exp and S.is_die(x) and S.is_die(y):
        S.check(S.eq(S.hash(x), S.hash(y)), 'equal dice hash alike')


def close(S, N, n):
    """probabilities that differ very little, or not at all"""
    L = S.lib
    a, b, k = S.choose('a', [0, 1, 2]), S.choose('b', [0, 1, 2]), S.choose('k', [1, 2])
    f = S.ints('f', n, -9, 9)
    for p, q in zip(f, f[1:]):
        S.assume(p < q)
    w = [1] * (n - 2) + [N, N + a]
    u = [k] * (n - 2) + [k * N, k * (N + b)]
    x, y = L.RV(f, w), L.RV(f, u)
    exp = bool(a == b)
    S.check(bool(L.RV.dices_are_equal(x, y)) == exp, 'equal exactly when the distributions are')
    S.check(bool(L.RV.dices_are_equal(y, x)) == exp, 'in either order')
    if exp:
        S.check(S.eq(S.hash(x), S.hash(y)), 'equal dice hash alike')


def faceclose(S, what):
    """faces that differ very little"""
    L = S.lib
    w = S.weights('w', 2, 1, 3)
    e = {'tiny': 1e-12, 'ulp': 2.0 ** -52, 'half': 0.5, 'none': 0}[what]
    x, y = L.RV([1, 2], w), L.RV([1 + e, 2], w)
    S.check(bool(L.RV.dices_are_equal(x, y)) == (e == 0), 'faces differ')
    S.check(bool(L.RV.dices_are_equal(1, 1 + e)) == (e == 0), 'numbers differ')
    S.check(bool(L.RV.dices_are_equal([1, 1 + e], 1)) == (e == 0), 'sequences differ')


def other(S, kind):
    """the same distribution written differently"""
    L = S.lib
    a, b, c = S.int('a', -9, 9), S.int('b', -9, 9), S.int('c', -9, 9)
    S.assume(a < b)
    hi = 2 if kind == 'mixdie' else 3
    w = S.weights('w', 2, 1, hi)
    d = L.RV([a, b], w)
    k = S.int('k', 1, hi)
    if kind == 'order':
        e = L.RV([b, a], [w[1], w[0]])
    elif kind == 'scale':
        e = L.RV([a, b], [k * w[0], k * w[1]])
    elif kind == 'split':
        e = L.RV([b, a, b], [w[1], 2 * w[0], w[1]])
    elif kind == 'shift':
        e = (d + c) - c
    elif kind == 'neg':
        e = -(-d)
    elif kind == 'roll1':
        e = L.roll(1, d)
    elif kind == 'mix':
        e = L.RV.from_rvs([a, b], [w[0], w[1]])
    elif kind == 'mixdie':
        e = L.RV.from_rvs([d, d], [k, 1])
    elif kind == 'roll2':
        d, e = L.roll(2, d), d + d
    elif kind == 'roll3':
        d, e = L.roll(3, L.RV([0, 2], w)), None
        e = L.RV([0, 2], w)
        e = e + (e + e)
    elif kind == 'sub':
        x = L.RV([0, 3], S.weights('u', 2, 1, 2))
        d, e = L.RV([0, 1], w) - x, -(x - L.RV([0, 1], w))
    elif kind == 'selected':
        d, e = 1 @ L.roll(2, L.RV([0, 1], w)), L.RV([0, 1], [w[0] * w[0], w[1] * (2 * w[0] + w[1])])
    S.check(bool(L.RV.dices_are_equal(d, e)) and bool(L.RV.dices_are_equal(e, d)), 'equal')
    S.check(S.eq(S.hash(d), S.hash(e)), 'equal dice hash alike')


def blank(S, kind):
    L = S.lib
    x, _ = build(S, 'a', kind)
    e = [L.BlankRV(), L.roll(2, L.Seq()), L.roll(L.BlankRV(), 6)]
    for b in e:
        S.check(not L.RV.dices_are_equal(x, b) and not L.RV.dices_are_equal(b, x), 'a blank equals no die')
        for b2 in e:
            S.check(bool(L.RV.dices_are_equal(b, b2)), 'a blank equals a blank')


def cases(tier):
    big = tier == 'thorough'
    c = []

    def add(f, **kw):
        c.append(Case(f, **{**E, 'max_time': 120 if big else 20, 'max_paths': 20000, **kw}))
    for a, b in (('f', 'f'), ('z', 'f'), ('z', 'z'), ('z', 'd1'), ('z', 'int'), ('f', 'tri'), ('d1', 'd1'), ('d1', 'd2'), ('d1', 'num'), ('num', 'num'), ('num', 'const'), ('real', 'num'), ('seq', 'seq'), ('seq', 'f'), ('seq', 'range'), ('list', 'range'), ('seq', 'num'), ('list', 'seq'),
                 ('d1', 'seq'), ('f', 'range'), ('f', 'int'), ('int', 'range'), ('int', 'int'), ('f', 'cmp'), ('cmp', 'cmp'), ('pool', 'pool'), ('pool', 'tri'), ('tri', 'tri'), ('const', 'real'), ('int', 'num')):
        add(pair, a=a, b=b)
    if big:
        add(pair, a='d2', b='d2', max_time=900)
        add(pair, a='d2', b='f', max_time=900)
        add(pair, a='d3', b='d2', max_time=900)
    else:
        add(pair, a='d2', b='f', max_time=60)
    for N in (100, 10 ** 4, 10 ** 7, 10 ** 10, 10 ** 15, 10 ** 20, 10 ** 25):
        for n in (2, 3):
            add(close, N=N, n=n)
    for k in ('tiny', 'ulp', 'half', 'none'):
        add(faceclose, what=k)
    for k in ('order', 'scale', 'split', 'shift', 'neg', 'roll1', 'mix', 'mixdie', 'roll2', 'roll3', 'sub', 'selected'):
        add(other, kind=k)
    for k in ('f', 'num', 'real', 'seq', 'list', 'range', 'const', 'int', 'pool'):
        add(blank, kind=k)
    return c
