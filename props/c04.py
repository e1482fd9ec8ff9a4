"""Position selection: k @ pool and sequence @ pool are executed on pools of dice with symbolic faces and weights; the result is
compared with the distribution of the selected order statistics over all rolls of the pool."""
from sx.run import Case
from .common import die, pool_rolls, roll_dist, mixture, wide

BOUNDS = ('pools of up to 5 dice with 2 symbolic faces, up to 3 dice with 3 symbolic faces, up to 4 dice with 6 concrete faces, up to 24 dice (several positions: up to 90) with concrete weights, 2-9 dice with 2-12 given faces (two symbolic weights), 2-101 dice of two faces; '
          'every position -2..n+3, position sequences up to length 4 (up to length 9 on given faces), both position orders, weights 0..50')
LARGE = 3      # paths per case also replayed with inputs beyond float precision
BUDGET = {'quick': 500, 'thorough': 1800}


def pick(roll, ks, order):
    """roll: descending tuple"""
    r = roll if order == 'highest first' else roll[::-1]
    t = 0
    for k in ks:
        if 1 <= k <= len(r):
            t = t + r[k - 1]
    return t


def expect(pairs, n, ks, order):
    return [(pick(r, ks, order), w) for r, w in pool_rolls(pairs, n)]


HI, LO = 'highest first', 'lowest first'


def setorder(S, order, explicit=True):
    if order == LO or explicit:
        S.lib.settings_set('position order', order)


def one(S, n, k, order, faces=None, nf=2, zero=False, ignore=False):
    if ignore:
        S.lib.settings_set('RV_IGNORE_ZERO_PROBS', True)
    d, p = die(S, 'd', nf, faces=faces, lo=0 if zero else 1, hi=50)
    setorder(S, order, explicit=k % 2 == 0)
    S.same_dist(k @ S.lib.roll(n, d), expect(p, n, [k], order))


def symk(S, n, order):
    k = S.int('k', -2, n + 3)
    d, p = die(S, 'd', 2, hi=50)
    setorder(S, order)
    r = k @ S.lib.roll(n, d)
    S.same_dist(r, expect(p, n, [int(k)], order))


def many(S, n, ks, form, order, faces=None, nf=2, zero=False):
    L = S.lib
    d, p = die(S, 'd', nf, faces=faces, lo=0 if zero else 1, hi=50)
    setorder(S, order, explicit=False)
    q = {'seq': lambda: L.Seq(*ks), 'get_seq': lambda: L.get_seq(list(ks)), 'list': lambda: list(ks), 'tuple': lambda: tuple(ks), 'range': lambda: range(ks[0], ks[-1] + 1),
         'nested': lambda: [ks[0], list(ks[1:])]}[form]()
    S.same_dist(q @ L.roll(n, d), expect(p, n, ks, order))


def symks(S, n, m, order):
    ks = [S.int('k%d' % i, -1, n + 1) for i in range(m)]
    d, p = die(S, 'd', 2, hi=20)
    setorder(S, order)
    r = S.lib.Seq(*ks) @ S.lib.roll(n, d)
    S.same_dist(r, expect(p, n, [int(k) for k in ks], order))


def single(S, what, k, order):
    """everything that is not a plain pool is one die"""
    L = S.lib
    setorder(S, order)
    d, p = die(S, 'd', 2, hi=20)
    if what == 'die':
        x, px = d, p
    elif what == 'const':
        a = S.int('a')
        x, px = L.RV.from_const(a), [(a, 1)]
    elif what == 'sum':
        x, px = L.roll(2, d) + 1, [(v + 1, w) for v, w in roll_dist(p, 2)]
    elif what == 'add':
        e, q = die(S, 'e', faces=(0, 3), hi=20)
        x, px = d + e, S.conv(p, q)
    elif what == 'neg':
        x, px = L.roll(-2, d), [(-v, w) for v, w in roll_dist(p, 2)]
    elif what == 'zero':
        x, px = L.roll(0, d), [(0, 1)]
    elif what == 'diecount':
        n, pn = die(S, 'n', faces=(1, 2), hi=20)
        x, px = L.roll(n, 3), mixture([(roll_dist([(1, 1), (2, 1), (3, 1)], c), w) for c, w in pn])
    elif what == 'mix':
        x, px = L.RV.from_rvs([L.roll(2, d), 5], [1, 1]), mixture([(roll_dist(p, 2), 1), ([(5, 1)], 1)])
    elif what == 'cmp':
        x, px = L.roll(2, d) > 3, [(1 if v > 3 else 0, w) for v, w in roll_dist(p, 2)]
    elif what == 'selected':
        x, px = 1 @ L.roll(2, d), expect(p, 2, [1], order)
    elif what == 'roll1':
        x, px = L.roll(1, d), p
    S.check(len(x) == 1, 'a single die has length 1')
    r = k @ x
    S.same_dist(r, px if k == 1 else [(0, 1)])


def single_seq(S, ks):
    d, p = die(S, 'd', 2, hi=20)
    S.same_dist(S.lib.Seq(*ks) @ d, [(v * ks.count(1), w) for v, w in p])


def nested(S, n, m, k, order):
    """a pool of n dice, each the sum of m rolls"""
    L = S.lib
    setorder(S, order)
    a = S.int('a')
    b = S.int('b')
    S.assume(a < b)
    w = S.weights('w', 2, 1, 20)
    p = [(a, w[0]), (b, w[1])]
    inner = [(v, q) for v, q in sorted_sums(p, m)]
    x = L.roll(n, L.roll(m, L.RV([a, b], w)))
    S.check(len(x) == n, 'pool size')
    S.same_dist(k @ x, expect(inner, n, [k], order))


def sorted_sums(p, m):
    """sums of m rolls of a 2-face die, ascending"""
    return sorted_asc(roll_dist(p, m))


def sorted_asc(pairs):
    # compositions enumerate counts of the first (lower) face ascending: sums descend
    return list(reversed(pairs))


def sidepool(S, n, m, order):
    """n dice of m sides written as numbers; every position, and the length"""
    L = S.lib
    setorder(S, order)
    k = S.int('k', 0, n + 1)
    x = L.roll(n, m)
    S.check(len(x) == n, 'pool size')
    r = k @ x
    S.same_dist(r, expect([(i, 1) for i in range(1, m + 1)], n, [int(k)], order))


def big(S, n, k, order, w=(1, 2)):
    L = S.lib
    setorder(S, order)
    a, b = S.int('a'), S.int('b')
    S.assume(a < b)
    S.same_dist(k @ L.roll(n, L.RV([a, b], w)), expect([(a, w[0]), (b, w[1])], n, [k], order))


def bigseq(S, n, ks, order, w=(1, 1)):
    """several positions of a pool of many dice"""
    L = S.lib
    setorder(S, order)
    a, b = S.int('a', -50, 50), S.int('b', -50, 50)
    S.assume(a < b)
    S.same_dist(L.Seq(*ks) @ L.roll(n, L.RV([a, b], w)), expect([(a, w[0]), (b, w[1])], n, ks, order))


def broad(S, n, k, ks, order):
    L = S.lib
    setorder(S, order)
    d, p = wide(S, 'd', k, sym=2)
    x = L.roll(n, d)
    S.check(len(x) == n, 'pool size')
    acc = {}
    for v, w in expect(p, n, ks, order):
        acc[v] = acc.get(v, 0) + w
    S.same_dist((ks[0] if len(ks) == 1 else list(ks)) @ x, list(acc.items()))


def later(S, k, what):
    """settings changed between rolling and selecting"""
    L = S.lib
    if what == 'order':
        d, p = die(S, 'd', 2, hi=20)
        x = L.roll(3, d)
        S.same_dist(k @ x, expect(p, 3, [k], HI))
        S.same_dist([k, 1] @ x, expect(p, 3, [k, 1], HI))
        L.settings_set('position order', LO)
        S.same_dist(k @ x, expect(p, 3, [k], LO), 'after changing the order')
        S.same_dist([k, 1] @ x, expect(p, 3, [k, 1], LO), 'after changing the order')
        L.settings_set('position order', HI)
        S.same_dist(k @ x, expect(p, 3, [k], HI), 'after changing back')
        L.settings_set('position order', LO)
        L.settings_reset()
        S.same_dist(k @ x, expect(p, 3, [k], HI), 'after a reset')
    elif what == 'ignore':
        w = S.weights('w', 3, 0, 20)
        S.assume(w[0] + w[1] + w[2] > 0)
        x = L.roll(2, L.RV([1, 2, 4], w))
        L.settings_set('RV_IGNORE_ZERO_PROBS', True)
        S.same_dist(k @ x, expect(list(zip([1, 2, 4], w)), 2, [k], HI))
    elif what == 'trunc':
        w = S.weights('w', 3, 1, 20)
        x = L.roll(2, L.RV([0.25, 0.5, 2], w))
        L.settings_set('RV_TRUNC', True)
        S.same_dist(k @ x, [(int(v), q) for v, q in expect(list(zip([0.25, 0.5, 2], w)), 2, [k], HI)])


def reject(S, what):
    L = S.lib
    d, p = die(S, 'd', 2, hi=20)
    x = L.roll(2, d)
    if what == 'die@die':
        f = lambda: d @ x
    elif what == 'die@num':
        f = lambda: d @ S.int('k', 1, 3)
    elif what == 'die@seq':
        f = lambda: d @ L.Seq(1, 2)
    elif what == 'real':
        r = S.real('r', 0, 3)
        S.assume(not r == r.__floor__())
        f = lambda: r @ x
    elif what == 'realseq':
        r = S.real('r', 0, 3)
        S.assume(not r == r.__floor__())
        f = lambda: L.Seq(1, r) @ x
    elif what == 'pool@list':
        f = lambda: x @ [1, 2]
    S.check(S.raises(f) is not None, 'rejected')


def cases(tier):
    c = []
    for order in (HI, LO):
        for n in (1, 2, 3, 4, 5):
            for k in range(-1, n + 3):
                c.append(Case(one, n=n, k=k, order=order))
        for n in (2, 3):
            for k in range(1, n + 1):
                c.append(Case(one, n=n, k=k, order=order, nf=3))
                c.append(Case(one, n=n, k=k, order=order, zero=True))
                c.append(Case(one, n=n, k=k, order=order, zero=True, ignore=True, gcd='one', nl=True))
        for n in (2, 4):
            for k in (1, 2, n):
                c.append(Case(one, n=n, k=k, order=order, faces=(-3, -1, 0, 2, 2.5, 7) if n == 2 else (1, 2, 3, 4)))
        c.append(Case(symk, n=3, order=order))
        for n, ks, form in ((2, (1, 2), 'seq'), (3, (1, 2), 'seq'), (3, (2, 3), 'list'), (3, (1, 1), 'tuple'), (3, (1, 3), 'get_seq'), (3, (3, 1, 3), 'seq'), (4, (1, 2, 3), 'range'),
                            (3, (0, 1), 'list'), (3, (1, 4), 'seq'), (2, (5, 6), 'seq'), (3, (-1, 2), 'seq'), (4, (2, 3), 'range'), (4, (4, 1), 'nested'), (2, (2, 2, 2), 'list'), (3, (1, 2, 3), 'seq')):
            c.append(Case(many, n=n, ks=ks, form=form, order=order, gcd='one', wtie=True))
        for n, ks in ((2, (1, 2)), (3, (1, 3)), (3, (2, 2))):
            c.append(Case(many, n=n, ks=ks, form='seq', order=order, faces=(1, 2, 4), gcd='one', wtie=True))
            c.append(Case(many, n=n, ks=ks, form='seq', order=order, zero=True, gcd='one', wtie=True))
        c.append(Case(symks, n=2, m=2, order=order, gcd='one', wtie=True))
        for what in ('die', 'const', 'sum', 'add', 'neg', 'zero', 'diecount', 'mix', 'cmp', 'selected', 'roll1'):
            for k in (1, 0, 2):
                c.append(Case(single, what=what, k=k, order=order, gcd='one', wtie=True))
        for n, m in ((2, 2), (3, 2), (2, 3)):
            for k in range(1, n + 1):
                c.append(Case(nested, n=n, m=m, k=k, order=order, gcd='one'))
        for n, m in ((1, 6), (2, 6), (3, 6), (4, 4), (5, 3)):
            c.append(Case(sidepool, n=n, m=m, order=order))
        for n, k, kss in ((2, 10, [(1,), (2,), (1, 2)]), (2, 12, [(1,), (2, 1)]), (3, 8, [(1,), (2,), (3,), (1, 2)]), (4, 6, [(1,), (2,), (4,), (1, 2, 3), (2, 3), (1, 1, 4)]),
                          (5, 5, [(3,), (1, 2, 3), (1, 5)]), (6, 4, [(1,), (6,), (1, 2, 3, 4), (2, 4, 6), (1, 2, 3, 4, 5)]), (7, 3, [(4,), (1, 3, 5, 7), (5, 6, 7)]),
                          (8, 2, [(1,), (8,), (1, 2, 3, 4, 5, 6), (2, 2, 9)]), (9, 2, [(5,), (1, 2, 3, 4, 5, 6, 7, 8, 9), (9, 1)])):
            for ks in kss:
                c.append(Case(broad, n=n, k=k, ks=ks, order=order, gcd='one', wtie=True, max_time=20))
        for n, ks in ((2, (1, 1, 1, 1, 2)), (2, (1, 1, 2, 2, 1)), (2, (2,) * 7), (3, (1, 1, 2, 2, 3, 3)), (3, (3, 1, 2, 3, 1, 2, 3, 1)), (3, (1, 1, 1, 1, 1)), (3, (2, 2, 2, 3, 9, 0)), (4, (4, 4, 4, 1, 1, 2)), (2, (1, 2) * 6), (3, (1,) * 17),
                      (4, (1, 2, 3, 4, 5, 6, 7, 8)), (3, tuple(range(-4, 9)))):
            c.append(Case(many, n=n, ks=ks, form=('seq', 'list', 'tuple', 'get_seq', 'nested')[len(ks) % 5], order=order, gcd='one', wtie=True))
            if n == 3:
                c.append(Case(many, n=n, ks=ks, form='list', order=order, faces=(1, 2, 4), gcd='one', wtie=True))
        for n, k in ((2, 17), (2, 33), (2, 70), (2, 101), (3, 12), (3, 17), (4, 9), (1, 129)):
            for ks in ((1,), (n,), (1, 1, n)) + (((2,),) if n > 2 else ()):
                if len(ks) == 1 or k < 20:
                    c.append(Case(broad, n=n, k=k, ks=ks, order=order, gcd='one', wtie=True, max_time=20))
        for n, ks in ((24, (1, 2)), (40, (39, 40)), (60, (1, 2, 3)), (70, (35, 36)), (75, (1, 75)), (90, (2, 2, 89))):
            c.append(Case(bigseq, n=n, ks=ks, order=order))
            if n <= 40:
                c.append(Case(bigseq, n=n, ks=ks, order=order, w=(2, 3)))
        for n, k in ((8, 3), (12, 1), (12, 12), (12, 6), (24, 5)):
            c.append(Case(big, n=n, k=k, order=order))
    c.append(Case(single_seq, ks=(1, 1, 2)))
    c.append(Case(single_seq, ks=(1, 2)))
    c.append(Case(single_seq, ks=(0, 2)))
    for k in (1, 2):
        for what in ('order', 'ignore', 'trunc'):
            c.append(Case(later, k=k, what=what, gcd='one', wtie=True, nl=what == 'ignore'))
    for what in ('die@die', 'die@num', 'die@seq', 'real', 'realseq', 'pool@list'):
        c.append(Case(reject, what=what))
    if tier == 'thorough':
        for order in (HI, LO):
            for n in (4, 5):
                for k in range(1, n + 1):
                    c.append(Case(one, n=n, k=k, order=order, nf=3, max_time=300))
            for n in (6, 7, 8):
                for k in range(0, n + 2):
                    c.append(Case(one, n=n, k=k, order=order, max_time=300))
            for n in (3, 4):
                c.append(Case(symks, n=n, m=2, order=order, gcd='one', wtie=True, max_time=600, max_paths=10 ** 6))
            c.append(Case(symks, n=3, m=3, order=order, gcd='one', wtie=True, max_time=600, max_paths=10 ** 6))
            for n in range(9, 40, 3):
                for k in (1, 2, n // 2, n - 1, n):
                    c.append(Case(big, n=n, k=k, order=order))
    return c
