"""Summaries: moments, tables, cuts, cumulative form and filters of symbolic dice against their definitions (exact real arithmetic)."""
from sx.run import Case
from .common import die, roll_dist, total

BOUNDS = ('dice of 1-4 arbitrary (integer or real) faces or 3-5 fixed faces, 9 or 40 fixed faces with three symbolic weights, up to 257 fixed faces with one, weights 0..1000, pools of 2-12; cut thresholds: any multiple of 1/64 or 1/1000 in [0, 1); '
          'filter lists of up to 3 arbitrary numbers, nested or dice. Floating point is taken as exact real arithmetic.')
BUDGET = {'quick': 500, 'thorough': 1800}
G = dict(gcd='one', wtie=True)


def make(S, kind, lo=1, hi=1000):
    L = S.lib
    if kind[0] == 'd':
        return die(S, 'd', int(kind[1]), lo=lo, hi=hi)
    if kind[0] == 'f':
        return die(S, 'd', faces={1: (7,), 2: (-1, 4), 3: (-3, 0, 3), 4: (1, 2, 3, 10), 5: (-2, -1, 0, 1, 5)}[int(kind[1])], lo=lo, hi=hi)
    if kind[0] == 'r':
        n = int(kind[1])
        v = [S.real('v%d' % i) for i in range(n)]
        for a, b in zip(v, v[1:]):
            S.assume(a < b)
        w = S.weights('w', n, lo, hi)
        return L.RV(v, w), list(zip(v, w))
    if kind[0] == 'p':
        n = int(kind[1])
        d, p = die(S, 'd', faces=(-1, 2), lo=lo, hi=30)
        return L.roll(n, d), roll_dist(p, n)
    if kind[0] == 'w':      # wide: many fixed faces, three symbolic weights
        n = int(kind[1:])
        v = [3 * i - n for i in range(n)]
        w = [1 + (i * 5) % 7 for i in range(n)]
        for j, at in enumerate((0, n // 2, n - 1)):
            w[at] = S.int('w%d' % j, lo, hi)
        return L.RV(v, w), list(zip(v, w))
    if kind[0] == 'y':      # one symbolic weight
        n = int(kind[1:])
        v = [3 * i - n for i in range(n)]
        w = [1 + (i * 5) % 7 for i in range(n)]
        w[n - 2] = S.int('w', lo, hi)
        return L.RV(v, w), list(zip(v, w))
    if kind[0] == 'u':      # uniform die of a symbolic size
        n = S.int('n', -4, 6)
        return L.roll(n), [(v, 1) for v in (range(1, n + 1) if n > 0 else range(n, 0) if n < 0 else (0,))]
    raise ValueError(kind)


def moments(S, kind, lo=1, dev=True):
    d, p = make(S, kind, lo)
    T = total(p)
    if lo == 0 and T == 0:
        S.check(d.mean() is None and d.std() is None, 'no weight: no moments')
        return
    E1 = sum(v * w for v, w in p)
    E2 = sum(v * v * w for v, w in p)
    for again in range(2):
        m = d.mean()
        S.check(S.eq_prod(m, T, E1, 1), 'mean')
    if not dev:
        return
    s = d.std()
    S.check(S.le(0, s), 'deviation not negative')
    # (scaled so that floating point cancellation stays relative to E[X^2])
    S.check(S.eq(s * s * T * T + E2 * T, 2 * E2 * T - E1 * E1), 'deviation')


def zero_total(S, n):
    d = S.lib.RV(list(range(n)), [0] * n)
    S.check(d.mean() is None and d.std() is None, 'no weight: no moments')


def table(S, kind, lo=1, arg=None):
    d, p = make(S, kind, lo)
    g = S.group(p)
    T = total(g)
    t = d.get_vals_probs() if arg is None else d.get_vals_probs(arg)
    S.check(len(t) == len(g), 'one row per face')
    for a, b in zip(t, t[1:]):
        S.check(bool(a[0] < b[0]), 'ascending')
    for v, w in g:
        hit = [q for x, q in t if S.val_eq(x, v)]
        S.check(len(hit) == 1, 'every face once')
        S.check(S.eq_prod(hit[0], T, w, 1), 'probability')


def cut(S, kind, den=1000, dyadic=False, lo=1):
    """the cut removes a maximal set of least likely faces with total probability below the cut"""
    d, p = make(S, kind, lo, hi=64 if dyadic else 1000)
    T = total(p)
    if dyadic:
        S.assume(T == 64)
    k = S.int('k', 0, den - 1)
    t = d.get_vals_probs(k / den)
    # rows: faces still in order, with unchanged probabilities
    i = 0
    kept, removed = [], []
    for v, w in p:
        if i < len(t) and S.val_eq(t[i][0], v):
            S.check(S.eq_prod(t[i][1], T, w, 1), 'probability of a kept face')
            kept.append(w)
            i += 1
        else:
            removed.append(w)
    S.check(i == len(t), 'only faces of the die, in order')
    tot = sum(removed)
    exact = dyadic or not S.concrete
    if removed:
        S.check(S.lt(tot * den, k * T) if exact else S.le(tot * den / T, k), 'removed probability stays below the cut')
        for r in removed:
            for q in kept:
                S.check(S.le(r, q), 'the least likely faces are removed')
    for q in kept:
        S.check(S.Or(k == 0, S.le(k * T, (tot + q) * den) if exact else S.le(k, (tot + q) * den / T)), 'as many as the cut allows are removed')


def cut_bad(S, what):
    d, _ = make(S, 'f2')
    k = S.int('k', 0, 50)
    c = {'neg': -1 - k, 'one': 1 + k}[what]
    S.check(S.raises(lambda: d.get_vals_probs(c)) is not None, 'a cut outside [0, 1) is rejected')


def cdf(S, kind, lo=1):
    d, p = make(S, kind, lo)
    g = sorted(S.group(p), key=lambda x: x[0]) if kind[0] in 'pf' else p
    c = d.get_cdf()
    T = total(p)
    S.check(len(c.vals) == len(d.vals), 'one entry per face')
    S.check(S.vec_eq(c.vals, d.vals), 'same faces')
    acc = 0
    top = c.probs[-1]
    for i, (v, w) in enumerate(g):
        acc = acc + w
        S.check(S.eq_prod(c.probs[i], T, acc, top), 'probability of a result not above the face')


def filt(S, kind, form, lo=1):
    L = S.lib
    d, p = make(S, kind, lo)
    a, b = S.int('a'), S.int('b')
    e, q = die(S, 'e', faces=(-1, 3), hi=5)
    arg, out = {
        'n': (a, [a]), 'real': (a / 2, [a / 2]), 'list': ([a, b], [a, b]), 'seq': (L.Seq(a, b), [a, b]), 'nested': ([[a], (b,)], [a, b]), 'empty': ([], []),
        'dup': ([a, a], [a]), 'range': (range(0, 3), [0, 1, 2]), 'die': (e, [-1, 3]), 'three': ([a, b, 3], [a, b, 3]), 'all': (list(d.vals), list(d.vals)),
        'bool': (True, [1]),
    }[form]
    snap = S.snapshot(d)
    res = d.filter(arg)
    left = []
    for v, w in p:
        if not any(S.val_eq(v, x) for x in out):
            left.append((v, w))
    if left:
        S.same_dist(res, left)
        S.check(S.is_die(res) and len(res.vals) == len(S.group(left)), 'exactly the other faces remain')
    else:
        S.same_dist(res, [(0, 1)])
    t = S.snapshot(d)
    S.check(S.And(S.vec_eq(t[0], snap[0]), S.vec_eq(t[1], snap[1])), 'the die is unchanged')


def cases(tier):
    big = tier == 'thorough'
    c = []

    def add(f, **kw):
        c.append(Case(f, **{**G, 'max_time': 60 if big else 12, **kw}))
    for kind in ('d1', 'd2', 'd3', 'f1', 'f2', 'f3', 'f4', 'f5', 'r1', 'r2', 'r3', 'p2', 'p3', 'u', 'w9', 'w40'):
        add(moments, kind=kind, dev=big or kind not in ('d3', 'r3', 'w40'))
        add(table, kind=kind)
        add(table, kind=kind, arg=0)
        add(cdf, kind=kind)
    for kind in ('d2', 'f2', 'f3', 'f4', 'r2'):
        add(moments, kind=kind, lo=0)
    for kind in ('d2', 'd3', 'f2', 'f3', 'f4', 'p2'):
        add(cdf, kind=kind, lo=0)
        add(table, kind=kind, lo=0, nl=kind == 'p2')
    for n in (1, 2, 3):
        add(zero_total, n=n)
    for kind in ('d1', 'd2', 'f2', 'f3', 'r2') + (('d3', 'f4', 'r3') if big else ('d3',)):
        add(cut, nl=True, wtie=False, kind=kind, max_time=60 if big else 20)
        add(cut, nl=True, wtie=False, kind=kind, den=64, dyadic=True, max_time=60 if big else 20)
    for kind in ('f2', 'f3') + (('f4',) if big else ()):
        add(cut, nl=True, wtie=False, kind=kind, lo=0, max_time=60 if big else 20)
        add(cut, nl=True, wtie=False, kind=kind, lo=0, den=64, dyadic=True, max_time=60 if big else 20)
    add(cut, nl=True, wtie=False, kind='f4', den=64, dyadic=True, max_time=200 if big else 25)
    add(cut, nl=True, wtie=False, kind='u', den=64)
    for n in (5, 6, 7, 8, 10, 11, 16, 17, 20, 32, 33, 51, 60, 64, 65, 70, 100, 101, 129, 257):
        add(moments, kind='y%d' % n)
        add(table, kind='w%d' % n)
        add(cdf, kind='w%d' % n)
        if n <= 101:
            add(filt, kind='w%d' % n, form=('n', 'all', 'range', 'list', 'die')[n % 5 if n < 30 else n % 3])
    for n in (10, 30, 64, 101):
        add(cut, nl=True, wtie=False, kind='y%d' % n, max_time=60 if big else 15)
    for n in (4, 5, 8, 12):
        add(moments, kind='p%d' % n)
        add(cdf, kind='p%d' % n)
        add(table, kind='p%d' % n)
    for w in ('neg', 'one'):
        add(cut_bad, what=w)
    for kind in ('d1', 'd2', 'd3', 'f3', 'r2', 'p2'):
        for form in ('n', 'real', 'list', 'seq', 'nested', 'empty', 'dup', 'range', 'die', 'three', 'all', 'bool'):
            if form in ('three', 'list') or kind not in ('d3', 'p2') or form in ('n', 'range', 'all'):
                add(filt, kind=kind, form=form)
    for kind in ('f4', 'f5', 'w9', 'w40'):
        for form in ('n', 'list', 'all', 'range', 'die') if kind != 'w40' else ('n', 'all', 'range', 'bool'):
            add(filt, kind=kind, form=form)
    add(cut, nl=True, wtie=False, kind='w9', den=64, dyadic=True, max_time=20)
    for form in ('n', 'list', 'empty'):
        add(filt, kind='f3', form=form, lo=0)
    return c
