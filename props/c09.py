"""Exploding dice: the real explode is executed on symbolic dice; compared with the definition unrolled to the depth."""
from sx.run import Case
from .common import die, roll_dist, total, wide

BOUNDS = 'dice with 1-4 arbitrary faces (any sign), weights 0..20, dice of 6-60 given faces (three symbolic weights), pools of 2, 3 and 5, numbers, sequences; depth 0-12 (0-20 for two or fewer faces) by argument and by setting'
LARGE = 3      # paths per case also replayed with inputs beyond float precision
BUDGET = {'quick': 500, 'thorough': 1800}
G = dict(gcd='one', wtie=True)


def exploded(pairs, depth):
    """pairs ascending; distribution of the exploded die"""
    T = total(pairs)
    M, wm = pairs[-1]
    low = pairs[:-1]
    out = []
    for j in range(depth + 1):
        # j extra rolls: j maxima then a non-maximum; at the depth limit also a maximum
        for v, w in low:
            out.append((M * j + v, wm ** j * w * T ** (depth - j)))
    out.append((M * (depth + 1), wm ** (depth + 1)))
    return out


def arg(S, kind, hi=20):
    L = S.lib
    if kind[0] == 'd':
        return die(S, 'd', int(kind[1]), hi=hi)
    if kind[0] == 'z':
        return die(S, 'd', int(kind[1]), lo=0, hi=hi)
    if kind[0] == 'f':
        return die(S, 'd', faces=[(4,), (-2, 3), (-3, -2, 0), (1, 2, 3, 4)][int(kind[1]) - 1], hi=hi)
    if kind == 'p':
        d, p = die(S, 'd', faces=(1, 3), hi=hi)
        q = roll_dist(p, 2)
        return L.roll(2, d), sorted(q, key=lambda x: x[0])
    if kind[0] == 'w':
        n = int(kind[1:])
        return wide(S, 'd', n, start=1 if n % 2 else -n // 2)
    if kind[0] == 'P':
        d, p = wide(S, 'd', 4, sym=2)
        q = {}
        for v, w in roll_dist(p, int(kind[1:])):
            q[v] = q.get(v, 0) + w
        return L.roll(int(kind[1:]), d), sorted(q.items())
    if kind == 'n':
        x = S.int('x')
        return x, [(x, 1)]
    if kind == 'int':
        m = S.int('m', -3, 4)
        return L.roll(m), [(v, 1) for v in (range(1, m + 1) if m > 0 else range(m, 0) if m < 0 else (0,))]
    if kind == 'seq':
        x = S.int('x')
        y = S.int('y')
        S.assume(x < y)
        return L.Seq(y, x, x), [(x, 2), (y, 1)]
    if kind == 'neg':
        d, p = die(S, 'd', 2, hi=hi)
        return -d, [(-v, w) for v, w in reversed(p)]
    if kind == 'cut':
        d, p = die(S, 'd', faces=(1, 2, 5), hi=hi)
        return d.filter([5]), p[:2]
    raise ValueError(kind)


def explode(S, kind, depth, how, via='pkg'):
    L = S.lib
    d, p = arg(S, kind)
    f = L.explode_X if via == 'pkg' else S.langlib()['explode_X']
    snap = S.snapshot(d) if S.is_die(d) else None
    if how == 'arg':
        res = f(d, depth=depth)
    elif how == 'set':
        L.settings_set('explode depth', depth)
        res = f(d)
    elif how == 'default':
        res = f(d)
    elif how == 'both':
        L.settings_set('explode depth', 3)
        res = f(d, depth=depth)
    elif how == 'twice':
        L.settings_set('explode depth', 1)
        f(d)
        L.settings_set('explode depth', depth)
        res = f(d)
    elif how == 'reset':
        L.settings_set('explode depth', 4)
        f(d, depth=1)
        L.settings_reset()
        res = f(d)
    elif how == 'depthlimit':       # not affected by the function depth limit
        L.settings_set('maximum function depth', 1)
        res = f(d, depth=depth)
    S.same_dist(res, exploded(p, depth))
    if depth == 0 and kind[0] == 'd':
        S.check(S.vec_eq(res.vals, d.vals), 'depth 0: the same faces')
    if snap:
        t = S.snapshot(d)
        S.check(S.And(S.vec_eq(t[0], snap[0]), S.vec_eq(t[1], snap[1]), t[2:] == snap[2:]), 'the die is unchanged')


def symdepth(S, kind):
    """any depth in range, by argument and by setting"""
    L = S.lib
    d, p = arg(S, kind)
    k = S.int('k', 0, 4)
    r = L.explode_X(d, depth=k)
    S.same_dist(r, exploded(p, int(k)))
    if k > 0:
        L.settings_set('explode depth', k)
        S.same_dist(L.explode_X(d), exploded(p, int(k)))


def cases(tier):
    big = tier == 'thorough'
    c = []

    def add(f, **kw):
        c.append(Case(f, **{**G, 'max_time': 60 if big else 15, **kw}))
    kinds = ['d1', 'd2', 'd3', 'f1', 'f2', 'f3', 'f4', 'p', 'n', 'int', 'seq', 'neg', 'cut']
    for kind in kinds:
        for depth in range(0, 7 if big else 4):
            add(explode, kind=kind, depth=depth, how='arg')
        add(explode, kind=kind, depth=2, how='default')
        for how in ('set', 'both', 'twice'):
            add(explode, kind=kind, depth=1, how=how)
            if kind != 'd3' or big:
                add(explode, kind=kind, depth=3, how=how)
        add(explode, kind=kind, depth=2, how='reset')
        add(explode, kind=kind, depth=3 if kind != 'd3' else 1, how='depthlimit')
    for kind in ('z2', 'z3'):
        for depth in (0, 1, 2, 3) if kind == 'z2' or big else (0, 1):
            add(explode, kind=kind, depth=depth, how='arg', nl=True)
    for depth in (4, 5, 6):
        for kind in ('d2', 'f2', 'f3', 'f4', 'n') + (('d3',) if big else ()):
            add(explode, kind=kind, depth=depth, how='arg')
            add(explode, kind=kind, depth=depth, how='set')
    for kind, depths in (('w6', (0, 1, 2, 3, 4)), ('w9', (1, 2, 3)), ('w12', (1, 2)), ('w20', (1, 2)), ('w33', (1,)), ('w60', (1,)), ('P3', (1, 2)), ('P5', (1,))):
        for depth in depths:
            add(explode, kind=kind, depth=depth, how='arg')
            if depth:
                add(explode, kind=kind, depth=depth, how='set')
        add(explode, kind=kind, depth=2, how='default')
    for depth in (7, 8, 9, 10, 11, 12, 15, 16, 17, 20):
        for i, kind in enumerate(('f1', 'f2', 'f3', 'd2', 'n', 'int')):
            if depth < 13 or kind in ('f2', 'n', 'f1') or big:
                add(explode, kind=kind, depth=depth, how=('arg', 'set', 'both', 'twice')[(depth + i) % 4])
    for kind, depth in (('w70', 1), ('w101', 1), ('w129', 1), ('w7', 4), ('w16', 2), ('w17', 2)):
        for how in ('arg', 'set'):
            add(explode, kind=kind, depth=depth, how=how)
    for kind in ('f2', 'f3', 'd2', 'int'):
        add(symdepth, kind=kind)
        add(explode, kind=kind, depth=2, how='default', via='lang')
    return c
