"""Mixtures: RV.from_rvs is executed on symbolic components and weights, compared with the weighted mixture computed from the definition."""
from itertools import product
from sx.run import Case
from .common import die, mixture, roll_dist

BOUNDS = ('up to 4 components out of: numbers, dice of 1-3 faces, pools of 2, blanks, missing; faces arbitrary integers or fixed overlapping ones, die weights 0..50 (10^6 where stated), '
          'mixture weights 0..1000; every placement of blanks; up to 40 fixed components with three symbolic weights; components of 1-40 faces next to each other')
LARGE = 3      # paths per case also replayed with inputs beyond float precision
BUDGET = {'quick': 500, 'thorough': 1800}
FACES = [(1, 2), (2, 5), (-1, 2, 7), (0, 1), (5,)]


def comp(S, kind, i, faces, hi=50):
    """-> (component, pairs or None when blank)"""
    L = S.lib
    if kind == 'n':
        x = S.int('n%d' % i)
        return x, [(x, 1)]
    if kind == 'c':
        return 2 + i % 2, [(2 + i % 2, 1)]
    if kind == 'r':
        x = S.real('n%d' % i)
        return x, [(x, 1)]
    if kind == 'd':
        return die(S, 'd%d' % i, 2, faces=FACES[i % 5] if faces else None, hi=hi)
    if kind == 'z':
        return die(S, 'd%d' % i, 2, faces=FACES[i % 5], lo=0, hi=hi)
    if kind == 't':
        return die(S, 'd%d' % i, faces=(1, 2, 3 + i), hi=hi)
    if kind == 'p':
        d, p = die(S, 'd%d' % i, faces=FACES[i % 5], hi=hi)
        return L.roll(2, d), roll_dist(p, 2)
    if kind == '0':
        return None, None
    if kind == 'b':
        return L.BlankRV(), None
    if kind == 'B':
        return L.BlankRV(_special_null=True), None
    raise ValueError(kind)


def mix(S, kinds, weights='sym', faces=True, via='rv', ignore=False, top=50):
    L = S.lib
    if ignore:
        L.settings_set('RV_IGNORE_ZERO_PROBS', True)
    cs = [comp(S, k, i, faces, top) for i, k in enumerate(kinds)]
    rvs = [c[0] for c in cs]
    fn = L.RV.from_rvs if via != 'merge' else S.mod('factory').merge_rvs
    snaps = [S.snapshot(r) for r in rvs if S.is_die(r)]
    if weights is None:
        ws = [1] * len(kinds)
        res = fn(rvs) if via != 'gen' else fn(x for x in rvs)
    else:
        ws = S.weights('w', len(kinds), 0 if weights == 'zero' else 1, 1000 if top < 10 ** 8 else 50)
        res = fn(rvs, ws) if via != 'gen' else fn((x for x in rvs), weights=(w for w in ws))
    live = [(p, w) for (_, p), w in zip(cs, ws) if p is not None]
    if not live:
        S.check(S.is_blank(res), 'all components blank: blank')
        return
    S.check(not S.is_blank(res), 'not blank')
    if weights == 'zero':
        S.assume(sum(w for _, w in live) > 0)
    S.same_dist(res, mixture(live))
    S.check(len(res) == 1, 'a mixture is a single die')
    for s, r in zip(snaps, [r for r in rvs if S.is_die(r)]):
        t = S.snapshot(r)
        S.check(S.And(S.vec_eq(s[0], t[0]), S.vec_eq(s[1], t[1]), s[2:] == t[2:]), 'components unchanged')


def many(S, n, what):
    """many components: a few symbolic weights among fixed ones"""
    L = S.lib
    rvs, ps = [], []
    for i in range(n):
        k = (i * 5 + len(what)) % 4
        if what == 'blank' and i % 3 == 1:
            x, p = (L.BlankRV() if i % 2 else None), None
        elif what == 'num' or k == 0:
            x, p = (i * 7) % 11 - 3, [((i * 7) % 11 - 3, 1)]
        else:
            f = [(i % 5 + j * 2, 1 + (i + j) % 3) for j in range(k + 1)]
            x, p = L.RV([v for v, _ in f], [w for _, w in f]), f
        rvs.append(x)
        ps.append(p)
    ws = [1 + i % 3 for i in range(n)]
    for j in range(3):
        ws[(j * n) // 3 + j % 2] = S.int('w%d' % j, 0, 10 ** 4)
    res = L.RV.from_rvs(rvs, ws)
    live = [(p, w) for p, w in zip(ps, ws) if p is not None]
    S.same_dist(res, mixture(live))


def sizes(S, ks, how, ignore=False):
    """components with many faces: the first weights of each alike, two symbolic; the same faces, other faces, a number, a blank beside them"""
    L = S.lib
    if ignore:
        L.settings_set('RV_IGNORE_ZERO_PROBS', True)
    rvs, ps = [], []
    for i, k in enumerate(ks):
        f = list(range(1, k + 1)) if how != 'apart' else [i + 2 * j for j in range(k)]
        w = [1] * k
        if how == 'mixed':
            w = [1 + (i + j) % 3 for j in range(k)]
        w[-1] = S.int('w%da' % i, 0 if k > 1 else 1, 30)
        if k > 9 and i == 0:
            w[k // 2] = S.int('w%db' % i, 1, 30)
        rvs.append(L.RV(f, w))
        ps.append(list(zip(f, w)))
    if how == 'num':
        rvs.append(4)
        ps.append([(4, 1)])
    if how == 'blank':
        rvs.insert(1, L.BlankRV())
        ps.insert(1, None)
    ws = [1 + i % 2 for i in range(len(rvs))]
    ws[0] = S.int('u', 1, 30)
    live = [(p, w) for p, w in zip(ps, ws) if p is not None]
    S.same_dist(L.RV.from_rvs(rvs, ws), mixture(live))


def same_twice(S, k):
    """the same die several times: the mixture is that die"""
    d, p = die(S, 'd', 2)
    ws = S.weights('w', k, 1, 100)
    S.same_dist(S.lib.RV.from_rvs([d] * k, ws), p)


def nested(S):
    """mixing mixtures multiplies shares"""
    L = S.lib
    d, p = die(S, 'd', faces=(1, 3), hi=30)
    e, q = die(S, 'e', faces=(2, 3), hi=30)
    u, v = S.weights('u', 2, 1, 30), S.weights('v', 2, 1, 30)
    m = L.RV.from_rvs([d, e], u)
    inner = mixture([(p, u[0]), (q, u[1])])
    n = S.int('n')
    S.same_dist(L.RV.from_rvs([m, n], v), mixture([(inner, v[0]), ([(n, 1)], v[1])]))


def empty(S):
    S.check(S.is_blank(S.lib.RV.from_rvs([])), 'nothing to mix: blank')
    S.check(S.is_blank(S.lib.RV.from_rvs([], [])), 'nothing to mix: blank')


def mismatch(S, nr, nw):
    """a weight missing or left over is an error, never dropped silently"""
    ws = S.weights('w', nw, 1, 9)
    rvs = [S.lib.RV([i, 9], [1, 2]) for i in range(nr)]
    S.check(S.raises(lambda: S.lib.RV.from_rvs(rvs, ws)) is not None, 'weights must match the components')


def cases(tier):
    c = [Case(empty)]
    G = dict(gcd='one', wtie=True)
    big = tier == 'thorough'
    for n in (1, 2, 3):
        kinds = 'ndpb0' if n < 3 else 'cdb0'
        for ks in product(kinds, repeat=n):
            ks = ''.join(ks)
            for w in (None, 'sym'):
                c.append(Case(mix, kinds=ks, weights=w, **G))
    for ks in ('dd', 'nd', 'dn', 'tt', 'bd', 'd0d', 'dBd', 'rd', 'dnr', 'td', 'pd', 'pp', 'ddd', 'tbd'):
        c.append(Case(mix, kinds=ks, weights='zero', gcd='one', wtie=True))
        c.append(Case(mix, kinds=ks, weights='sym', via='gen', **G))
        c.append(Case(mix, kinds=ks, weights='sym', via='merge', **G))
    for ks in ('dd', 'nd', 'dbd', 'nnd', 'dn'):
        c.append(Case(mix, kinds=ks, faces=False, max_time=15, **G))
        c.append(Case(mix, kinds=ks, faces=False, max_time=15, weights=None, **G))
    for ks in ('zd', 'zz', 'zbn', 'dz'):
        c.append(Case(mix, kinds=ks, gcd='one', nl=True))
        c.append(Case(mix, kinds=ks, gcd='one', nl=True, ignore=True, weights='zero', max_time=15))
    for ks in ('dndb', 'ddd0', 'B0bn', 'bdbd', 'nbnd', 'ccdd') + (('dddd', 'tttt', 'dpdp') if big else ()):
        c.append(Case(mix, kinds=ks, max_time=60 if big else 15, **G))
    if big:
        for ks in product('ndtb', repeat=4):
            c.append(Case(mix, kinds=''.join(ks), max_time=60, **G))
        for ks in product('nd', repeat=3):
            c.append(Case(mix, kinds=''.join(ks), faces=False, max_time=120, **G))
    for how in ('num', 'apart', 'alike', 'blank', 'mixed'):
        for ks in ((5,), (7,), (9, 2), (3, 8), (7, 7), (6, 10), (11, 1), (12, 5), (16, 4), (17, 2), (33,), (33, 33), (65, 3), (70,), (101, 2), (130,), (8, 8, 8), (4, 4, 4, 4, 4), (2,) * 7):
            if len(ks) > 4 and how not in ('apart', 'alike'):
                continue
            c.append(Case(sizes, ks=ks, how=how, ignore=how == 'mixed', max_time=20, **G))
    for k in (1, 2, 3):
        c.append(Case(same_twice, k=k, **G))
    c.append(Case(nested, **G))
    for ks in ('dd', 'ddd', 'nd', 'tt', 'dbd'):
        c.append(Case(mix, kinds=ks, top=10 ** 6, **G))
    for ks in ('ddd', 'dddn'):
        c.append(Case(mix, kinds=ks, top=10 ** 9, large=12, **G))
    for n in (5, 9) + ((17, 33) if big else ()):
        for what in ('num', 'dice', 'blank'):
            if what == 'num' or n < 12:
                c.append(Case(many, n=n, what=what, **G))
    c.append(Case(many, n=40, what='num', **G))
    c.append(Case(mix, kinds='dn', weights='sym', max_time=15))
    for nr, nw in ((2, 1), (1, 2), (3, 2), (2, 3)):
        c.append(Case(mismatch, nr=nr, nw=nw))
    return c
