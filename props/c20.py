"""Reduction of very large totals: symbolic weights in windows reaching from small totals to far beyond the limit; every reported probability is compared
with the exact one, and every later operation with the reported probabilities."""
from sx.run import Case
from .common import OPS, PYOPS

BOUNDS = ('dice of 2..4 faces with any weights in windows [B, B + 3e31] for B from 0 to 1e320 (total weight 0..1e32 and up to 1e320), reduced by a sum of dice, a position, a mixture, a function call over a die, '
          'a pool of 2; error at most 1e-12 per reduction; together with dice of 5 other totals (4..1e30); then one more operation of every kind')
ASSUMPTIONS = ['one reduction per result']
BUDGET = {'quick': 500, 'thorough': 1800}
L = 10 ** 31
EPS = 10 ** 12


def window(S, n, B, where, span):
    """n weights whose sizes are around B"""
    w = []
    for i in range(n):
        base = B if where == 'all' or where == i else 0
        w.append(S.int('w%d' % i, base, base + span))
    if B == 0:
        S.assume(sum(w[1:], w[0]) > 0)
    return w


def near(S, r, pairs, label):
    """the die r has faces 0.. with probabilities within EPS of those of the pairs"""
    S.check(S.is_die(r), label + ': a die')
    vals, probs = list(r.vals), list(r.probs)
    S.check(len(vals) == len(pairs) and all(S.val_eq(a, b) for a, (b, _) in zip(vals, pairs)), label + ': faces')
    P = K = 0
    for _, p in pairs:
        P = P + p
    for k in probs:
        S.check(S.le(0, k), label + ': no negative probability')
        K = K + k
    S.check(S.lt(0, K), label + ': total weight is positive')
    for (_, p), k in zip(pairs, probs):
        d = p * K - k * P
        S.check(S.le(d * EPS, P * K), label + ': probability of a face')
        S.check(S.le(-d * EPS, P * K), label + ': probability of a face')


def make(S, how, w):
    """an operation that leaves the distribution of the weights as it is"""
    n = len(w)
    R = S.lib.RV
    v = list(range(n))
    d = R(v, w)
    T = S.mod('typings')
    if how == 'plus':
        return d + R([0], [1])
    if how == 'rplus':
        return R([0], [1]) + d
    if how == 'times':
        return d * R([1], [1])
    if how == 'minus':
        return d - R([0], [1])
    if how == 'first':
        return 1 @ d
    if how == 'mix':
        return R.from_rvs(list(range(n)), weights=w)
    if how == 'mixdice':
        return R.from_rvs([R([i], [1]) for i in range(n)], weights=w)
    if how == 'mixone':
        return R.from_rvs([d])
    if how == 'call':
        def f(A):
            return A
        f.__annotations__ = {'A': T.T_N}
        return S.mod('decorators').anydice_type_casting()(f)(d)
    if how == 'callseq':
        def f(A):
            return 1 @ A
        f.__annotations__ = {'A': T.T_S}
        return S.mod('decorators').anydice_type_casting()(f)(d)
    if how == 'roll':
        return S.lib.roll(R([0, 1], [0, 1]), d) if False else S.lib.roll(R([1], [1]), d)


def accurate(S, how, n, B, where, span):
    w = window(S, n, B, where, span)
    near(S, make(S, how, w), list(zip(range(n), w)), how)


def mixed(S, B, span):
    """mixture of a die with its own weights and a number"""
    w = window(S, 2, B, 'all', span)
    r = S.lib.RV.from_rvs([S.lib.RV([0, 1], [1, 2]), 2], weights=w)
    near(S, r, [(0, w[0]), (1, 2 * w[0]), (2, 3 * w[1])], 'mixture')


def pool(S, B, span, what):
    """a pool of two dice, its sum and its positions"""
    w = window(S, 2, B, 'all', span)
    d = S.lib.RV([0, 1], w)
    p = S.lib.roll(2, d)
    a, b = w
    if what == 'sum':
        near(S, p, [(0, a * a), (1, 2 * a * b), (2, b * b)], 'pool')
    elif what == 'top':
        near(S, 1 @ p, [(0, a * a), (1, 2 * a * b + b * b)], 'highest')
    elif what == 'low':
        near(S, 2 @ p, [(0, a * a + 2 * a * b), (1, b * b)], 'lowest')
    else:
        near(S, S.lib.Seq([1, 2]) @ p, [(0, a * a), (1, 2 * a * b), (2, b * b)], 'positions')


PARTNERS = [(1, 3), (10 ** 6, 10 ** 6 + 1), (1, 10 ** 9), (10 ** 15 + 1, 3), (10 ** 30, 7)]


def together(S, how, B, span, part):
    """a heavy die together with one of a different total"""
    w = window(S, 2, B, 'all', span)
    u = PARTNERS[part]
    d, e = S.lib.RV([0, 1], w), S.lib.RV([0, 2], u)
    four = [(0, w[0] * u[0]), (1, w[1] * u[0]), (2, w[0] * u[1]), (3, w[1] * u[1])]
    T = S.mod('typings')
    if how == 'plus':
        r = d + e
    elif how == 'rplus':
        r = e + d
    elif how == 'minus':
        r = e - (1 - d)
        four = [(v - 1, p) for v, p in four]
    elif how == 'mix':
        r = S.lib.RV.from_rvs([d, e, 3], weights=[1, 1, 1])
        a, b = w[0] + w[1], u[0] + u[1]
        four = [(0, w[0] * b + u[0] * a), (1, w[1] * b), (2, u[1] * a), (3, a * b)]
    elif how == 'call':
        def f(A, B):
            return A + B
        f.__annotations__ = {'A': T.T_N, 'B': T.T_N}
        r = S.mod('decorators').anydice_type_casting()(f)(d, e)
    elif how == 'callmix':
        def f(A):
            return e + A
        f.__annotations__ = {'A': T.T_N}
        r = S.mod('decorators').anydice_type_casting()(f)(d)
    elif how == 'rolls':
        r = S.lib.roll(S.lib.RV([0, 1], w), e)
        four = [(0, w[0] * (u[0] + u[1]) + w[1] * u[0]), (2, w[1] * u[1])]
    elif how == 'one':
        r = S.lib.roll(1, d) + S.lib.roll(1, e)
    near(S, r, four, how)


def later(S, how, n, B, where, span, op):
    """every later operation agrees with the reported probabilities"""
    w = window(S, n, B, where, span)
    r = make(S, how, w)
    R = S.lib.RV
    vals, probs = tuple(r.vals), tuple(r.probs)
    K = 0
    for k in probs:
        K = K + k
    pairs = list(zip(vals, probs))
    if op == 'report':
        vp = r.get_vals_probs()
        t = 0
        for (v, p), (x, k) in zip(vp, pairs):
            S.check(S.val_eq(v, x) and S.eq_prod(p, K, k, 1), 'reported probability')
            t = t + p
        S.check(len(vp) == len(pairs), 'all faces reported')
        S.check(S.eq(t, 1), 'reported probabilities sum to one')
    elif op == 'mean':
        m = 0
        for v, k in pairs:
            m = m + v * k
        S.check(S.eq_prod(r.mean(), K, m, 1), 'mean agrees with the reported probabilities')
    elif op == 'first':
        S.same_dist(1 @ r, pairs, 'position')
    elif op == 'outside':
        S.check(S.eq(2 @ r, 0) if n > 0 and len(r) == 1 else True, 'position outside')
    elif op == 'const':
        S.same_dist(r * 2 + 1, [(2 * v + 1, k) for v, k in pairs], 'arithmetic with a number')
    elif op == 'cmp':
        S.same_dist(r > 0, [(1 if v > 0 else 0, k) for v, k in pairs], 'comparison')
    elif op == 'mix':
        S.same_dist(R.from_rvs([r, 7], weights=[1, 0]), pairs + [(7, 0)], 'mixture with an impossible part')
    elif op == 'neg':
        S.same_dist(-r, [(-v, k) for v, k in pairs], 'negation')
    elif op == 'filter':
        S.same_dist(r.filter(0), pairs[1:], 'filter')
    elif op == 'copy':
        p2 = S.lib.roll(1, r)
        S.same_dist(p2, pairs, 'roll once')
    elif op == 'argument':
        T = S.mod('typings')

        def f(A):
            return A + 1
        f.__annotations__ = {'A': T.T_N}
        S.same_dist(S.mod('decorators').anydice_type_casting()(f)(r), [(v + 1, k) for v, k in pairs], 'argument')
    S.check(S.vec_eq(tuple(r.probs), probs), 'unchanged by later operations')
    S.check(S.eq(sum(r.probs[1:], r.probs[0]), K), 'total unchanged')


def inputs_kept(S, how, n, B, where, span):
    """the dice that went in keep their weights"""
    w = window(S, n, B, where, span)
    d = S.lib.RV(list(range(n)), w)
    before = tuple(d.probs)
    e = S.lib.RV([0], [1])
    if how == 'plus':
        d + e
    elif how == 'first':
        1 @ d
    elif how == 'mix':
        S.lib.RV.from_rvs([d, 1])
    elif how == 'roll':
        S.lib.roll(1, d)
    S.check(S.vec_eq(before + (1,), tuple(d.probs) + tuple(e.probs)), 'operands keep their weights')
    t = 0
    for (v, p) in d.get_vals_probs():
        t = t + p
    S.check(S.eq(t, 1), 'and probabilities')


HOW = ('plus', 'rplus', 'times', 'minus', 'first', 'mix', 'mixdice', 'mixone', 'call', 'callseq', 'roll')
LATER = ('report', 'mean', 'first', 'outside', 'const', 'cmp', 'mix', 'neg', 'filter', 'copy', 'argument')


def cases(tier):
    big = tier == 'thorough'
    c = []
    T = dict(max_time=240 if big else 60, max_paths=400, witness=2, nl=True, gcd='one', wtie=True, ms=2000)
    spans = [L // 10 ** 12, 3 * L] if not big else [10, 10 ** 8, 10 ** 15, L // 10 ** 12, L // 2, 3 * L, 8 * L]
    for how in HOW:
        for n in ((2, 3) if not big else (2, 3, 4)):
            for sp in spans:
                c.append(Case(accurate, how=how, n=n, B=0, where='all', span=min(sp, L) if n == 3 and not big else sp, **T))
        for B in ((40 * L, 10 ** 320) if not big else (L, 40 * L, 10 ** 40, 10 ** 62, 10 ** 100, 10 ** 300, 10 ** 310, 10 ** 2000)):
            for where in ('all', 0, 1):
                c.append(Case(accurate, how=how, n=2, B=B, where=where, span=3 * L, **T))
    for sp in spans:
        c.append(Case(mixed, B=0, span=sp, **T))
    for what in ('sum', 'top', 'low', 'both'):
        for B in (3, 10 ** 10, 10 ** 16) + ((10 ** 20, 10 ** 155) if big else ()):
            c.append(Case(pool, B=B, span=max(3, B // 10 ** (2 if B < 10 ** 17 else 10)), what=what, **T))
    for how in ('plus', 'rplus', 'minus', 'mix', 'call', 'callmix', 'rolls', 'one'):
        for part in range(len(PARTNERS)):
            for B in ((0, 10 ** 16, 10 ** 26)[part == 4:] if not big else (0, 1, 10 ** 10, 10 ** 16, 10 ** 22, 10 ** 24, 10 ** 26, 10 ** 29, 10 ** 40)):
                c.append(Case(together, how=how, B=B, span=10 ** 12 if B == 0 else B // 10, part=part, **T))
    for op in LATER:
        for how in ('plus', 'first', 'mix'):
            for n in ((2,) if not big else (2, 3)):
                c.append(Case(later, how=how, n=n, B=0, where='all', span=3 * L, op=op, **T))
                c.append(Case(later, how=how, n=n, B=10 ** 60, where=0, span=3 * L, op=op, **T))
    for how in ('plus', 'first', 'mix', 'roll'):
        for B in (0, 10 ** 60):
            c.append(Case(inputs_kept, how=how, n=2, B=B, where='all', span=3 * L, **T))
    return c
