"""A die keeps exactly the probabilities it was built from: construction is executed on symbolic faces
(any integers / quarter-integers, in any order) and symbolic weights; the result is compared with the grouped input."""
from sx.run import Case
from .common import die

BOUNDS = ('1-4 symbolic faces (unbounded integers, multiples of 1/4, multiples of 2^-36 up to 50, booleans, in every order and repetition) with symbolic weights 0..10^6; '
          'lowest terms: up to 3 faces, weights 0..8 (exact gcd); wide dice: up to 257 concrete faces with symbolic weights, weights sharing a symbolic factor except one')
LARGE = 3      # paths per case also replayed with inputs beyond float precision
BUDGET = {'quick': 500, 'thorough': 1500}


def _faces(S, kinds):
    """kinds: string of i (integer), r (multiple of 1/4), b (boolean)"""
    out = []
    for i, k in enumerate(kinds):
        if k == 'i':
            out.append(S.int('v%d' % i))
        elif k == 'r':
            out.append(S.real('v%d' % i))
        elif k == 'f':
            out.append(S.real('v%d' % i, -50, 50, den=2 ** 36))
        else:
            out.append(S.choose('v%d' % i, [False, True]))
    return out


def _count_faces(S, rv, pairs, drop_zero):
    """the die lists exactly the distinct faces (all of them, or those of positive weight)"""
    g = S.group(pairs)
    n = 0
    for v, w in g:
        if not drop_zero or not w == 0:
            n += 1
    S.check(len(rv.vals) == max(n, 1), 'one entry per distinct face')
    for v in rv.vals:
        S.check(not isinstance(v, bool), 'booleans become numbers')
    for p in rv.probs:
        S.check(isinstance(p, int), 'weights are integers')


def build(S, kinds, zero=False, how='list', ignore=False):
    if ignore:
        S.lib.settings_set('RV_IGNORE_ZERO_PROBS', True)
    v = _faces(S, kinds)
    w = S.weights('w', len(v), 0 if zero else 1, 10 ** 6)
    if zero:
        S.assume(sum(w) > 0)
    pairs = list(zip(v, w))
    if how == 'list':
        rv = S.lib.RV(v, w)
    elif how == 'gen':
        rv = S.lib.RV((x for x in v), iter(w))
    else:
        rv = S.lib.RV(tuple(v), tuple(w))
    S.same_dist(rv, pairs)
    _count_faces(S, rv, pairs, ignore)


def all_zero(S, n, ignore):
    """no weight at all: with the ignore-zero setting nothing remains and the die is the constant 0"""
    S.lib.settings_set('RV_IGNORE_ZERO_PROBS', ignore)
    v = S.ints('v', n)
    if ignore:
        rv = S.lib.RV(v, [0] * n)
        S.same_dist(rv, [(0, 1)])
        S.check(len(rv.vals) == 1, 'constant 0')
    rv = S.lib.RV([], [])
    S.same_dist(rv, [(0, 1)], 'empty die')
    rv = S.lib.RV.from_seq([])
    S.same_dist(rv, [(0, 1)], 'empty sequence')


def trunc(S, kinds, via, zero=False, ignore=False):
    """truncation toward zero before grouping"""
    v = _faces(S, kinds)
    w = S.weights('w', len(v), 0 if zero else 1, 10 ** 6)
    if zero:
        S.assume(sum(w) > 0)
    if ignore:
        S.lib.settings_set('RV_IGNORE_ZERO_PROBS', True)
    if via == 'setting':
        S.lib.settings_set('RV_TRUNC', True)
        rv, cut = S.lib.RV(v, w), True
    elif via == 'argument':
        rv, cut = S.lib.RV(v, w, truncate=True), True
    elif via == 'override':     # argument False wins over the setting
        S.lib.settings_set('RV_TRUNC', True)
        rv, cut = S.lib.RV(v, w, truncate=False), False
    else:
        rv, cut = S.lib.RV(v, w), False
    import math
    t = [math.trunc(x) for x in v] if cut else v
    S.same_dist(rv, list(zip(t, w)))
    _count_faces(S, rv, list(zip(t, w)), ignore)
    if cut:
        for x in rv.vals:
            S.check(isinstance(x, int), 'truncated faces are integers')


def lowest(S, n, hi, dup=False, ignore=False):
    """weights in lowest terms (gcd encoded exactly)"""
    if ignore:
        S.lib.settings_set('RV_IGNORE_ZERO_PROBS', True)
    v = [1, 1, 2, 2][:n] if dup else list(range(n, 0, -1))
    w = S.weights('w', n, 0, hi)
    S.assume(sum(w) > 0)
    rv = S.lib.RV(v, w)
    pairs = list(zip(v, w))
    S.same_dist(rv, pairs)
    for d in range(2, n * hi + 1):
        S.check(S.Or(*[S.Not(S.eq(p % d, 0)) for p in rv.probs]), 'lowest terms')


def sources(S, form):
    """from numbers, nested sequences, ranges and dice: every element listed has the same weight"""
    L = S.lib
    a, b, c = S.int('a'), S.int('b'), S.int('c')
    x, y = S.int('x'), S.int('y')
    S.assume(x < y)
    D = L.RV([x, y], [S.int('p', 1, 9), S.int('q', 1, 9)])
    if form == 'const':
        rv, el = L.RV.from_const(a), [a]
    elif form == 'constreal':
        r = S.real('r')
        rv, el = L.RV.from_const(r), [r]
    elif form == 'constbool':
        t = S.choose('t', [False, True])
        rv, el = L.RV.from_const(t), [int(t)]
    elif form == 'flat':
        rv, el = L.RV.from_seq([a, b, c]), [a, b, c]
    elif form == 'nested':
        rv, el = L.RV.from_seq([a, [b, (c, [a])], [[]]]), [a, b, c, a]
    elif form == 'range':
        n = S.int('n', -2, 6)
        rv, el = L.RV.from_seq([range(1, n + 1), a]), list(range(1, n + 1)) + [a]
    elif form == 'seq':
        rv, el = L.RV.from_seq(L.Seq(a, L.Seq(b, c), b)), [a, b, c, b]
    elif form == 'dice':
        rv, el = L.RV.from_seq([a, D, [b, D]]), [a, b, x, y, x, y]
    elif form == 'getseq':
        rv, el = L.RV.from_seq(L.get_seq(a, [D, b])), [a, b, x, y]
    elif form == 'gen':
        rv, el = L.RV.from_seq(z for z in (a, b)), [a, b]
    elif form == 'mixed':
        r = S.real('r')
        t = S.choose('t', [False, True])
        rv, el = L.RV.from_seq([a, r, t]), [a, r, int(t)]
    S.same_dist(rv, [(e, 1) for e in el])
    S.check(len(rv.vals) == len(S.group([(e, 1) for e in el])), 'one entry per distinct face')


def reject(S, n, what):
    """bad weights never make a die"""
    v = S.ints('v', n)
    pos = S.choose('pos', list(range(n)))
    if what == 'negative':
        w = [S.int('w%d' % i, -5, 10 ** 6) for i in range(n)]
        S.assume(w[pos] < 0)
    elif what == 'real':
        w = list(S.weights('w', n))
        w[pos] = S.real('bad', 0, 8)
    elif what == 'text':
        w = list(S.weights('w', n))
        w[pos] = '1'
    elif what == 'none':
        w = list(S.weights('w', n))
        w[pos] = None
    elif what == 'short':
        w = S.weights('w', n - 1)
    else:
        w = S.weights('w', n + 1)
    S.check(S.raises(lambda: S.lib.RV(v, w)) is not None, 'rejected')


def wide(S, n, pattern, ignore=False):
    if ignore:
        S.lib.settings_set('RV_IGNORE_ZERO_PROBS', True)
    if pattern == 'desc':
        v = list(range(n, 0, -1))
    elif pattern == 'mod':
        v = [(i * 7) % (n // 2 + 1) - n // 4 for i in range(n)]
    elif pattern == 'half':
        v = [((i * 5) % n) / 2 - n / 8 for i in range(n)]
    else:
        v = list(range(n))
    k = 6 if pattern in ('desc', 'asc') else 3
    # a few symbolic weights spread over the die, the rest fixed
    w = [1 + (i * 3) % 4 for i in range(n)]
    for j in range(k):
        w[(j * n) // k] = S.int('w%d' % j, 0, 10 ** 6)
    rv = S.lib.RV(v, w)
    S.same_dist(rv, list(zip(v, w)))
    _count_faces(S, rv, list(zip(v, w)), ignore)


def divisor(S, n, at, g, zero=False):
    """every weight but one is a multiple of g: only that one keeps the die from being reduced by g"""
    v = [3 * i - n for i in range(n)]
    w = [g * (1 + i % 3) for i in range(n)]
    k = {'first': 0, 'middle': n // 2, 'late': n - 2 if n > 1 else 0, 'last': n - 1}[at]
    w[k] = S.int('w', 0 if zero else 1, 2 * g + 1)
    rv = S.lib.RV(v, w)
    S.same_dist(rv, list(zip(v, w)))
    _count_faces(S, rv, list(zip(v, w)), False)
    for d in range(2, g + 1):
        if g % d == 0:
            S.check(S.Or(*[S.Not(S.eq(p % d, 0)) for p in rv.probs]), 'lowest terms')


SIZES = (5, 7, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 70, 100, 101, 129, 257)


def cases(tier):
    c = []
    for k in ('i', 'ii', 'iii', 'r', 'rr', 'ir', 'b', 'bi', 'bri', 'bbi', 'rir', 'ff', 'fi', 'fff'):
        for z in (False, True):
            c.append(Case(build, kinds=k, zero=z))
    for k in ('ii', 'iii', 'ri', 'bbi'):
        c.append(Case(build, kinds=k, zero=True, ignore=True))
        c.append(Case(build, kinds=k, how='gen'))
    c.append(Case(build, kinds='iiii', weight=3, max_time=60))
    c.append(Case(build, kinds='iii', how='tuple', zero=True))
    for n in (1, 2):
        for ig in (True, False):
            c.append(Case(all_zero, n=n, ignore=ig))
    for k in ('r', 'rr', 'ri', 'rb', 'rrr'):
        for via in ('setting', 'argument', 'override', 'off'):
            c.append(Case(trunc, kinds=k, via=via, weight=2 if k == 'rrr' else 1))
    c.append(Case(trunc, kinds='rr', via='setting', zero=True, ignore=True))
    c.append(Case(trunc, kinds='rr', via='argument', zero=True, ignore=True))
    for n, hi in ((1, 8), (2, 8), (3, 4)):
        for dup in (False, True):
            for ig in (False, True):
                c.append(Case(lowest, n=n, hi=hi, dup=dup, ignore=ig, gcd='exact', weight=2))
    for f in ('const', 'constreal', 'constbool', 'flat', 'nested', 'range', 'seq', 'dice', 'getseq', 'gen', 'mixed'):
        c.append(Case(sources, form=f))
    for n in (1, 2, 3):
        for what in ('negative', 'real', 'text', 'none', 'short', 'long'):
            c.append(Case(reject, n=n, what=what))
    for n in (20, 64, 130):
        for p in ('desc', 'mod', 'half', 'asc'):
            c.append(Case(wide, n=n, pattern=p, ignore=(n == 64)))
    for i, n in enumerate(SIZES):
        for p in ('desc', 'mod', 'half', 'asc'):
            if n <= 130 or p == 'desc':
                c.append(Case(wide, n=n, pattern=p, ignore=bool(i % 2)))
        for at in ('first', 'middle', 'late', 'last'):
            c.append(Case(divisor, n=n, at=at, g=(6, 2, 4, 10)[i % 4], zero=bool(i % 2), gcd='exact'))
    if tier == 'thorough':
        for k in ('iiii', 'iiri', 'rrrr', 'iiiii'):
            c.append(Case(build, kinds=k, zero=True, max_time=600, max_paths=10 ** 6, weight=5))
        c.append(Case(build, kinds='iiii', zero=True, ignore=True, max_time=600, max_paths=10 ** 6, weight=5))
        c.append(Case(lowest, n=3, hi=8, gcd='exact', max_time=600, max_paths=10 ** 6, weight=5))
        c.append(Case(lowest, n=4, hi=4, dup=True, gcd='exact', max_time=600, max_paths=10 ** 6, weight=5))
        c.append(Case(wide, n=400, pattern='mod', max_time=300))
    return c
