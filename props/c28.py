"""Refusals: requests that have no meaning are made with symbolic values; each must raise, and leave operands, settings and later results as they were."""
from sx.run import Case
from .common import die, roll_dist

BOUNDS = ('dice of 1-4 faces with one bad weight (any negative number, any fraction k/4, a whole float, a text, None) at any place, also of dice of up to 129 faces; lists of all different lengths 0..4; mixtures of 1-3 components with too few, too many or negative weights; '
          'conditions on dice (1-3 faces, pools, blanks); positions given by dice or containing any fraction k/4; cuts at any number below 0 or from 1; counts with any fractional sum or face; malformed texts; '
          'sequences with an alien element at any place; the same through compiled programs')
BUDGET = {'quick': 500, 'thorough': 600}
G = dict(gcd='one', wtie=True)


def refused(S, f, what, kinds=Exception):
    before = settings(S)
    e = S.raises(f, kinds)
    S.check(e is not None, what + ' is refused')
    S.check(settings(S) == before, what + ': settings unchanged')


def settings(S):
    return dict((k, v) for k, v in dict(S.mod('settings').SETTINGS).items() if not callable(v))


def frac(S, nm, lo=None, hi=None):
    """any k/4 that is not whole"""
    k = S.int(nm, lo, hi)
    r = S.fork(S.int(nm + 'r', 1, 3))
    return k + r / 4 if S.concrete else k + S.frac(S.int(nm + 'z', r, r), 4)


def bad(S, how, nm='bad'):
    if how == 'neg':
        return S.int(nm, None, -1)
    if how == 'frac':
        return frac(S, nm)
    return {'float': 2.0, 'text': '1', 'none': None, 'tuple': (1,)}[how]


def weight(S, n, at, how, form):
    L = S.lib
    v, w = S.ints('v', n), S.weights('w', n, 0, 50)
    w[at] = bad(S, how)
    refused(S, {'list': lambda: L.RV(v, w), 'iter': lambda: L.RV(iter(v), (x for x in w)), 'trunc': lambda: L.RV(v, w, truncate=True)}[form], 'weight')
    w[at] = 3
    S.same_dist(L.RV(v, w), list(zip(v, w)), 'the die without it')


def lengths(S, n, m):
    L = S.lib
    v, w = S.ints('v', n), S.weights('w', m, 0, 50)
    refused(S, lambda: L.RV(v, w), 'faces and weights of different number')
    refused(S, lambda: L.RV(iter(v), iter(w)), 'faces and weights of different number')


def longweight(S, n, at, how):
    """one bad weight among many"""
    L = S.lib
    v, w = list(range(n)), [1 + i % 3 for i in range(n)]
    w[at] = bad(S, how)
    refused(S, lambda: L.RV(v, w), 'weight')
    refused(S, lambda: L.RV(v[::-1], tuple(w)), 'weight')


def longlengths(S, n, m):
    """one weight more, one less, many"""
    L = S.lib
    v, w = [(i * 7) % n for i in range(n)], [1 + i % 3 for i in range(m)]
    if m:
        w[m // 2] = S.int('w', 0, 50)
    refused(S, lambda: L.RV(v, w), 'faces and weights of different number')
    rvs = [i % 3 if i % 2 else L.RV([1, i + 2], [1, 1]) for i in range(n)]
    refused(S, lambda: L.RV.from_rvs(rvs, w), 'mixture')
    if m == n + 1:
        ok = w[:n]
        ok[n // 2] = S.int('neg', None, -1)
        refused(S, lambda: L.RV.from_rvs(rvs, ok), 'mixture')


def widecount(S, n, at, kind):
    """a number of dice that is sometimes not whole, however rarely"""
    L = S.lib
    v, w = list(range(n)), [1 if kind == 'large' else {'small': 5000, 'zeroish': 10 ** 9}[kind]] * n
    v[at] = frac(S, 'f', at, at)
    w[at] = S.int('w', 1, 3) if kind != 'large' else S.int('w', 1, 10 ** 6)
    d = L.RV(v, w)
    refused(S, lambda: L.roll(d, 6), 'a count that is not whole')
    refused(S, lambda: L.roll(d, L.RV([1, 2], [1, 2])), 'a count that is not whole')


def longselector(S, n, at, left):
    """one fractional position among many"""
    L = S.lib
    d, p = die(S, 'd', 2)
    e = [1 + i % 3 for i in range(n)]
    e[at] = frac(S, 'f', -3, 3)
    x = {'seq': lambda: L.Seq(*e), 'list': lambda: list(e), 'nested': lambda: L.get_seq([e[:n // 2], [e[n // 2:]]])}[left]()
    refused(S, lambda: x @ L.roll(2, d), 'a fractional position')


def comps(S, kinds):
    out = []
    for i, k in enumerate(kinds):
        out.append(S.int('c%d' % i) if k == 'c' else die(S, 'd%d' % i, faces=(i, i + 2))[0])
    return out


def mixture(S, kinds, m, neg=None):
    L = S.lib
    w = S.weights('w', m, 1, 50)
    if neg is not None:
        w[neg] = S.int('bad', None, -1)
    x = comps(S, kinds)
    refused(S, lambda: L.RV.from_rvs(x, w), 'mixture')
    refused(S, lambda: L.RV.from_rvs(rvs=iter(x), weights=iter(w)), 'mixture')


def operand(S, kind):
    L = S.lib
    if kind == 'blank':
        return L.BlankRV()
    if kind == 'special':
        return L.roll(L.BlankRV(), 6)
    if kind[0] == 'd':
        return die(S, 'd', int(kind[1]))[0]
    d = die(S, 'd', faces=(0, 1))[0]
    return {'pool': lambda: L.roll(2, d), 'sum': lambda: d + 1, 'cmp': lambda: d > 0, 'const': lambda: L.RV.from_const(S.int('x')), 'roll0': lambda: L.roll(0, d), 'at': lambda: 1 @ L.roll(2, d)}[kind]()


def condition(S, kind):
    x = operand(S, kind)

    def f():
        if x:
            return 1
    refused(S, f, 'a die as condition', TypeError)
    refused(S, lambda: not x, 'a die as condition', TypeError)
    refused(S, lambda: x or 1, 'a die as condition', TypeError)
    refused(S, lambda: x and 1, 'a die as condition', TypeError)
    n = S.int('n')
    for t in ('if A {output 1} else {output 2}', 'if N=0 {output 0} else if A {output 1}', 'function: f A {if A {result: 1}} output [f A]'):
        py = S.compile(t)
        if t.startswith('if N') and S.val_eq(n, 0):
            continue
        refused(S, lambda: S.run(py, {'A': x, 'N': n}), 'compiled: a die as condition', TypeError)


def selector(S, kind, left):
    """positions given by a die, or not whole"""
    L = S.lib
    d, p = die(S, 'd', 2)
    x = {'die': d, 'pool': L.roll(2, d), 'seq': L.Seq(1, 2), 'num': 3, 'list': [3, 4]}[kind]
    if left == 'die':
        e = die(S, 'e', faces=(1, 2))[0]
        refused(S, lambda: e @ x, 'a die as position')
    elif left == 'pool':
        e = L.roll(2, die(S, 'e', faces=(1, 2))[0])
        refused(S, lambda: e @ x, 'a die as position')
    elif left == 'blank':
        if kind in ('die', 'pool', 'num', 'list'):
            refused(S, lambda: L.BlankRV() @ x, 'a blank as position')
    elif left == 'frac':
        if kind in ('die', 'pool'):
            f = frac(S, 'f')
            refused(S, lambda: f @ x, 'a fractional position')
    else:       # a sequence with a fractional position
        f = frac(S, 'f', -3, 3)
        k = S.int('k', -1, 3)
        s = L.Seq(k, f) if left == 'seq' else L.Seq(f, k)
        if kind not in ('num', 'list'):
            refused(S, lambda: s @ x, 'a fractional position')
    if kind == 'pool':
        S.same_dist(x, roll_dist(p, 2), 'the pool afterwards')


def cut(S, side):
    L = S.lib
    d, p = die(S, 'd', 2)
    k = S.int('k', None, -1) if side == 'low' else S.int('k', 16, None)
    c = k / 16
    refused(S, lambda: d.get_vals_probs(c), 'a cut outside [0, 1)')
    refused(S, lambda: d.get_vals_probs(cdf_cut=c), 'a cut outside [0, 1)')
    S.check(len(d.get_vals_probs(0)) == len(d.vals), 'no cut')


def count(S, kind):
    L = S.lib
    d, p = die(S, 'd', 2)
    if kind == 'seq':
        f = frac(S, 'f', -2, 2)
        n = L.Seq(f, S.int('k', -1, 2))
    elif kind == 'list':
        n = [frac(S, 'f', -2, 2)]
    elif kind == 'die':
        w = S.weights('w', 2, 1, 9)
        n = L.RV([1, frac(S, 'f', -2, 2)], w)
    elif kind == 'whole':
        n = L.Seq(1.0, S.int('k', -1, 2))
    elif kind == 'sumhalf':
        n = L.Seq(0.5, 0.5)
    refused(S, lambda: L.roll(n, d), 'a count that is not whole')
    refused(S, lambda: L.roll(n, 6), 'a count that is not whole')
    S.same_dist(L.roll(2, d), roll_dist(p, 2), 'rolling afterwards')


def spans(S, kind):
    """a range needs numbers"""
    L = S.lib
    x = operand(S, kind)
    a = S.int('a', -3, 3)
    for f in (L.myrange, S.langlib()['myrange']):
        refused(S, lambda: f(x, a), 'a range from a die')
        refused(S, lambda: f(a, x), 'a range to a die')
    for t in ('output {A..N}', 'output {N..A}', 'output {N, A..N}', 'output {A..A}'):
        refused(S, lambda: S.run(S.compile(t), {'A': x, 'N': a}), 'compiled: a range of dice')


def alien(S, n, at, what):
    L = S.lib
    e = S.ints('e', n)
    x = {'none': None, 'func': len, 'dict': {1: 2}.values, 'complex': 1j, 'bytes': object()}[what]
    e[at] = x
    refused(S, lambda: L.Seq(*e), 'an alien element')
    refused(S, lambda: L.get_seq(*e), 'an alien element')
    refused(S, lambda: L.get_seq([e]), 'an alien element')
    refused(S, lambda: L.roll(1, e), 'an alien face')


def text(S, t):
    L = S.lib
    refused(S, lambda: L.roll(t), 'roll(%r)' % t)


def texttwo(S):
    m = S.int('m', -3, 6)
    refused(S, lambda: S.lib.roll('2d6', m), 'a text and sides')


def seqdie(S, kind):
    L = S.lib
    x = operand(S, kind)
    a = S.int('a')
    refused(S, lambda: L.Seq.seqs_are_equal(x, [a]), 'a die compared as sequence')
    refused(S, lambda: L.Seq.seqs_are_equal([a], x), 'a die compared as sequence')


def cases(tier):
    big = tier == 'thorough'
    c = []

    def add(f, **kw):
        c.append(Case(f, **{**G, 'max_time': 60 if big else 15, 'max_paths': 5000, 'witness': 3, **kw}))
    for n in (1, 2, 3, 4):
        for at in range(n):
            for how in ('neg', 'frac', 'float', 'text', 'none', 'tuple'):
                for form in ('list', 'iter', 'trunc') if big or n < 3 else ('list',):
                    add(weight, n=n, at=at, how=how, form=form)
    for n in (7, 9, 17, 33, 65, 101):
        for at in (0, n // 2, n - 1):
            for how in ('neg', 'frac', 'float', 'text', 'none', 'tuple'):
                add(longweight, n=n, at=at, how=how)
        for m in (0, 1, n - 1, n + 1, 2 * n):
            add(longlengths, n=n, m=m)
        for k in ('small', 'large', 'zeroish'):
            for at in (0, n // 2, n - 1):
                add(widecount, n=n, at=at, kind=k)
    for n in (2, 3):
        for k in ('small', 'large', 'zeroish'):
            for at in range(n):
                add(widecount, n=n, at=at, kind=k)
    for n in (6, 9, 21, 40):
        for at in (0, n // 2, n - 1):
            for w in ('none', 'func', 'complex', 'bytes', 'dict'):
                add(alien, n=n, at=at, what=w)
            for left in ('seq', 'list', 'nested'):
                add(longselector, n=n, at=at, left=left)
    for n in range(5):
        for m in range(5):
            if n != m:
                add(lengths, n=n, m=m)
    for kinds in ('c', 'd', 'cc', 'cd', 'dc', 'dd', 'ccd', 'ddd'):
        for m in range(5):
            if m != len(kinds):
                add(mixture, kinds=kinds, m=m)
        for i in range(len(kinds)):
            add(mixture, kinds=kinds, m=len(kinds), neg=i)
    kinds = ('d1', 'd2', 'd3', 'pool', 'sum', 'cmp', 'const', 'roll0', 'at', 'blank', 'special')
    for k in kinds:
        add(condition, kind=k)
        add(spans, kind=k)
        add(seqdie, kind=k)
    for k in ('die', 'pool', 'seq', 'num', 'list'):
        for left in ('die', 'pool', 'blank', 'frac', 'seq', 'seqfirst'):
            add(selector, kind=k, left=left)
    for s in ('low', 'high'):
        add(cut, side=s)
    for k in ('seq', 'list', 'die', 'whole', 'sumhalf'):
        add(count, kind=k)
    for n in (1, 2, 3):
        for at in range(n):
            for w in ('none', 'func', 'complex', 'bytes', 'dict'):
                add(alien, n=n, at=at, what=w)
    for t in ('2d', 'dd6', '2d6d8', '2x6', '1.5d6', 'ad6', '2d6x', '', '6', '2 6', 'd', '2d1.5', '-d6', '2d-', '2d6+1'):
        add(text, t=t)
    add(texttwo)
    return c
