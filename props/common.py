"""Shared harness pieces (no solver imports: also used by concrete replay)."""
import itertools
import math
import operator


def die(S, nm, n=2, faces=None, lo=1, hi=1000, ordered=True):
    """a die with symbolic weights and symbolic (ascending) or given faces -> (die, pairs)"""
    if faces is None:
        v = S.ints(nm + 'v', n)
        if ordered:
            for a, b in zip(v, v[1:]):
                S.assume(a < b)
    else:
        v = list(faces)
    w = S.weights(nm + 'w', len(v), lo, hi)
    if lo == 0:
        S.assume(sum(w) > 0)
    return S.lib.RV(v, w), list(zip(v, w))


def wide(S, nm, n, start=1, step=1, hi=20, sym=3):
    """a die with n given faces; three of its weights are symbolic -> (die, pairs)"""
    v = [start + step * i for i in range(n)]
    w = [1 + i % 3 for i in range(n)]
    for i, x in zip([0, n // 2, n - 1], S.weights(nm + 'w', min(sym, n), 1, hi)):
        w[i] = x
    return S.lib.RV(v, w), list(zip(v, w))


def total(pairs):
    t = 0
    for _, w in pairs:
        t = t + w
    return t


def merge_by_index(acc):
    return acc


def roll_dist(pairs, n):
    """distribution of the sum of n independent rolls, as (value, weight); unmerged multinomial form"""
    k = len(pairs)
    if n == 0:
        return [(0, 1)]
    out = []
    for counts in compositions(n, k):
        v, w, m = 0, 1, math.factorial(n)
        for (x, p), c in zip(pairs, counts):
            v = v + x * c
            if c:
                w = w * p ** c
            m //= math.factorial(c)
        out.append((v, w * m))
    return out


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in compositions(n - i, k - 1):
            yield (i,) + r


def pool_rolls(pairs, n):
    """(descending tuple of n rolls, weight) for a pool; pairs must be in ascending face order"""
    k = len(pairs)
    out = []
    for counts in compositions(n, k):
        m = math.factorial(n)
        w = 1
        seq = []
        for (x, p), c in reversed(list(zip(pairs, counts))):
            seq.extend([x] * c)
            if c:
                w = w * p ** c
            m //= math.factorial(c)
        out.append((tuple(seq), w * m))
    return out


def mixture(parts):
    """parts: list of (pairs, weight) -> pairs with a common scale"""
    tot = [total(p) for p, _ in parts]
    out = []
    for i, (pairs, w) in enumerate(parts):
        scale = w
        for j, t in enumerate(tot):
            if j != i:
                scale = scale * t
        out.extend((v, p * scale) for v, p in pairs)
    return out


OPS = {
    '+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '/': operator.truediv,
    '%': operator.mod, '**': operator.pow,
    '==': lambda a, b: 1 if a == b else 0, '!=': lambda a, b: 1 if a != b else 0,
    '<': lambda a, b: 1 if a < b else 0, '<=': lambda a, b: 1 if a <= b else 0,
    '>': lambda a, b: 1 if a > b else 0, '>=': lambda a, b: 1 if a >= b else 0,
    '&': lambda a, b: 1 if (a != 0 and b != 0) else 0, '|': lambda a, b: 1 if (a != 0 or b != 0) else 0,
}
PYOPS = {
    '+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '/': operator.truediv,
    '%': operator.mod, '**': operator.pow, '==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le,
    '>': operator.gt, '>=': operator.ge, '&': operator.and_, '|': operator.or_,
}
