"""Operators on dice: every operator is executed on dice with symbolic faces and weights, numbers and sequences on either side;
the result is compared with the distribution of the operator over independent rolls."""
import math

from sx.run import Case
from .common import OPS, PYOPS, die

BOUNDS = ('two dice with up to 2x3 symbolic faces (unbounded integers for + - comparisons and/or; -4..4 for * ** // % with both sides symbolic, '
          'unbounded dividend/base with divisor -5..5 / exponent -2..3), numbers unbounded, sequences of up to 3 symbolic elements, weights 0..1000; wide dice 30x30 with concrete faces; pairs of dice with the same 5-12 faces and other, reversed, proportional or the same weights; every operator on dice of 1-40 by 1-40 given faces with symbolic weights')
LARGE = 3      # paths per case also replayed with inputs beyond float precision
BUDGET = {'quick': 500, 'thorough': 1800}


def operand(S, nm, kind, rng=None):
    """-> (python operand, its distribution as pairs)"""
    L = S.lib
    lo, hi = rng if rng else (None, None)
    if kind.startswith('die'):
        n = int(kind[3]) if len(kind) > 3 else 2
        v = S.ints(nm + 'v', n, lo, hi)
        for a, b in zip(v, v[1:]):
            S.assume(a < b)
        z = 'z' in kind
        w = S.weights(nm + 'w', n, 0 if z else 1)
        if z:
            S.assume(sum(w) > 0)
        return L.RV(v, w), list(zip(v, w))
    if kind == 'cdie':      # faces picked from a list, weights symbolic
        v = S.choose(nm + 'f', [(-3, 2), (-1, 0), (-1, 1), (0, 2), (1, 2), (2, 5), (3,), (-2,), (-4, -1, 6), (0, 0.5, 3)])
        w = S.weights(nm + 'w', len(v))
        return L.RV(v, w), list(zip(v, w))
    if kind == 'cnum':
        x = S.choose(nm, [-3, -2, -1, 0, 1, 2, 3, 7, 0.5, -1.25])
        return x, [(x, 1)]
    if kind == 'fdie':      # faces that may lie arbitrarily close
        v = [S.real(nm + 'v0', -50, 50, den=2 ** 36), S.real(nm + 'v1', -50, 50, den=2 ** 36)]
        S.assume(v[0] < v[1])
        w = S.weights(nm + 'w', 2)
        return L.RV(v, w), list(zip(v, w))
    if kind == 'fnum':
        x = S.real(nm, -50, 50, den=2 ** 36)
        return x, [(x, 1)]
    if kind == 'rdie':
        v = [S.real(nm + 'v0'), S.real(nm + 'v1')]
        S.assume(v[0] < v[1])
        w = S.weights(nm + 'w', 2)
        return L.RV(v, w), list(zip(v, w))
    if kind == 'pool':      # 2 dice of 2 faces
        v = S.ints(nm + 'v', 2, lo, hi)
        S.assume(v[0] < v[1])
        w = S.weights(nm + 'w', 2)
        return L.roll(2, L.RV(v, w)), [(v[0] * 2, w[0] * w[0]), (v[0] + v[1], 2 * w[0] * w[1]), (v[1] * 2, w[1] * w[1])]
    if kind == 'num':
        x = S.int(nm, lo, hi)
        return x, [(x, 1)]
    if kind == 'real':
        x = S.real(nm)
        return x, [(x, 1)]
    if kind == 'bool':
        x = S.choose(nm, [False, True])
        return x, [(int(x), 1)]
    if kind in ('seq', 'list', 'tuple', 'seqd'):
        x, y = S.int(nm + '0', lo, hi), S.int(nm + '1', lo, hi)
        q = {'seq': lambda: L.Seq(x, y), 'seqd': lambda: L.get_seq(x, [y]), 'list': lambda: [x, y], 'tuple': lambda: (x, (y,))}[kind]()
        return q, [(x + y, 1)]
    if kind == 'empty':
        return L.Seq(), [(0, 1)]
    if kind == 'range':
        n = S.int(nm, -1, 3)
        return range(1, n + 1), [(sum(range(1, n + 1)), 1)]
    raise ValueError(kind)


def binop(S, op, a, b, ra=None, rb=None):
    x, dx = operand(S, 'a', a, ra)
    y, dy = operand(S, 'b', b, rb)
    try:
        exp = S.conv(dx, dy, op=OPS[op])
    except ZeroDivisionError:
        S.check(S.raises(lambda: PYOPS[op](x, y), ZeroDivisionError) is not None, 'division by zero is reported')
        return
    S.same_dist(PYOPS[op](x, y), exp)


def selfop(S, op, kind, ra=None):
    x, dx = operand(S, 'a', kind, ra)
    S.same_dist(PYOPS[op](x, x), S.conv(dx, dx, op=OPS[op]))


def unary(S, op, kind):
    if kind == 'r1':
        v = [S.real('v0')]
        w = [1]
    elif kind == 'r2':
        v = [S.real('v0'), S.real('v1')]
        S.assume(v[0] < v[1])
        w = S.weights('w', 2, 0)
        S.assume(w[0] + w[1] > 0)
    else:
        v = S.ints('v', int(kind[1]))
        for a, b in zip(v, v[1:]):
            S.assume(a < b)
        w = S.weights('w', len(v), 0 if len(v) > 1 else 1)
        S.assume(sum(w) > 0)
    X = S.lib.RV(v, w)
    pairs = list(zip(v, w))
    if op == '~':
        is0 = len(v) == 1 and v[0] == 0
        S.same_dist(~X, [(1 if is0 else 0, 1)])
        return
    f = {'-': lambda x: -x, '+': lambda x: x, 'abs': abs, 'round': round, 'round1': lambda x: round(x, 1), 'floor': math.floor,
         'ceil': math.ceil, 'trunc': math.trunc}[op]
    S.same_dist(f(X), [(f(x), p) for x, p in pairs])


def trunc_setting(S, op, a, b, ra=None, rb=None):
    """under the truncation setting results are cut toward zero"""
    x, dx = operand(S, 'a', a, ra)
    y, dy = operand(S, 'b', b, rb)
    S.lib.settings_set('RV_TRUNC', True)
    try:
        exp = S.conv(dx, dy, op=lambda p, q: math.trunc(OPS[op](p, q)))
    except ZeroDivisionError:
        return
    S.same_dist(PYOPS[op](x, y), exp)


def wide(S, op, n, m):
    fa = [i * 3 - n for i in range(n)]
    fb = [(i * i) % 23 - 7 + i for i in range(m)]
    fb = sorted(set(fb))
    wa = [1 + i % 3 for i in range(n)]
    wb = [1 + (i * 2) % 5 for i in range(len(fb))]
    wa[0], wa[n // 2], wa[-1] = S.weights('a', 3, 0)
    wb[0], wb[len(fb) // 2] = S.weights('b', 2, 1)
    if op in ('//', '%'):
        fb = [x if x != 0 else 100 for x in fb]
        fb, wb = zip(*sorted(zip(fb, wb), key=lambda t: t[0]))
    A, B = S.lib.RV(fa, wa), S.lib.RV(fb, wb)
    S.same_dist(PYOPS[op](A, B), S.conv(list(zip(fa, wa)), list(zip(fb, wb)), op=OPS[op]))


def sizes(S, op, n, m):
    """dice of any two sizes, a number or a sequence beside a wide die; a few weights symbolic"""
    fa = [2 * i - n // 2 for i in range(n)]
    fb = [i - m // 3 for i in range(m)]
    if op in ('//', '%', '/'):
        fb = [x if x < 0 else x + 1 for x in fb]
    if op == '**':
        fa = [x % 3 - 1 + 3 * (i // 3) if n < 20 else i % 7 - 3 for i, x in enumerate(fa)]
        fb = [i % 4 for i in range(m)]
    if op == '/':       # quotients that are exact in binary
        fb = [(1, 2, 4, -1, -2, 8, 16, -4, 32)[i % 9] for i in range(m)]
    wa = [1 + i % 3 for i in range(n)]
    wb = [1 + (i * 2) % 5 for i in range(m)]
    for i, x in zip((0, n - 1), S.weights('a', min(n, 2), 1, 50)):
        wa[i] = x
    if m > 1:
        wb[m // 2] = S.int('b', 0, 50)
    pa, pb = list(zip(fa, wa)), list(zip(fb, wb))
    A, B = S.lib.RV(fa, wa), S.lib.RV(fb, wb)
    S.same_dist(PYOPS[op](A, B), S.conv(pa, pb, op=OPS[op]))
    if m <= 2:
        S.same_dist(PYOPS[op](A, fb[0]), S.conv(pa, [(fb[0], 1)], op=OPS[op]))
        S.same_dist(PYOPS[op](A, S.lib.Seq(fb[0], [0])), S.conv(pa, [(fb[0], 1)], op=OPS[op]))
    if n <= 2:
        S.same_dist(PYOPS[op](fa[0], B), S.conv([(fa[0], 1)], pb, op=OPS[op]))


def alike(S, op, n, how):
    """two dice with the same faces and different weights, one die with itself, one with a permutation of its weights"""
    f = [i - n // 3 for i in range(n)]
    if op in ('//', '%'):
        f = [x + n for x in f]
    if op == '**':
        f = [x % 5 + 1 if i < 5 else None for i, x in enumerate(f)]
        f = sorted(set(x for x in f if x is not None))
        n = len(f)
    wa = [1 + i % 3 for i in range(n)]
    wb = list(wa)
    wa[0], wa[n // 2], wa[-1] = S.weights('a', 3, 1, 50)
    if how == 'rev':
        wb = wa[::-1]
    elif how == 'one':
        wb[1] = S.int('b', 1, 50)
    elif how == 'prop':
        k = S.int('k', 2, 5)
        wb = [x * int(k) for x in wa]
    elif how == 'same':
        wb = wa
    A = S.lib.RV(f, wa)
    B = A if how == 'self' else S.lib.RV(f, wb)
    S.same_dist(PYOPS[op](A, B), S.conv(list(zip(f, wa)), list(zip(f, wa if how == 'self' else wb)), op=OPS[op]))


def chain(S, order):
    """three operands: intermediate results combine like any die"""
    a, da = operand(S, 'a', 'die2')
    b, db = operand(S, 'b', 'die2', (-2, 2))
    c, dc = operand(S, 'c', 'num')
    if order == 'sum':
        S.same_dist((a + b) - c, S.conv(da, db, dc, op=lambda x, y, z: x + y - z))
    elif order == 'cmp':
        S.same_dist((a + c) > b, S.conv(da, db, dc, op=lambda x, y, z: 1 if x + z > y else 0))
    elif order == 'cnt':
        S.same_dist((a == c) + (b == c), S.conv(da, db, dc, op=lambda x, y, z: (1 if x == z else 0) + (1 if y == z else 0)))
    elif order == 'neg':
        S.same_dist(c - (b - a), S.conv(da, db, dc, op=lambda x, y, z: z - (y - x)))


LIN = ('+', '-', '==', '!=', '<', '<=', '>', '>=', '&', '|')


def cases(tier):
    c = []
    for op in LIN:
        for b in ('die2', 'num', 'real', 'seq', 'list', 'tuple', 'range', 'bool', 'empty', 'seqd', 'die2z', 'rdie', 'pool'):
            c.append(Case(binop, op=op, a='die2', b=b, max_paths=1500, weight=2 if b in ('die2', 'rdie', 'pool') else 1))
        for a in ('num', 'real', 'seq', 'list', 'tuple', 'bool', 'range', 'empty'):
            c.append(Case(binop, op=op, a=a, b='die2'))
        c.append(Case(binop, op=op, a='die1', b='die3', weight=2))
        c.append(Case(binop, op=op, a='die3', b='num'))
        c.append(Case(selfop, op=op, kind='die2'))
    S5, E = (-5, 5), (-2, 3)
    for op in ('/', '*'):
        for a in ('die2', 'num', 'seq', 'real', 'die2z', 'rdie', 'list', 'bool'):
            c.append(Case(binop, op=op, a=a, b='cdie', max_time=30, weight=2))
        for a in ('die2', 'rdie', 'die2z', 'die3'):
            c.append(Case(binop, op=op, a=a, b='cnum', max_time=30))
    for b in ('num', 'real', 'seq', 'list', 'bool', 'die2', 'rdie'):
        c.append(Case(binop, op='*', a='cdie', b=b, max_time=30))
    for op in ('//', '%'):
        for a in ('die2', 'num', 'seq', 'real', 'die2z'):
            c.append(Case(binop, op=op, a=a, b='die2', rb=(-3, 3) if a != 'num' else S5, ra=(-6, 6) if a.startswith('die') else None, max_time=30, weight=2))
        for b in ('num', 'seq', 'bool'):
            c.append(Case(binop, op=op, a='die2', b=b, rb=(-3, 3), max_time=30))
        c.append(Case(binop, op=op, a='rdie', b='num', rb=S5))
    for a in ('die2', 'num', 'seq'):
        c.append(Case(binop, op='*', a=a, b='die2', rb=(-3, 3), ra=(-4, 4), nl=True, max_time=30, weight=2))
    for b in ('num', 'seq', 'list', 'bool'):
        c.append(Case(binop, op='*', a='die2', b=b, ra=(-3, 3), rb=(-4, 4), nl=True, max_time=30))
    c.append(Case(binop, op='*', a='die2', b='bool'))
    for op in ('+', '-', '==', '<', '>=', '!='):
        c.append(Case(binop, op=op, a='fdie', b='fnum'))
        c.append(Case(binop, op=op, a='fdie', b='fdie', max_time=30))
        c.append(Case(binop, op=op, a='fnum', b='fdie'))
    for a in ('die2', 'num', 'seq'):
        c.append(Case(binop, op='**', a=a, b='die2', ra=(-3, 3), rb=(0, 3), nl=True, max_time=30))
    c.append(Case(binop, op='**', a='die2', b='num', ra=(-3, 3), rb=(-2, 3), nl=True, max_time=30))
    c.append(Case(binop, op='**', a='die1', b='die2', ra=(-3, 3), rb=(-2, 3), nl=True, max_time=30))
    c.append(Case(selfop, op='*', kind='die2', ra=(-3, 3), nl=True))
    c.append(Case(selfop, op='//', kind='die2', ra=(1, 5)))
    for op in ('-', '+', 'abs', '~', 'round', 'floor', 'ceil', 'trunc'):
        for k in ('r1', 'r2', 'i1', 'i2', 'i3'):
            c.append(Case(unary, op=op, kind=k))
    c.append(Case(unary, op='round1', kind='r1'))
    c.append(Case(trunc_setting, op='/', a='die2', b='num', rb=(-4, 4)))
    c.append(Case(trunc_setting, op='+', a='die2', b='real'))
    c.append(Case(trunc_setting, op='-', a='rdie', b='die1'))
    for op in ('+', '-', '*', '//', '%', '<', '==', '>=', '|', '&'):
        c.append(Case(wide, op=op, n=30, m=20))
        for j, how in enumerate(('rev', 'one', 'prop', 'same', 'self')):
            for n in (5, 12) if tier == 'quick' else (5, 9, 12, 20, 33):
                c.append(Case(alike, op=op, n=n, how=how, gcd='one', wtie=True))
    for op in OPS:
        for n, m in ((9, 2), (2, 9), (5, 1), (1, 5), (17, 3), (3, 17), (33, 2), (2, 33), (70, 1), (1, 70), (8, 8), (12, 10), (102, 1), (1, 130)) + \
                (((130, 5), (5, 130), (40, 40), (257, 2), (2, 257)) if tier == 'thorough' else ()):
            c.append(Case(sizes, op=op, n=n, m=m, gcd='one', wtie=True))
    for o in ('sum', 'cmp', 'cnt', 'neg'):
        c.append(Case(chain, order=o, max_time=30))
    if tier == 'thorough':
        for op in LIN:
            c.append(Case(binop, op=op, a='die3', b='die2', max_time=400, max_paths=10 ** 6, weight=5))
            c.append(Case(binop, op=op, a='die2z', b='rdie', max_time=400, max_paths=10 ** 6, weight=5))
            c.append(Case(wide, op=op, n=120, m=80, max_time=300))
        for op in ('*', '//', '%', '**'):
            c.append(Case(binop, op=op, a='die2', b='die2', ra=(-9, 9), rb=(-5, 5) if op != '**' else (0, 4), nl=True, max_time=600, max_paths=10 ** 6, weight=5))
    for x in c:
        if x.params.get('op') == '/':
            x.large = 0     # the quotient itself is rounded by the float type
    return c
