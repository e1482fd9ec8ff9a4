"""Names of dice: the real roll and str are executed on symbolic counts, sides, faces and weights, directly and through compiled programs; the name is
compared with the notation of the roll."""
from sx.run import Case
from .common import die

BOUNDS = ('counts -12..12 and sides -12..12 (any combination), one die of 1-6, 9-14, 17-33, 98-103 and 145-150 sides, as many dice of one side; counts that are sequences or fractions; dice of sequences, lists, '
          'computed dice and rolled dice (counts -2..3), all operators and library results on arbitrary dice of 2 faces; the same through compiled programs')
ASSUMPTIONS = ['a count that is itself a die is outside the claim']
BUDGET = {'quick': 500, 'thorough': 600}
G = dict(gcd='one', wtie=True)


def name(n, m):
    """n dice of m sides; m None: any other die"""
    count = str(abs(n)) if abs(n) > 1 else ''
    if m is None:
        return 'd{0..0}' if n == 0 else count + 'd{?}'
    if n == 0 or m == 0:
        return count + 'd{0..0}'
    return ('-' if (n < 0) != (m < 0) else '') + count + 'd' + str(abs(m))


def rolled(S, n, m, form):
    L = S.lib
    n = S.int('n', *n) if isinstance(n, tuple) else n
    m = S.int('m', *m) if isinstance(m, tuple) else m
    if form == 'roll':
        r = L.roll(n, m)
    elif form == 'one':
        r = L.roll(m)
    elif form == 'text':
        n, m = S.fork(n), S.fork(m)
        r = L.roll('%dd%d' % (n, m))
    elif form == 'alt':
        r = n * S.mod('altcast').D * m
    elif form == 'seq':
        a = S.int('a')
        r = L.roll(L.Seq(a, n - a), m)
    elif form == 'real':
        r = L.roll(n - 0.25, m)
    elif form == 'single':
        r = L.roll(n, L.roll(1, m))
    elif form == 'single2':
        r = L.roll(n, L.roll(L.Seq(1), L.roll(1, L.roll(m))))
    elif form == 'after':       # other rolls of the same numbers came first
        L.roll(n, L.RV.from_seq(range(1, 3)))
        L.roll(n, L.Seq(1, 2))
        L.roll(n, m) + 1
        r = L.roll(n, m)
        L.roll(n, L.Seq(range(1, 3)))
    S.check(S.text_eq(str(r), name(S.fork(n), S.fork(m))), 'name of the roll')


def other(S, n, kind):
    """dice that are not plain n-sided dice"""
    L = S.lib
    n = S.int('n', 0 if kind == 'text' else n[0], n[1])
    x, y = S.int('x'), S.int('y')
    if kind == 'seq':
        d = L.Seq(x, y)
    elif kind == 'list':
        d = [x, [y]]
    elif kind == 'real':
        d = 2.5
    elif kind == 'range':
        d = range(1, 4)
    elif kind == 'RV':
        d, _ = die(S, 'd', 2, hi=9)
    elif kind == 'sum':
        d = L.roll(2, 3) + x
    elif kind == 'pool':
        d = L.roll(2, 3)
    elif kind == 'neg':
        d = L.roll(-1, 3)
    elif kind == 'none':
        d = L.roll(0, 3)
    elif kind == 'const':
        d = L.RV.from_const(x)
    elif kind == 'rolled seq':
        d = L.roll(1, L.Seq(x, y))
    elif kind == 'text':
        d = 'ab'
    r = L.roll(n, d)
    S.check(S.text_eq(str(r), name(S.fork(n), None)), 'name of the roll')


COMPUTED = {
    'new': lambda L, a, b, k: L.RV([1, 2], [1, 1]), 'from_seq': lambda L, a, b, k: L.RV.from_seq([1, 2]), 'const': lambda L, a, b, k: L.RV.from_const(k),
    'a+b': lambda L, a, b, k: a + b, 'a-1': lambda L, a, b, k: a - 1, 'k*a': lambda L, a, b, k: k * a, 'a//2': lambda L, a, b, k: a // 2, '-a': lambda L, a, b, k: -a, 'a==b': lambda L, a, b, k: a == b,
    'a<k': lambda L, a, b, k: a < k, 'not': lambda L, a, b, k: ~a, 'abs': lambda L, a, b, k: abs(a), 'round': lambda L, a, b, k: round(a), 'a&b': lambda L, a, b, k: a & b, 'a|k': lambda L, a, b, k: a | k,
    'at': lambda L, a, b, k: 1 @ a, 'ats': lambda L, a, b, k: [1, 2] @ b, 'mix': lambda L, a, b, k: L.RV.from_rvs([a, k], [1, 2]), 'explode': lambda L, a, b, k: L.explode_X(a), 'seq+': lambda L, a, b, k: a + L.Seq(k, 1),
    'highest': lambda L, a, b, k: L.highest_X_of_X(1, b), 'absolute': lambda L, a, b, k: L.absolute_X(a), 'a+0': lambda L, a, b, k: a + 0,
}


def computed(S, what):
    L = S.lib
    n, m = S.int('n', 1, 3), S.int('m', 2, 3)
    a, b = L.roll(n, m), L.roll(2, L.Seq(S.int('x'), 4))
    k = S.int('k')
    r = COMPUTED[what](L, a, b, k)
    S.check(S.text_eq(str(r), 'd{?}'), 'name of a computed die')
    S.check(S.text_eq(str(a), name(S.fork(n), S.fork(m))), 'the operand keeps its name')
    S.check(str(b) == '2d{?}', 'the operand keeps its name')


def values(S, what):
    L = S.lib
    if what == 'seq':
        S.check(str(L.Seq(S.int('x'), 2)) == '{?}' and str(L.get_seq([])) == '{?}', 'sequences')
    elif what == 'blank':
        e = L.roll(S.int('n', -2, 3), L.Seq())
        S.check(str(e) == 'd{}', 'nothing rolled')
        S.check(str(L.BlankRV()) == 'd{}', 'a blank')
        S.check(str(L.roll(2, e)) == 'd{}', 'dice of blanks')


PROGRAMS = [('Nd6', 'N', 6), ('2dN', 2, 'N'), ('dN', 1, 'N'), ('NdN', 'N', 'N'), ('(N+0)d4', 'N', 4), ('{N}d4', 'N', 4), ('{1,N-1}d3', 'N', 3), ('Nd(1d5)', 'N', 5), ('Nd(d5)', 'N', 5), ('Nd(2d2)', 'N', None),
            ('Nd{1,2}', 'N', None), ('Nd{N}', 'N', None), ('Nd(d4+1)', 'N', None), ('d4+N', 1, None), ('-(d4)', 1, None), ('1@2d4', 1, None), ('N>d4', 1, None), ('d{1,2}', 1, None), ('[highest 1 of 2d3]', 1, None)]


def program(S, text, n, m, ctx):
    N = S.int('N', -4, 5)
    p = {'name': 'X: %s output X named "a[X]b"', 'function': 'function: f X:d {output X named "a[X]b" result: X} output [f %s]', 'untyped': 'function: f X {output X named "a[X]b" result: 1} Y: %s output [f Y]',
         'loop': 'X: %s loop I over {1} {Y: X output Y named "a[Y]b"}'}[ctx] % text
    py = S.compile(p, {})
    v = S.fork(N)
    outs = S.run(py, {'N': v})
    n = v if n == 'N' else n
    m = v if m == 'N' else m
    S.check(S.text_eq(outs[0][1].get('named'), 'a%sb' % name(n, m)), 'name in an output')


def cases(tier):
    c = []
    big = tier == 'thorough'
    for f in ('roll', 'text', 'alt', 'seq', 'real', 'single', 'single2', 'after'):
        plain = f in ('roll', 'single')
        c.append(Case(rolled, n=(-3, 4) if plain or big else (-1, 2), m=(-3, 4), form=f, **G))
        for n in (-1, 0, 1, 2, 10, 12) if plain or big else (1, 10):
            c.append(Case(rolled, n=n, m=(-12, 12) if abs(n) < 3 and plain else (-2, 2), form=f, **G))
        c.append(Case(rolled, n=(-12, 12), m=2, form=f, **G))
        c.append(Case(rolled, n=(6, 8) if not big else (2, 40), m=(5, 6), form=f, **G))
        for lo in (1, 9, 17, 19, 28, 98, 145):
            if plain or big:
                c.append(Case(rolled, n=1, m=(lo, lo + 5), form=f, max_time=30, **G))
                c.append(Case(rolled, n=(lo, lo + 5), m=1, form=f, max_time=30, **G))
    c.append(Case(rolled, n=1, m=(-20, 20), form='one', **G))
    for k in ('seq', 'list', 'real', 'range', 'RV', 'sum', 'pool', 'neg', 'none', 'const', 'rolled seq', 'text'):
        c.append(Case(other, n=(-3, 3), kind=k, max_time=30, **G))
    for w in COMPUTED:
        c.append(Case(computed, what=w, max_time=30, **G))
    for w in ('seq', 'blank'):
        c.append(Case(values, what=w, **G))
    for t, n, m in PROGRAMS:
        for ctx in ('name', 'function', 'untyped', 'loop'):
            c.append(Case(program, text=t, n=n, m=m, ctx=ctx, **G))
    return c
