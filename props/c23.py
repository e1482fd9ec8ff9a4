"""Numbers as digit sequences: the integer operators of the language run on symbolic numbers, positions and operands of every kind, directly and through compiled programs."""
import operator
from sx.run import Case
from .common import die
from .langcommon import same_value

BOUNDS = ('numbers 0..999999 (thorough: 10 digits) for digits and positions, any position; length for -999999..999999; 10^k-3..10^k+3 for k up to 16 (length and positions), 10^k-1..10^k+1 for k up to 60 (thorough 120); not / and / or on any integers; sequences of up to 3 positions in a number; '
          'all pairs of operand kinds (number, real, sequence, die, pool, text, blank, special blank) for the other meanings; compiled programs with the option on and off')
ASSUMPTIONS = ['position selection in negative numbers is outside the property', 'text of an integer is its decimal digits']
LARGE = 3      # paths per case also replayed with inputs beyond float precision
BUDGET = {'quick': 500, 'thorough': 900}
FLAG = {'COMPILER_FLAG_OPERATOR_ON_INT': True}


def digits(S, n, top):
    """decimal digits of n >= 0, highest first (one path per length)"""
    k = 1
    while k < top and not n < 10 ** k:
        k += 1
    return [(n // 10 ** (k - 1 - i)) % 10 for i in range(k)]


def at(ds, k):
    for i, d in enumerate(ds):
        if k == i + 1:
            return d
    return 0


def position(S, top, way):
    n = S.int('n', 0, 10 ** top - 1)
    k = S.int('k')
    if way == 'direct':
        got = S.langlib()['myMatmul'](k, n)
    elif way == 'prog':
        got = S.run(S.compile('output [maximum of 0] @ [maximum of 1]', FLAG), dict(maximum_of_X=lambda i, *a, **kw: [k, n][i]))[0][0][0]
    elif way == 'var':
        got = S.run(S.compile('A: [maximum of 0] B: [maximum of 1] function: f X { result: A @ X } output [f B]', FLAG), dict(maximum_of_X=lambda i, *a, **kw: [k, n][i]))[0][0][0]
    S.check(S.is_num(got) and S.eq(got, at(digits(S, n, top), k)), 'position selects the decimal digit')


def positions(S, top, m):
    """a sequence of positions in a number: the sum of the digits"""
    n = S.int('n', 0, 10 ** top - 1)
    ks = S.ints('k', m, -2, top + 2)
    got = S.langlib()['myMatmul'](S.lib.Seq(list(ks)), n)
    ds = digits(S, n, top)
    t = 0
    for k in ks:
        t = t + at(ds, k)
    S.check(S.eq(got, t), 'sum of the selected digits')
    S.check(S.eq(S.lib.Seq(list(ks)) @ n, t), 'the same without the option')


def boundary(S, k, x):
    """numbers next to a power of ten: length and every position"""
    for s in (1, -1):
        n = s * (10 ** k + x)
        S.check(S.eq(S.langlib()['myLen'](n), len(str(abs(n)))), 'length is the number of digits')
    n = 10 ** k + x
    p = S.int('p')
    ds = [int(c) for c in str(n)]
    got = S.langlib()['myMatmul'](p, n)
    S.check(S.is_num(got) and S.eq(got, at(ds, p)), 'position selects the decimal digit')
    if n > 0:
        out = S.run(S.compile('A: %d output #A output #%d output [maximum of 0]@A output {[maximum of 0], 1}@%d' % (n, n, n), FLAG), dict(maximum_of_X=lambda i, *a, **kw: p))
        exp = [len(ds), len(ds), at(ds, p), at(ds, p) + ds[0]]
        S.check(len(out) == 4 and all(S.eq(o[0][0], e) for o, e in zip(out, exp)), 'the same in programs')


def near10(S, k, way):
    """any number next to a power of ten"""
    x = S.int('x', -3, 3)
    n = 10 ** k + x
    exp = k if x < 0 else k + 1
    if way == 'len':
        S.check(S.eq(S.langlib()['myLen'](n), exp), 'length is the number of digits')
        S.check(S.eq(S.langlib()['myLen'](-n), exp), 'length is the number of digits')
    else:
        for p in (1, 2, k - 1, k, k + 1, k + 2):
            if p >= 1:
                i = exp - p
                d = (n // 10 ** i) % 10 if i >= 0 else 0
                S.check(S.eq(S.langlib()['myMatmul'](p, n), d), 'position selects the decimal digit')


def length(S, top, way):
    n = S.int('n', 1 - 10 ** top, 10 ** top - 1)
    if way == 'direct':
        got = S.langlib()['myLen'](n)
    else:
        got = S.run(S.compile('A: [maximum of 0] output #A', FLAG), dict(maximum_of_X=lambda i, *a, **kw: n))[0][0][0]
    S.check(S.eq(got, len(digits(S, n if n >= 0 else -n, top))), 'length is the number of digits')


def logic(S, way):
    a, b = S.int('a'), S.int('b')
    if way == 'direct':
        L = S.langlib()
        r = [L['myAnd'](a, b), L['myOr'](a, b), L['myInvert'](a)]
    else:
        out = S.run(S.compile('A: [maximum of 0] B: [maximum of 1] output A & B output A | B output !A', FLAG), dict(maximum_of_X=lambda i, *a_, **kw: [a, b][i]))
        r = [o[0][0] for o in out]
    for x in r:
        S.check(S.is_num(x), 'a number')
    x, y = (1 if a != 0 else 0), (1 if b != 0 else 0)
    S.check(S.eq(r[0], 1 if x and y else 0), 'and')
    S.check(S.eq(r[1], 1 if x or y else 0), 'or')
    S.check(S.eq(r[2], 1 - x), 'not')


def operand(S, k, nm):
    L = S.lib
    if k == 'int':
        return S.int(nm, 0, 99)
    if k == 'real':
        return 2.5
    if k == 'seq':
        return L.Seq(S.ints(nm, 2, 0, 3))
    if k == 'empty':
        return L.Seq()
    if k == 'die':
        return die(S, nm, 2, faces=[0, 3], hi=9)[0]
    if k == 'pool':
        return L.roll(2, die(S, nm, 2, faces=[0, 1], hi=9)[0])
    if k == 'text':
        return list(L.get_seq([S.tok(nm)]))[0]
    b = L.roll(1, L.Seq())
    return L.roll(b, 6) if k == 'special' else b


def same_outcome(S, f, g, label):
    r = []
    for h in (f, g):
        try:
            r.append((h(), None))
        except Exception as e:
            r.append((None, type(e).__name__))
    S.check(r[0][1] == r[1][1], label + ': same error')
    if r[0][1] is None:
        same_value(S, r[0][0], r[1][0], label)


def other(S, a, b):
    """operands that are not both numbers: the operators' usual meanings"""
    L = S.langlib()
    for name, op in (('myMatmul', operator.matmul), ('myAnd', operator.and_), ('myOr', operator.or_)):
        x, y = operand(S, a, 'x'), operand(S, b, 'y')
        same_outcome(S, lambda: L[name](x, y), lambda: op(x, y), name)


def other1(S, a):
    L = S.langlib()
    x = operand(S, a, 'x')
    same_outcome(S, lambda: L['myInvert'](x), lambda: operator.invert(x), 'not')
    same_outcome(S, lambda: L['myLen'](x), lambda: len(x), 'length')


def compiled(S, text, kinds):
    """with and without the option a program without plain numbers under these operators means the same"""
    def make():
        return [operand(S, k, 'x%d' % i) for i, k in enumerate(kinds)]
    outs = []
    for fl in ({}, FLAG):
        v = make()
        outs.append(S.run(S.compile(text, fl), dict(maximum_of_X=lambda i, *a, **kw: v[i])))
    S.check(len(outs[0]) == len(outs[1]), 'number of outputs')
    for (p, _), (q, _) in zip(*outs):
        same_value(S, p[0], q[0], 'output')


def cases(tier):
    big = tier == 'thorough'
    top = 10 if big else 6
    c = []
    T = dict(max_time=200 if big else 40, max_paths=8000, witness=30, gcd='one', wtie=True, nl=True)
    for way in ('direct', 'prog', 'var'):
        c.append(Case(position, top=top, way=way, **T))
    for m in (0, 1, 2) + ((3,) if big else ()):
        c.append(Case(positions, top=3 if m > 1 else top, m=m, **T))
    for k in (1, 2, 3, 5, 6, 8, 9, 10, 12, 14, 15, 16, 17, 18, 19, 20, 22, 23, 25, 28, 30, 40, 60) if not big else range(1, 120):
        for x in (-1, 0, 1):
            c.append(Case(boundary, k=k, x=x, **dict(T, witness=2)))
        for way in ('len', 'pos'):
            if k <= (16 if not big else 40):
                c.append(Case(near10, k=k, way=way, **dict(T, witness=3)))
    for way in ('direct', 'prog'):
        c.append(Case(length, top=top, way=way, **T))
        c.append(Case(logic, way=way, **T))
    K = ('int', 'real', 'seq', 'empty', 'die', 'pool', 'text', 'blank', 'special')
    for a in K:
        for b in K:
            if (a, b) != ('int', 'int'):
                c.append(Case(other, a=a, b=b, **T))
        if a != 'int':
            c.append(Case(other1, a=a, **T))
    P = 'A: [maximum of 0] B: [maximum of 1] '
    for t, ks in ((P + 'output #A output #B', ('seq', 'pool')), (P + 'output !A output !B', ('seq', 'die')), (P + 'output A@B', ('seq', 'seq')), (P + 'output A@B', ('seq', 'pool')),
                  (P + 'output 1@A output 2@B', ('seq', 'pool')), (P + 'output A & B output A | B', ('seq', 'die')), (P + 'output A & B output B | A', ('die', 'int')),
                  (P + 'output (A & B) | (B & A)', ('die', 'seq')), (P + 'output !A + #B output #A@B', ('seq', 'seq')), (P + 'output A@B', ('seq', 'int')),
                  (P + 'function: f X:s Y:s { result: #X + X@Y } output [f A B]', ('pool', 'seq'))):
        c.append(Case(compiled, text=t, kinds=ks, **T))
    return c
