"""Sequences: the Seq class and the factory are executed on symbolic elements, positions and operands; results are compared with the definition."""
from itertools import product
from sx.run import Case
from .common import OPS, PYOPS, die, roll_dist

BOUNDS = ('sequences of 0-4 arbitrary integers (or reals), sequences of 6-40 elements with three of them arbitrary, nested up to 3 levels, with ranges (start -12..12, up to 41 long) and dice of 2-3 symbolic faces; positions: any integer; '
          'two sequences of all lengths 0-3; numbers read as digits: 0..99999')
LARGE = 3      # paths per case also replayed with inputs beyond float precision
BUDGET = {'quick': 500, 'thorough': 1800}
ARITH = ['+', '-', '*', '//', '/', '%', '**']
CMP = ['==', '!=', '<', '<=', '>', '>=']
LOGIC = ['&', '|']


def elems(S, nm, n, real=False):
    return [S.real('%s%d' % (nm, i)) for i in range(n)] if real else S.ints(nm, n)


def build(S, nm, n, how='Seq', real=False):
    """-> (sequence object, elements)"""
    e = elems(S, nm, n, real)
    L = S.lib
    if how == 'Seq':
        return L.Seq(*e), e
    if how == 'Seq1':
        return L.Seq(e), e
    if how == 'get_seq':
        return L.get_seq(e), e
    if how == 'nested':
        return L.get_seq(e[:1], [[e[1:2]], tuple(e[2:])]), e
    if how == 'list':
        return list(e), e
    if how == 'tuple':
        return tuple(e), e
    raise ValueError(how)


def flatten(S, form, ctor):
    L = S.lib
    mk = L.Seq if ctor == 'Seq' else L.get_seq
    a, b, c, x = S.ints('a', 4)
    d, p = die(S, 'd', 2)
    e, q = die(S, 'e', 3, faces=(-2, 0, 9))
    df, ef = [v for v, _ in p], [v for v, _ in q]
    n = S.int('n', -1, 3)
    t = S.choose('t', [False, True]) if form == 'bool' else True
    src, exp = {
        'plain': ((a, b, c), [a, b, c]), 'list': (([a, b], c), [a, b, c]), 'deep': (([[a], (b, [c, [x]])],), [a, b, c, x]), 'empty': ((), []),
        'emptylist': (([], [[]], a), [a]), 'seq': ((L.Seq(a, b), c), [a, b, c]), 'seqseq': ((L.Seq(L.Seq(a), b), [L.get_seq(c)]), [a, b, c]),
        'range': ((range(1, n + 1), a), list(range(1, n + 1)) + [a]), 'rangeneg': ((a, [range(-n, 1)], b), [a] + list(range(-n, 1)) + [b]),
        'myrange': ((a, L.myrange(1, n)), [a] + list(range(1, n + 1))),
        'die': ((d,), df), 'dielast': ((a, d), [a] + df), 'diefirst': ((d, a), [a] + df), 'dice': ((d, a, e, b), [a, b] + df + ef),
        'pool': ((L.roll(2, e),), None), 'same': ((e, e), ef + ef), 'blank': ((a, L.BlankRV(), b), [a, b]), 'nesteddie': (([a, [d]], [b]), [a, b] + df),
        'mixed': ((a, 2.5, [True, b]), [a, 2.5, 1, b]), 'bool': ((t, a), [int(t), a]), 'gen': (((v for v in (a, b)), c), [a, b, c]),
    }[form]
    s = mk(*src)
    if exp is None:
        exp = sorted({v + w for v in ef for w in ef})
    S.check(len(s) == len(exp), 'length')
    S.check(S.vec_eq(list(s), exp), 'elements in order')
    S.check(S.eq(s.sum(), sum(exp)), 'sum')
    S.check(S.eq(s.sum(), sum(exp)), 'sum again')


def span(S, kind, via):
    """{a..b}: the whole numbers from a to b"""
    L = S.lib
    f = L.myrange if via == 'pkg' else S.langlib()['myrange']
    if kind == 'die':
        d, _ = die(S, 'd', 2)
        a = S.int('a')
        S.check(S.raises(lambda: f(a, d), TypeError) is not None and S.raises(lambda: f(d, a), TypeError) is not None, 'ranges of dice are refused')
        return
    if kind == 'real':      # fractions are cut
        i, j = S.int('i', -3, 3), S.int('j', -3, 3)
        a, b = S.frac(1, 4) * i, S.frac(1, 4) * j
        a, b = (float(a), float(b)) if S.concrete else (a, b)
        lo, hi = S.fork(i), S.fork(j)
        lo, hi = int(lo / 4), int(hi / 4)
        r = list(L.get_seq(f(a, b)))
        S.check(S.vec_eq(r, list(range(lo, hi + 1))), 'elements')
        return
    a = S.int('a', -12, 12) if kind == 'sym' else S.int('a', -3, 3)
    n = S.int('n', -3, 4) if kind == 'sym' else kind
    r = list(L.get_seq(f(a, a + n)))
    n = S.fork(n)
    S.check(len(r) == max(0, n + 1), 'length')
    S.check(S.vec_eq(r, [a + i for i in range(n + 1)]), 'elements')


def index(S, n, how, pos):
    s, e = build(S, 'a', n, how)
    L = S.lib
    k = S.int('k')
    exp = 0
    for i in range(1, n + 1):
        if k == i:
            exp = e[i - 1]
    if pos == '@':
        S.check(S.eq(k @ s, exp), 'number @ sequence')
    elif pos == '[]':
        S.check(S.eq(s[k], exp), 'sequence[k]')
    elif pos == 'seq1':
        S.check(S.eq(L.Seq(k) @ s, exp), 'one position')
        S.check(S.eq([k] @ s, exp), 'one position in a list')
    elif pos == 'seq2':
        j = S.int('j')
        exj = 0
        for i in range(1, n + 1):
            if j == i:
                exj = e[i - 1]
        S.check(S.eq(L.Seq(k, j) @ s, exp + exj), 'two positions')
        S.check(S.eq((k, [j]) @ s, exp + exj), 'two positions in a tuple')
        S.check(S.eq(L.get_seq(j, k) @ L.get_seq(s), exp + exj), 'two positions')
    elif pos == 'empty':
        S.check(S.eq(L.Seq() @ s, 0), 'no positions')
    elif pos == 'bool':
        S.check(S.eq(True @ s, e[0] if n else 0), 'true selects the first')
    elif pos == 'rlist':
        S.check(S.eq(L.Seq(k) @ e, exp), 'sequence @ list')
    elif pos == 'ten':
        S.check(S.eq(L.Seq(*range(1, 11)) @ s, sum(e)), 'all positions and beyond')
        S.check(S.eq(L.Seq(*range(n, 0, -1)) @ s, sum(e)), 'in reverse')
        S.check(S.eq(L.Seq(1, 1, 2, 2) @ s, 2 * sum(e[:2])), 'repeated positions')


def zero_indexed(S, n):
    s, e = build(S, 'a', n)
    s.set_one_indexed(False)
    k = S.int('k')
    exp = 0
    for i in range(n):
        if k == i:
            exp = e[i]
    S.check(S.eq(k @ s, exp), 'zero-indexed')
    s.set_one_indexed(True)
    S.check(S.eq(1 @ s, e[0] if n else 0), 'one-indexed again')


def digits(S, digs):
    """sequence @ number: decimal digits"""
    L = S.lib
    x = S.int('x', 10 ** (digs - 1) if digs > 1 else 0, 10 ** digs - 1)
    k = S.int('k')
    exp = 0
    for i in range(1, digs + 1):
        if k == i:
            exp = (x // 10 ** (digs - i)) % 10
    S.check(S.eq(L.Seq(k) @ x, exp), 'digit')
    S.check(S.eq(L.Seq(1, k) @ x, exp + x // 10 ** (digs - 1)), 'two digits')


def arith(S, op, n, other, side, m=2, rng=None, how='Seq'):
    L = S.lib
    lo, hi = rng or (None, None)
    e = [S.int('a%d' % i, lo, hi) for i in range(n)]
    s = {'Seq': L.Seq, 'get_seq': L.get_seq}[how](*e)
    t = sum(e)
    if other == 'num':
        y = S.int('y', lo, hi)
        z = [(y, 1)]
    elif other == 'real':
        y = S.real('y')
        z = [(y, 1)]
    elif other == 'exp':
        y = S.int('y', 0, 3)
        z = [(y, 1)]
    elif other == 'seq':
        f = [S.int('b%d' % i, lo, hi) for i in range(m)]
        y = L.Seq(*f)
        z = [(sum(f), 1)]
    else:
        y, z = die(S, 'd', 2, faces=(1, 2) if op in ('**', '//', '%', '/') else None, hi=20)
    f = PYOPS[op]
    a, b = ([(t, 1)], z) if side == 'l' else (z, [(t, 1)])
    try:
        exp = S.conv(a, b, op=OPS[op])
    except ZeroDivisionError:
        S.check(S.raises(lambda: f(s, y) if side == 'l' else f(y, s), ZeroDivisionError) is not None, 'division by zero is reported')
        return
    res = f(s, y) if side == 'l' else f(y, s)
    if other == 'die':
        S.same_dist(res, exp)
    else:
        S.check(S.eq(res, exp[0][0]), 'uses the sum')


def unary(S, n):
    L = S.lib
    e = S.ints('a', n)
    s = L.Seq(*e)
    S.check(S.eq(~s, 1 if sum(e) == 0 else 0), 'not')
    S.check(len(s) == n, 'length')


def cmp_num(S, op, n, side, real=False, how='Seq'):
    s, e = build(S, 'a', n, how, real)
    y = S.real('y') if real else S.int('y')
    f, o = PYOPS[op], OPS[op]
    if side == 'l':
        S.check(S.eq(f(s, y), sum(o(x, y) for x in e)), 'counts')
    else:
        S.check(S.eq(f(y, s), sum(o(y, x) for x in e)), 'counts')


def cmp_seq(S, op, n, m, hb='Seq', ha='Seq'):
    s, a = build(S, 'a', n, ha)
    t, b = build(S, 'b', m, hb)
    o = OPS[op] if op != '!=' else OPS['==']
    exp = 1
    for i in range(max(n, m)):
        if i >= n:
            r = 1 if op in ('<', '<=') else 0
        elif i >= m:
            r = 1 if op in ('>', '>=') else 0
        else:
            r = o(a[i], b[i])
        if not r:
            exp = 0
            break
    if op == '!=':
        exp = 1 - exp
    S.check(S.eq(int(PYOPS[op](s, t)), exp), 'position by position')


def cmp_die(S, op, n, side, pool=1):
    L = S.lib
    e = S.ints('a', n)
    s = L.Seq(*e)
    d, p = die(S, 'd', 2, hi=20)
    if pool > 1:
        d, p = L.roll(pool, d), roll_dist(p, pool)
    f = PYOPS[op]
    t = [(sum(e), 1)]
    if side == 'l':
        S.same_dist(f(s, d), S.conv(t, p, op=OPS[op]))
    else:
        S.same_dist(f(d, s), S.conv(p, t, op=OPS[op]))


def are_equal(S, n, m):
    L = S.lib
    s, a = build(S, 'a', n)
    t, b = build(S, 'b', m, 'list')
    exp = n == m
    if exp:
        for x, y in zip(a, b):
            if x != y:
                exp = False
                break
    S.check(bool(L.Seq.seqs_are_equal(s, t)) == exp, 'seqs_are_equal')
    S.check(bool(L.Seq.seqs_are_equal(t, s)) == exp, 'seqs_are_equal')


def long_elems(S, nm, n, same=None):
    """n elements: the first, a middle and the last one symbolic, the rest given"""
    e = list(same) if same else [(i * 7) % 11 - 4 for i in range(n)]
    for j in sorted({0, n // 2, n - 1}):
        e[j] = S.int('%s%d' % (nm, j))
    return e


def long_(S, n, what, how='Seq'):
    L = S.lib
    e = long_elems(S, 'a', n)
    s = L.Seq(*e) if how == 'Seq' else L.get_seq([e[:n // 2], [L.Seq(*e[n // 2:])]])
    if what == 'at':
        k = S.int('k')
        exp = 0
        for i in range(1, n + 1):
            if k == i:
                exp = e[i - 1]
        S.check(S.eq(k @ s, exp), 'position')
    elif what == 'ats':
        k = S.int('k', 0, n + 1)
        exp = 0
        for i in range(1, n + 1):
            if k == i:
                exp = e[i - 1]
        ks = [1, n, 2, n + 1, n // 2 + 1, 3]
        S.check(S.eq(L.Seq(k, *ks) @ s, exp + sum(e[i - 1] for i in ks if i <= n)), 'positions')
        S.check(S.eq(list(range(1, n + 3)) @ s, sum(e)), 'all positions')
        S.check(S.eq(range(0, n) @ s, sum(e[:-1])), 'all but the last')
    elif what == 'sum':
        S.check(len(s) == n and S.vec_eq(list(s), e), 'elements')
        S.check(S.eq(s.sum(), sum(e)), 'sum')
        y = S.int('y')
        S.check(S.eq(s + y, sum(e) + y), 'sequence + number')
        S.check(S.eq(y - s, y - sum(e)), 'number - sequence')
        S.check(S.eq(s - L.Seq(*e), 0), 'sequence - sequence')
        S.check(S.eq(~s, 1 if sum(e) == 0 else 0), 'not')
    elif what in CMP:
        y = S.int('y')
        S.check(S.eq(PYOPS[what](s, y), sum(OPS[what](x, y) for x in e)), 'counts')
        S.check(S.eq(PYOPS[what](y, s), sum(OPS[what](y, x) for x in e)), 'counts')


def long_pair(S, op, n, m):
    """two long sequences that agree in their given part"""
    L = S.lib
    a = long_elems(S, 'a', n)
    b = [(i * 7) % 11 - 4 for i in range(m)]
    for j in sorted({0, min(n, m) // 2, m - 1}):
        b[j] = S.int('b%d' % j)
    o = OPS[op] if op != '!=' else OPS['==']
    exp = 1
    for i in range(max(n, m)):
        if i >= n:
            r = 1 if op in ('<', '<=') else 0
        elif i >= m:
            r = 1 if op in ('>', '>=') else 0
        else:
            r = o(a[i], b[i])
        if not r:
            exp = 0
            break
    if op == '!=':
        exp = 1 - exp
    S.check(S.eq(int(PYOPS[op](L.Seq(*a), L.Seq(*b))), exp), 'position by position')
    if op == '==':
        S.check(bool(L.Seq.seqs_are_equal(L.Seq(*a), b)) == bool(exp), 'seqs_are_equal')


def reject(S, what):
    L = S.lib
    a = S.int('a')
    s = L.Seq(a, 3)
    d, _ = die(S, 'd', 2)
    f = {'die @': lambda: d @ s, 'real pos': lambda: L.Seq(1.5) @ s, 'list real pos': lambda: [1.5, 1] @ s}[what]
    S.check(S.raises(f) is not None, 'rejected')


def unchanged(S, n):
    """no operator changes the sequence"""
    L = S.lib
    e = S.ints('a', n)
    s = L.Seq(*e)
    d, p = die(S, 'd', 2, hi=9)
    (s + 1, s * s, s == 2, s < s, 1 @ s, s @ L.Seq(1), s | 1, s & 0, ~s, s - d, s == d, L.Seq(s, 4), s != [1], L.get_seq(s))
    S.check(S.vec_eq(list(s), e), 'elements unchanged')
    S.check(len(s) == n, 'length unchanged')
    S.check(S.eq(s.sum(), sum(e)), 'sum unchanged')


def cases(tier):
    c = []
    big = tier == 'thorough'
    G = dict(gcd='one', wtie=True)
    for form in ('plain', 'list', 'deep', 'empty', 'emptylist', 'seq', 'seqseq', 'range', 'rangeneg', 'myrange', 'die', 'dielast', 'diefirst', 'dice', 'pool',
                 'same', 'blank', 'nesteddie', 'mixed', 'bool', 'gen'):
        for ctor in ('Seq', 'get_seq'):
            c.append(Case(flatten, form=form, ctor=ctor, **G))
    for kind in ('sym', 5, 10, 40, 'real', 'die'):
        for via in ('pkg', 'lang'):
            c.append(Case(span, kind=kind, via=via, **G))
    for n in range(5 if not big else 7):
        for how in ('Seq', 'get_seq', 'Seq1', 'nested'):
            for pos in ('@', '[]', 'seq1', 'seq2', 'empty', 'bool', 'rlist', 'ten'):
                if how in ('Seq', 'get_seq') or pos in ('@', 'seq2'):
                    c.append(Case(index, n=n, how=how, pos=pos))
        c.append(Case(zero_indexed, n=n))
        c.append(Case(unary, n=n))
        c.append(Case(unchanged, n=n, **G))
    for d in range(1, 6 if not big else 9):
        c.append(Case(digits, digs=d))
    for op in ARITH + LOGIC:
        for side in 'lr':
            for n in (0, 1, 2, 3):
                for other in ('num', 'seq', 'die', 'real'):
                    if op == '**':
                        if side == 'l':
                            if other == 'num' or other == 'die' and n <= 2:
                                c.append(Case(arith, op=op, n=n, other='exp' if other == 'num' else other, side=side, nl=True, **G))
                            if other == 'seq' and n == 2:
                                c.append(Case(arith, op=op, n=n, m=2, other=other, side=side, rng=(0, 2), nl=True, **G))
                        elif n <= 2 and other == 'num':
                            c.append(Case(arith, op=op, n=n, other=other, side=side, rng=(0, 2), **G))
                        continue
                    if other == 'real' and op in ('&', '|', '//', '%', '/') and n != 2:
                        continue
                    rng = (-9, 9) if op in ('//', '%') and other != 'die' else (-6, 6) if op in ('//', '%', '/') and side == 'r' else None
                    c.append(Case(arith, op=op, n=n, other=other, side=side, m=max(0, 3 - n), rng=rng, how='get_seq' if n == 2 else 'Seq',
                                  nl=op in ('*', '/', '//', '%'), max_time=15, **G))
    for op in CMP:
        for side in 'lr':
            for n in range(4 if not big else 6):
                c.append(Case(cmp_num, op=op, n=n, side=side))
                c.append(Case(cmp_num, op=op, n=n, side=side, how='get_seq', real=n < 3))
                if n < 3:
                    c.append(Case(cmp_die, op=op, n=n, side=side, **G))
            c.append(Case(cmp_die, op=op, n=2, side=side, pool=2, **G))
        for n, m in product(range(4 if not big else 5), repeat=2):
            c.append(Case(cmp_seq, op=op, n=n, m=m))
            if (n + m) % 2:
                c.append(Case(cmp_seq, op=op, n=n, m=m, hb='list'))
            if op in ('==', '!=', '<', '>=') and n + m > 2:
                c.append(Case(cmp_seq, op=op, n=n, m=m, ha='tuple', hb='get_seq'))
    for n, m in product(range(4), repeat=2):
        c.append(Case(are_equal, n=n, m=m))
    for n in (6, 9, 12, 17, 26, 40):
        for what in ('at', 'ats', 'sum') + tuple(CMP):
            for how in ('Seq', 'get_seq') if n in (9, 17) else ('Seq',):
                c.append(Case(long_, n=n, what=what, how=how, max_time=20))
        for op in CMP:
            for m in (n, n + 1, n - 2):
                c.append(Case(long_pair, op=op, n=n, m=m, max_time=20))
    for w in ('die @', 'real pos', 'list real pos'):
        c.append(Case(reject, what=w))
    return c
