"""Function library: the real library functions are executed (through the casting decorator) on symbolic numbers, sequences, dice and pools."""
from sx.run import Case
from .common import die, mixture, pool_rolls, roll_dist, total, wide

BOUNDS = ('numbers: arbitrary integers (reals where stated); sequences of 0-3 arbitrary integers; dice of 1-3 faces, pools of 0-4 dice, weights 1..20; '
          'n from -2 to pool size + 2, or a die; true division: sums up to 10^6, divisors -4..5 or a die; the default position order; with two or three symbolic weights: dice of up to 70 faces, pools up to 4d6, 6d3 and 12d2, sequences of up to 30 numbers (two arbitrary)')
LARGE = 3      # paths per case also replayed with inputs beyond float precision
BUDGET = {'quick': 500, 'thorough': 1800}
G = dict(gcd='one', wtie=True)


def fn(S, name, via):
    """the library function by its public name in the package, or as compiled programs see it"""
    if via == 'pkg':
        return getattr(S.lib, name)
    return S.langlib()[name]


def arg(S, nm, kind, hi=20):
    """-> (argument, [(sequence of values, weight)])"""
    L = S.lib
    if kind == 'n':
        x = S.int(nm)
        return x, [((x,), 1)]
    if kind == 'r':
        x = S.real(nm)
        return x, [((x,), 1)]
    if kind[0] == 's':
        e = S.ints(nm, int(kind[1]))
        return L.Seq(*e), [(tuple(e), 1)]
    if kind[0] == 'l':
        e = S.ints(nm, int(kind[1]))
        return list(e), [(tuple(e), 1)]
    if kind[0] == 'd':
        d, p = die(S, nm, int(kind[1]), hi=hi)
        return d, [((v,), w) for v, w in p]
    if kind[0] == 'w':      # a die with many faces
        d, p = wide(S, nm, int(kind[1:]), start=-4, hi=hi)
        return d, [((v,), w) for v, w in p]
    if kind[0] == 'P':      # PxDy: a pool of x dice with y faces
        n, k = (int(x) for x in kind[1:].split('D'))
        d, p = wide(S, nm, k, start=-1, hi=hi, sym=2)
        return L.roll(n, d), pool_rolls(p, n)
    if kind[0] == 'S':      # a long sequence
        n = int(kind[1:])
        e = [(7 * i) % 13 - 5 for i in range(n)]
        e[n // 3] = S.int(nm + 'x')
        e[n - 2] = S.int(nm + 'y')
        return L.Seq(*e), [(tuple(e), 1)]
    if kind[0] == 'f':      # fixed faces
        d, p = die(S, nm, faces=[(5,), (-1, 4), (-3, 0, 3)][int(kind[1]) - 1], hi=hi)
        return d, [((v,), w) for v, w in p]
    if kind[0] in 'pq':
        d, p = die(S, nm, 2, faces=None if kind[0] == 'p' else (-1, 2), hi=hi)
        n = int(kind[1])
        return L.roll(n, d), pool_rolls(p, n) if n else [((0,), 1)]
    raise ValueError(kind)


def sums(rolls):
    return [(sum(r), w) for r, w in rolls]


def result(S, res, exp, dice):
    """exp: list of (number, weight)"""
    if dice:
        S.same_dist(res, exp)
    else:
        S.check(len(exp) == 1 and isinstance(res, (int, float)) and not S.is_die(res), 'a number')
        S.check(S.eq(res, exp[0][0]), 'value')


def isdice(*kinds):
    return any(k[0] in 'dfpqwP' for k in kinds)


def absolute(S, a, via):
    x, r = arg(S, 'a', a)
    result(S, fn(S, 'absolute_X', via)(x), [(v if v >= 0 else -v, w) for v, w in sums(r)], isdice(a))


def contains(S, s, n, via):
    x, r = arg(S, 's', s)
    y, q = arg(S, 'n', n)
    exp = []
    for e, w in r:
        for v, u in sums(q):
            c = 0
            for z in e:
                if z == v:
                    c = 1
                    break
            exp.append((c, w * u))
    result(S, fn(S, 'X_contains_X', via)(x, y), exp, isdice(s, n))


def count(S, v, s, via):
    x, r = arg(S, 'v', v)
    y, q = arg(S, 's', s)
    exp = []
    for e, w in r:
        for f, u in q:
            c = 0
            for a in e:
                for b in f:
                    if a == b:
                        c += 1
            exp.append((c, w * u))
    result(S, fn(S, 'count_X_in_X', via)(x, y), exp, isdice(v, s))


def two(S, hi, a, b, via):
    x, r = arg(S, 'a', a)
    y, q = arg(S, 'b', b)
    f = (lambda p, t: p if p >= t else t) if hi else (lambda p, t: p if p <= t else t)
    exp = S.conv(sums(r), sums(q), op=f)
    result(S, fn(S, 'highest_of_X_and_X' if hi else 'lowest_of_X_and_X', via)(x, y), exp, isdice(a, b))


def pick(r, which, n):
    """r: descending roll"""
    N = len(r)
    if n < 1:
        return 0
    n = min(n, N)
    if which == 'highest':
        return sum(r[:n])
    if which == 'lowest':
        return sum(r[N - n:])
    a = (N - n) // 2
    return sum(r[a:a + n])


def positions(S, which, d, n, via, k=2, faces=None, many=0):
    """highest / lowest / middle n of a pool"""
    L = S.lib
    f = fn(S, which + '_X_of_X', via)
    x, p = die(S, 'd', k, faces=faces, hi=20) if not many else wide(S, 'd', many, start=-1, hi=20, sym=2)
    rolls = pool_rolls(p, d) if d else [((0,), 1)]
    pool = L.roll(d, x)
    if n == 'die':
        e, q = die(S, 'e', faces=(0, 1, 2), hi=9)
        exp = mixture([([(pick(r, which, m), w) for r, w in rolls], u) for m, u in q])
        S.same_dist(f(e, pool), exp)
        return
    if n == 'seq':
        a = S.int('a', -1, 2)
        b = S.int('b', 0, 2)
        m = a + b
        res = f(L.Seq(a, b), pool)
    elif n == 'sym':
        m = S.int('n', -3, d + 3)
        res = f(m, pool)
    else:
        m = n
        res = f(n, pool)
    m = int(m)
    S.same_dist(res, [(pick(r, which, m), w) for r, w in rolls])


def position_const(S, which, kind, via):
    """a number or sequence given for the dice: a constant die, the die of the sequence"""
    L = S.lib
    f = fn(S, which + '_X_of_X', via)
    n = S.int('n', -1, 3)
    if kind == 'n':
        x = S.int('x')
        faces = [x]
        res = f(n, x)
    else:
        faces = S.ints('x', int(kind[1]))
        res = f(n, L.Seq(*faces))
        faces = faces or [0]
    S.same_dist(res, [(v if n >= 1 else 0, 1) for v in faces])


def maximum(S, a, via):
    L = S.lib
    f = fn(S, 'maximum_of_X', via)
    if a[0] in 'pq':
        d, p = die(S, 'a', 2)
        n = int(a[1])
        res, exp = f(L.roll(n, d)), p[-1][0] * n
    elif a == 'neg':
        d, p = die(S, 'a', 2)
        res, exp = f(-d), -p[0][0]
    elif a == 'int':
        n = S.int('n', -3, 4)
        res = f(L.roll(n))
        exp = n if n >= 0 else -1
    else:
        x, r = arg(S, 'a', a)
        vs = [e[0] for e, _ in r] if a[0] in 'ndfrw' else list(r[0][0]) or [0]
        res, exp = f(x), vs[0]
        for v in vs[1:]:
            if v > exp:
                exp = v
    S.check(isinstance(res, (int, float)), 'a number')
    S.check(S.eq(res, exp), 'maximum')


def reorder(S, fname, a, via):
    if via == 'slow':
        f = getattr(S.mod('funclib'), fname + '_VANILLA_SLOW')
    else:
        f = fn(S, fname + '_X', via)
    x, r = arg(S, 'a', a)
    res = f(x)
    if isdice(a):
        S.same_dist(res, sums(r))
        return
    e = list(r[0][0])
    S.check(not isinstance(res, (int, float)) and not S.is_die(res), 'a sequence')
    out = list(res)
    S.check(len(out) == len(e), 'same length')
    if fname == 'reverse':
        S.check(S.vec_eq(out, e[::-1]), 'reversed')
    else:
        for i in range(len(e)):     # insertion sort, descending
            j = i
            while j > 0 and e[j] > e[j - 1]:
                e[j], e[j - 1] = e[j - 1], e[j]
                j -= 1
        S.check(S.vec_eq(out, e), 'sorted, highest first')
    if not a.startswith('n'):
        S.check(S.vec_eq(list(x), r[0][0]), 'argument unchanged')


def quotient(S, a, b, via):
    """[true div a b]"""
    f = S.mod('utils').true_div if via == 'pkg' else fn(S, 'true_div_X_X', via)
    x, r = arg(S, 'a', a)
    for v, _ in sums(r):
        S.assume(-10 ** 6 <= v)
        S.assume(v <= 10 ** 6)
    if b == 'k':
        k = S.fork(S.int('k', -4, 5))
        S.assume(k != 0)
        y, q = k, [((k,), 1)]
    else:
        y, q = die(S, 'b', faces=(-2, 4))
        q = [((v,), w) for v, w in q]
    result(S, f(x, y), S.conv(sums(r), sums(q), op=lambda p, t: p / t), isdice(a, b) or b != 'k')


def gwf(S, n, k, thr, kind='die'):
    L = S.lib
    f = S.mod('funclib').gwf
    if kind == 'int':
        m = S.int('m', 1, 4)
        d, p = m, [(i, 1) for i in range(1, int(m) + 1)]
    elif kind == 'fixed':
        d, p = die(S, 'd', faces=(1, 2, 4), hi=9)
    else:
        d, p = die(S, 'd', k, hi=9)
    if kind == 'wide':
        d, p = wide(S, 'd', k, hi=9)
    T = total(p)
    if thr == 'default':
        t = 2
        res = f(n, d)
    else:
        t = S.int('t')
        res = f(n, d, t) if thr == 'sym' else f(n, d, min_to_reroll=t)
    low, keep = 0, []
    for v, w in p:
        if v <= t:
            low = low + w
            keep.append(0)
        else:
            keep.append(w)
    one = [(v, kw * T + low * w) for (v, w), kw in zip(p, keep)]
    S.same_dist(res, roll_dist(one, n))


def cases(tier):
    c = []
    big = tier == 'thorough'

    def add(f, **kw):
        o = dict(G, max_time=60 if big else 15, max_paths=20000 if big else 3000)
        c.append(Case(f, **{**o, **kw}))
    for via in ('pkg', 'lang'):
        full = via == 'pkg'
        for a in ('n', 'r', 's0', 's2', 'l2', 'd1', 'd2', 'd3', 'p2', 'p3') if full else ('n', 'd2'):
            add(absolute, a=a, via=via)
        for s, n in [('n', 'n'), ('s0', 'n'), ('s1', 'n'), ('s3', 'n'), ('l2', 'n'), ('s2', 's2'), ('s2', 'd2'), ('p2', 'n'), ('p3', 'n'), ('d2', 'n'), ('n', 'd2'),
                     ('q2', 'f2'), ('s2', 'p2'), ('s2', 'r')] if full else [('s2', 'n'), ('q2', 'n')]:
            add(contains, s=s, n=n, via=via)
        for v, s in [('n', 'n'), ('n', 's2'), ('s2', 'n'), ('s2', 's2'), ('s3', 's2'), ('s0', 's2'), ('s2', 's0'), ('l2', 's3'), ('n', 'p2'), ('s2', 'p2'), ('s2', 'q3'),
                     ('q2', 's2'), ('n', 'd2'), ('d2', 's2'), ('f2', 'q2')] if full else [('s2', 's2'), ('s2', 'q2')]:
            add(count, v=v, s=s, via=via)
        for hi in (True, False):
            for a, b in [('n', 'n'), ('n', 'r'), ('s2', 'n'), ('n', 's2'), ('d2', 'n'), ('n', 'd2'), ('d2', 'd2'), ('f2', 'd2'), ('p2', 'n'), ('q2', 'q2'), ('d3', 'n'),
                         ('f3', 'f2'), ('s0', 'd2')] if full else [('n', 'n'), ('f2', 'f3')]:
                add(two, hi=hi, a=a, b=b, via=via)
        for which in ('highest', 'lowest', 'middle'):
            if not full:
                for d, n in ((2, 1), (3, 2), (4, 2), (3, 1)):
                    add(positions, which=which, d=d, n=n, via=via)
                continue
            for d in range(5 if not big else 7):
                for n in range(-2, d + 3):
                    add(positions, which=which, d=d, n=n, via=via)
                if d <= 3:
                    add(positions, which=which, d=d, n='sym', via=via, faces=(-1, 2))
            for d in (1, 2, 3):
                for n in (1, 2):
                    add(positions, which=which, d=d, n=n, via=via, k=3)
                add(positions, which=which, d=d, n='die', via=via, faces=(1, 3))
            add(positions, which=which, d=2, n='seq', via=via, faces=(-1, 2))
            for kind in ('n', 's0', 's1', 's2', 's3'):
                add(position_const, which=which, kind=kind, via=via)
        for a in ('n', 'r', 's1', 's2', 's3', 's0', 'd1', 'd2', 'd3', 'p2', 'p3', 'neg', 'int') if full else ('d2', 's2'):
            add(maximum, a=a, via=via)
        for name in ('reverse', 'sort'):
            for a in ('n', 's0', 's1', 's2', 's3', 'l3', 's4', 'd2', 'p2', 'q3') if full else ('s3', 'q2'):
                add(reorder, fname=name, a=a, via=via)
    for via in ('pkg', 'lang'):
        for a in ('n', 's2', 'd2', 'p2', 'd3'):
            for b in ('k', 'die'):
                add(quotient, a=a, b=b, via=via)
    for a in ('w9', 'w20', 'P3D4', 'P5D2'):
        add(absolute, a=a, via='pkg')
        add(two, hi=True, a=a, b='n', via='pkg')
        add(two, hi=False, a=a, b='n', via='pkg')
    for a in ('w9', 'w20', 'w70', 'S9', 'S30'):
        add(maximum, a=a, via='pkg')
    for hi in (True, False):
        add(two, hi=hi, a='w9', b='w7', via='pkg')
    for s, n in (('P3D4', 'n'), ('P4D6', 'n'), ('P6D2', 'n'), ('S9', 'n'), ('S30', 'n'), ('S9', 'w9'), ('P2D6', 'w7')):
        add(contains, s=s, n=n, via='pkg')
    for v, s in (('n', 'P3D4'), ('n', 'P4D6'), ('s2', 'P3D3'), ('n', 'P6D2'), ('n', 'S30'), ('S9', 'n'), ('S9', 's2'), ('P2D6', 's1'), ('n', 'w20')):
        add(count, v=v, s=s, via='pkg')
    for name in ('reverse', 'sort'):
        for a in ('S6', 'S9', 'S30', 'P3D4', 'P6D2'):
            add(reorder, fname=name, a=a, via='pkg')
        add(reorder, fname=name, a='S9', via='slow')
    for which in ('highest', 'lowest', 'middle'):
        for d, k in ((3, 6), (4, 6), (6, 3), (5, 4), (8, 2), (12, 2), (2, 12)):
            for n in sorted({1, 2, 3, d // 2, d - 1, d}):
                if n <= d:
                    add(positions, which=which, d=d, n=n, via='pkg', many=k)
    for name in ('reverse', 'sort'):
        for a in ('n', 's0', 's1', 's2', 's3', 'q2', 'q3'):
            add(reorder, fname=name, a=a, via='slow')
    for n in (0, 1, 2, 3):
        for k in (1, 2, 3):
            if n < 2 or k < 3 or big:
                add(gwf, n=n, k=k, thr='sym')
        add(gwf, n=n, k=2, thr='default')
        add(gwf, n=n, k=2, thr='kw', kind='fixed')
        add(gwf, n=n, k=0, thr='default', kind='int')
        add(gwf, n=n, k=8, thr='default', kind='wide')
    add(gwf, n=1, k=6, thr='sym', kind='wide')
    add(gwf, n=2, k=6, thr='sym', kind='wide')
    return c
