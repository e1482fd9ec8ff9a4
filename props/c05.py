"""Function calls with dice: the casting decorators are executed around an arbitrary function (every distinct roll it is called with
yields its own symbolic result); the call's value is compared with the mixture of that function's results over all rolls."""
from sx.run import Case
from .common import die, mixture, pool_rolls, roll_dist, wide

BOUNDS = ('functions of 1-3 parameters; dice with up to 3 symbolic faces, pools of up to 3 dice; every distinct roll gives an arbitrary integer result '
          '(or a symbolic die, sequence, None, blank in every pattern listed); weights 1..20; dice of up to 70 fixed faces, pools up to 4d6, 6d3 and 12d2 and 4 parameters with fixed faces and two or three symbolic weights; 1-6 parameters of any type given dice by position or by keyword')
LARGE = 3      # paths per case also replayed with inputs beyond float precision
BUDGET = {'quick': 500, 'thorough': 1800}
HI, LO = 'highest first', 'lowest first'


class Fn:
    """an arbitrary function: equal arguments give equal results"""

    def __init__(self, S, kinds='n', limit=None):
        self.S, self.kinds, self.table, self.calls = S, kinds, [], 0

    def key(self, a):
        if self.S.is_die(a):
            return ('die',) + tuple(a.vals) + tuple(a.probs)
        if isinstance(a, (int, float)):
            return (a,)
        if a is None or self.S.is_blank(a):
            return ('blank',)
        return ('seq',) + tuple(a)

    def same(self, k, j):
        return len(k) == len(j) and all(self.eq1(x, y) for x, y in zip(k, j))

    def eq1(self, x, y):
        if isinstance(x, str) or isinstance(y, str):
            return isinstance(x, str) and isinstance(y, str) and x == y
        return self.S.val_eq(x, y)

    def __call__(self, *args):
        k = tuple(self.key(a) for a in args)
        for j, r in self.table:
            if len(j) == len(k) and all(self.same(x, y) for x, y in zip(j, k)):
                return r
        r = self.result(len(self.table))
        self.table.append((k, r))
        return r

    def result(self, i):
        S, L = self.S, self.S.lib
        kind = self.kinds[i % len(self.kinds)]
        if kind == 'n':
            return S.int('r%d' % i)
        if kind == 'f':
            return S.real('r%d' % i)
        if kind == 'c':
            return (i * 7) % 11 - 3
        if kind == 'u':
            return 1000 - 7 * i
        if kind == 'd':     # a die with its own scale
            return L.RV([10 + i, 20 + i], [S.int('rw%d' % i, 1, 20), 2])
        if kind == 'D':
            return L.RV([1, 2, 30 + i], [1, 1, 3])
        if kind == 's':
            return L.Seq(S.int('r%d' % i), 100)
        if kind == 'l':
            return [S.int('r%d' % i), (1,)]
        if kind == 'e':
            return L.Seq()
        if kind == '0':
            return None
        if kind == 'b':
            return L.BlankRV()
        raise ValueError(kind)

    def dist(self, r):
        """distribution of a result; None: dropped"""
        if r is None or self.S.is_blank(r):
            return None
        if self.S.is_die(r):
            return list(zip(r.vals, r.probs))
        if isinstance(r, (int, float)):
            return [(r, 1)]
        t = 0
        for x in r:
            t = t + (x if isinstance(x, (int, float)) else sum(x))
        return [(t, 1)]


def expect(S, res, f, rolls):
    """rolls: list of (args, weight)"""
    parts = []
    for args, w in rolls:
        d = f.dist(f(*args))
        if d is not None:
            parts.append((d, w))
    if not parts:
        S.check(S.is_blank(res), 'nothing left: blank')
        return
    S.check(not S.is_blank(res), 'not blank')
    S.same_dist(res, mixture(parts))


def deco(S, full):
    return S.lib.anydice_casting() if full else S.lib.anydice_type_casting()


def num1(S, k, kinds='n', full=True, kw=False, zero=False):
    """f(A:n) with a die"""
    T = S.lib.T_N
    f = Fn(S, kinds)

    def g(A: T):
        return f(A)
    g.__annotations__['A'] = T
    d, p = die(S, 'd', k, lo=0 if zero else 1, hi=20)
    g = deco(S, full)(g)
    res = g(A=d) if kw else g(d)
    expect(S, res, f, [((v,), w) for v, w in p])


def num1pool(S, n, kinds='n', full=True):
    """f(A:n) with a pool: its sums"""
    T = S.lib.T_N
    f = Fn(S, kinds)

    def g(A):
        return f(A)
    g.__annotations__['A'] = T
    d, p = die(S, 'd', 2, hi=20)
    expect(S, deco(S, full)(g)(S.lib.roll(n, d)), f, [((v,), w) for v, w in roll_dist(p, n)])


def num2(S, kinds='n', same=False, kw=False, faces=None, full=True):
    """f(A:n, B:n), independent"""
    T = S.lib.T_N
    f = Fn(S, kinds)

    def g(A, B):
        return f(A, B)
    g.__annotations__.update(A=T, B=T)
    d, p = die(S, 'd', 2, faces=faces, hi=20)
    e, q = (d, p) if same else die(S, 'e', 2, faces=faces and faces[:2], hi=20)
    h = deco(S, full)(g)
    res = h(d, B=e) if kw else h(d, e)
    expect(S, res, f, [((x, y), v * w) for x, v in p for y, w in q])


def num3(S):
    T = S.lib.T_N
    f = Fn(S, 'c')

    def g(A, B, C):
        return f(A, B, C)
    g.__annotations__.update(A=T, B=T, C=T)
    d, p = die(S, 'd', faces=(1, 2), hi=20)
    e, q = die(S, 'e', faces=(1, 5), hi=20)
    h, r = die(S, 'h', faces=(0, 3), hi=20)
    expect(S, deco(S, True)(g)(d, e, h), f, [((x, y, z), u * v * w) for x, u in p for y, v in q for z, w in r])


def seq1(S, n, kinds='n', order=HI, k=2, full=True, kw=False, faces=None):
    """f(S:s) with a pool: all sorted rolls"""
    T = S.lib.T_S
    if order == LO:
        S.lib.settings_set('position order', LO)
    f = Fn(S, kinds)

    def g(A):
        return f(A)
    g.__annotations__['A'] = T
    d, p = die(S, 'd', k, faces=faces, hi=20)
    h = deco(S, full)(g)
    x = S.lib.roll(n, d)
    res = h(A=x) if kw else h(x)
    expect(S, res, f, [((r if order == HI else r[::-1],), w) for r, w in pool_rolls(p, n)])


def big(S, form, kinds='c'):
    """dice with many faces, pools of many rolls, many parameters"""
    L = S.lib
    f = Fn(S, kinds)
    n, _, k = form.partition('d')
    if form[0] == 'w':          # one parameter, many faces
        d, p = wide(S, 'd', int(form[1:]), start=-3)

        def g(A):
            return f(A)
        g.__annotations__['A'] = L.T_N
        res, exp = deco(S, True)(g)(d), [((v,), w) for v, w in p]
    elif form[0] == 'x':        # two parameters
        d, p = wide(S, 'd', 7, sym=2)
        e, q = wide(S, 'e', 9, start=0, step=2, sym=2)

        def g(A, B):
            return f(A, B)
        g.__annotations__.update(A=L.T_N, B=L.T_N)
        res, exp = deco(S, True)(g)(d, e), [((x, y), v * w) for x, v in p for y, w in q]
    elif form[0] == 'p':        # many parameters
        m = int(form[1:])
        ds = [die(S, 'd%d' % i, faces=(i, i + 2), hi=9) if i in (0, 2) else (L.RV([0, 1], [1, i]), [(0, 1), (1, i)]) for i in range(m)]

        def g(A, B, C, D, *E):
            return f(A, B, C, D, *E)
        g.__annotations__.update(A=L.T_N, B=L.T_S, C=L.T_N, D=L.T_S)
        res = deco(S, True)(g)(*[d for d, _ in ds[:4]])
        exp = [((a, (b,), c, (d,)), u * v * w * x) for a, u in ds[0][1] for b, v in ds[1][1] for c, w in ds[2][1] for d, x in ds[3][1]]
    else:                       # a pool as a sequence
        d, p = wide(S, 'd', int(k), sym=2, hi=9)

        def g(A):
            return f(A)
        g.__annotations__['A'] = L.T_S
        res, exp = deco(S, True)(g)(L.roll(int(n), d)), [((r,), w) for r, w in pool_rolls(p, int(n))]
    expect(S, res, f, exp)


def params(S, types, args, passing, order=HI, kinds='u', full=True):
    """any number of parameters of any kinds, passed by position, by keyword (in any order) or both
    types: n number, s sequence, d die, p unannotated; args: D die, P pool of 2, W six-sided die, N number, Q sequence"""
    L = S.lib
    if order == LO:
        L.settings_set('position order', LO)
    f = Fn(S, kinds)
    names = 'ABCDEFGH'[:len(types)]
    given, alts = [], []
    for i, (t, a) in enumerate(zip(types, args)):
        if a in 'DP':
            d, p = die(S, 'd%d' % i, faces=(i, i + 3), hi=9) if i < 2 else (L.RV([0, 2], [1, i]), [(0, 1), (2, i)])
        if a == 'W':
            d, p = wide(S, 'd%d' % i, 6, sym=1, hi=9)
        if a in 'DW':
            x, nums, seqs = d, p, [((v,), w) for v, w in p]
        elif a == 'P':
            x = L.roll(2, d)
            nums, seqs = roll_dist(p, 2), [(r if order == HI else r[::-1], w) for r, w in pool_rolls(p, 2)]
        elif a == 'N':
            x = S.int('a%d' % i)
            nums, seqs = [(x, 1)], [((x,), 1)]
        elif a == 'Q':
            y, z = S.ints('a%d' % i, 2)
            x = L.Seq(y, z)
            nums, seqs = [(y + z, 1)], [((y, z), 1)]
        given.append(x)
        alts.append(nums if t == 'n' else seqs if t == 's' else None)
    seen = []

    def call(*xs):
        seen.append([x for x, alt in zip(xs, alts) if alt is None])
        return f(*[x for x, alt in zip(xs, alts) if alt is not None])
    src = 'lambda %s: call(%s)' % (', '.join(names), ', '.join(names))
    g = eval(src, {'call': call})
    g.__name__ = 'g'
    g.__annotations__ = {c: {'n': L.T_N, 's': L.T_S, 'd': L.T_D}[t] for c, t in zip(names, types) if t != 'p'}
    k = {'pos': len(types), 'kw': 0, 'wk': 0, 'last': len(types) - 1, 'first': 1, 'half': len(types) // 2}[passing]
    rest = list(zip(names, given))[k:]
    if passing in ('wk', 'half'):
        rest = rest[::-1]
    res = deco(S, full)(g)(*given[:k], **dict(rest))
    exp = [((), 1)]
    for alt in alts:
        if alt is not None:
            exp = [(r + (v,), u * w) for r, u in exp for v, w in alt]
    dice = any(a in 'DPW' and t in 'ns' for t, a in zip(types, args))
    if dice:
        expect(S, res, f, exp)
    else:
        S.check(S.eq(res, f(*exp[0][0])), 'result of the only call')
    for xs in seen:
        want = [x for x, alt in zip(given, alts) if alt is None]
        S.check(len(xs) == len(want), 'arguments passed on')
        for x, y, t in zip(xs, want, [t for t in types if t in 'dp']):
            if t == 'p' or S.is_die(y):
                S.check(x is y, 'passed unchanged')
            else:
                S.same_dist(x, [(e, 1) for e in (y if not isinstance(y, (int, float)) else [y])])


def seqmix(S, form, kinds='c'):
    """sequence, number, die and plain parameters together"""
    L = S.lib
    f = Fn(S, kinds)
    d, p = die(S, 'd', faces=(1, 4), hi=20)
    e, q = die(S, 'e', faces=(0, 2), hi=20)
    pool = L.roll(2, d)
    pr = pool_rolls(p, 2)
    seen = []
    if form == 's,n':
        def g(A, B):
            return f(A, B)
        g.__annotations__.update(A=L.T_S, B=L.T_N)
        res = deco(S, True)(g)(pool, e)
        exp = [((r, y), u * w) for r, u in pr for y, w in q]
    elif form == 'n,s':
        def g(A, B):
            return f(A, B)
        g.__annotations__.update(A=L.T_N, B=L.T_S)
        res = deco(S, True)(g)(e, pool)
        exp = [((y, r), u * w) for y, w in q for r, u in pr]
    elif form == 's,s':
        def g(A, B):
            return f(A, B)
        g.__annotations__.update(A=L.T_S, B=L.T_S)
        res = deco(S, True)(g)(pool, e)
        exp = [((r, (y,)), u * w) for r, u in pr for y, w in q]
    elif form == 'n,d':
        def g(A, B):
            seen.append(B)
            return f(A)
        g.__annotations__.update(A=L.T_N, B=L.T_D)
        res = deco(S, True)(g)(e, pool)
        exp = [((y,), w) for y, w in q]
    elif form == 'n,plain':
        def g(A, B):
            seen.append(B)
            return f(A)
        g.__annotations__.update(A=L.T_N)
        res = deco(S, True)(g)(e, pool)
        exp = [((y,), w) for y, w in q]
    elif form == 'plain,n,default':
        def g(X, A, C=5):
            seen.append(X)
            S.check(C == 5, 'default reaches the function')
            return f(A)
        g.__annotations__.update(A=L.T_N)
        res = deco(S, True)(g)(pool, e)
        exp = [((y,), w) for y, w in q]
    elif form == 'kw':
        def g(X, A, C=5):
            seen.append(X)
            S.check(C == 9, 'keyword reaches the function')
            return f(A)
        g.__annotations__.update(A=L.T_N)
        res = deco(S, True)(g)(pool, A=e, C=9)
        exp = [((y,), w) for y, w in q]
    elif form == 'const,n':
        a = S.int('a')

        def g(X, A):
            S.check(S.eq(X, a), 'number reaches the function')
            return f(A)
        g.__annotations__.update(X=L.T_N, A=L.T_N)
        res = deco(S, True)(g)(a, e)
        exp = [((y,), w) for y, w in q]
    elif form == 'seqarg,n':
        a, b = S.ints('a', 2)

        def g(X, A):
            S.check(S.eq(X, a + b), 'the sum of the sequence reaches the function')
            return f(A)
        g.__annotations__.update(X=L.T_N, A=L.T_N)
        res = deco(S, True)(g)(L.Seq(a, b), e)
        exp = [((y,), w) for y, w in q]
    expect(S, res, f, exp)
    for x in seen:
        S.check(S.is_die(x) and len(x) == 2, 'the pool reaches the function unchanged')
        S.same_dist(x, roll_dist(p, 2), 'unchanged argument')


def convert(S, want, given, full):
    """arguments that are not dice are converted to the kind the parameter expects; the result is returned as is"""
    L = S.lib
    a, b = S.ints('a', 2)
    r = S.real('r')
    t = S.choose('t', [False, True]) if given == 'bool' else False
    arg, flat = {
        'num': (a, [a]), 'real': (r, [r]), 'bool': (t, [int(t)]), 'seq': (L.Seq(a, b), [a, b]), 'get_seq': (L.get_seq(a, [b, 3]), [a, b, 3]),
        'list': ([a, [b]], [a, b]), 'tuple': ((a,), [a]), 'range': (range(1, 4), [1, 2, 3]), 'empty': (L.Seq(), []), 'emptylist': ([], []),
    }[given]
    got = []
    res_val = S.int('res')

    def g(A):
        got.append(A)
        return res_val
    if want != 'none':
        g.__annotations__['A'] = {'n': L.T_N, 's': L.T_S, 'd': L.T_D}[want]
    res = deco(S, full)(g)(arg)
    S.check(len(got) == 1, 'called once')
    x = got[0]
    if want == 'none':
        S.check(x is arg, 'unannotated arguments are passed unchanged')
    elif want == 'n':
        S.check(isinstance(x, (int, float)), 'a number is passed')
        S.check(S.eq(x, sum(flat)), 'number')
    elif want == 's':
        S.check(not isinstance(x, (int, float)) and not S.is_die(x), 'a sequence is passed')
        S.check(S.vec_eq(list(x), flat), 'sequence')
    else:
        S.check(S.is_die(x), 'a die is passed')
        S.same_dist(x, [(v, 1) for v in flat] or [(0, 1)])
    S.check(S.eq(res, res_val), 'result returned')


def keep(S, what):
    """dice for die parameters and results without dice pass through"""
    L = S.lib
    d, p = die(S, 'd', 2, hi=20)
    pool = L.roll(2, d)
    got = []

    def g(A, B=None):
        got.append(A)
        return A if B is None else B
    g.__annotations__['A'] = L.T_D
    h = L.anydice_casting()(g)
    if what == 'die':
        res = h(pool)
        S.check(got[0] is pool or len(got[0]) == 2, 'same die')
        S.same_dist(got[0], roll_dist(p, 2))
        S.same_dist(res, roll_dist(p, 2))
        S.check(len(res) == 2, 'still a pool')
    elif what == 'seqresult':
        a, b = S.ints('a', 2)
        res = h(pool, L.Seq(a, b))
        S.check(S.vec_eq(list(res), [a, b]), 'sequence result kept')
    elif what == 'none':
        def n(A):
            return None
        n.__annotations__['A'] = L.T_N
        S.check(S.is_blank(L.anydice_casting()(n)(S.int('a'))), 'no result means blank')
        S.check(S.is_blank(L.anydice_casting()(n)(d)), 'no result on any roll means blank')


def cases(tier):
    c = []
    G = dict(gcd='one', wtie=True)
    for full in (True, False):
        for k in (1, 2, 3):
            c.append(Case(num1, k=k, full=full, **G))
        for kinds in ('d', 'nd', 'dn', 'n0', '0n', 'nb', 'sd', 'ln', 'dD', '0b', 'en', 'fn'):
            c.append(Case(num1, k=2, kinds=kinds, full=full, **G))
    for kinds in ('ndn', 'n0d', '0dn', 'dDn', 'bbn', 'nbn', 'dd0'):
        c.append(Case(num1, k=3, kinds=kinds, max_time=15, **G))
    c.append(Case(num1, k=2, kw=True, **G))
    c.append(Case(num1, k=2, zero=True, gcd='one', nl=True))
    for n in (2, 3):
        c.append(Case(num1pool, n=n, **G))
        c.append(Case(num1pool, n=n, full=False, kinds='cd', **G))
    for kinds in ('n', 'c', 'cd', 'n0c'):
        for kw in (False, True):
            c.append(Case(num2, kinds=kinds, kw=kw, faces=(1, 2) if kinds == 'n' else None, max_time=15, **G))
    c.append(Case(num2, same=True, kinds='c', **G))
    c.append(Case(num2, same=True, kinds='n', faces=(-1, 3), **G))
    c.append(Case(num3, **G))
    for n in (1, 2, 3):
        for order in (HI, LO):
            c.append(Case(seq1, n=n, order=order, kinds='n' if n < 3 else 'c', **G))
            c.append(Case(seq1, n=n, order=order, kinds='cd0', **G))
    c.append(Case(seq1, n=2, k=3, kinds='c', **G))
    c.append(Case(seq1, n=3, k=3, kinds='c', faces=(1, 2, 3), **G))
    c.append(Case(seq1, n=4, k=2, kinds='c', **G))
    c.append(Case(seq1, n=2, kinds='c', full=False, kw=True, **G))
    for form in ('s,n', 'n,s', 's,s', 'n,d', 'n,plain', 'plain,n,default', 'kw', 'const,n', 'seqarg,n'):
        for kinds in ('c', 'cd', 'c0'):
            c.append(Case(seqmix, form=form, kinds=kinds, **G))
    for form in ('w8', 'w12', 'w30', 'w70', 'x', 'p4', '2d6', '3d6', '4d6', '6d3', '8d2', '12d2', '2d12', '5d4'):
        c.append(Case(big, form=form, kinds='u', max_time=30, **G))
    for form in ('w12', 'w30', '2d6', '6d3', '8d2'):
        c.append(Case(big, form=form, kinds='c', max_time=30, **G))
    for form in ('w8', 'w12', '3d4'):
        c.append(Case(big, form=form, kinds='ccdcc0c', max_time=30, **G))
        c.append(Case(big, form=form, kinds='uuuun', max_time=6, **G))
    for passing in ('pos', 'kw', 'wk', 'last', 'first', 'half'):
        for types, args in (('nnn', 'DDD'), ('nnn', 'WDD'), ('nns', 'DDP'), ('snn', 'PDN'), ('nsn', 'DPD'), ('nnnn', 'DDDD'), ('nnnn', 'DNDQ'), ('sns', 'PWP'), ('ndp', 'DPD'), ('pnd', 'DDN'), ('dns', 'QDQ'),
                            ('nnnnn', 'DDDDD'), ('npnsd', 'DPDPN'), ('nsnsn', 'DDNQD'), ('nnnnnn', 'DDDNDD'), ('ss', 'PP'), ('ns', 'NP'), ('nn', 'DN'), ('nns', 'NNQ'), ('nnnnnnn', 'NNDNNQD')):
            c.append(Case(params, types=types, args=args, passing=passing, order=LO if passing == 'last' else HI, full=passing != 'wk', max_time=20, **G))
    for want in ('n', 's', 'd', 'none'):
        for given in ('num', 'real', 'bool', 'seq', 'get_seq', 'list', 'tuple', 'range', 'empty', 'emptylist'):
            c.append(Case(convert, want=want, given=given, full=given != 'list'))
    for w in ('die', 'seqresult', 'none'):
        c.append(Case(keep, what=w))
    if tier == 'thorough':
        for full in (True, False):
            c.append(Case(num1, k=4, full=full, max_time=600, max_paths=10 ** 6, weight=5, **G))
            c.append(Case(num2, kinds='n', full=full, max_time=600, max_paths=10 ** 6, weight=5, **G))
            c.append(Case(seq1, n=3, kinds='n', full=full, max_time=600, max_paths=10 ** 6, weight=5, **G))
        for kinds in ('ncd0', 'dndn', 'ddd', 'nsn', 'lln'):
            c.append(Case(num1, k=3, kinds=kinds, max_time=300, max_paths=10 ** 6, **G))
            c.append(Case(num2, kinds=kinds, max_time=300, max_paths=10 ** 6, **G))
            c.append(Case(seq1, n=2, k=2, kinds=kinds, max_time=300, max_paths=10 ** 6, **G))
    return c
