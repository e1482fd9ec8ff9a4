"""Depth limit: call trees driven by symbolic scripts (call, typed call over a die, return, fail, catch, change the limit), limit symbolic; the harness counts
nesting itself and compares, call by call, what ran and what came back, and afterwards measures the depth still available."""
from sx.run import Case

BOUNDS = ('scripts of up to 6 steps (thorough 8) over: nested call, nested call of another function, call over a 2-face die, return a number / nothing / a die, raise an exception / a BaseException, '
          'catch it in any caller or not at all, change the limit in the middle; limits 1..4 and any starting depth; compiled recursive programs with symbolic arguments 0..7 and limits 1..6')
ASSUMPTIONS = ['settings_reset is not called from inside a running function']
BUDGET = {'quick': 500, 'thorough': 1800}


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


OPS = ('call', 'try', 'other', 'die', 'ret', 'none', 'raise', 'stop', 'limit', 'rv')


def kit(S, alphabet, steps):
    """decorated functions whose bodies follow the script"""
    T = S.mod('typings')
    dec = S.mod('decorators')
    L = S.lib
    st = dict(level=0, pos=0, lim=None, ran=0)

    def op():
        i = st['pos']
        if i >= steps:
            return 'ret'
        st['pos'] += 1
        return S.choose('s%d' % i, alphabet)

    def invoke(f, *args, runs=1):
        """call f, check whether it ran, hand on its failure"""
        lvl, lim, before = st['level'], st['lim'], st['ran']
        allowed = bool(lvl < lim)
        try:
            r = f(*args)
        except (Boom, Stop):
            S.check(allowed and st['ran'] > before, 'a truncated call does not fail')
            raise
        finally:
            st['level'] = lvl
        if allowed:
            S.check(st['ran'] >= before + runs, 'a call within the limit is executed')
            S.check(r is not None, 'a call without result is blank')
        else:
            S.check(st['ran'] == before, 'a call beyond the limit is not executed')
            S.check(S.is_blank(r) and not r._special_null, 'and is blank')
        return r

    def body(v=None):
        st['level'] += 1
        st['ran'] += 1
        lvl = st['level']
        while True:
            o = op()
            if o == 'call':
                invoke(f)
            elif o == 'other':
                invoke(g, 3)
            elif o == 'die':
                invoke(h, L.RV([1, 2], [1, 1]), runs=2)
            elif o == 'try':
                try:
                    invoke(f)
                except (Boom, Stop):
                    pass
            elif o == 'raise':
                raise Boom()
            elif o == 'stop':
                raise Stop()
            elif o == 'limit':
                st['lim'] = S.int('newlim%d' % st['pos'], 1, 4)
                L.settings_set('maximum function depth', st['lim'])
            elif o == 'none':
                st['level'] = lvl - 1
                return None
            elif o == 'rv':
                st['level'] = lvl - 1
                return L.RV([1, 2], [1, 1])
            else:
                st['level'] = lvl - 1
                return 1

    def hbody(v):
        # the faces of a die: bodies at the same level; only the first follows the script further
        st['ran'] += 1
        if bool(v == 1):
            st['ran'] -= 1
            return body(v)
        return 2

    f = dec.anydice_casting()(lambda: body())

    def g_(A):
        return body(A)
    g_.__annotations__ = {'A': T.T_S}
    g = dec.anydice_casting()(g_)

    def h_(A):
        return hbody(A)
    h_.__annotations__ = {'A': T.T_N}
    h = dec.anydice_casting()(h_)
    return st, f, invoke


def depth_available(S):
    """how deep calls can nest now"""
    dec = S.mod('decorators')
    n = [0]

    def f():
        n[0] += 1
        if n[0] < 12:
            r()
        return 1
    r = dec.anydice_casting()(f)
    r()
    return n[0]


def script(S, ops, steps, hi=4, dec='both'):
    L = S.lib
    lim = S.int('lim', 1, hi)
    L.settings_set('maximum function depth', lim)
    st, f, invoke = kit(S, ops, steps)
    st['lim'] = lim
    for _ in range(2):   # two top-level calls
        try:
            invoke(f)
        except (Boom, Stop):
            pass
    S.check(S.eq(depth_available(S), st['lim']), 'the whole depth is available again')
    L.settings_set('maximum function depth', 3)
    S.check(S.eq(depth_available(S), 3), 'and a new limit holds')


def prog(S, text, hi, lo=0):
    """compiled recursion"""
    py = S.compile(text)
    n = S.int('n', lo, hi)
    lim = S.int('lim', 1, 6)
    out = S.run(py, dict(maximum_of_X=lambda k, *a, **kw: [n, lim][k]))
    a, b = int_of(n), int_of(lim)
    return out, n, lim


def int_of(x):
    return x


def count_down(S):
    """1 per executed level: min(n, limit)"""
    out, n, lim = prog(S, 'set "maximum function depth" to [maximum of 1] function: f N:n { if N = 0 { result: 0 } result: 1 + [f N-1] } output [f [maximum of 0]] output [f [maximum of 0]]', 7)
    for (a, _) in out:
        S.check(S.eq(a[0], n if n < lim else lim), 'recursion truncated exactly at the limit')


def sub_call(S):
    """two calls at the same level both run"""
    out, n, lim = prog(S, 'set "maximum function depth" to [maximum of 1] function: g X:n { result: X } function: f N:n { if N = 0 { result: [g 1] + [g 1] } result: [g 1] + [f N-1] + [g 1] } output [f [maximum of 0]]', 7)
    # level k (1-based) runs if k <= lim; g inside level k runs if k + 1 <= lim
    lv = n + 1 if n + 1 < lim else lim
    exp = 0
    k = 1
    while k <= lv:
        if k + 1 <= lim:
            exp = exp + 2
        k = k + 1
    got = out[0][0][0]
    if S.is_blank(got):
        S.check(S.eq(exp, 0), 'blank only when nothing ran')
    else:
        S.check(S.eq(got, exp), 'calls at the same level')


def exhausted(S):
    """infinite recursion ends, later calls have the full depth"""
    out, n, lim = prog(S, 'set "maximum function depth" to [maximum of 1] function: f N:n { result: [f N+1] + 1 } function: h N:n { if N = 0 { result: 0 } result: 1 + [h N-1] } output [f 0] output [h [maximum of 0]] output [f 5]', 7)
    S.check(S.eq(out[0][0][0], lim), 'infinite recursion counts the limit')
    S.check(S.eq(out[1][0][0], n if n < lim else lim), 'later calls')
    S.check(S.eq(out[2][0][0], lim), 'again')


def failing(S):
    """an error in the middle of a program leaves the full depth to the next program of the process"""
    text = 'set "maximum function depth" to [maximum of 1] function: f N:n { if N = 0 { result: 1/0 } result: 1 + [f N-1] } output [f [maximum of 0]]'
    py = S.compile(text)
    n, lim = S.int('n', 0, 7), S.int('lim', 1, 6)
    env = dict(maximum_of_X=lambda k, *a, **kw: [n, lim][k])
    e = S.raises(lambda: S.run(py, dict(env)), ZeroDivisionError)
    S.check((e is not None) == bool(n < lim), 'error reached')
    S.check(S.eq(depth_available(S), lim), 'depth restored after the error')
    m = S.int('m', 0, 7)
    out = S.run(S.compile('function: h N:n { if N = 0 { result: 0 } result: 1 + [h N-1] } output [h [maximum of 0]]'), dict(maximum_of_X=lambda k, *a, **kw: m))
    S.check(S.eq(out[0][0][0], m if m < lim else lim), 'next program')


def direct(S):
    """max_func_depth on its own"""
    dec = S.mod('decorators')
    lim = S.int('lim', 1, 4)
    S.lib.settings_set('maximum function depth', lim)
    n = [0]
    want = S.int('want', 1, 6)

    def f(x):
        n[0] += 1
        if n[0] < want:
            r(x)
        return None
    r = dec.max_func_depth()(f)
    res = r(1)
    S.check(S.eq(n[0], want if want < lim else lim), 'as many nested calls as wanted or allowed')
    S.check(S.is_blank(res) and not res._special_null, 'no result is blank')


def cases(tier):
    big = tier == 'thorough'
    c = []
    T = dict(max_time=600 if big else 60, max_paths=60000, witness=4, gcd='one', wtie=True)
    groups = [('call', 'raise'), ('call', 'try', 'raise'), ('call', 'ret', 'raise'), ('call', 'try', 'stop'), ('call', 'other', 'ret'), ('die', 'call', 'raise'),
              ('die', 'try', 'raise', 'none'), ('other', 'try', 'raise', 'ret'), ('call', 'limit', 'ret'), ('try', 'limit', 'raise'), ('call', 'none', 'rv', 'die'), ('die', 'other', 'stop', 'try')]
    for g in groups:
        for n in ((5, 8) if big else (4, 5 if len(g) > 3 else 6)):
            if big and n == 8 and len(g) > 3:
                n = 7
            c.append(Case(script, ops=g, steps=n if 'limit' not in g else min(n, 4 if not big else 5), **T))
    c.append(Case(script, ops=OPS, steps=3 if not big else 4, hi=3, **T))
    for fn in (count_down, sub_call, exhausted, failing, direct):
        c.append(Case(fn, **T))
    return c
