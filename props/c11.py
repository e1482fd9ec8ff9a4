"""History independence: an operation is executed in a fresh instance of the package and in one that has already executed other operations
(on the same or on arbitrary other dice); results must agree, and earlier operands and results must not change."""
from sx.run import Case
from .c18 import value
from .common import die

BOUNDS = ('pairs and selected triples of earlier operations and one later operation out of 45; dice with 2-3 arbitrary faces and weights 1..20 (or fixed faces, arbitrary weights); '
          'rolls of up to 7 dice; all pairs of 34 operations on one shared pool and of 22 on one shared sequence and of 27 on dice and sequences with texts (up to 3 terms), each under its own settings; histories include changed and restored settings, failed calls and printed reports')
LARGE = 3      # paths per case also replayed with inputs beyond float precision
BUDGET = {'quick': 500, 'thorough': 2400}
G = dict(gcd='one', wtie=True)


class Env:
    """operands, built from the same numbers in every instance of the package"""

    def __init__(self, S, L, raw):
        self.S, self.L = S, L
        (v, w), (x, u) = raw
        self.d = L.RV(v, w)
        self.e = L.RV(x, u)
        self.s = L.Seq(*v)
        self.v, self.w = v, w

    def operands(self):
        return [self.d, self.e]


def call(L, kind, ret):
    def f(A):
        return ret(A)
    f.__annotations__['A'] = {'n': L.T_N, 's': L.T_S, 'd': L.T_D}[kind]
    return L.anydice_casting()(f)


def boom(x):
    raise ValueError('boom')


def swallow(f):
    try:
        f()
    except Exception:
        pass
    return None


def with_setting(L, name, val, back, f):
    L.settings_set(name, val)
    try:
        return f()
    finally:
        L.settings_set(name, back)


OPS = {
    'roll1': lambda v: v.L.roll(1, v.d),
    'roll2': lambda v: v.L.roll(2, v.d),
    'roll3': lambda v: v.L.roll(3, v.d),
    'roll4': lambda v: v.L.roll(4, v.d),
    'roll5': lambda v: v.L.roll(5, v.d),
    'roll-2': lambda v: v.L.roll(-2, v.d),
    'roll0': lambda v: v.L.roll(0, v.d),
    'rolle2': lambda v: v.L.roll(2, v.e),
    'rolle3': lambda v: v.L.roll(3, v.e),
    'rolld': lambda v: v.L.roll(v.d),
    'rollseq': lambda v: v.L.roll(2, v.s),
    'rollint': lambda v: v.L.roll(2, 3),
    'rollstr': lambda v: v.L.roll('3d2'),
    'rollrv': lambda v: v.L.roll(v.L.RV([1, 2], [1, 3]), v.d),
    'rollroll': lambda v: v.L.roll(2, v.L.roll(2, v.d)),
    'rollsum': lambda v: v.L.roll(2, v.d + v.d),
    'pos1': lambda v: 1 @ v.L.roll(2, v.d),
    'pos2': lambda v: 2 @ v.L.roll(3, v.d),
    'pos1e': lambda v: 1 @ v.L.roll(2, v.e),
    'pos12': lambda v: v.L.Seq(1, 2) @ v.L.roll(3, v.d),
    'pos1d': lambda v: 1 @ v.d,
    'add': lambda v: v.d + v.e,
    'self': lambda v: v.d + v.d,
    'mul': lambda v: v.d * 2,
    'neg': lambda v: -v.d,
    'cmp': lambda v: v.d < v.e,
    'not': lambda v: ~v.d,
    'absd': lambda v: abs(v.d),
    'seq+': lambda v: v.s + v.d,
    'explode': lambda v: v.L.explode_X(v.d),
    'explode1': lambda v: v.L.explode_X(v.d, depth=1),
    'highest': lambda v: v.L.highest_X_of_X(1, v.L.roll(2, v.d)),
    'lowest': lambda v: v.L.lowest_X_of_X(2, v.L.roll(3, v.d)),
    'count': lambda v: v.L.count_X_in_X(v.s, v.L.roll(2, v.e)),
    'max': lambda v: v.L.maximum_of_X(v.d),
    'calln': lambda v: call(v.L, 'n', lambda x: x * 2)(v.d),
    'calls': lambda v: call(v.L, 's', lambda x: 1 @ x)(v.L.roll(2, v.d)),
    'calld': lambda v: call(v.L, 'd', lambda x: v.L.roll(2, x))(v.d),
    'mix': lambda v: v.L.RV.from_rvs([v.d, v.e, 3], [1, 2, 4]),
    'mean': lambda v: v.d.mean(),
    'meanp': lambda v: v.L.roll(2, v.d).mean(),
    'std': lambda v: v.d.std(),
    'cdf': lambda v: v.d.get_cdf(),
    'filter': lambda v: v.d.filter([v.v[0]]),
    'table': lambda v: [x for r in v.d.get_vals_probs() for x in r],
    'str': lambda v: [str(v.d), str(v.L.roll(2, v.d)), str(v.L.roll(v.d))],
    'str3': lambda v: [str(v.L.roll(3, 6)), str(v.L.roll(2, v.L.roll(1, 6))), str(v.L.roll(0, 4))],
}
# history only: settings changed and restored, failures, printing, mutation by relabelling
HIST = {
    'lowfirst': lambda v: with_setting(v.L, 'position order', 'lowest first', 'highest first', lambda: (1 @ v.L.roll(2, v.d), v.L.Seq(1, 2) @ v.L.roll(3, v.d))),
    'trunc': lambda v: with_setting(v.L, 'RV_TRUNC', True, False, lambda: (v.L.roll(2, v.d), v.L.roll(3, v.e), v.d + v.e)),
    'ignore0': lambda v: with_setting(v.L, 'RV_IGNORE_ZERO_PROBS', True, False, lambda: (v.L.roll(2, v.d), v.L.roll(3, v.d))),
    'depth': lambda v: with_setting(v.L, 'explode depth', 1, 2, lambda: v.L.explode_X(v.d)),
    'fdepth': lambda v: with_setting(v.L, 'maximum function depth', 1, 10, lambda: call(v.L, 'n', lambda x: call(v.L, 'n', lambda y: y)(x))(v.d)),
    'fail': lambda v: swallow(lambda: call(v.L, 'n', boom)(v.d)),
    'fails': lambda v: swallow(lambda: call(v.L, 's', boom)(v.L.roll(2, v.d))),
    'badroll': lambda v: swallow(lambda: v.L.roll(v.L.RV([0.5], [1]), v.d)),
    'badset': lambda v: swallow(lambda: v.L.settings_set('explode depth', 'x')),
    'reset': lambda v: (v.L.settings_set('position order', 'lowest first'), v.L.roll(2, v.d), v.L.settings_reset()),
    'relabel': lambda v: (v.L.roll(v.L.roll(2, v.d)), v.L.roll(1, v.L.roll(3, v.d)), v.L.roll(2, v.L.roll(1, v.d))),
    'zeroidx': lambda v: v.L.Seq(1, 2).set_one_indexed(False),
    'hash': lambda v: (v.d.__hash__(), v.L.roll(2, v.d).__hash__()),
    'blank': lambda v: (v.L.roll(2, v.L.Seq()), v.L.roll(v.L.BlankRV(), v.d), v.L.BlankRV() + v.d),
}
MEMO = ['roll2', 'roll3', 'roll4', 'roll5', 'roll-2', 'rolle2', 'rolle3', 'rollroll', 'rollsum', 'rollseq', 'rollrv']


def raw(S, mode):
    if mode == 'sym':       # two arbitrary dice: they may coincide
        v = S.ints('v', 2)
        x = S.ints('x', 2)
        S.assume(v[0] < v[1])
        S.assume(x[0] < x[1])
        return (v, S.weights('w', 2, 1, 20)), (x, S.weights('u', 2, 1, 20))
    if mode == 'half':      # faces may be reals
        v = [S.int('v0'), S.real('v1', den=2)]
        S.assume(v[0] < v[1])
        return (v, S.weights('w', 2, 1, 20)), ([1, 2], S.weights('u', 2, 1, 20))
    if mode == 'zero':
        w = S.weights('w', 3, 0, 20)
        S.assume(w[0] + w[1] + w[2] > 0)
        return ([-1, 0, 4], w), ([1, 2], S.weights('u', 2, 1, 20))
    return ([-1, 3], S.weights('w', 2, 1, 20)), ([1, 2], S.weights('u', 2, 1, 20))


def agree(S, a, b, label):
    """the same observable result"""
    if S.is_blank(a) or S.is_blank(b):
        S.check(S.is_blank(a) and S.is_blank(b), label + ': blank')
        S.check(a._special_null == b._special_null, label + ': kind of blank')
        return
    S.check(S.is_die(a) == S.is_die(b), label + ': kind')
    if S.is_die(a):
        S.same_dist(b, list(zip(a.vals, a.probs)), label)
        S.check(S.vec_eq(a.vals, b.vals), label + ': faces')
        S.check(len(a) == len(b), label + ': pool size')
        S.check(str(a) == str(b), label + ': printed name')
        if len(a) > 1:
            x, y = 1 @ a, 1 @ b
            S.same_dist(y, list(zip(x.vals, x.probs)), label + ': highest of the pool')
        return
    if isinstance(a, (int, float)) or a is None:
        S.check(a is None and b is None or S.eq(a, b), label)
        return
    a, b = list(a), list(b)
    if a and isinstance(a[0], str):
        S.check(a == b, label + ': text')
    else:
        S.check(S.vec_eq(a, b), label)


def state(S, r):
    if S.is_die(r):
        return (tuple(r.vals), tuple(r.probs), len(r), str(r))
    return None


def same_state(S, a, b, label):
    if a is None:
        return
    S.check(S.And(S.vec_eq(a[0], b[0]), S.vec_eq(a[1], b[1])), label + ': faces and weights')
    S.check(a[2:] == b[2:], label + ': pool size and name')


def history(S, before, op, mode):
    r = raw(S, mode)
    env = Env(S, S.lib, r)
    names = before.split(';')
    first = [state(S, x) for x in env.operands()]
    results = []
    for n in names:
        res = (OPS.get(n) or HIST[n])(env)
        results.append((res, state(S, res) if n in OPS else None))
    for x, y in zip(first, env.operands()):
        same_state(S, x, state(S, y), 'operand')
    used = OPS[op](env)
    fresh_world = S.new_world()
    fresh = OPS[op](Env(S, fresh_world.pkg, r))
    saved, S._world = S._world, fresh_world
    try:
        S_is = S
        agree_cross(S_is, fresh, used, saved, fresh_world)
    finally:
        S._world = saved
    for (res, st), n in zip(results, names):
        if st is not None:
            same_state(S, st, state(S, res), 'earlier result')
    for x, y in zip(first, env.operands()):
        same_state(S, x, state(S, y), 'operand')
    S.check(S.vec_eq(list(env.s), r[0][0]), 'sequence unchanged')


def agree_cross(S, fresh, used, w_used, w_fresh):
    """compare results of two instances (their classes differ)"""
    fb = isinstance(fresh, w_fresh.pkg.BlankRV)
    ub = isinstance(used, w_used.pkg.BlankRV)
    S.check(fb == ub, 'history: blank')
    if fb:
        S.check(fresh._special_null == used._special_null, 'history: kind of blank')
        return
    agree(S, fresh, used, 'history')


def repeat(S, op, mode, k=3):
    """the same operation again and again"""
    r = raw(S, mode)
    env = Env(S, S.lib, r)
    first = OPS[op](env)
    st = state(S, first)
    for _ in range(k - 1):
        agree(S, first, OPS[op](env), 'repeated')
    if st:
        same_state(S, st, state(S, first), 'first result')


# operations on one object that stays alive: a pool P, a sequence Q, a mixture M
SHARED = {
    'pos1': lambda L, P: 1 @ P,
    'pos2': lambda L, P: 2 @ P,
    'pos12': lambda L, P: L.Seq(1, 2) @ P,
    'pos31': lambda L, P: L.Seq(3, 1) @ P,
    'filter': lambda L, P: P.filter([2, P.vals[-1]]),
    'filter0': lambda L, P: P.filter([P.vals[0]]),
    'mean': lambda L, P: P.mean(),
    'std': lambda L, P: P.std(),
    'table': lambda L, P: [x for r in P.get_vals_probs() for x in r],
    'cut': lambda L, P: [x for r in P.get_vals_probs(0.0625) for x in r],
    'cdf': lambda L, P: P.get_cdf(),
    'plus': lambda L, P: P + 1,
    'self': lambda L, P: P - P,
    'half': lambda L, P: P * 0.5,
    'abs': lambda L, P: abs(P),
    'neg': lambda L, P: -P,
    'not': lambda L, P: ~P,
    'eq': lambda L, P: P == 2,
    'roll': lambda L, P: L.roll(2, P),
    'roll1': lambda L, P: L.roll(P),
    'count': lambda L, P: L.roll(P, 2),
    'calln': lambda L, P: call(L, 'n', lambda x: x + 1)(P),
    'calls': lambda L, P: call(L, 's', lambda x: 1 @ x)(P),
    'calld': lambda L, P: call(L, 'd', lambda x: 1 @ x)(P),
    'highest': lambda L, P: L.highest_X_of_X(1, P),
    'middle': lambda L, P: L.middle_X_of_X(1, P),
    'explode': lambda L, P: L.explode_X(P),
    'max': lambda L, P: L.maximum_of_X(P),
    'sort': lambda L, P: L.sort_X(P),
    'mix': lambda L, P: L.RV.from_rvs([P, 1], [2, 1]),
    'str': lambda L, P: [str(P)],
    'len': lambda L, P: len(P),
    'seq': lambda L, P: list(L.Seq(P)),
    'print': lambda L, P: [L.output(P, print_=False, blocks_width=20).count(':')],
}
SHARED_SEQ = {
    'sum': lambda L, Q: Q + 0,
    'at1': lambda L, Q: 1 @ Q,
    'at12': lambda L, Q: L.Seq(1, 2) @ Q,
    'at0': lambda L, Q: 0 @ Q,
    'pick': lambda L, Q: Q @ L.Seq(5, 6, 7, 8),
    'eq': lambda L, Q: Q == 2,
    'lt': lambda L, Q: Q < L.Seq(2, 3),
    'not': lambda L, Q: ~Q,
    'and': lambda L, Q: Q & 1,
    'roll': lambda L, Q: L.roll(2, Q),
    'rolln': lambda L, Q: L.roll(Q, 2),
    'rev': lambda L, Q: L.reverse_X(Q),
    'sort': lambda L, Q: L.sort_X(Q),
    'cnt': lambda L, Q: L.count_X_in_X(1, Q),
    'nest': lambda L, Q: L.Seq(Q, 9, Q),
    'calln': lambda L, Q: call(L, 'n', lambda x: x + 1)(Q),
    'calls': lambda L, Q: call(L, 's', lambda x: L.Seq(x, x))(Q),
    'calld': lambda L, Q: call(L, 'd', lambda x: x + x)(Q),
    'die': lambda L, Q: L.RV.from_seq(Q),
    'filt': lambda L, Q: L.roll(3).filter(Q),
    'len': lambda L, Q: len(Q),
    'iter': lambda L, Q: list(Q),
}
SETS = {'': None, 'low': ('position order', 'lowest first', 'highest first'), 'trunc': ('RV_TRUNC', True, False), 'ign': ('RV_IGNORE_ZERO_PROBS', True, False),
        'exp': ('explode depth', 1, 2)}


def under(L, st, f):
    st = SETS[st]
    return f() if st is None else with_setting(L, *st, f)


def shared(S, obj, a, b, sa='', sb=''):
    """two operations on the same object, each under its own settings"""
    if obj == 'seq':
        v = [S.int('v0', -1, 2), 2]
        make, ops = (lambda L: L.Seq(*v)), SHARED_SEQ
    else:
        w = S.weights('w', 2, 0 if obj == 'zero' else 1, 20)
        S.assume(w[0] + w[1] > 0)
        make, ops = {
            'pool': lambda L: L.roll(3, L.RV([0, 2], w)), 'pool2': lambda L: L.roll(2, L.RV([0.5, 2], w)), 'zero': lambda L: L.roll(2, L.RV([0, 2], w)),
            'pool5': lambda L: L.roll(5, L.RV([0, 2], w)), 'pool7': lambda L: L.roll(7, L.RV([1, 2], w)),
            'die': lambda L: L.RV([-1, 2], w), 'mix': lambda L: L.RV.from_rvs([L.RV([1, 2], w), 2], [1, 2]), 'ints': lambda L: L.roll(2, L.RV([0, 1], w)),
        }[obj], SHARED
    L = S.lib
    P = make(L)
    before = list(P) if obj == 'seq' else state(S, P)
    r1 = S.raises(lambda: under(L, sa, lambda: ops[a](L, P)))
    err = []
    used = fresh = None
    try:
        used = under(L, sb, lambda: ops[b](L, P))
    except (TypeError, AssertionError, ValueError) as e:
        err.append(type(e))
    w2 = S.new_world()
    P2 = make(w2.pkg)
    try:
        fresh = under(w2.pkg, sb, lambda: ops[b](w2.pkg, P2))
    except (TypeError, AssertionError, ValueError) as e:
        err.append(type(e))
    if err:
        S.check(len(err) == 2, 'an operation fails only where it always fails')
    else:
        saved, S._world = S._world, w2
        try:
            agree_cross(S, fresh, used, saved, w2)
        finally:
            S._world = saved
    if obj == 'seq':
        S.check(len(before) == len(list(P)) and S.vec_eq(before, list(P)), 'sequence unchanged')
    else:
        same_state(S, before, state(S, P), 'shared object')


# operations on dice X, Y and a sequence Q with texts among their faces, and a text value V
TEXT = {
    'X+Y': lambda L, e: e.X + e.Y,
    'Y+X': lambda L, e: e.Y + e.X,
    'X+X': lambda L, e: e.X + e.X,
    'X+V': lambda L, e: e.X + e.V,
    'V+X': lambda L, e: e.V + e.X,
    'V+V': lambda L, e: L.RV.from_const(e.V + e.V),
    'V+1': lambda L, e: L.RV.from_const(e.V + 1),
    '1+V': lambda L, e: L.RV.from_const(1 + e.V),
    'X+1': lambda L, e: e.X + 1,
    '1+X': lambda L, e: 1 + e.X,
    'sum': lambda L, e: L.RV.from_const(e.Q.sum()),
    'Q+V': lambda L, e: L.RV.from_const(e.Q + e.V),
    'V+Q': lambda L, e: L.RV.from_const(e.V + e.Q),
    'roll2': lambda L, e: L.roll(2, e.X),
    'rollQ': lambda L, e: L.roll(2, e.Q),
    'pos': lambda L, e: 1 @ L.roll(2, e.X),
    'X<V': lambda L, e: e.X < e.V,
    'X=Y': lambda L, e: e.X == e.Y,
    'sort': lambda L, e: L.roll(1, L.sort_X(e.Q)),
    'filter': lambda L, e: e.X.filter([e.V]),
    'table': lambda L, e: e.X.get_vals_probs() and None,
    'print': lambda L, e: L.output(e.X, print_=False, blocks_width=9) and None,
    'name': lambda L, e: (f'{e.V}', f'{e.V:>20}') and None,
    'calln': lambda L, e: call(L, 'n', lambda x: x + 1)(e.X),
    'calls': lambda L, e: call(L, 's', lambda x: x + x)(e.X),
    'mix': lambda L, e: L.RV.from_rvs([e.X, e.V], [2, 1]),
    'hash': lambda L, e: e.V.__hash__() and None,
}


def shown(S, r):
    return [(str(v), p) for v, p in zip(r.vals, r.probs)] if S.is_die(r) else None


def same_shown(S, a, b, label):
    S.check((a is None) == (b is None) and (a is None or len(a) == len(b)), label + ': kind or number of faces')
    for (x, p), (y, q) in zip(a or (), b or ()):
        S.check(S.text_eq(x, y), label + ': text of a face')
        S.check(S.eq(p, q), label + ': weight')


def texts(S, sx, sy, sv, a, b):
    """the operands of a computation with texts can be used again"""
    L = S.lib
    w, u = S.weights('w', len(sx), 1, 20), S.weights('u', len(sy), 1, 20)

    class E:
        pass

    def make():
        e = E()
        e.X, e.Y = L.RV([value(S, x) for x in sx], w), L.RV([value(S, x) for x in sy], u)
        e.V = value(S, sv)
        e.Q = L.get_seq([value(S, x) for x in sx])
        return e

    def state():
        return [shown(S, e.X), shown(S, e.Y), [(str(e.V), 1)], [(str(x), 1) for x in e.Q]]
    e = make()
    s0 = state()
    r1 = TEXT[a](L, e)
    h1 = shown(S, r1)
    r2 = TEXT[b](L, e)
    for x, y, nm in zip(s0, state(), ('die', 'second die', 'text', 'sequence')):
        same_shown(S, x, y, nm + ' unchanged')
    same_shown(S, h1, shown(S, r1), 'earlier result')
    same_shown(S, shown(S, TEXT[b](L, make())), shown(S, r2), 'result with new operands')


PROGRAMS = [
    'output 2d6', 'A: 5\nfunction: f B:n { result: B + A }\noutput [f d4]', 'output "x" named "n"', 'output 1@3d6\nset "position order" to "lowest first"\noutput 1@3d6',
    'loop P over {1..3} { output P }', 'output 3d{1,2,2}', 'output [explode d3]', 'output #12', 'output 1@123',
]
FLAGS = [{}, {'COMPILER_FLAG_OPERATOR_ON_INT': True}, {'COMPILER_FLAG_NON_LOCAL_SCOPE': True}, {'COMPILER_FLAG_FUNC_LIB_CONFLICT': True}, {'COMPILER_FLAG_FUNC_EXIST_CHECK': False},
         {'COMPILER_FLAG_OPERATOR_ON_INT': True, 'COMPILER_FLAG_NON_LOCAL_SCOPE': True}]


def compiling(S, a, b):
    """the compiled text of a program does not depend on what was compiled before, nor does compiling change the options"""
    f = S.choose('f', FLAGS)
    g = S.choose('g', FLAGS[:2])
    given = dict(f)
    w = S.front()
    with w:
        m = w.mods['dice_calc.parser.parse_and_exec']
        S.raises(lambda: m.compile_anydice(a, given))
        S.check(given == f, 'options unchanged')
        r1 = m.compile_anydice(b, given)
        r2 = m.compile_anydice(b, dict(g))
        r3 = m.compile_anydice(b, given)
    S.check(r1 == S.compile(b, f), 'compiled text')
    S.check(r2 == S.compile(b, g), 'compiled text, other options')
    S.check(r3 == r1, 'compiled text again')


def cases(tier):
    big = tier == 'thorough'
    c = []

    def add(f, **kw):
        c.append(Case(f, **{**G, 'max_time': 60 if big else 10, **kw}))
    for op in OPS:
        add(repeat, op=op, mode='fixed')
        add(repeat, op=op, mode='half' if op not in ('rollrv', 'pos12', 'calls', 'count', 'lowest') else 'sym')
    laters = list(OPS)
    for a in list(OPS) + list(HIST):
        for b in laters:
            if a in ('str', 'str3', 'max', 'mean', 'table', 'absd', 'not') and b in ('max', 'not', 'cmp', 'mul', 'absd', 'filter') and not big:
                continue
            add(history, before=a, op=b, mode='fixed')
    for a in MEMO:
        for b in MEMO + ['pos1', 'pos1e', 'str', 'meanp', 'calls', 'explode', 'highest']:
            if b in ('rollrv', 'rollroll') and a in ('rollrv', 'rollroll', 'rollsum') and not big:
                continue
            add(history, before=a, op=b, mode='sym', witness=4)
    for a in ('roll2', 'trunc', 'roll3', 'rollseq', 'rolle2'):
        for b in ('roll2', 'roll3', 'meanp', 'pos1'):
            add(history, before=a, op=b, mode='half', witness=4)
    for a in ('ignore0', 'roll2', 'ignore0;trunc'):
        for b in ('roll2', 'roll3', 'pos1', 'add', 'self'):
            add(history, before=a, op=b, mode='zero', nl=True)
    trip = ['roll2;roll4', 'roll3;roll2', 'roll5;rolle2', 'rolle3;roll3', 'lowfirst;roll3', 'trunc;roll2', 'roll2;relabel', 'relabel;rollroll', 'fail;fails', 'reset;pos1', 'roll4;pos12',
            'rolld;roll1;relabel', 'roll-2;roll2', 'hash;roll2', 'explode;explode1', 'depth;explode', 'roll2;badset', 'fdepth;calln']
    for t in trip:
        for b in ('roll2', 'roll3', 'roll4', 'roll5', 'roll-2', 'pos1', 'pos2', 'pos12', 'rollroll', 'str', 'str3', 'meanp', 'calls', 'calln', 'rolld', 'explode', 'lowest', 'mix', 'self'):
            add(history, before=t, op=b, mode='fixed')
    for j, (sx, sy, sv) in enumerate(((('ab', 'c'), ('d', '1'), 'ce'), (('a', 'b1'), ('ab',), 'a1'), (('a', '1'), ('b', 'a'), 'b'), (('aab',), ('b2', 'c'), 'ab1'))):
        for i, a in enumerate(TEXT):
            for k, b in enumerate(TEXT):
                if big or a == b or (i * 3 + k * 5 + j) % 7 == 0:
                    add(texts, sx=sx, sy=sy, sv=sv, a=a, b=b, witness=2, nl=True)
    for a in SHARED:
        for b in SHARED if big else ('pos1', 'pos12', 'filter', 'mean', 'table', 'plus', 'self', 'roll', 'count', 'calln', 'calls', 'mix', 'str', 'seq', 'cdf', a):
            add(shared, obj='pool', a=a, b=b, witness=2)
    for obj in ('pool5', 'pool7'):
        for a in ('pos1', 'pos12', 'calls', 'calld', 'highest', 'middle', 'filter', 'self', 'explode', 'mean'):
            for b in ('pos1', 'pos12', 'calls', 'highest', 'lowest', 'count', 'self', 'mean') if big else ('pos1', 'calls', 'highest', a):
                for sa, sb in (('low', ''), ('', 'low')):
                    if a in SHARED and b in SHARED and (obj, a) != ('pool7', 'explode'):
                        add(shared, obj=obj, a=a, b=b, sa=sa, sb=sb, witness=2)
    ORD = ['pos1', 'pos12', 'pos31', 'calls', 'highest', 'middle', 'sort', 'roll', 'calld']
    for a in ORD:
        for b in ORD:
            add(shared, obj='pool', a=a, b=b, sa='low', witness=2)
            add(shared, obj='pool', a=a, b=b, sb='low', witness=2)
    for obj in ('pool2', 'die', 'mix', 'zero'):
        for a in SHARED:
            for b in (a, 'pos1', 'mean') if not big else list(SHARED):
                add(shared, obj=obj, a=a, b=b, witness=2, nl=obj == 'zero')
    for a in ('half', 'plus', 'roll', 'self', 'calln', 'mix', 'cdf', 'pos1', 'explode'):
        for b in ('half', 'plus', 'roll', 'self', 'calln', 'mix', 'cdf', 'pos1', 'explode', 'table', 'mean'):
            for sa, sb in (('trunc', ''), ('', 'trunc'), ('exp', ''), ('', 'exp')):
                add(shared, obj='pool2', a=a, b=b, sa=sa, sb=sb, witness=2)
    for a in ('roll', 'self', 'filter0', 'mix', 'cdf', 'pos1'):
        for b in ('roll', 'self', 'filter0', 'mix', 'cdf', 'pos1', 'table'):
            for sa, sb in (('ign', ''), ('', 'ign')):
                add(shared, obj='zero', a=a, b=b, sa=sa, sb=sb, witness=2, nl=True)
    for a in SHARED_SEQ:
        for b in SHARED_SEQ if big else ('sum', 'at1', 'at12', 'roll', 'sort', 'nest', 'calls', 'die', 'iter', a):
            add(shared, obj='seq', a=a, b=b, witness=2)
    if not big:
        for x in c:
            if 'print' in (x.params.get('a'), x.params.get('b')):
                x.max_time = 1.5
    for i, a in enumerate(PROGRAMS + ['output [nosuch]', 'output (', '', 'A: 1', 'output "abc', 'output $']):
        for j in (0,) if not big else range(len(PROGRAMS)):
            c.append(Case(compiling, a=a, b=PROGRAMS[(i + j) % len(PROGRAMS)], max_time=60, witness=0))
    return c
