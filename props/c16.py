"""Settings histories: every sequence of up to three set / reset / use operations over all option names and kinds of values (numbers symbolic),
then the state and the behaviour of every option is compared with a model."""
from sx.run import Case

BOUNDS = ('histories of up to 3 operations (thorough 4): set of each of the 6 public options, 4 internal or unknown names, to each of 22 kinds of values (any integer; texts in any case; fractions, dice, sequences, '
          'blanks, functions, None), reset, and uses of the options; state checked after every operation, behaviour after the last (numbers up to 4)')
BUDGET = {'quick': 500, 'thorough': 2400}
NAMES = ['position order', 'explode depth', 'maximum function depth', 'RV_TRUNC', 'RV_IGNORE_ZERO_PROBS', 'DEFAULT_OUTPUT_WIDTH', 'DEFAULT_PRINT_FN']
BAD = ['INTERNAL_CURR_DEPTH', 'INTERNAL_CURR_DEPTH_WARNING_PRINTED', 'Position order', 'explode depth ', '', 'depth', 'rv_trunc', 'default_output_width']
DEFAULT = {'position order': 'highest first', 'explode depth': 2, 'maximum function depth': 10, 'RV_TRUNC': False, 'RV_IGNORE_ZERO_PROBS': False, 'DEFAULT_OUTPUT_WIDTH': 180}
INTS = ('explode depth', 'maximum function depth', 'DEFAULT_OUTPUT_WIDTH')
BOOLS = ('RV_TRUNC', 'RV_IGNORE_ZERO_PROBS')
VALUES = ['int', 'small', 'highest first', 'lowest first', 'Lowest first', 'highest', '', 'true', 'False', 'TRUE', 'fAlse', 'yes', '1', 'True', 'False!', 'float', 'half', 'none', 'die', 'seq', 'blank', 'special', 'fn', 'list']


def value(S, kind, tag, seen):
    L = S.lib
    if kind == 'int':
        return S.int('v%s' % tag)
    if kind == 'small':
        return S.int('v%s' % tag, -1, 4)
    if kind == 'float':
        return 2.0
    if kind == 'half':
        return 0.5
    if kind == 'True':
        return True
    if kind == 'False!':
        return False
    if kind == 'none':
        return None
    if kind == 'die':
        return L.RV([1, 2], [1, 1])
    if kind == 'seq':
        return L.get_seq([1, 2])
    if kind == 'blank':
        return L.BlankRV()
    if kind == 'special':
        return L.BlankRV(_special_null=True)
    if kind == 'fn':
        return seen.append
    if kind == 'list':
        return ['highest first']
    return kind


def legal(S, name, kind, v):
    """may the option have this value? -> (legal, value it then has)"""
    if name == 'position order':
        return kind in ('highest first', 'lowest first'), v
    if name in INTS:
        if kind in ('int', 'small'):
            return bool(v > 0), v
        return None if kind in ('True', 'False!') else False, v     # a Python bool is an integer: not decided here
    if name in BOOLS:
        if kind in ('True', 'False!'):
            return True, v
        if kind in ('true', 'False', 'TRUE', 'fAlse'):
            return True, kind.lower() == 'true'
        return False, v
    if name == 'DEFAULT_PRINT_FN':
        return kind == 'fn', v
    return False, v


def check_state(S, model, label):
    st = S.mod('settings').SETTINGS
    for n in NAMES:
        if n in DEFAULT:
            a, b = st[n], model[n]
            if isinstance(b, (int, float)) and not isinstance(b, bool):
                S.check(isinstance(a, (int, float)) and S.eq(a, b), label + ': ' + n)
            else:
                S.check(type(a) is type(b) and a == b, label + ': ' + n)
        else:
            S.check(st[n] is model[n] or st[n] == model[n], label + ': ' + n)


def use(S, what):
    """operations that read the options"""
    L = S.lib
    with S.quiet():
        if what == 'roll':
            1 @ L.roll(2, L.RV([1, 2], [1, 1]))
        elif what == 'explode':
            S.langlib()['explode_X'](L.RV([1, 2], [1, 1]))
        elif what == 'deep':
            f = L.anydice_casting()(lambda n: f(n + 1) if n < 40 else 1)
            f(0)
        elif what == 'output':
            L.output(L.RV([1, 2], [1, 1]), print_=False)


def behaviour(S, model, seen):
    """the options do what they say"""
    L = S.lib
    S.assume(bool(model['explode depth'] <= 4) and bool(model['maximum function depth'] <= 12) and bool(model['DEFAULT_OUTPUT_WIDTH'] <= 200))
    two = L.RV([1, 2], [1, 1])
    S.same_dist(1 @ L.roll(2, two), [(1, 1), (2, 3)] if model['position order'] == 'highest first' else [(1, 3), (2, 1)], 'position order in effect')
    e = S.langlib()['explode_X'](two)
    d = S.eng.concretize(model['explode depth']) if not S.concrete else model['explode depth']
    S.check(S.eq(max(e.vals), 2 * (int(d) + 1)), 'explode depth in effect')
    calls = []

    def f(n):
        calls.append(n)
        return g(n + 1)
    g = L.anydice_casting()(f)
    with S.quiet():
        g(0)
    S.check(S.eq(len(calls), model['maximum function depth']), 'maximum function depth in effect')
    S.check(tuple(L.RV([1.5, 2], [1, 1]).vals) == ((1, 2) if model['RV_TRUNC'] else (1.5, 2)), 'truncation in effect')
    S.check(len(L.RV([1, 2], [1, 0]).vals) == (1 if model['RV_IGNORE_ZERO_PROBS'] else 2), 'zero weights in effect')
    w = S.eng.concretize(model['DEFAULT_OUTPUT_WIDTH']) if not S.concrete else model['DEFAULT_OUTPUT_WIDTH']
    S.check(L.output(two, print_=False).split('\n')[-1] == '-' * (int(w) + 8), 'output width in effect')
    if model['DEFAULT_PRINT_FN'] == seen.append:
        n = len(seen)
        L.output(two)
        S.check(len(seen) == n + 1, 'printer in effect')


def history(S, ops, probe=True):
    L = S.lib
    seen = []
    st = S.mod('settings').SETTINGS
    printer = st['DEFAULT_PRINT_FN']
    base = dict(DEFAULT, DEFAULT_PRINT_FN=printer)
    model = dict(base)
    check_state(S, model, 'defaults')
    for i, op in enumerate(ops):
        if op == 'reset':
            L.settings_reset()
            model = dict(base)
        elif op[0] == 'use':
            use(S, op[1])
        else:
            _, name, kinds = op
            kind = S.choose('kind%d' % i, kinds)
            v = value(S, kind, i, seen)
            ok, w = legal(S, name, kind, v)
            e = S.raises(lambda: L.settings_set(name, v))
            if ok is None:
                S.assume(e is not None)
            else:
                S.check((e is None) == ok, 'set "%s" to %s: %s' % (name, kind, 'accepted' if ok else 'rejected'))
            if ok:
                model[name] = w
        check_state(S, model, 'after step %d' % i)
    if probe:
        behaviour(S, model, seen)
    if ops and ops[-1] == 'reset':
        S.check(set(S.mod('settings').SETTINGS) == set(S.mod('settings').DEFAULT_SETTINGS), 'all options exist')


def cases(tier):
    big = tier == 'thorough'
    c = []
    G = dict(nl=True, max_time=60, max_paths=5000, witness=3, gcd='one')
    for n in NAMES + BAD:
        c.append(Case(history, ops=[('set', n, VALUES)], probe=n in NAMES, **G))
        c.append(Case(history, ops=[('set', n, VALUES), 'reset'], probe=False, **G))
    good = {'position order': ['lowest first', 'highest first'], 'explode depth': ['small'], 'maximum function depth': ['small'], 'RV_TRUNC': ['True', 'False!', 'true'], 'RV_IGNORE_ZERO_PROBS': ['True', 'fAlse'],
            'DEFAULT_OUTPUT_WIDTH': ['small'], 'DEFAULT_PRINT_FN': ['fn']}
    bad = {'position order': ['highest', 'special', 'list', 'int'], 'explode depth': ['half', 'float', 'true', '1'], 'maximum function depth': ['half', 'none', 'die'], 'RV_TRUNC': ['yes', '1', 'int'], 'RV_IGNORE_ZERO_PROBS': ['none', 'seq'],
           'DEFAULT_OUTPUT_WIDTH': ['half', 'none'], 'DEFAULT_PRINT_FN': ['none', 'true']}
    for a in NAMES:
        for b in NAMES:
            c.append(Case(history, ops=[('set', a, good[a]), ('set', b, good[b])], name='good good(%s,%s)' % (a, b), **G))
            c.append(Case(history, ops=[('set', a, good[a]), ('set', b, bad[b])], name='good bad(%s,%s)' % (a, b), **G))
        for u in ('roll', 'explode', 'deep', 'output'):
            c.append(Case(history, ops=[('set', a, good[a]), ('use', u), 'reset'], name='set use reset(%s,%s)' % (a, u), **G))
            c.append(Case(history, ops=[('use', u), ('set', a, good[a])], name='use set(%s,%s)' % (a, u), **G))
            c.append(Case(history, ops=['reset', ('use', u), ('set', a, good[a])], name='reset use set(%s,%s)' % (a, u), **G))
        c.append(Case(history, ops=[('set', a, good[a]), 'reset', 'reset'], name='set reset reset(%s)' % a, **G))
        c.append(Case(history, ops=[('set', a, good[a]), 'reset', ('set', a, good[a] + bad[a])], name='set reset set(%s)' % a, **G))
        c.append(Case(history, ops=[('set', a, good[a]), ('set', a, bad[a]), ('set', a, good[a])], name='set bad set(%s)' % a, **G))
        if big:
            for b in NAMES:
                for d in NAMES:
                    c.append(Case(history, ops=[('set', a, good[a]), ('set', b, good[b]), ('set', d, good[d] + bad[d])], name='three(%s,%s,%s)' % (a, b, d), **G))
                    c.append(Case(history, ops=[('set', a, good[a]), ('set', b, good[b]), 'reset', ('set', d, good[d])], name='four(%s,%s,%s)' % (a, b, d), **G))
    c.append(Case(history, ops=['reset'], **G))
    return c
