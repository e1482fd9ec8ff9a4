"""Blank dice: every operator x operand kind x side with symbolic operands, against the documented table."""
import operator
import math
from sx.run import Case
from .common import PYOPS, die

BOUNDS = ('all 15 binary and 8 unary operators, both sides, plain and special blank, with a number (any integer or real), a sequence of up to 3 integers, a die of up to 3 faces, '
          'a pool of 2, a text and either blank; functions of up to 3 parameters of every type with blanks at every place (by position and by name); roll counts and dice of every kind')
ASSUMPTIONS = ['between two blanks the left one decides, except in a plain blank plus, minus or or a special one']
LARGE = 3      # paths per case also replayed with inputs beyond float precision
BUDGET = {'quick': 500, 'thorough': 900}
CMP = ('==', '!=', '<', '<=', '>', '>=')
LOGIC = ('&', '|')
KINDS = ('int', 'float', 'seq', 'empty', 'die', 'pool', 'text', 'blank', 'special')
UNARY = {'neg': operator.neg, 'pos': operator.pos, 'not': operator.invert, 'abs': abs, 'round': round, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}


def blank(S, special=False):
    b = S.lib.roll(S.lib.get_seq([])) if False else S.lib.roll(1, S.lib.Seq())
    return S.lib.roll(b, 6) if special else b


def kind(S, x):
    """'blank', 'special' or None"""
    return ('special' if x._special_null else 'blank') if hasattr(x, '_special_null') else None


def operand(S, k, nm='x'):
    """-> operand and a description to compare results with"""
    L = S.lib
    if k == 'int':
        n = S.int(nm)
        return n, ('num', n)
    if k == 'float':
        n = S.real(nm)
        return n, ('num', n)
    if k in ('seq', 'empty'):
        v = S.ints(nm, 0 if k == 'empty' else 3)
        return L.Seq(list(v)), ('seq', v)
    if k in ('die', 'pool'):
        d, p = die(S, nm, 2 if k == 'pool' else 3)
        if k == 'pool':
            d = L.roll(2, d)
            return d, ('die', [(x + y, a * b) for x, a in p for y, b in p])
        return d, ('die', p)
    if k == 'text':
        t = list(L.get_seq([S.tok(nm)]))[0]
        return t, ('text', t)
    return blank(S, k == 'special'), (k, None)


def is_it(S, got, desc, label, neg=False):
    """got is the operand (negated), unchanged"""
    what, v = desc
    if what in ('blank', 'special'):
        S.check(kind(S, got) == what, label)
    elif what == 'num':
        S.check(S.is_num(got) and S.eq(got, -v if neg else v), label)
    elif what == 'seq':
        if S.is_num(got):  # the sequence counts as its sum
            t = 0
            for x in v:
                t = t + x
            S.check(S.eq(got, -t if neg else t), label)
        else:
            S.check(not neg and len(got) == len(v) and all(S.eq(a, b) for a, b in zip(list(got), v)), label)
    elif what == 'die':
        S.check(S.is_die(got), label)
        S.same_dist(got, [(-x if neg else x, p) for x, p in v], label)
    else:
        S.check(S.val_eq(got, v), label)


def binary(S, op, k, special, left):
    b = blank(S, special)
    x, desc = operand(S, k)
    f = PYOPS[op]
    lab = '%s %s' % (op, k)
    if k == 'text' and op == '-' and left and not special:
        return S.check(S.raises(lambda: f(b, x), TypeError), 'texts have no negative')
    if k in ('blank', 'special') and not left:
        b, desc, special = x, ('special' if special else 'blank', None), k == 'special'
        x = blank(S, desc[0] == 'special')
        got = f(b, x)
    else:
        got = f(b, x) if left else f(x, b)
    if special:
        if op in CMP or op in LOGIC:
            S.check(S.is_num(got) and S.eq(got, 1), 'a special blank is 1 under ' + lab)
        else:
            S.check(kind(S, got) == 'special', 'a special blank stays itself under ' + lab)
    elif op in ('+', '-') or (op == '|' and k not in ('blank', 'special')):
        is_it(S, got, desc, 'a blank is absorbed by ' + lab, neg=op == '-' and left)
    else:
        S.check(kind(S, got) == 'blank', 'a blank makes the result blank under ' + lab)


def unary(S, op, special):
    b = blank(S, special)
    got = UNARY[op](b)
    if special and op == 'not':
        S.check(S.is_num(got) and S.eq(got, 1), 'not of a special blank is 1')
    else:
        S.check(kind(S, got) == ('special' if special else 'blank'), 'blank under ' + op)


def lang(S, special):
    """the names compiled programs use"""
    L = S.langlib()
    b = blank(S, special)
    S.check(S.eq(L['myLen'](b), 1 if special else 0) and S.eq(len(b), 1 if special else 0), 'length of a blank')
    for f, op in ((L['myAnd'], '&'), (L['myOr'], '|')):
        for k in ('int', 'die'):
            for left in (True, False):
                x, desc = operand(S, k)
                got = f(b, x) if left else f(x, b)
                if special:
                    S.check(S.is_num(got) and S.eq(got, 1), 'special blank in logic')
                elif op == '|':
                    is_it(S, got, desc, 'blank or x')
                else:
                    S.check(kind(S, got) == 'blank', 'blank and x')
    got = L['myInvert'](b)
    S.check(S.is_num(got) and S.eq(got, 1) if special else kind(S, got) == 'blank', 'not blank')
    S.check(S.raises(lambda: bool(b), TypeError), 'a blank is no condition')
    S.check(S.raises(lambda: b @ S.int('x'), TypeError), 'a blank is no position')
    k = S.int('k')
    got = L['myMatmul'](k, b)
    if not special:
        S.check(kind(S, got) == 'blank', 'position of a blank')
    elif k == 1:
        S.check(kind(S, got) == 'special', 'first position of a special blank')
    else:
        S.check(S.is_num(got) and S.eq(got, 0), 'other positions of a special blank')
    S.check(S.eq(b.mean(), 0) and S.eq(b.std(), 0), 'mean and deviation of a blank')


def call(S, types, args, named):
    """a blank for a number or sequence: special blank, body not run; for a die: body runs and sees the blank"""
    T = S.mod('typings')
    ty = {'N': T.T_N, 'S': T.T_S, 'D': T.T_D, '?': None}
    seen = []
    names = 'ABC'[:len(types)]

    def body(vals):
        seen.append(vals)
        return 7
    f = [None, lambda A: body([A]), lambda A, B: body([A, B]), lambda A, B, C: body([A, B, C])][len(types)]
    f.__annotations__ = {n: ty[t] for n, t in zip(names, types) if t != '?'}
    f = S.mod('decorators').anydice_type_casting()(f)
    vals = []
    for i, a in enumerate(args):
        vals.append(blank(S, a == 'special') if a in ('blank', 'special') else operand(S, a, names[i])[0])
    r = f(*vals[:len(vals) - named], **dict(list(zip(names, vals))[len(vals) - named:]))
    if any(a in ('blank', 'special') and t in 'NS' for a, t in zip(args, types)):
        S.check(kind(S, r) == 'special' and not seen, 'a blank argument for a number or sequence: special blank, no call')
    else:
        S.check(len(seen) > 0, 'called')
        for i, (a, t) in enumerate(zip(args, types)):
            if a in ('blank', 'special'):
                S.check(all(kind(S, v[i]) == a for v in seen), 'blank handed to the function as it is')


def rolling(S, n, d):
    L = S.lib
    if d == 'none':
        x = None
    elif d == 'list':
        x = []
    else:
        x = operand(S, d, 'd')[0]
    if n == 'single':
        if d == 'special':
            S.check(kind(S, L.roll(x)) == 'blank', 'roll of a special blank die')
        else:
            S.check(kind(S, L.roll(x)) == 'blank', 'roll of a blank or empty die')
        return
    y = operand(S, n, 'n')[0] if n != 'small' else 2
    if n == 'int':
        S.assume(y >= -3)
        S.assume(y <= 3)
    r = L.roll(y, x)
    if d in ('blank', 'special'):
        S.check(kind(S, r) == 'blank', 'rolling a blank die is blank')
    elif n in ('blank', 'special'):
        S.check(kind(S, r) == 'special', 'a blank count makes the special blank')
    else:
        S.check(kind(S, r) == 'blank', 'rolling an empty die is blank')


def cases(tier):
    c = []
    T = dict(max_time=30, max_paths=500, witness=2, nl=True, gcd='one', wtie=True)
    for op in PYOPS:
        for k in KINDS:
            for special in (False, True):
                for left in (True, False):
                    c.append(Case(binary, op=op, k=k, special=special, left=left, **T))
    for u in UNARY:
        for special in (False, True):
            c.append(Case(unary, op=u, special=special, **T))
    for special in (False, True):
        c.append(Case(lang, special=special, **T))
    A = ('int', 'seq', 'die', 'blank', 'special')
    for t in 'NSD?':
        for a in A[3:]:
            for named in (0, 1):
                c.append(Case(call, types=t, args=[a], named=named, **T))
    for t in ('NN', 'ND', 'DN', 'NS', 'SN', 'DD', 'SD', 'DS', 'SS', 'N?', '?S', 'D?'):
        for a in A:
            for b in A:
                if {a, b} & {'blank', 'special'}:
                    for named in (0, 1, 2):
                        c.append(Case(call, types=t, args=[a, b], named=named, **T))
    for t in ('NDS', 'DNN', 'SDN', 'DDD'):
        for i in range(3):
            a = ['die', 'int', 'die']
            for b in ('blank', 'special'):
                a[i] = b
                for named in (0, 2):
                    c.append(Case(call, types=t, args=list(a), named=named, **T))
    for d in ('blank', 'special', 'empty', 'list'):
        for n in ('single', 'int', 'seq', 'die', 'float', 'small', 'blank', 'special'):
            c.append(Case(rolling, n=n, d=d, **T))
    for d in ('int', 'seq', 'die', 'pool', 'text'):
        for n in ('blank', 'special'):
            c.append(Case(rolling, n=n, d=d, **T))
    return c
