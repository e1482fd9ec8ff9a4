"""Independence of compilations: programs are compiled after other programs (well-formed or not, with arbitrary tokens, any options) in the same instance
of the package and in a fresh one; compiled programs are executed several times, with other programs in between, on symbolic inputs."""
from sx.run import Case
from .langcommon import outcome, same_value
from .c13 import LIST, maker
from .c14 import FSETS
from .c15 import toks

BOUNDS = ('one or two earlier compilations out of 30 programs (14 of them rejected: illegal characters, open strings and comments, syntax errors, unknown functions, no output, unknown options) under any options, then '
          'one of 12 programs under any options; six texts compiled three times under any options; earlier programs with one arbitrary token at any place of 6 programs; every program of the C13 list executed twice and with another program in between, inputs as in C13')
ASSUMPTIONS = ['settings changed by a program stay changed (C16); they are reset between the compared executions']
BUDGET = {'quick': 500, 'thorough': 900}
G = dict(gcd='one', wtie=True, nl=True)

BAD = ['output $1', 'output "a', '\\ open output 1', 'output (1', 'function: f A { result: A', 'output [nope 1]', 'A: 1', 'output 1 output', '}', 'output {1,', 'if 1 { output 1', 'output 1 named "[A"', 'output A 1', 'loop A over {1} {']
GOOD = ['output 1', 'output 2d6 named "a b"', 'A: 3 output A', 'function: f A:n { result: A+1 } output [f 2]', 'function: nope A { result: 7 } output [nope 1]', 'function: f { result: 5 } output [f]', 'loop A over {1..3} { output A }',
        'if 1 { output 1 } else { output 2 }', 'output 1@{3,4}', 'set "explode depth" to 3 output [explode d4]', 'output "x[A]y" A: 2', 'function: absolute A { result: 1 } output [absolute 0-5]', 'output !1 & 2', 'output #{1,2}',
        '\\ c \\ output 1.5', 'function: f A B A { result: A } output [f 1 2 3]']
LATER = ['output 1', 'output 2d6 named "a[A]b" A: 1', 'output [f 1]', 'output [f 2] function: f A { result: A }', 'output [nope 1]', 'output [absolute 0-5]', 'A: 2 output A & 1', 'output "a"', '\\ c \\ output #{1}',
         'loop A over {1,2} { if A=1 { output A } else { output 0 } }', 'function: f A:n { result: 2@A } output [f 12]', 'output (1']
KEYS = ('COMPILER_FLAG_NON_LOCAL_SCOPE', 'COMPILER_FLAG_OPERATOR_ON_INT', 'COMPILER_FLAG_FUNC_LIB_CONFLICT', 'COMPILER_FLAG_FUNC_EXIST_CHECK')
_alone = {}


def comp(m, text, flags):
    f = dict(flags) if flags is not None else None
    try:
        r = 'ok', m.compile_anydice(text, flags=f)
    except Exception as e:
        r = 'err', type(e).__name__
    return r, f


def alone(S, text, flags):
    """in an instance of the package that has compiled nothing else"""
    k = text, repr(flags)
    if k not in _alone:
        with S.front() as w:
            _alone[k] = comp(w.mods['dice_calc.parser.parse_and_exec'], text, flags)[0]
    return _alone[k]


def agree(S, got, exp, label):
    S.check(got[0] == exp[0], label + 'accepted: %s, alone: %s' % (got, exp))
    if got[0] != 'ok' or got[1] == exp[1]:
        return
    S.lib.settings_reset()
    a, ea = outcome(lambda: S.run(got[1], {}))
    S.lib.settings_reset()
    b, eb = outcome(lambda: S.run(exp[1], {}))
    same_outputs(S, a, ea, b, eb, label)


def same_outputs(S, a, ea, b, eb, label):
    S.check((ea is None) == (eb is None), label + 'both fail or none: %s / %s' % (ea, eb))
    if ea is not None:
        S.check(type(ea).__name__ == type(eb).__name__, label + 'same error')
        return
    S.check(len(a) == len(b), label + 'number of outputs')
    for (x, kx), (y, ky) in zip(a, b):
        S.check(len(x) == len(y) == 1, label + 'output call')
        same_value(S, y[0], x[0], label + 'output')
        S.check((kx.get('named') is None) == (ky.get('named') is None), label + 'named')
        if kx.get('named') is not None:
            S.check(S.text_eq(kx['named'], ky['named']), label + 'name')


def flagsets():
    return [None, {}] + FSETS[1:] + [{'COMPILER_FLAG_NOPE': True}, {'COMPILER_FLAG_FUNC_EXIST_CHECK': False}]


def after(S, first, group, fset, twice=False):
    later = S.choose('later', group)
    fl = flagsets()
    f1 = S.choose('f1', fl if fset is None else [fl[fset % len(fl)], fl[(3 * fset + 1) % len(fl)]])
    f2 = S.choose('f2', fl if fset is None else [fl[(5 * fset + 2) % len(fl)]])
    with S.front() as w:
        m = w.mods['dice_calc.parser.parse_and_exec']
        before = dict(w.mods['dice_calc.settings'].SETTINGS)
        r1, g1 = comp(m, first, f1)
        if twice:
            comp(m, 'function: f A { result: A } output [f 1', f2)
            comp(m, first, f1)
        r2, g2 = comp(m, later, f2)
        r3, _ = comp(m, later, f2)
        S.check(g1 == f1 and g2 == f2, 'options given are left alone')
        S.check(dict(w.mods['dice_calc.settings'].SETTINGS) == before, 'compiling changes no setting')
    agree(S, r1, alone(S, first, f1), 'first: ')
    agree(S, r2, alone(S, later, f2), 'later: ')
    agree(S, r3, alone(S, later, f2), 'again: ')


def same(S, text, i, share):
    """one text under different options, one after another"""
    fl = flagsets() + [dict.fromkeys(KEYS, False), dict.fromkeys(KEYS, True)] + [{k: b} for k in KEYS for b in (False, True)]
    f2 = S.choose('f2', fl)
    f3 = S.choose('f3', fl) if share else fl[i]
    with S.front() as w:
        m = w.mods['dice_calc.parser.parse_and_exec']
        got = []
        d = {}
        for f in (fl[i], f2, f3):
            if share and f is not None:      # the same dict object, filled differently
                d.clear()
                d.update(f)
                try:
                    r = 'ok', m.compile_anydice(text, flags=d)
                except Exception as e:
                    r = 'err', type(e).__name__
            else:
                r, _ = comp(m, text, f)
            got.append((f, r))
    for f, r in got:
        agree(S, r, alone(S, text, f), 'options %s: ' % (f,))


def tokens(S, text, at, what):
    """an earlier program with an arbitrary token"""
    t = toks(text)
    if what == 'replace':
        t[at] = S.token('0')
    else:
        t.insert(at, S.token('0'))
    S.accepted(t)
    for later in ('output [a 1] function : a A { result : A }', 'output [a 1]', 'output A "s"', 'output 1'):
        agree(S, S.compile_again(later), alone(S, later, None), '%r: ' % later)


BETWEEN = ['output 1', 'A: 99 B: 98 N: 97 function: f A {result: 100} function: g A {result: 101} output [f 1]', 'set "position order" to "lowest first" set "maximum function depth" to 1 output 1@2d6', 'function: f {result: [f]} output [f]',
           'function: f A:n {result: A/0} output [f d2]']


def rerun(S, text, kinds, flags, between, safe):
    make = maker(S, kinds)

    def mk():
        x = make()
        return {'maximum_of_X': lambda k, *args, **kw: x[k]}
    py = S.compile(text, flags)
    S.lib.settings_reset()
    a, ea = outcome(lambda: S.run(py, mk(), safe=safe))
    S.lib.settings_reset()
    if between is not None:
        outcome(lambda: S.run(S.compile(BETWEEN[between], flags), {}, safe=safe))
        S.lib.settings_reset()
    b, eb = outcome(lambda: S.run(py, mk(), safe=safe))
    S.lib.settings_reset()
    same_outputs(S, a, ea, b, eb, 'executed again: ')


def cases(tier):
    big = tier == 'thorough'
    c = []
    for j, first in enumerate(BAD + GOOD):
        for k in range(2 if not big else 12):
            c.append(Case(after, first=first, group=LATER[(j + k) % 4::4] if not big else [LATER[k]], fset=None if big else j + k, twice=(j + k) % 5 == 0, max_time=300 if big else 40, max_paths=100000, witness=2))
    for j, t in enumerate(['output [nope 1]', 'output 1@23', 'function: absolute A { result: 9 } output [absolute 0-5]', 'A: 1 function: f B { A: B result: A } output [f 5] output A', 'output 1 & 2 output [f]', 'output "$' ]):
        for i in range(len(flagsets()) + 10):
            for share in (False, True) if big else (False,) if (i + j) % 4 else (True,):
                c.append(Case(same, text=t, i=i, share=share, max_time=300 if big else 40, max_paths=100000, witness=2))
    for t in ('output 1 + A named "s"', 'function : a A { result : A } output [ a 1 ]', 'if A { output 1 } else { output A }', 'loop A over { 1 , A } { output A }', 'A : { 1 .. 2 } output # A', 'set "s" to 1 output d 1'):
        for i in range(len(toks(t))):
            for what in ('replace', 'insert'):
                c.append(Case(tokens, text=t, at=i, what=what, max_time=60 if big else 20, max_paths=20000, witness=2))
    for i, (text, kinds) in enumerate(LIST):
        for b in (None, *range(len(BETWEEN))) if big else (None, i % len(BETWEEN)):
            for safe in (False, True) if big else (i % 3 == 0,):
                c.append(Case(rerun, text=text, kinds=kinds, flags=FSETS[(i + (b or 0)) % len(FSETS)], between=b, safe=safe, **G, max_time=60 if big else 15, max_paths=5000, witness=1))
    return c
