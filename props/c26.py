"""Restricted execution: compiled programs are executed by both executors of the package (the restricted one through RestrictedPython's own transformation
of the generated code) on symbolic inputs; outputs, names, errors and settings must agree."""
from sx.run import Case
from . import sized
from .langcommon import outcome, same_value
from .c13 import LIST, CTX, ATOMS, FATOMS, maker
from .c14 import SHADOW, FSETS

BOUNDS = ('the statement programs of C13 (all bodies of one atomic statement in each context, and its list of programs), the redefinition programs of C14, expressions with every operator and operand kind; every '
          'combination of the compiler options; inputs: numbers -2..2 (conditions: any integer), dice of 2 faces with weights 1..9, sequences of 2 numbers, supplied by a function or as variables; two programs in a row')
ASSUMPTIONS = ['RestrictedPython is the installed one; its transformation of the generated code is executed, its guards are real']
BUDGET = {'quick': 500, 'thorough': 900}
G = dict(gcd='one', wtie=True, nl=True)


def agree(S, py, mk, label=''):
    a, b = mk(), mk()
    S.lib.settings_reset()
    got, e1 = outcome(lambda: S.run(py, a))
    s1 = settings(S)
    S.lib.settings_reset()
    safe, e2 = outcome(lambda: S.run(py, b, safe=True))
    s2 = settings(S)
    S.lib.settings_reset()
    S.check((e1 is None) == (e2 is None), label + 'both succeed or both fail: %s / %s' % (e1, e2))
    S.check(set(s1) == set(s2) and all(S.val_eq(s1[k], s2[k]) if isinstance(s1[k], (int, float)) else s1[k] == s2[k] for k in s1), label + 'same settings afterwards')
    if e1 is not None:
        S.check(type(e1).__name__ == type(e2).__name__, label + 'same kind of error: %s / %s' % (e1, e2))
        return
    S.check(len(got) == len(safe), label + 'number of outputs')
    for (x, kx), (y, ky) in zip(got, safe):
        S.check(len(x) == len(y) == 1 and set(kx) == set(ky), label + 'output call')
        same_value(S, y[0], x[0], label + 'output')
        if kx.get('named') is not None or ky.get('named') is not None:
            S.check(S.text_eq(ky.get('named'), kx.get('named')), label + 'name')


def settings(S):
    m = S.mod('settings').SETTINGS
    return {k: m[k] for k in ('RV_IGNORE_ZERO_PROBS', 'RV_TRUNC', 'DEFAULT_OUTPUT_WIDTH', 'position order', 'explode depth', 'maximum function depth') if k in m}


def program(S, text, kinds, flags):
    make = maker(S, kinds)
    py = S.compile(text, flags)

    def mk():
        i = make()
        return {'maximum_of_X': lambda k, *a, **kw: i[k]}
    agree(S, py, mk)


def choice(S, texts, kinds, flags):
    t = S.choose('program', texts)
    make = maker(S, kinds)
    py = S.compile(t, flags)

    def mk():
        i = make()
        return {'maximum_of_X': lambda k, *a, **kw: i[k]}
    agree(S, py, mk, t + ': ')


def given(S, text, kinds, flags):
    """inputs as variables A, B of the program"""
    make = maker(S, kinds)
    py = S.compile(text, flags)
    agree(S, py, lambda: dict(zip('AB', make())))


def apart(S, safe1, safe2):
    """one execution leaves nothing behind for the next"""
    x, y = S.int('x', -9, 9), S.int('y', -9, 9)
    p1 = S.compile('A: B output A+1 function: f X {result: X+100} function: absolute X {result: 7} output [f 1]', {})
    p2 = S.compile('output B output [absolute B]', {})
    p3 = S.compile('output A', {})
    o1 = S.run(p1, {'B': x}, safe=safe1)
    n1 = len(o1)
    o2 = S.run(p2, {'B': y}, safe=safe2)
    S.check(len(o1) == n1 == 2 and len(o2) == 2, 'outputs of its own')
    S.check(S.eq(o1[0][0][0], x + 1) and S.eq(o1[1][0][0], 101), 'first program')
    S.check(S.eq(o2[0][0][0], y) and S.eq(o2[1][0][0], abs(y)), 'second program')
    for p in (p3, S.compile('output B', {})):
        S.check(S.raises(lambda: S.run(p, {}, safe=safe2), NameError) is not None, 'names of an earlier program')
        S.check(S.raises(lambda: S.run(p, None, safe=safe2), NameError) is not None, 'names of an earlier program')


def refused(S, text):
    """names the restricted executor does not take"""
    py = S.compile(text, {})
    S.check(S.raises(lambda: S.run(py, {'N': S.int('n')}, safe=True), SyntaxError) is not None, 'refused')


EXPR = ['A+B', 'A-B', 'A*B', 'A/B', 'A^2', 'A=B', 'A!=B', 'A<B', 'A>=B', 'A&B', 'A|B', '!A', '-A', '+A', '#A', '1@A', '{1,2}@B', 'dA', '2dB', 'AdB', '{A,B}', '{A..B}', '{A,1..2,{B}}', '(A+B)*A', 'd{A,B}', '1@2dA',
        '[absolute A]', '[A contains B]', '[count A in B]', '[explode A]', '[highest 1 of A]', '[lowest of A and B]', '[sort {A,B}]', '[reverse A]', '[true div A B]', '"x"', '{"x",A}', 'A@B']
KINDS = ['nn', 'nD', 'Dn', 'DD', 'nS', 'Sn', 'SD', 'SS']


def cases(tier):
    big = tier == 'thorough'
    c = []
    for i, (text, kinds) in enumerate(LIST):
        for fl in FSETS if big else (FSETS[0], FSETS[1 + i % 7]):
            c.append(Case(program, text=text, kinds=kinds, flags=fl, witness=2, max_time=40, max_paths=4000, **G))
    for what in (sized.control, sized.parameters, sized.expressions, sized.names):
        for i, (kinds, ts) in enumerate(sized.groups(what(big), 24)):
            c.append(Case(choice, texts=ts, kinds=kinds, flags=FSETS[i % 8], name='%s(%d,%s)' % (what.__name__, i, kinds), witness=2, max_time=60, max_paths=4000, **G))
    for i, t in enumerate(SHADOW):
        for fl in FSETS if big else (FSETS[0], FSETS[1 + i % 7]):
            c.append(Case(program, text=t, kinds='n', flags=fl, witness=2, max_time=40, **G))
    for ctx, (tpl, infun) in CTX.items():
        for fl in FSETS if big else FSETS[:4]:
            c.append(Case(choice, texts=[tpl % a for a in (FATOMS if infun else ATOMS)], kinds='nn', flags=fl, name='body(%s,%s)' % (ctx, sorted(fl)), witness=3, max_time=60, max_paths=4000, **G))
    for i, e in enumerate(EXPR):
        for j, k in enumerate(KINDS):
            if big or (i + j) % 2 == 0:
                c.append(Case(given, text='output %s named "[A] [B]" X: %s output X' % (e, e), kinds=k, flags=FSETS[2] if (i + j) % 4 else {}, witness=2, max_time=20, **G))
    for a in (True, False):
        for b in (True, False):
            if a or b:
                c.append(Case(apart, safe1=a, safe2=b, **G))
    for t in ('_A: N output _A', '_A: 1 output N', 'output _A', '__A: 3 output 1', 'loop _I over {1,2} {output _I}', 'function: f _A {result: _A} output [f N]'):
        c.append(Case(refused, text=t))
    return c
