"""Text and names.  Text: the real code generator runs on program texts containing symbolic characters (any code point); the generated code is
executed and the solver shows that every character arrives unchanged.  Concrete special characters and the whole pipeline (lexer included) are
covered by symbolic choices over class representatives.  Names: functions of every problematic name are defined and called next to all other
constructs, on symbolic arguments, under every combination of options."""
import builtins
import keyword
from itertools import combinations, product
from sx.run import Case
from . import sized
from .langcommon import compare
from .reflang import LIBRARY, KEYWORDS

BOUNDS = ('texts of up to 3 arbitrary characters (any code point except surrogates, quote, line feed and "[" - the last two end or structure a string) in 7 contexts; texts of up to 3 (thorough 4) '
          'characters over 34 representatives of everything special to the language, Python strings and line splitting, with bracketed variables; function names: every Python keyword, '
          'lower-case builtin, name of the generated code and library name, alone and in pairs, all option combinations; arguments any number; '
          'names of up to 80 letters and words, texts of up to 80 characters and 40 variables in any mixture; 25 separators (white space, comments of every form) between any tokens of 8 programs')
ASSUMPTIONS = ['an unescaped character inside a Python string literal means itself unless it is the quote, a backslash, a brace (formatted strings), a line end or NUL (Python language definition)',
               'empty quotes are nothing (they yield no token), as in the grammar']
BUDGET = {'quick': 500, 'thorough': 2400}
G = dict(gcd='one', wtie=True, nl=True)
FLAGS = ('COMPILER_FLAG_NON_LOCAL_SCOPE', 'COMPILER_FLAG_OPERATOR_ON_INT', 'COMPILER_FLAG_FUNC_LIB_CONFLICT')
FSETS = [dict.fromkeys(c, True) for n in range(4) for c in combinations(FLAGS, n)]


def out_texts(outs):
    """texts an output shows: its value and name"""
    r = []
    for args, kw in outs:
        r.append(args[0])
        r.append(kw.get('named'))
    return r


CONTEXTS = {  # program with T for the text; then the texts expected, in order
    'value': ('output "T"', ['T', None]),
    'name': ('output 1 named "T"', [1, 'T']),
    'name of var': ('A: 5 output A named "T[A]T"', [5, 'T5T']),
    'var first': ('A: 5 output A named "[A]T"', [5, '5T']),
    'assigned': ('A: "T" output A named "[A]"', ['T', 'T']),
    'in function': ('function: f A:n {output A named "T" result: A} output [f 3]', [3, 'T', 3, None]),
    'in loop': ('loop I over {1,2} {if I {output I named "T[I]"} else {output 0 named "T"}}', [1, 'T1', 2, 'T2']),
}


def symtext(S, n, ctx, flags, pad=''):
    t = ''.join(S.char(str(i), exclude='"\n[') for i in range(n))
    if pad:
        t = pad + t + pad
    tpl, exp = CONTEXTS[ctx]
    py = S.compile_sym(tpl.replace('T', t), flags)
    S.check(S.unescaped_ok(py), 'characters of the text stand for themselves in the generated code')
    outs = S.run(py, {})
    got = out_texts(outs)
    S.check(len(got) == len(exp), 'outputs')
    for g, e in zip(got, exp):
        if isinstance(e, str):
            S.check(isinstance(g, str) and S.same_text(g, e.replace('T', t)), 'the text arrives unchanged')
        else:
            S.check(g == e, 'the rest of the program is unchanged')


# everything special somewhere: Python strings, f-strings, formats, comments of the language, line ends of str.splitlines, brackets, quotes
CH = ['\\', '{', '}', '[', ']', 'A', 'a', '0', "'", '%', '$', '#', ' ', '\t', '\r', '\x0b', '\x0c', '\x1c', '\x85', '\u2028', '\0', '\x7f', '\xe9', '\U0001f600', 'n', 'x', 'N', 'u', '_', '!', ':', '"', '\n', '*']
CORE = ['\\', '{', '}', '[', ']', 'A', 'n', "'", '\r', '\0', ' ', '\u2028', 'x']


def fulltext(S, texts, ctx, flags):
    """full pipeline on chosen texts, against the reference interpreter"""
    t = S.choose('text', texts)
    tpl, _ = CONTEXTS[ctx]
    compare(S, tpl.replace('T', t) if 'A:' in tpl else 'A: 5 ' + tpl.replace('T', t), None, flags, label='%r: ' % t)


def seqtext(S, texts, flags):
    t = S.choose('text', texts)
    n = S.int('n', -50, 50)
    compare(S, 'A: 4 output {"%s", 1, "b"} output d{"%s","%s"} set "explode depth" to 2 output "%s" named "%s" output N' % (t, t, t, t, t), lambda: {'N': n}, flags, label='%r: ' % t)


NAMES = sorted(set(k for k in keyword.kwlist if k.islower() and k.isalpha()) | set(n for n in dir(builtins) if n.isalpha() and n.islower()) |
               {'roll', 'output', 'vars', 'len', 'get seq', 'myrange', 'settings set', 'anydice casting', 'max func depth', 'math', 'random', 'itertools', 'functools', 'named', 'dummy', 'self', 'x', 'f', 'named',
                'result', 'function', 'loop', 'over', 'set', 'to', 'if', 'else', 'true div', 'contains', 'absolute', 'lambda', 'n', 's', 'match', 'case', 'copy', 'args', 'kwargs', 'typings'})
USE = ('output [reverse {1,2}] output [absolute -3] output 2d2 output {1..3} output #{4,5} set "explode depth" to 1 output [explode d2] output [highest 1 of 2d2] output 1@{7,8} output [count 1 in {1,1}] named "c"')


def name(S, words, flags, other=''):
    """a function of this name, called before and inside other functions; everything else keeps working"""
    x = S.int('x', -100, 100)
    # inputs come in through a library function's name that is not under test
    text = ('function: %s {result: 41} function: %s A:n {result: A+1} function: A:n %s {result: A-1} function: helper {B: [%s 10] result: B + [%s]} '
            'output [%s [maximum of 0]] output [[maximum of 0] %s] output [%s] output [helper] %s %s' % (words, words, words, words, words, words, words, words, other, USE))
    compare(S, text, None, flags, inputs=lambda: [x])


def shadow(S, text, flags):
    """redefining library functions and names that look like variables"""
    x = S.int('x', -100, 100)
    compare(S, text, None, flags, inputs=lambda: [x])


SHADOW = [
    'function: absolute A {result: A+100} output [absolute [maximum of 0]] output [reverse {1,2}]',
    'output [absolute [maximum of 0]] function: absolute A {result: A+100} output [absolute [maximum of 0]]',
    'function: highest A of B {result: A+100} output [highest [maximum of 0] of 2] output [lowest 1 of 2d2] output [middle 1 of 3d2]',
    'function: A contains B {result: A} output [[maximum of 0] contains 2] output [count 1 in {1,2}]',
    'function: explode A {result: 5} output [explode [maximum of 0]]', 'function: sort A {result: 5} output [sort [maximum of 0]] output [highest 1 of 2d2]',
    'function: reverse A {result: A+7} output [reverse [maximum of 0]] output [sort {2,1}]', 'function: true div A B {result: A} output [true div [maximum of 0] 2] output 7/2',
    'function: A {result: A+1} X: [maximum of 0] output [X] output X', 'function: A B {result: A-B} X: [maximum of 0] output [X X+1] output X', 'X_X: [maximum of 0] function: A B {result: A-B} output [X_X 3] output X_X',
    '_: [maximum of 0] function: A {result: A+1} output [_] output _', 'function: _ {result: _} output [[maximum of 0]]', 'function: f _ {result: _} output [f [maximum of 0]]', 'X: 3 function: X {result: X} output [[maximum of 0]] output X',
    'function: f A f B {result: A-B} output [f [maximum of 0] f 2]', 'function: f A B f {result: A-B} function: f A f B {result: B} output [f [maximum of 0] 2 f] output [f [maximum of 0] f 2]',
    'function: output A {output A named "inner" result: A+1} output [output [maximum of 0]]', 'function: roll A {result: 2dA} output [roll 2] output 2d2 output [maximum of 0]',
    'function: set A to B {result: A-B} output [set [maximum of 0] to 3] set "explode depth" to 1 output [explode d2]', 'function: if A else B {if A {result: A} else {result: B}} output [if [maximum of 0] else 8]',
    'function: loop A over B {loop I over B {A: A+I} result: A} output [loop [maximum of 0] over {1,2}]', 'RV: [maximum of 0] output RV output d2', 'I: [maximum of 0] loop I over {I} {output I}',
    'function: f A:n {result: A} function: g A:s {result: #A} function: h A:d {result: A} output [f [maximum of 0]] output [g [maximum of 0]] output [h [maximum of 0]]',
    'function: vars A {A: A+1 result: A} VARS: [maximum of 0] output [vars VARS] output VARS', 'function: f VARS {result: VARS} output [f [maximum of 0]]', 'function: range A {result: {1..2}} output [range [maximum of 0]]',
    'loop T_N over {[maximum of 0], 2} {output T_N named "[T_N]"} function: f A:n T_N:n T_N {result: A + T_N} output [f {3,4} [maximum of 0] 5]',
    'function: f T_S:s T_D:d T_N:n {T_N: T_N+1 loop T_D over T_S {T_N: T_N + T_D} result: T_N} output [f [maximum of 0] 2 3] T_N: 4 output [f 1 {2} T_N] named "[T_N]"',
    'function: named A {result: A} output [named [maximum of 0]] named "named"', 'function: result A {result: A} output [result [maximum of 0]]', 'function: function A {result: A} output [function [maximum of 0]]',
]
# variables with the name of a parameter type of the generated code
TYPENAMES = [('T_N', 'n', '{3,4}'), ('T_S', 's', '5'), ('T_D', 'd', '5')]


def typename(S, var, ty, arg, flags):
    x = S.int('x', -100, 100)
    compare(S, '%s: [maximum of 0] function: f A:%s {result: #{A} + %s} output [f %s] output %s' % (var, ty, 'A' if ty == 'n' else '#A' if ty == 's' else 'A', arg, var), None, flags, inputs=lambda: [x])


def sizes(S, texts, kinds, flags):
    t = S.choose('program', texts)
    x = S.int('x', *((-2, 2) if kinds == 'n' else (None, None)))
    compare(S, t, None, flags, inputs=lambda: [x], label='%s: ' % t, error=False)


def cases(tier):
    big = tier == 'thorough'
    c = []
    for ctx in CONTEXTS:
        for n in (1, 2) if not big else (1, 2, 3):
            for fl in FSETS[:2] if not big else FSETS:
                c.append(Case(symtext, n=n, ctx=ctx, flags=fl, max_time=120, max_paths=20000, witness=4))
    c.append(Case(symtext, n=3, ctx='name', flags={}, max_time=120, max_paths=20000, witness=4))
    for pad in ('{', '}', '\\', '{A}', '\\N', "'"):
        c.append(Case(symtext, n=1, ctx='name', flags={}, pad=pad, max_time=120, witness=4))

    def bulk(ts, ctx, fl, tag):
        for i in range(0, len(ts), 120):
            c.append(Case(fulltext, texts=ts[i:i + 120], ctx=ctx, flags=fl, name='text(%s,%d,%s,%s)' % (tag, i, ctx, sorted(fl)), max_time=120, max_paths=1000, witness=2))
    ok = [x for x in CH if x not in '"\n']
    one, two, three = [''.join(p) for p in product(ok, repeat=1)], [''.join(p) for p in product(ok, repeat=2)], [''.join(p) for p in product(CORE, repeat=3)]
    vars_ = ['[A]', '[A', 'A]', '[[A]]', '[a]', '[A][A]', '{A}', '{[A]}', '[A]\\', '\\[A]', '[]', '[ A]', '[A ]', '[A]]', '[[A]', '\\n', '\\\\', '\\x41', '\\u0041', '\\N{DASH}', "\\'", '{{}}', '{{{', '%s', '%%', '{0}',
             '{A!r}', '{A:>5}', '#', '\\comment\\', "'''", 'a' * 50, '{', '}', '[A]{A}', 'A{', '{}[A]', '\\{', '\\}', '\\{A\\}', '[AB', '[A_]x'.replace('A_', 'A'), '  x  ', ' ', '\t', ':', '!=', '..', '//', 'output 1']
    for fl in FSETS if big else FSETS[:2]:
        for ctx in CONTEXTS:
            bulk(one + vars_, ctx, fl, '1')
        bulk([a + b for a in vars_ for b in vars_], 'name', fl, 'vv')
        bulk(two, 'name', fl, '2')
        bulk(three if not big else [''.join(p) for p in product(CORE, repeat=4)] + three, 'name', fl, '3')
    bulk(two, 'assigned', {}, '2')
    seqs = [t for t in one + vars_ if t.strip()]
    for i in range(0, len(seqs), 20):
        c.append(Case(seqtext, texts=seqs[i:i + 20], flags={}, name='sequence texts(%d)' % i, max_time=60, **G))
    for w in NAMES:
        for fl in FSETS if big else FSETS[:4]:
            c.append(Case(name, words=w, flags=fl, max_time=30, **G))
    if big:
        for w1, w2 in product(NAMES, repeat=2):
            c.append(Case(name, words=w1 + ' ' + w2, flags={}, max_time=30, **G))
    else:
        short = ['roll', 'output', 'len', 'vars', 'get', 'seq', 'set', 'to', 'settings', 'max', 'func', 'depth', 'anydice', 'casting', 'highest', 'of', 'not', 'is', 'in', 'f', 'true', 'div', 'myrange']
        for w1, w2 in product(short, repeat=2):
            c.append(Case(name, words=w1 + ' ' + w2, flags={}, max_time=30, **G))
    for t in SHADOW:
        for fl in FSETS:
            c.append(Case(shadow, text=t, flags=fl, max_time=30, **G))
    for what in (sized.names, sized.layouts, sized.strings):
        for i, (kinds, ts) in enumerate(sized.groups(what(big), 20)):
            for fl in FSETS[:2] if big else FSETS[i % 2:i % 2 + 1]:
                c.append(Case(sizes, texts=ts, kinds=kinds, flags=fl, name='%s(%d,%s,%s)' % (what.__name__, i, kinds, sorted(fl)), max_time=60, max_paths=4000, witness=2, **G))
    for var, ty, arg in TYPENAMES:
        for fl in ({}, {FLAGS[0]: True}):
            c.append(Case(typename, var=var, ty=ty, arg=arg, flags=fl, **G))
    return c
