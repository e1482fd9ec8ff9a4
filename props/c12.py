"""Expressions: every expression skeleton up to the bound is compiled by the real compiler and the generated code is executed on symbolic
operand values; the value must equal the one the grammar's precedence prescribes (reference parser + the package's own primitives)."""
from itertools import product
from sx.run import Case
from .common import die
from .langcommon import compare
from . import sized

BOUNDS = ('all expressions of up to 2 binary operators (all 15 operators, all unary prefixes, both parenthesisations), all of 3 operators over one operator per precedence level '
          '(thorough: all operators), plus sequence, range, call, decimal, length contexts; operands: numbers in -3..3 (any integer where the operators are linear), '
          'dice of 2 faces with weights 1..9, sequences of 2 numbers; with and without the integer-operator option; '
          'programs growing in one dimension: up to 40 (thorough 100) operators, elements, conditions, 25 nested parentheses, signs and braces, literals of up to 80 digits')
BUDGET = {'quick': 500, 'thorough': 3000}
BIN = ['+', '-', '*', '/', '^', '@', '&', '|', '<', '>', '=', '!=', '<=', '>=', 'd']
REP = ['|', '&', '<', '=', '+', '-', '*', '/', '^', '@', 'd']
LINEAR = {'+', '-', '<', '>', '=', '!=', '<=', '>='}
ON_INT = {'COMPILER_FLAG_OPERATOR_ON_INT': True}
G = dict(gcd='one', wtie=True)


def variables(S, kinds, rng):
    """operands A, B, C, ... of the given kinds; rebuilt for each run from the same symbols"""
    raw = []
    for i, k in enumerate(kinds):
        if k == 'n':
            raw.append(S.int('x%d' % i, *(rng or (None, None))))
        elif k == 'D':
            raw.append(([[-1, 2], [0, 1], [1, 3], [0, 2]][i % 4], S.weights('w%d_' % i, 2, 1, 9)))
        elif k == 'P':
            raw.append(([1, 3], S.weights('w%d_' % i, 2, 1, 9)))
        elif k == 'S':
            raw.append([S.int('s%d_%d' % (i, j), *(rng or (None, None))) for j in range(2)])

    def make():
        L = S.lib
        out = {}
        for i, k in enumerate(kinds):
            r = raw[i]
            out['ABCDEFGH'[i]] = r if k == 'n' else L.RV(*r) if k == 'D' else L.roll(2, L.RV(*r)) if k == 'P' else L.get_seq(list(r))
        return out
    return make


def inputs(S, kinds):
    x = [S.int('x%d' % i, *((-2, 2) if k == 'n' else (None, None))) for i, k in enumerate(kinds)]
    return lambda: x


def expr(S, text, kinds, rng=(-3, 3), flag=False):
    compare(S, 'output ' + text, variables(S, kinds, rng), ON_INT if flag else {})


def group(S, texts, kinds, rng=(-3, 3), flag=False):
    """several expressions of the same shape, each on its own symbolic operands"""
    t = S.choose('text', texts)
    compare(S, 'output ' + t, variables(S, kinds, rng), ON_INT if flag else {}, label='%s: ' % t)


def sizes(S, texts, kinds, flag=False):
    t = S.choose('program', texts)
    compare(S, t, None, ON_INT if flag else {}, inputs=inputs(S, kinds), label='%s: ' % t)


def literal(S, text, flag=False):
    compare(S, text, None, ON_INT if flag else {})


def ok(text):
    from . import reflang
    try:
        reflang.parse('output ' + text)
        return True
    except reflang.Reject:
        return False


def rng_for(ops):
    if set(ops) <= LINEAR:
        return None
    if 'd' in ops or '^' in ops:
        return (0, 2)
    if '#' in ops:
        return (-120, 120)
    return (-2, 2)


def sel(kinds, ops):
    """position selection needs sequences or dice on the right"""
    return kinds


def cases(tier):
    big = tier == 'thorough'
    c = []

    def add(text, kinds, ops, flag=False, **kw):
        if ok(text):
            c.append(Case(expr, text=text, kinds=kinds, rng=rng_for(ops), flag=flag, **{**G, 'nl': True, 'max_time': 30 if big else 8, 'witness': 3, **kw}))
    flags = (False, True)
    # one operator, all operand kinds
    for op in BIN:
        for k in product('nDSP', repeat=2):
            for fl in flags:
                if fl and op not in '@&|#' or op == 'd' and k == ('P', 'P') and not big:
                    continue
                add('A %s B' % op, ''.join(k), [op], fl)
    # two operators
    for o1, o2 in product(BIN, repeat=2):
        for form in ('A %s B %s C', '(A %s B) %s C', 'A %s (B %s C)'):
            t = form % (o1, o2)
            for fl in flags:
                if fl and not {o1, o2} & {'@', '&', '|'}:
                    continue
                kinds = 'nnn'
                add(t, kinds, [o1, o2], fl)
                if form == 'A %s B %s C':
                    for kinds in ('Dnn', 'nDn', 'nnD', 'nSn', 'nnS', 'SSS', 'nDS') if big else ('Dnn', 'nnD', 'nSS') if not fl else ('nDS',):
                        if '^' in (o1, o2) and kinds.count('D') > 1:
                            continue
                        add(t, kinds, [o1, o2], fl)
    # unary operators
    for u in ('-', '+', '!', '#'):
        for k in 'nDS':
            for fl in flags:
                if fl and u not in '!#':
                    continue
                add('%sA' % u, k, [u], fl)
                add('%s%sA' % (u, u), k, [u], fl)
                for u2 in ('-', '!', '#', '+'):
                    add('%s%sA' % (u, u2), k, [u], fl)
                    add('%s(%sA)' % (u, u2), k, [u], fl)
        for op in BIN:
            for fl in flags:
                if fl and not ({op} & {'@', '&', '|'} or u in '!#'):
                    continue
                for t in ('%sA %s B', 'A %s %sB', '%s(A %s B)', '(%sA) %s B'):
                    t = t % ((op, u) if t.startswith('A') else (u, op))
                    for k in ('nn', 'nD', 'Dn', 'nS', 'SS') if big else ('nn', 'DS') if op == 'd' else ('nD', 'SS'):
                        add(t, k, [op] + ([u] if u == '#' and fl else []), fl)
                for op2 in ('^', '*', '@', '=', '&', '+'):
                    add('A %s %sB %s C' % (op, u, op2), 'nnn', [op, op2] + ([u] if u == '#' and fl else []), fl)
    for op in BIN:
        for fl in flags:
            if fl and op not in '@&|':
                continue
            add('dA %s B' % op, 'nn', [op, 'd'], fl)
            add('A %s dB' % op, 'nn', [op, 'd'], fl)
            add('A %s BdC' % op, 'nnn', [op, 'd'], fl)
            add('Ad(B %s C)' % op, 'nnn', [op, 'd'], fl)
            add('AdB %s C' % op, 'nnD', [op, 'd'], fl)
            add('d(A %s B)' % op, 'nn', [op, 'd'], fl)
    for t in ('-AdB', 'Ad-B', 'dA d B', '#AdB', 'Ad#B', '!AdB', 'A d {B,C}', '2dA', 'Ad6', '-2^A', '(-A)^B', 'dA', 'd{A,B}', 'd{A..B}', 'Ad(BdC)', '(AdB)dC', '#(AdB)', 'Ad{B:2}', '(A)', '((A)+(B))',
              'A<B=C', '(A<B)=C', 'A--B', 'A- -B', 'A+-B', 'A*-B', 'A/-B', 'A=-B', '-A^-B', '!A=B', '!(A=B)', '!A&B', '#{A,B}+C', '#{A}', '-{A,B}'):
        for fl in flags:
            for k in ('nnn', 'DDD', 'nSn'):
                add(t, k, ['d', '^'], fl)
    # contexts
    ctx = ['{%s}', '{%s, 1}', '{1, %s, C}', '{%s..3}', '{0..%s}', '{{%s}, {C}}', '#{%s, 2}', '[absolute %s]', '[highest of %s and 2]', '[lowest of 1 and %s]', '[maximum of %s]', '[reverse %s]',
           '[count {1,2} in {%s}]', '[[absolute %s] contains 2]', '[{%s, 1} contains 2]', '2 @ {%s, 5}', '{%s} = 1', '(%s) + 1', '-(%s)', '[absolute [absolute %s] - 1]', '[true div %s 2]', '2d{%s}', '{d2, %s}',
           '[highest 1 of %s]', '[sort {%s, 0, 3}]', '[explode d(%s)]', '[middle 1 of %s]', '1.5 * (%s)', '%s + 0.5', '007 + %s', '{1..2, %s, 3..4}', '1@{%s}+1']
    inner = ['A', 'A + B', 'A - B', 'A * B', 'A < B', 'A = B', '-A', 'A ^ B', 'A / B', 'A & B', 'A | B', '{A,B}', 'AdB', 'dA', '1@{A,B}', '!A', 'A != B', '(A)', '[absolute A]', '-A + B', '#{A}', 'A > B & B > A']
    for x, i in product(ctx, inner):
        ops = ['^' if '^' in i else 'd' if 'd' in i.replace('d A', '') or '..' in x or 'd' in x.replace('and', '').replace('middle', '') else '*']
        add(x % i, 'nnn', ops)
        if i in ('A', 'A + B', '-A', 'A * B', 'A < B', 'A & B')[:None if big else 3]:
            add(x % i, 'DnD', ops)
            add(x % i, 'SnS', ops)
        if any(o in x + i for o in '@&|!#'):
            add(x % i, 'nnn', ops, True)
    # three operators
    ops3 = BIN if big else REP
    forms = ['A %s B %s C %s D', '(A %s B) %s (C %s D)', 'A %s (B %s C) %s D'] if big else ['A %s B %s C %s D']
    for form in forms:
        for o1, o2 in product(ops3, repeat=2):
            for kinds in ('nnnn',) if not big else ('nnnn', 'nnDn'):
                for fl in flags if big or {o1, o2} <= {'@', '&', '|', '+'} else (False,):
                    ts = [form % (o1, o2, o3) for o3 in ops3 if not (fl and not {o1, o2, o3} & {'@', '&', '|'})]
                    ts = [t for t in ts if ok(t)]
                    if ts:
                        c.append(Case(group, texts=ts, kinds=kinds, rng=(0, 1) if {'&', '|'} & {o1, o2} and not big else (0, 2), flag=fl,
                                      name='three(%s %s *,%s,%s,%s)' % (o1, o2, form, kinds, fl), **{**G, 'nl': True, 'max_time': 120 if big else 25, 'max_paths': 20000, 'witness': 4}))
    # any number of operators, parentheses, elements, digits
    for i, (kinds, ts) in enumerate(sized.groups(sized.expressions(big))):
        for fl in flags:
            c.append(Case(sizes, texts=ts, kinds=kinds, flag=fl, name='sizes(%d,%s,%s)' % (i, kinds, fl), **{**G, 'nl': True, 'max_time': 60, 'max_paths': 4000, 'witness': 2}))
    # literals
    for t in ('output 010 + 1', 'output 1.50', 'output 2.05 * 2', 'output {01..03}', 'output 2d06', 'output 1 . 5', 'output -2^2', 'output 2^3^2', 'output 10/4/2', 'output 7-2-1', 'output 1=1=1',
              'output 3>2>1', 'output 1+2*3^2', 'output 2*3+4*5', 'output -3/2', 'output 00', 'output 0.5+0', 'output {}', 'output #{}', 'output {}+1', 'output 2d{}', 'output d{}', 'output 1d1+d{}',
              'output 1@{5,6,7}', 'output {1,2}@{5,6,7}', 'output {1,2}@3d2', 'output 1@2@{{1,2}}', 'output \\comment\\ 1 + \\ another \n one \\ 2', 'output 1+\n2', 'output\t1', 'output 1 named "x"',
              'output "text"', 'output {"a","b"}', 'output d{"a","b"}', 'output 2d{"a",1}', 'output {"a"}+{"b"}', 'output 1=1 & 2=2 | 0', 'output !1', 'output !{0}', 'output 12@34', 'output 1@345',
              'output #345', 'output {1,2}@345', 'output 5 & 3', 'output 4 | 1', 'output !0 & 1', 'output !5', 'output #-12', 'output 3@12', 'output 0@12', 'output 2d2 & 1', 'output d2 | 0',
              'output {1,2} & {0}', 'output 1 & d{0,1}', 'output 2@2d4', 'output 1@5@67', 'output [true div 7 2]', 'output [true div d4 2]'):
        for fl in flags:
            c.append(Case(literal, text=t, flag=fl))
    return c
