"""Statements: programs built from every combination of statement skeletons up to the bound are compiled by the real compiler (default and
non-local scope); the generated code is executed on symbolic inputs and its outputs compared with the reference interpreter's."""
from itertools import product
from sx.run import Case
from .langcommon import compare
from . import sized

BOUNDS = ('programs: all bodies of up to 3 atomic statements (quick: 2, and 3 over a smaller set) in each of 10 contexts (top level, if / else if / else arms, loop, loop in function, '
          'function, nested call, recursion, ...), plus a list of programs for typed, untyped and duplicate parameters, redefinition, settings, names and library calls; inputs: numbers -2..2 '
          '(conditions: any integer), dice of 2 faces with weights 1..9, sequences of 2 numbers; default and non-local scope; '
          'programs growing in one dimension: up to 8 (thorough 24) branches, 10 (14) nested blocks, 65 (200) statements, outputs, rounds and functions, call chains of 15 (40), 8 parameters with duplicates in every position')
BUDGET = {'quick': 500, 'thorough': 3000}
NL = {'COMPILER_FLAG_NON_LOCAL_SCOPE': True}
G = dict(gcd='one', wtie=True, nl=True)
KN = {'n': (-2, 2), 'N': (None, None), 'b': (0, 1), 'p': (0, 3)}


def maker(S, kinds):
    raw = []
    for i, k in enumerate(kinds):
        if k in KN:
            raw.append(S.int('x%d' % i, *KN[k]))
        elif k == 'D':
            raw.append(([[-1, 2], [0, 1], [1, 3]][i % 3], S.weights('w%d_' % i, 2, 1, 9)))
        elif k == 'S':
            raw.append([S.int('s%d_%d' % (i, j), -2, 2) for j in range(2)])

    def make():
        L = S.lib
        return [r if k in KN else L.RV(*r) if k == 'D' else L.get_seq(list(r)) for k, r in zip(kinds, raw)]
    return make


def prog(S, text, kinds, flag=False, error=None):
    compare(S, text, None, NL if flag else {}, inputs=maker(S, kinds), error=error)


def progs(S, texts, kinds, flag=False):
    t = S.choose('program', texts)
    compare(S, t, None, NL if flag else {}, inputs=maker(S, kinds), label='%s: ' % t)


PRE = 'A: [maximum of 0] B: [maximum of 1] '
POST = ' output A named "A" output B named "B"'
# atomic statements
ATOMS = ['A: A+1', 'A: B', 'B: A-B', 'output A named "a [A] b [B]"', 'if A {B: 5} else {A: 7}', 'loop A over {B,3} {B: B+A}', 'C: A output C+B', 'A: {A,B}', 'if A=B {output 1} else if A>B {output 2}']
SMALL = ['A: A+B', 'B: A', 'output A-B', 'if A {B: 0}', 'loop B over {A,1} {A: A+B}']
FATOMS = ['A: P+1', 'P: P+B', 'result: P', 'output P+B named "p"', 'if P {result: P} else {Q: 1}', 'loop Q over {P,1} {if Q {result: Q}}', 'result: B', 'Q: B result: Q+P', 'loop P over {P,2} {output P}']
FSMALL = ['Q: P+B', 'Q: 2', 'result: Q', 'if P {Q: B}', 'output P']
CTX = {  # context -> (text with %s, is the body inside a function?)
    'top': (PRE + '%s' + POST, False),
    'if': (PRE + 'if A {%s} else {B: 9}' + POST, False),
    'else': (PRE + 'if A {B: 8} else {%s}' + POST, False),
    'elif': (PRE + 'if A=1 {B: 8} else if B {%s} else {A: 4}' + POST, False),
    'elif2': (PRE + 'if A=1 {B: 8} else if B=1 {A: 6} else if A>B {%s} ' + POST, False),
    'loop': (PRE + 'loop I over {0,A} {%s output I}' + POST, False),
    'loop2': (PRE + 'loop I over {1,2} {loop J over {B} {%s} A: A+I}' + POST, False),
    'fun': (PRE + 'function: f P {%s} output [f A] named "f" output [f B+1]' + POST, True),
    'fun2': (PRE + 'function: f P {%s} function: g P {A: P+1 B: P-1 output [f P] result: A} output [g A] output [g [f B]]' + POST, True),
    'funloop': (PRE + 'function: f P {loop I over {1,P} {%s} result: 77} output [f A]' + POST, True),
    'funif': (PRE + 'function: f P {if P > 0 {%s} else {result: B} output P} output [f A] output [f B]' + POST, True),
    'loopfun': (PRE + 'function: f P {%s} loop A over {B, 2} {B: B+1 output [f A]}' + POST, True),
}
LIST = [   # (program, kinds); input k is [maximum of k]
    # functions and parameters
    ('function: f A:n {result: A+1} output [f [maximum of 0]]', 'n'), ('function: f A:n {result: A+1} output [f [maximum of 0]]', 'S'), ('function: f A:n {result: A+1} output [f [maximum of 0]]', 'D'),
    ('function: f A:s {result: #A} output [f [maximum of 0]]', 'n'), ('function: f A:s {result: #A} output [f [maximum of 0]]', 'S'), ('function: f A:s {result: 1@A} output [f [maximum of 0]]', 'D'),
    ('function: f A:d {result: A} output [f [maximum of 0]]', 'n'), ('function: f A:d {result: A+1} output [f [maximum of 0]]', 'S'), ('function: f A:d {result: #A} output [f [maximum of 0]]', 'D'),
    ('function: f A {result: A} output [f [maximum of 0]]', 'D'), ('function: f A {result: A} output [f [maximum of 0]]', 'S'),
    ('function: f A:n and B:n {if A>B {result: A} result: B} output [f [maximum of 0] and [maximum of 1]]', 'DD'),
    ('function: f A:n and B:n {if A>B {result: A} result: B} output [f [maximum of 0] and [maximum of 1]]', 'nD'),
    ('function: f A:n B:n {result: A-B} output [f [maximum of 0] [maximum of 1]]', 'nn'),
    ('function: A:n minus B:n {result: A-B} output [[maximum of 0] minus [maximum of 1]]', 'nn'),
    ('function: A:n minus B:n {result: A-B} output [[[maximum of 0] minus 1] minus [[maximum of 1] minus 2]]', 'nn'),
    ('function: f A A {result: A} output [f [maximum of 0] [maximum of 1]]', 'nn'), ('function: f A:n A {result: A} output [f [maximum of 0] [maximum of 1]]', 'nn'),
    ('function: f A B A:n {result: A+B} output [f [maximum of 0] [maximum of 1] [maximum of 2]]', 'nnn'), ('function: f A:s B A:n B {result: #A+B} output [f [maximum of 0] [maximum of 1] 5 6]', 'nn'),
    ('function: f A A A {result: A} output [f 1 2 [maximum of 0]]', 'n'),
    ('function: f {result: 3} output [f] + [maximum of 0]', 'n'), ('function: f A {} output [f [maximum of 0]]', 'n'), ('function: f A {B: A} output [f [maximum of 0]]', 'n'),
    ('function: f A {result: A result: 5} output [f [maximum of 0]]', 'n'), ('function: f A {if A {result: 1} else {result: 2} output 9 result: 3} output [f [maximum of 0]]', 'N'),
    ('function: f A:n {if A {result: A + [f A-1]} result: 0} output [f [maximum of 0]]', 'p'), ('function: f A:n {if A<=0 {result: 0} B: [f A-1] result: A+B} output [f [maximum of 0]]', 'p'),
    ('function: f A:n {B: A if A>0 {C: [f A-1]} result: B} output [f [maximum of 0]]', 'p'), ('function: f N:n {if N < 1 {result: 1} loop I over {1..N} {R: [f N-I]} result: N+R} output [f [maximum of 0]]', 'b'),
    ('function: even N:n {if N=0 {result: 1} result: [odd N-1]} function: odd N:n {if N=0 {result: 0} result: [even N-1]} output [even [maximum of 0]]', 'p'),
    ('function: f A {result: A+1} function: f A {result: A+2} output [f [maximum of 0]]', 'n'), ('function: f A {result: A+1} output [f [maximum of 0]] function: f A {result: A+2} output [f [maximum of 0]]', 'n'),
    ('function: f A {result: A+1} function: f A B {result: A+B} output [f [maximum of 0]] output [f [maximum of 0] 5]', 'n'),
    ('function: f A then B {result: A-B} function: f A or B {result: B-A} output [f 1 then [maximum of 0]] output [f 1 or [maximum of 0]]', 'n'),
    ('output [f [maximum of 0]] function: f A {result: A+1}', 'n'), ('function: g A {result: [f A]} function: f A {result: A+1} output [g [maximum of 0]]', 'n'),
    ('function: f A {result: B} B: [maximum of 0] output [f 1]', 'n'), ('function: f A {result: B} output [f 1] B: [maximum of 0]', 'n'), ('B: 1 function: f A {result: B} B: [maximum of 0] output [f 1]', 'n'),
    ('A: 7 function: f A {result: A} output [f [maximum of 0]] output A', 'n'), ('A: 7 function: f A {A: A+1 result: A} output [f [maximum of 0]] output A', 'n'),
    ('A: 7 function: f B {A: B result: A} output [f [maximum of 0]] output A', 'n'), ('A: 7 function: f B {loop A over {1,2} {B: B+A} result: B} output [f [maximum of 0]] output A', 'n'),
    ('A: [maximum of 0] function: g {result: A+1} function: f A {result: [g]} output [f 10]', 'n'), ('A: [maximum of 0] function: g {A: 3 result: A} function: f A {B: [g] result: A+B} output [f 10] output A', 'n'),
    ('A: [maximum of 0] function: g {result: A} function: f {A: 5 result: [g]} output [f] output A', 'n'), ('A: [maximum of 0] function: g B {result: A+B} function: f B {A: B+1 result: [g A]} output [f 2] output A', 'n'),
    ('function: f A:n {if A>0 {result: [g A]} result: A} function: g A:n {result: [f A-1]+1} output [f [maximum of 0]]', 'p'),
    ('X: [maximum of 0] function: f X {result: X} output [f 5] output X', 'n'),
    ('function: f A:d B:d {result: A+B} output [f d2 d2] + [maximum of 0]', 'n'), ('function: f A:n {output A named "in" result: A} output [f [maximum of 0]] named "out"', 'D'),
    ('A: 1 function: f N:n {result: N + A} A: 2 output [f [maximum of 0]]', 'D'), ('function: f A:n {B: A B: B*2 result: B} output [f [maximum of 0]]', 'D'),
    ('function: f A:n {B: {} loop I over {1..2} {B: {B, A+I}} result: B} output [f [maximum of 0]]', 'n'), ('function: f A:s {T: 0 loop I over A {T: T+I} result: T} output [f [maximum of 0]]', 'S'),
    ('function: f A:s {T: 0 loop I over A {T: T*2+I} result: T} output [f 2d[maximum of 0]]', 'D'),
    # control flow
    ('A: [maximum of 0] if A {output 1} else {output 2}', 'N'), ('A: [maximum of 0] if A {output 1}  output 3', 'N'), ('A: [maximum of 0] if A>1 {output 1} else if A>0 {output 2} else if A>-1 {output 3} else {output 4}', 'N'),
    ('A: [maximum of 0] if A {} else {output 2} output 1', 'N'), ('A: [maximum of 0] if A {if A>3 {output 1} else {output 2}} else {if A=0 {output 3}}', 'N'),
    ('A: [maximum of 0] if A>0 {if A>3 {output 1}} else {output 5} output 9', 'N'), ('A: [maximum of 0] if A & 1 {output 1} else {output 2}', 'n'), ('if {[maximum of 0], 1} {output 1} else {output 2}', 'n'),
    ('if [maximum of 0] {output 1}', 'D'), ('if [maximum of 0] {output 1} else {output 2}', 'S'), ('loop I over [maximum of 0] {output I}', 'S'), ('loop I over [maximum of 0] {output I}', 'n'),
    ('loop I over [maximum of 0] {output I}', 'D'), ('loop I over {[maximum of 0]..3} {output I}', 'n'), ('loop I over {3..[maximum of 0]} {output I} output 0', 'n'), ('loop I over {} {output I} output 5', ''),
    ('loop I over {1,2} {} output I+[maximum of 0]', 'n'), ('I: [maximum of 0] loop I over {} {output I} output I', 'n'), ('loop I over {1,[maximum of 0]} {loop I over {5} {output I} output I} output I', 'n'),
    ('A: {1,2} loop I over A {A: {A,I} output A}', ''), ('S: 0 loop I over {1..3} {loop J over {I..3} {S: S+I*J+[maximum of 0]}} output S', 'n'),
    ('loop P over {1..2} {function: f A {result: A+P} output [f [maximum of 0]]}', 'n'), ('if [maximum of 0] {function: f A {result: A+1}} else {function: f A {result: A-1}} output [f 5]', 'N'),
    ('A: [maximum of 0] A: A A: A+A output A output A', 'n'), ('A: B B: 1 output A', ''), ('output A A: 1', ''), ('A: 1 output A A: 2 output A output A+1 named "x"', ''),
    # names, settings
    ('A: [maximum of 0] output A named "v [A]"', 'n'), ('A: [maximum of 0] B: {A,1} output A named "[A][B] [A]"', 'n'), ('A: [maximum of 0] output A named "[A]"', 'D'), ('output 1 named "[A] x" A: [maximum of 0]', 'n'),
    ('set "position order" to "lowest first" output 1@{5,[maximum of 0],3}', 'n'), ('output 1@2d3 set "position order" to "lowest first" output 1@2d3 set "position order" to "highest first" output 1@2d3 + [maximum of 0]', 'n'),
    ('set "maximum function depth" to 3 function: f A:n {result: 1 + [f A+1]} output [f [maximum of 0]]', 'n'), ('set "explode depth" to [maximum of 0] output [explode d2]', 'p'),
    ('set "explode depth" to 1+1 output [explode d2]', ''), ('N: "explode depth" A: 1 set "explode [B]" to A output 1', ''), ('B: "depth" set "explode [B]" to 3 output [explode d2]', ''),
    ('set "position order" to "sideways" output 1', ''), ('set "nothing" to 1 output 1', ''), ('set "maximum function depth" to [maximum of 0] function: f A {if A {result: [f A-1]} result: 9} output [f 2]', 'p'),
    # library
    ('A: [maximum of 0] output [absolute A] output [A contains 1]', 'n'), ('output [highest 1 of [maximum of 0]]', 'D'), ('output [lowest of [maximum of 0] and 1]', 'D'), ('output [count {1,[maximum of 0]} in 2d2]', 'n'),
    ('output [sort {[maximum of 0],1}] output [reverse {[maximum of 0],1}]', 'n'), ('function: f A:n {result: [absolute A]} output [f [maximum of 0]]', 'D'), ('function: f A:n {result: [highest of A and 0]} output [f [maximum of 0]]', 'n'),
    ('function: absolute A {result: 100+A} output [absolute [maximum of 0]] output [reverse {1,2}]', 'n'), ('output [absolute [maximum of 0]] function: absolute A {result: 100+A} output [absolute [maximum of 0]]', 'n'),
    ('function: f A {result: [true div A 2]} output [f [maximum of 0]]', 'n'),
    # wrong number of arguments is another function
    ('function: f A {result: A} output [f [maximum of 0]] output [f [maximum of 0]+1]', 'n'),
]


def cases(tier):
    big = tier == 'thorough'
    c = []
    for text, kinds in LIST:
        for fl in (False, True):
            c.append(Case(prog, text=text, kinds=kinds, flag=fl, witness=3, max_time=60, max_paths=4000, **G))
    for what in (sized.control, sized.parameters):
        for i, (kinds, ts) in enumerate(sized.groups(what(big))):
            for fl in (False, True):
                c.append(Case(progs, texts=ts, kinds=kinds, flag=fl, name='%s(%d,%s,%s)' % (what.__name__, i, kinds, fl), witness=2, max_time=60, max_paths=4000, **G))
    for ctx, (tpl, infun) in CTX.items():
        atoms, small = (FATOMS, FSMALL) if infun else (ATOMS, SMALL)
        for fl in (False, True):
            seqs = [(a,) for a in atoms] + list(product(atoms, repeat=2))
            seqs += list(product(atoms if big else small, repeat=3))
            by = {}
            for s in seqs:
                by.setdefault((len(s), s[0], s[1] if len(s) > 2 else ''), []).append(tpl % ' '.join(s))
            for k, ts in by.items():
                c.append(Case(progs, texts=ts, kinds='nn', flag=fl, name='body(%s,%s,%s)' % (ctx, '; '.join(map(str, k)), fl), witness=3, max_time=200 if big else 40, max_paths=20000, **G))
    return c
