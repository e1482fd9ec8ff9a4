"""Acceptance.  Token level: programs with up to three arbitrary tokens (solver variables) are run through the real LALR driver, its tables, the
grammar actions and the code generator; acceptance must coincide with the reference grammar on every path, and accepted programs must mean what the
reference says.  Character level: programs with arbitrary characters in every position (class representatives) through the whole compiler."""
from sx.run import Case
from . import reflang
from . import sized
from .langcommon import compare

BOUNDS = ('40 token kinds; free sequences of up to 2 (thorough 3) tokens in 16 contexts; one arbitrary token replacing, inserted before or deleting each token of 40 programs (thorough: two arbitrary '
          'tokens at every pair of positions); every ASCII character and 20 others inserted at every position of 8 programs; programs of up to 65 functions, one call of which is unknown; options: none, each, unknown ones; texts without any token, None')
ASSUMPTIONS = ['number tokens use ASCII digits', 'top-level results and nested function definitions are accepted by the compiler as by the grammar; executing them is outside this property']
BUDGET = {'quick': 500, 'thorough': 3000}
NOCHECK = {'COMPILER_FLAG_FUNC_EXIST_CHECK': False}


def toks(s):
    """program text -> token texts (space separated)"""
    return s.split()


def has(ast, kinds, infun=False):
    for st in ast:
        if st[0] == 'result' and not infun and 'result' in kinds:
            return True
        if st[0] == 'function':
            if infun or has(st[3], kinds, True):
                return True
        if st[0] == 'loop' and has(st[3], kinds, infun):
            return True
        if st[0] == 'if' and (any(has(b, kinds, infun) for _, b in st[1]) or st[2] and has(st[2], kinds, infun)):
            return True
    return False


def agree(S, items, flags=None):
    flags = flags or {}
    exist = flags.get('COMPILER_FLAG_FUNC_EXIST_CHECK', True)
    got = S.accepted(items, flags)
    try:
        ast, p = reflang.parse_tokens(S.ref_tokens(items))
        exp = reflang.acceptable(p, exist)
    except reflang.Reject:
        exp = False
    S.check(got == exp, 'accepted by the compiler: %s, program of the language: %s' % (got, exp))
    if not exp:
        return
    text = S.token_text(items)
    S.check(S.compiles(text, flags), 'accepted as text')
    if not has(ast, ('result',)) and all(t in (None, 'n', 's', 'd') for t in types(ast)):
        compare(S, text, None, flags)


def types(ast):
    out = []
    for st in ast:
        if st[0] == 'function':
            out += [t for _, t in st[2]] + types(st[3])
        elif st[0] == 'loop':
            out += types(st[3])
        elif st[0] == 'if':
            for _, b in st[1]:
                out += types(b)
            out += types(st[2] or [])
    return out


def free(S, pre, n, post, flags=None):
    agree(S, toks(pre) + [S.token(str(i)) for i in range(n)] + toks(post), flags)


def edit(S, text, at, what, flags=None):
    t = toks(text)
    if what == 'replace':
        t[at] = S.token('0')
    elif what == 'insert':
        t.insert(at, S.token('0'))
    elif what == 'delete':
        del t[at]
    elif what == 'double':
        t.insert(at, t[at])
    elif what == 'swap':
        t[at], t[at + 1] = t[at + 1], t[at]
    agree(S, t, flags)


def edit2(S, text, i, j, wi, wj):
    t = toks(text)
    for at, what, nm in ((j, wj, '1'), (i, wi, '0')):
        if what == 'replace':
            t[at] = S.token(nm)
        else:
            t.insert(at, S.token(nm))
    agree(S, t)


def chars(S, texts, flags=None):
    t = S.choose('text', texts)
    flags = flags or {}
    exp = reflang.accepts(t, flags.get('COMPILER_FLAG_FUNC_EXIST_CHECK', True))
    got = S.compiles(t, flags)
    S.check(got == exp, '%r: accepted by the compiler: %s, program of the language: %s' % (t, got, exp))
    if exp:
        ast, p = reflang.parse(t)
        if not has(ast, ('result',)) and all(x in (None, 'n', 's', 'd') for x in types(ast)):
            compare(S, t, None, flags, label='%r: ' % t)


def accepts(S, texts, flags=None):
    t = S.choose('text', texts)
    S.check(reflang.accepts(t, True) and S.compiles(t, flags or {}), '%r: accepted' % t)


def options(S, text, flags, ok):
    S.check(S.compiles(text, flags) == ok, 'options %s' % (flags,))


def nothing(S, text):
    with S.front() as w:
        m = w.mods['dice_calc.parser.parse_and_exec']
        S.check(S.raises(lambda: m.compile_anydice(text)) is not None, 'rejected')


CONTEXTS = [('', ''), ('output', ''), ('output 1', ''), ('A : 1 output', ''), ('output 1', 'output 1'), ('output (', ')'), ('output {', '}'), ('output [ a', ']'), ('function : a A { result : 1 } output [', ']'), ('function :', '{ result : 1 } output 1'),
            ('function : a {', '} output 1'), ('if 1 {', '} output 1'), ('if', '{ output 1 } output 1'), ('loop', '{ } output 1'), ('set', 'output 1'), ('output 1 if A { }', 'output A'), ('output 1 named', ''), ('output 1 d', ''), ('output A', 'A')]
PROGRAMS = [
    'output 1', 'output 1 + 1 named "s"', 'output A d A', 'output 1 . 1', 'output { 1 , A , { A } }', 'output { 1 .. A , A }', 'output # { A }', 'output - A ^ 1', 'output ! ( A & 1 ) | A', 'output 1 @ A < = 1',
    'A : 1 output A', 'A : 1 A : A output A named "s" "[A]"', 'function : a { result : 1 } output [ a ]', 'function : a A { result : A } output [ a 1 ]', 'function : a A : d { result : A } output [ a 1 ]',
    'function : A a A { if A { result : A } result : 1 } output [ 1 a 1 ]', 'loop A over { 1 , 1 } { output A }', 'if 1 { output 1 } else if A { output A } else { output 1 }', 'if A { A : 1 } output 1',
    'if 1 { } else { output 1 } output A', 'set "s" to 1 output 1', 'set "s" to "s" output 1', 'output d 1 output 1 d A', 'output "s" "[A]" "s"', 'output [ a [ a 1 ] ] function : a A { result : A }',
    'function : if A else { output 1 } output [ if 1 else ]', 'function : a { loop A over 1 { result : A } } output [ a ] + 1', 'output 1 != 1 = 1 < 1 > = 1', 'output ( 1 ) output { }', 'output { { } , 1 d 1 }',
]
# every call must be of a function defined somewhere
CALLS = ['function : a A { result : A } output [ a 1 1 ]', 'function : a A { result : A } output [ a ]', 'function : a A { result : A } output [ 1 a ]', 'output [ a ]', 'if A { output [ a ] } output 1',
         'output 1 loop A over { } { A : [ a 1 ] }', 'function : a { result : [ a ] } output 1', 'function : a { result : [ a 1 ] } output 1', 'output 1 if 1 { function : a { result : 1 } } A : [ a ]', 'A : { [ a ] } output 1',
         'output 1 named "s" set "s" to [ a ]', 'output [ to a ]', 'function : to a { result : 1 } output [ to a ]', 'A : 1 function : a { output 1 }', 'function : a { } A : 1', 'if 1 { output 1 }', 'loop A over A { output 1 }', 'A : 1', 'function : a { }']
TEXTCALLS = ['output [absolute 1]', 'output [absolute 1 2]', 'output [absolute]', 'output [sort {1}]', 'output [sorted {1}]', 'output [list 1]', 'output [print 1]', 'output [roll 1]', 'output [roll]', 'output [len 1]', 'output [output 1]',
             'output [true div 1 2]', 'output [true 1 div 2]', 'output [highest 1 of 2d6]', 'output [highest of 1 and 2]', 'output [highest 1 2]', 'output [explode d6]', 'output [get seq]', 'output [get seq 1]', 'output [vars]', 'output [middle 1 of 3d6]',
             'output [max 1 2]', 'output [int 1]', 'output [myrange 1 2]', 'output [settings set 1 2]', 'output [reverse {1}]', 'output [maximum of d6]', 'output [count 1 in {1}]', 'output [1 contains 1]', 'output [lowest 1 of 2d6]', 'output [lowest of 1 and 2]',
             'output [X]', 'function: f X {result: X} output [f_X 1]', 'X: 1 output [X]', 'output [math]', 'output [random]', 'output [exec "1"]', 'output [if]', 'output [lambda]', 'output [none]', 'output [f zero]',
             'function: absolute A B {result: 1} output [absolute 1 2] output [absolute 1]', 'function: f {result: [g]} function: g {result: 1} output [f]', 'output [f] function: f {result: 1}', 'function: f A {result: 1} function: f {result: 2} output [f] output [f 1] output [f 1 2]']
EXTRA = ['\x00', '\r', '\x0b', '\x0c', '\xa0', '\xe9', '\u2028', '\u4e2d', '\U0001f600', '\u200b', '\ufeff', '\x85', '\xb5', '\u0130', '\u017f', '\u212a', '\ud7ff', '\x7f', '\x1b', '\xdf']
CHARPROGS = ['output 1', 'output A+1 named "s t"', 'A: 2d6', 'function: f A:n {result: A} output [f 1]', 'output {1..2,3}', 'if A!=1 {output 1.5}', 'output "x[A]y"', '\\c\\ output 1 \\ d \\']
PIECES = ['"', '\\', '[', ']', '[A]', 'A', ' ', '\n', 'output 1', '{', "'", '"a"', '""', '\\ \\', '1', 'named "b"', '\t', '"[', '"]', '.', '..', '!=', '! =', '<=', '_', '@', 'd', 'dd', 'D', '1d', 'A1', 'aA', 'if1', 'outputA', 'output"x"']


def cases(tier):
    big = tier == 'thorough'
    c = []
    T = dict(max_time=400 if big else 60, max_paths=200000)
    for pre, post in CONTEXTS:
        for n in (1, 2, 3) if big else (1, 2):
            c.append(Case(free, pre=pre, n=n, post=post, witness=3, weight=n * 3, **T))
    for t in PROGRAMS + CALLS:
        k = len(toks(t))
        for what in ('replace', 'insert', 'delete', 'double', 'swap'):
            for at in range(k + (what == 'insert') - (what == 'swap')):
                c.append(Case(edit, text=t, at=at, what=what, witness=2, **T))
    for t in CALLS:
        c.append(Case(free, pre=t, n=0, post='', flags=NOCHECK))
        c.append(Case(free, pre=t, n=0, post=''))
    if big:
        for t in PROGRAMS:
            k = len(toks(t))
            if k <= 14:
                for wi in ('replace', 'insert'):
                    for wj in ('replace', 'insert'):
                        for i in range(k):
                            for j in range(i + 1, k):
                                c.append(Case(edit2, text=t, i=i, j=j, wi=wi, wj=wj, witness=1, **T))
    texts = list(TEXTCALLS)
    for p in CHARPROGS:
        for ch in [chr(i) for i in range(128)] + EXTRA:
            for at in range(len(p) + 1):
                texts.append(p[:at] + ch + p[at:])
                if big and at < len(p):
                    texts.append(p[:at] + ch + p[at + 1:])
    for a in PIECES:
        for b in PIECES:
            texts.append('output 1 ' + a + b)
            texts.append('A: 1 ' + a + b + ' output A')
            texts.append(a + b)
            if big:
                for d in PIECES:
                    texts.append('output 1 ' + a + b + d)
    texts = sorted(set(texts))
    for i in range(0, len(texts), 150):
        c.append(Case(chars, texts=texts[i:i + 150], name='texts(%d)' % i, witness=1, **T))
    for i in range(0, len(TEXTCALLS), 150):
        c.append(Case(chars, texts=TEXTCALLS[i:i + 150], flags=NOCHECK, name='calls unchecked(%d)' % i, witness=1, **T))
    for i, (ok, ts) in enumerate(sized.groups(sized.calls(big), 40)):
        c.append(Case(chars, texts=ts, name='calls of many functions(%d)' % i, witness=1, **T))
        c.append(Case(chars, texts=ts, flags=NOCHECK, name='calls of many functions unchecked(%d)' % i, witness=1, **T))
    for what in (sized.control, sized.parameters, sized.expressions, sized.names, sized.layouts):
        for i, (k, ts) in enumerate(sized.groups(what(big), 60)):
            c.append(Case(accepts, texts=ts, flags=[{}, {'COMPILER_FLAG_OPERATOR_ON_INT': True, 'COMPILER_FLAG_NON_LOCAL_SCOPE': True}, NOCHECK][i % 3], name='%s(%d)' % (what.__name__, i), witness=1, **T))
    for f in ('COMPILER_FLAG_NON_LOCAL_SCOPE', 'COMPILER_FLAG_OPERATOR_ON_INT', 'COMPILER_FLAG_FUNC_LIB_CONFLICT', 'COMPILER_FLAG_FUNC_EXIST_CHECK'):
        for v in (True, False):
            c.append(Case(options, text='output 1', flags={f: v}, ok=True))
            c.append(Case(options, text='output [nowhere 1]', flags={f: v}, ok=(f, v) == ('COMPILER_FLAG_FUNC_EXIST_CHECK', False)))
            c.append(Case(options, text='output 1', flags={f: v, 'COMPILER_FLAG_OTHER': v}, ok=False))
            c.append(Case(options, text='output 1', flags={f + 'S': v}, ok=False))
            c.append(Case(options, text='output 1 +', flags={f: v}, ok=False))
    c.append(Case(options, text='output 1', flags={'': False}, ok=False))
    for t in (None, '', ' ', '\n', '\t\n ', '\\ only a comment \\', '""', '\\', '"'):
        c.append(Case(nothing, text=t))
    return c
