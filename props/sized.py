"""Programs of growing size, one dimension at a time: nothing in the language depends on how many or how long."""

LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
WORDS = ['a', 'bb', 'cat', 'dogs', 'eagle', 'falcon', 'gorilla', 'hedgehog', 'if', 'else', 'output', 'set', 'to', 'over', 'loop', 'named', 'dd', 'x', 'n', 's', 'y', 'zz', 'abcdefghijklmnopqrstuvwxyz', 'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa']
A = 'A: [maximum of 0] '


def var(i):
    """i-th variable name: A, B, ..., Z, AA, AB, ..."""
    s = ''
    i += 1
    while i:
        i, r = divmod(i - 1, 26)
        s = LETTERS[r] + s
    return s


def branches(k, cond, tail, stmt='output %d'):
    return ' else '.join('if %s {%s}' % (cond % i, stmt % (100 + i)) for i in range(k)) + (' else {%s}' % (stmt % 99) if tail else '')


def control(big=False):
    """branches, loops, nesting, call chains"""
    out = []
    for k in (1, 2, 3, 4, 5, 6, 8) + ((12, 16, 24) if big else ()):
        for tail in (True, False):
            out.append((A + branches(k, 'A=%d', tail) + ' output 7', 'N'))
            out.append((A + branches(k, 'A<%d', tail) + ' output 7', 'N'))            # several conditions hold
            out.append((A + 'function: f A {' + branches(k, 'A>0-%d', tail, 'result: %d') + ' result: 5} output [f A]', 'N'))
            out.append((A + 'B: 0 ' + branches(k, 'A>%d', tail, 'B: B+%d') + ' output B', 'N'))
        out.append((A + ' '.join('if A=%d {output %d}' % (i, 50 + i) for i in range(k)) + ' output 7', 'N'))
        out.append((A + ' '.join('if A<%d {A: A+2} else {A: A-1}' % i for i in range(min(k, 6))) + ' output A', 'N'))
    for k in (2, 4, 6, 8, 10) + ((14,) if big else ()):
        deep = 'output A'
        for i in range(k):
            deep = 'if A>%d {%s output %d} else {output 0-%d}' % (i, deep, i, i)
        out.append((A + deep, 'N'))
        deep = 'output A'
        for i in range(k):
            deep = 'if A>%d {output %d} else {%s output 0-%d}' % (i, i, deep, i)
        out.append((A + deep, 'N'))
        deep = 'output A+' + '+'.join(var(i + 1) for i in range(k))
        for i in reversed(range(k)):
            deep = 'loop %s over {%d} {%s output %s}' % (var(i + 1), i + 2, deep, var(i + 1))
        out.append((A + deep, 'n'))
        deep = 'result: A'
        for i in range(k):
            deep = 'loop I over {1,2} {%s}' % deep if i % 2 else 'if A>0-%d {%s}' % (i, deep)
        out.append(('function: f A {%s result: 50} output [f [maximum of 0]]' % deep, 'N'))
    for k in (1, 2, 5, 9):
        out.append((' '.join('function: f%s A {result: %s}' % (' g' * i, '[f%s A+1]' % (' g' * (i + 1)) if i < k - 1 else 'A*2') for i in range(k)) + ' output [f [maximum of 0]]', 'n'))
        out.append((' '.join('function: f%s A {A: A+1 result: %s}' % (' g' * i, '[f%s A]+A' % (' g' * (i - 1)) if i else 'A*2') for i in range(k)) + ' output [f%s [maximum of 0]]' % (' g' * (k - 1)), 'n'))
    for k in (11, 12, 15) + ((40,) if big else ()):        # deeper than the default depth
        out.append((' '.join('function: f%s A {result: %s}' % (' g' * i, '[f%s A+1]' % (' g' * (i + 1)) if i < k - 1 else 'A*2') for i in range(k)) + ' output [f [maximum of 0]]', 'n'))
        out.append(('set "maximum function depth" to 50 ' + out[-1][0], 'n'))
        out.append(('set "maximum function depth" to %d function: f A:n N:n {if N=0 {result: A} result: 1+[f A N-1]} output [f [maximum of 0] %d]' % (k, k - 2), 'n'))
    for k in (3, 9, 17, 33, 65) + ((200,) if big else ()):
        out.append((A + 'loop I over {1..%d} {A: A+I} output A' % k, 'n'))
        out.append((A + 'loop I over {1..%d} {output A+I}' % k, 'n'))
        out.append((A + ' '.join('A: A+%d' % i for i in range(k)) + ' output A', 'n'))
        out.append((A + ' '.join('output A+%d named "o%d"' % (i, i) for i in range(k)), 'n'))
        out.append((A + ' '.join('loop I over {%d} {output A+I}' % i for i in range(k)), 'n'))
        out.append((' '.join('%s: [maximum of 0]+%d' % (var(i), i) for i in range(k)) + ' ' + ' '.join('output %s' % var(i) for i in range(k)), 'n'))
        out.append((' '.join('function: %s A {result: A+%d}' % (' '.join('n' * (i % 5 + 1) + 'm' * (i // 5 % 5 + 1) for _ in range(1 + i // 25)), i) for i in range(k)) +
                    ' '.join(' output [%s [maximum of 0]]' % ' '.join('n' * (i % 5 + 1) + 'm' * (i // 5 % 5 + 1) for _ in range(1 + i // 25)) for i in range(k)), 'n'))
        out.append(('set "explode depth" to 2 ' * k + 'output [maximum of 0]', 'n'))
    return out


def parameters(big=False):
    """functions of up to 8 parameters; duplicates in every position; every type"""
    out = []
    for k in range(1, 9):
        ps = [var(i + 1) for i in range(k)]
        for ty in ('', ':n', 'mix'):
            t = [ty if ty != 'mix' else [':n', ':s', ':d', ''][i % 4] for i in range(k)]
            use = '+'.join('%s%d*%s' % ('' if x != ':s' else '#', 1, p) if x == ':s' else '%d*%s' % (3 ** i, p) for i, (p, x) in enumerate(zip(ps, t)))
            use = '+'.join('#%s' % p if x == ':s' else '%d*%s' % (3 ** i, p) for i, (p, x) in enumerate(zip(ps, t)))
            for at in range(k):
                args = ' '.join('[maximum of 0]' if i == at else str(i + 2) for i in range(k))
                out.append(('function: f %s {result: %s} output [f %s]' % (' '.join(p + x for p, x in zip(ps, t)), use, args), 'n'))
            out.append(('function: ' + ' '.join('%s%s w%s' % (p, x, 'w' * i) for i, (p, x) in enumerate(zip(ps, t))) + ' {result: %s}' % use +
                        ' output [' + ' '.join('%s w%s' % ('[maximum of 0]' if i == k - 1 else i, 'w' * i) for i in range(k)) + ']', 'n'))
        for i in range(k):
            for j in range(i + 1, k):
                for ty in ('', ':n') if not big else ('', ':n', ':s', ':d'):
                    qs = list(ps)
                    qs[j] = qs[i]
                    use = '+'.join('%s%d*%s' % ('', 3 ** m, p) for m, p in enumerate(qs))
                    args = ' '.join('[maximum of 0]' if m == i else '0-[maximum of 0]' if m == j else str(m + 2) for m in range(k))
                    if ty in (':s',):
                        use = use.replace('*', '*#')
                    out.append(('function: f %s {result: %s} output [f %s]' % (' '.join(p + (ty if m == i else '') for m, p in enumerate(qs)), use, args), 'n'))
                if k <= 5:
                    for m in range(j + 1, k):
                        qs = list(ps)
                        qs[j] = qs[m] = qs[i]
                        out.append(('function: f %s {result: %s} output [f %s]' % (' '.join(qs), '+'.join('%d*%s' % (3 ** x, p) for x, p in enumerate(qs)), ' '.join('[maximum of 0]*%d' % (x + 2) for x in range(k))), 'n'))
                        qs[m] = qs[(j + 1) % k]
                        out.append(('function: f %s {result: %s} output [f %s]' % (' '.join(qs), '+'.join('%d*%s' % (3 ** x, p) for x, p in enumerate(qs)), ' '.join('[maximum of 0]*%d' % (x + 2) for x in range(k))), 'n'))
    return out


def expressions(big=False):
    out = []
    for k in (2, 4, 5, 7, 9, 12, 16, 17, 25, 33, 40) + ((100,) if big else ()):
        for op, alt in (('+', '-'), ('-', '+'), ('-', '-'), ('+', '+')):
            out.append((A + 'output A ' + ' '.join('%s %d' % (op if i % 2 else alt, i + 1) for i in range(k)), 'N'))
            out.append((A + 'output ' + ' '.join('%d %s' % (i + 1, op if i % 2 else alt) for i in range(k)) + ' A', 'N'))
        out.append((A + 'output ' + '1*' * k + 'A', 'N'))
        out.append((A + 'output A ' + '/ 1 ' * k, 'N'))
        out.append((A + 'output ' + '(' * min(k, 25) + 'A' + '+1)' * min(k, 25), 'N'))
        out.append((A + 'output ' + '(1-' * min(k, 25) + 'A' + ')' * min(k, 25), 'N'))
        out.append((A + 'output ' + '- ' * min(k, 25) + 'A', 'N'))
        out.append((A + 'output ' + '+' * min(k, 25) + 'A', 'N'))
        out.append((A + 'output ' + '!' * min(k, 25) + '(A=3)', 'N'))
        out.append((A + 'output ' + '#' * min(k, 25) + 'A', 'n'))
        out.append((A + 'output A=1' + ' | A=%d' * k % tuple(range(2, k + 2)), 'n'))
        out.append((A + 'output A!=1' + ' & A!=%d' * k % tuple(range(2, k + 2)), 'n'))
        out.append((A + 'output A' + '<2' * k, 'N'))
        out.append((A + 'output {A%s}' % ''.join(',%d' % (i % 7) for i in range(k)), 'N'))
        out.append((A + 'output {%s A}' % ''.join('%d,' % (i % 7) for i in range(k)), 'N'))
        out.append((A + 'output {%s A}' % ''.join('%d..%d,' % (i % 3, i % 5) for i in range(k)), 'N'))
        out.append((A + 'output {0..%d, A}' % k, 'N'))
        out.append((A + 'output {A, %d..0}' % k, 'N'))
        out.append((A + 'output {A..%d}' % k, 'n'))
        out.append((A + 'output ' + '{' * min(k, 25) + 'A' + ',1}' * min(k, 25), 'N'))
        out.append((A + 'output %d@{%s A}' % (k + 1, ''.join('%d,' % (i % 7) for i in range(k))), 'N'))
        out.append((A + 'output %d@{%s A}' % (k, ''.join('%d,' % (i % 7) for i in range(k))), 'N'))
        out.append((A + 'output {%s}@{%s A}' % (','.join(str(i + 1) for i in range(k + 1)), ''.join('%d,' % (i % 7) for i in range(k))), 'N'))
        out.append((A + 'output #{%s A}' % ''.join('%d,' % (i % 7) for i in range(k)), 'N'))
        out.append((A + 'output [count A in {%s A}]' % ''.join('%d,' % (i % 7) for i in range(k)), 'n'))
        out.append((A + 'output [reverse {%s A}]' % ''.join('%d,' % (i % 7) for i in range(k)), 'N'))
        out.append((A + 'output {%s} = {%s}' % (','.join(['1'] * k + ['A']), ','.join(['1'] * (k + 1))), 'n'))
        out.append((A + 'output d{A%s}' % (',1' * k), 'n'))
        out.append((A + 'output 1d{%s}+A' % ','.join(str(i) for i in range(k)), 'n'))
        out.append((A + 'output d%d=A' % (k + 1), 'n'))
        out.append((A + 'output A + ' + '[absolute ' * min(k, 20) + '0-1' + ']' * min(k, 20), 'n'))
    for k in (1, 5, 9, 15, 16, 17, 19, 20, 21, 31, 40, 80):
        n = ('1234567890' * 9)[:k]
        out.append((A + 'output A + ' + n, 'N'))
        out.append((A + 'output #%s + A' % n, 'N'))
        out.append((A + 'output %d@%s + A' % (k, n), 'N'))
        out.append((A + 'output A + 0%s' % n, 'N'))
        out.append((A + 'output A + %s' % ('0' * k), 'N'))
        out.append((A + 'output A = %s' % n, 'N'))
    return out


def names(big=False):
    """variables and functions of many letters, words and underscores, in code and in texts"""
    out = []
    for k in (1, 2, 7, 8, 9, 10, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 80):
        for v in ('Q' * k, ('LONGNAME_' * 9)[:k], ('ABCDEFGHIJKLMNOPQRSTUVWXYZ' * 4)[:k], ('A' * 80)[:k - 1] + 'B', 'B' + 'A' * (k - 1), ('A_' * 40)[:k]):
            out.append(('A: 3 AA: 4 %s: [maximum of 0] output %s named "v [%s]!" function: f %s:n {result: %s+1} output [f %s] output "[%s][%s]"' % ((v,) * 8), 'n'))
            out.append(('%s: 1 %sX: 2 X%s: 3 loop %s over {[maximum of 0],5} {output %s+%sX+X%s named "[%s][X%s] [%sX]"}' % ((v,) * 10), 'n'))
        w = 'q' * k
        out.append(('function: %s A {result: A+1} function: %sq A {result: A+2} function: %s {result: 9} output [%s [maximum of 0]] output [%sq 1] output [%s]' % ((w,) * 6), 'n'))
        ws = ' '.join((WORDS * 4)[:k])
        out.append(('function: %s A {result: A+1} function: A %s {result: A+2} function: %s w {result: 9} output [%s [maximum of 0]] output [1 %s] output [%s w]' % ((ws,) * 6), 'n'))
        t = ('a b[A]c {A} \\ ' * 9)[:k]
        out.append((A + 'output A named "%s" output "%s"' % (t, t), 'n'))
        out.append((A + 'output A named "%s[A]%s" output "%s"' % ('x' * k, 'y' * k, '[A]' * k), 'n'))
        out.append((A + 'output A named "%s"' % ''.join('[A]' if i % 2 else 'z' * (i % 3) + ' ' for i in range(k)), 'n'))
    for k in (2, 5, 9, 17, 26, 27, 40):
        vs = [var(i) for i in range(k)]
        out.append((' '.join('%s: %s' % (v, '[maximum of 0]' if i == k - 1 else i) for i, v in enumerate(vs)) + ' output 1 named "%s"' % ' '.join('[%s]' % v for v in vs), 'n'))
        out.append((' '.join('%s: "%s"' % (v, v.lower() * 3) for i, v in enumerate(vs)) + ' output 1 named "%s"' % ''.join('[%s]' % v for v in reversed(vs)), 'n'))
        out.append((A + ' '.join('output "%s" named "%s"' % ('t%d' % i, 'n%d[A]' % i) for i in range(k)), 'n'))
        out.append((A + 'output {%s}' % ','.join('"t%d"' % i for i in range(k)), 'n'))
    return out


def layouts(big=False):
    """white space and comments of any amount between any two tokens; none where they are not needed"""
    progs = ['output A + 1 named "s \\ t"', 'function : f X : n { result : X - 1 } output [ f A ]', 'if A > 1 { output 1 } else if A < 0 { output 2 } else { output 3 }', 'loop I over { 1 , A } { B : I output B }', 'output 1 ! = A output 2 . . A',
             'set "explode depth" to 1 output ( A ) @ { 5 , 6 }', 'output - A ^ 2 output # { A , 1 .. 3 }', 'output 1 d 2 + A named "[A]"']
    seps = [' ', '\n', '\t', '  ', '\n\n\n', ' \t\n ', '\\ c \\', ' \\c\\ \\c\\ ', '\\\\', '\\a\\\\b\\', ' \\ "q" \\ ', '\\ output 9 \\', '\\ two\nlines \\', '\\\n\\', '\\ [A] {x} $ \\', '\n\\ A: 5 \\\n', '\\a\\ \\b\\ \\c\\', '\\ \n \\ \\ \n \\', '\\%s\\' % ('x' * 70), ' ' * 50,
            '\n' * 30, '\\ \' \\', '\\ é \\', '\\ ? \\ \t', '\\1\\\n\\2\\']
    out = []
    for p in progs:
        p = p.replace('! =', '!=').replace('. .', '*')
        toks, cur = [], ''
        for t in p.split(' '):        # a text is one piece
            cur = cur + ' ' + t if cur else t
            if cur.count('"') % 2 == 0:
                toks.append(cur)
                cur = ''
        for s in seps:
            out.append((A + s.join(toks), 'N'))
            out.append((s + A + s + s.join(toks) + s, 'N'))
        for i in range(1, len(toks)):
            for s in (seps if big else seps[6:15:2] + ['\\a\\ \\b\\']):
                out.append((A + ' '.join(toks[:i]) + s + ' '.join(toks[i:]), 'N'))
        for s in seps[6:]:            # comments at different places of one line, code between them
            out.append((A + ' '.join(t + (s if i % 2 else '') for i, t in enumerate(toks)), 'N'))
            out.append((A + ' '.join(t + (s if i in (1, len(toks) - 2) else '') for i, t in enumerate(toks)), 'N'))
        tight = ''
        for t in toks:
            tight += (' ' if tight and (tight[-1].isalpha() and t[0].isalpha() and tight[-1].islower() == t[0].islower() or tight[-1].isdigit() and t[0].isdigit()) else '') + t
        out.append((A + tight, 'N'))
    return out


def calls(big=False):
    """many functions, one call that is of none of them: other name, one argument more or less, other place of the argument"""
    out = []
    for k in (1, 2, 5, 9, 17, 21, 22, 33, 65) + ((129, 300) if big else ()):
        nm = ['f' + ''.join(chr(97 + int(d)) for d in str(i)) for i in range(k)]
        defs = ['function: %s A {result: A+%d}' % (n, i) for i, n in enumerate(nm)]
        uses = ['output [%s %d]' % (n, i) for i, n in enumerate(nm)]
        out.append((' '.join(defs + uses), ''))
        out.append((' '.join(uses + defs), ''))
        for at in sorted({0, k // 2, k - 1, min(k - 1, 19), min(k - 1, 20)}):
            for bad in ('output [%sz 1]' % nm[at], 'output [%s 1 2]' % nm[at], 'output [1 %s]' % nm[at], 'output [%s]' % nm[at], 'output [z%s 1]' % nm[at], 'output [%s %s 1]' % (nm[at], nm[at]), 'output [a 1]', 'output [zz 1]'):
                out.append((' '.join(defs + uses[:at] + [bad] + uses[at + 1:]), ''))
                out.append((' '.join(defs[:at] + ['function: q B {%s result: B}' % bad] + defs[at:] + uses), ''))
            out.append((' '.join(defs[:at] + defs[at + 1:] + uses), ''))
            out.append((' '.join(uses + defs[:at] + defs[at + 1:]), ''))
    return out


def strings(big=False):
    """texts of many pieces: variables beside brackets, spaces, letters and braces"""
    pieces = ['[A]', ']', ' ', 'x', '[B]', '{', '}', '[A]]', '\\', "'", '[A', '[', '1', '_', '[AB]']
    out = []
    for k in range(2, 11):
        for j in range(len(pieces)):
            for st in (1, 2, 4, 7):
                t = ''.join(pieces[(j + i * st) % len(pieces)] for i in range(k))
                out.append((A + 'B: 7 AB: 9 output A named "%s"' % t, 'n'))
        for p in pieces:
            out.append((A + 'B: 7 AB: 9 output A named "%s"' % ('[A]%s' % p * k), 'n'))
            out.append((A + 'B: 7 AB: 9 output "%s"' % (('[B]%s' % p) * k), 'n'))
            out.append((A + 'B: 7 AB: 9 output A named "%s"' % ('y' * k + '[A]' + p + 'z[B]' * k + p), 'n'))
    return out


def groups(f, size=12):
    """programs in groups of one kind of input"""
    by = {}
    for t, k in f:
        by.setdefault(k, []).append(t)
    return [(k, ts[i:i + size]) for k, ts in by.items() for i in range(0, len(ts), size)]
