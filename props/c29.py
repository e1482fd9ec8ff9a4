"""Where an error is.  Syntax errors: the real LALR driver, tables and error rule run on tokens that are solver variables, laid out over lines and
columns that are solver variables; the first place reported must be the first token at which no program of the language can continue.  Whole texts
(illegal characters, unclosed strings, newlines in comments and strings, errors deep in long texts) go through the real compiler."""
from sx.run import Case
from . import c15, reflang

BOUNDS = ('syntax errors: 40 token kinds, up to 1 (thorough 2) arbitrary tokens in 16 contexts, one arbitrary token replacing or inserted before each token of 45 programs, every token after 1..1000 spaces, the first and those around the arbitrary token also after 0..1000 '
          'newlines; illegal characters and unclosed strings: every ASCII character and 20 others at every position of 8 programs, 47 pieces in pairs, 1 to 60 lines before the error, comments and strings '
          'over several lines, up to 8 errors in one text')
ASSUMPTIONS = ['only the first syntax error is specified (what the parser makes of the rest is its recovery)', 'a program that ends too early, makes no output or calls an unknown function has no place to name']
BUDGET = {'quick': 500, 'thorough': 3000}


def offending(items):
    """(is it rejected, index of the offending token or None at the end)"""
    p = reflang.Parser(items)
    try:
        p.program()
        return False, None
    except reflang.Reject:
        i = p.i
        return True, (i if i < len(items) else None)


def placed(S, items, at):
    """every token in a column of its own choice; the first one and those near token at, on a line of its own choice"""
    gaps = [(S.int('n%d' % i, 0, 1000) if i == 0 or abs(i - at) < 2 else 0, S.int('m%d' % i, 1, 1000)) for i in range(len(items))]
    rejected, k = offending(S.ref_tokens(items))
    if not rejected:
        return
    got, where = S.placed_errors(items, gaps)
    if k is None:
        S.check(not got, 'the text ends too early: no place is named')
        return
    S.check(len(got) > 0, 'the place of the error is named')
    p, line, col = got[0]
    S.check(S.eq(p, where[k][0]), 'offset of the first error')
    S.check(S.eq(line, where[k][1]), 'line of the first error')
    S.check(S.eq(col, where[k][2]()), 'column of the first error')


def free(S, pre, n, post):
    placed(S, c15.toks(pre) + [S.token(str(i)) for i in range(n)] + c15.toks(post), len(c15.toks(pre)))


def edit(S, text, at, what):
    t = c15.toks(text)
    if what == 'replace':
        t[at] = S.token('0')
    else:
        t.insert(at, S.token('0'))
    placed(S, t, at)


def spot(text, i, what):
    return (what, i, text.count('\n', 0, i) + 1, i - text.rfind('\n', 0, i))


def lexical(s):
    """(illegal characters and unclosed strings, [(token, place)])"""
    bad, toks, i, n = [], [], 0, len(s)
    while i < n:
        c = s[i]
        if c in ' \t\n':
            i += 1
        elif c == '\\' and s.find('\\', i + 1) >= 0:
            i = s.find('\\', i + 1) + 1
        elif c == '"':
            i += 1
            body = i
            while i < n and s[i] != '"':
                if s[i] == '\n':
                    bad.append(spot(s, i, '\n'))
                i += 1
            if i >= n:
                bad.append(spot(s, n, 'Non-closed string'))
            elif '\n' not in s[body:i]:
                toks += [(t, spot(s, body, t[1])) for t in reflang.string_parts(s[body:i])]
            i += 1
        else:
            j = i + 1
            if c.isdecimal():
                while j < n and s[j].isdecimal():
                    j += 1
            elif 'a' <= c <= 'z':
                while j < n and 'a' <= s[j] <= 'z':
                    j += 1
            elif 'A' <= c <= 'Z' or c == '_':
                while j < n and ('A' <= s[j] <= 'Z' or s[j] == '_'):
                    j += 1
            elif s[i:i + 2] in ('!=', '..'):
                j = i + 2
            elif c not in '+-*/^:<>=@#|&!.,(){}[]':
                bad.append(spot(s, i, c))
                i += 1
                continue
            toks.append((reflang.tokenize(s[i:j])[0], spot(s, i, s[i:j])))
            i = j
    return bad, toks


def texts(S, texts):
    t = S.choose('text', texts)
    bad, toks = lexical(t)
    got = S.reported(t)
    if bad:
        S.check(got == bad, '%r: illegal characters %r reported as %r' % (t, bad, got))
        return
    rejected, k = offending([x for x, _ in toks])
    if not rejected:
        return
    S.check(got is not None, '%r: accepted' % t)
    if k is None:
        S.check(not got, '%r: ends too early, but a place is named: %r' % (t, got))
        return
    S.check(len(got) > 0 and got[0][1:] == toks[k][1][1:], '%r: error at %r reported as %r' % (t, toks[k][1], got))
    if toks[k][0][0] not in ('str', 'strvar'):
        S.check(got[0][0] == toks[k][1][0], '%r: error at %r reported as %r' % (t, toks[k][1], got))


def sized(big):
    out = []
    lines = ['output 1', '', 'A: 2d6', '\\ a comment \\', '\\ two\nlines \\ output A', 'output 1 named "text"', '   ', 'function: f A {\n  result: A\n}', '\\\n\n\n\\']
    for k in (1, 2, 3, 5, 8, 13, 21, 40, 60) + ((200, 1000) if big else ()):
        body = '\n'.join(lines[(i * 7 + k) % len(lines)] for i in range(k))
        for err in ('$', 'output )', '  output 1 1', 'output "open', 'output "two\nlines"', 'A: %d' % k, ' ' * k + '?' + ' ' * k + '~', 'output 1 \\ c', 'é', 'output 1\n }', ')' * 3, '$\n' * min(k, 8)):
            out += [body + '\n' + err, err + '\n' + body, body + '\n' + err + '\n' + body, body + '\n\n' + err, body + ' ' + err]
    return out


def cases(tier):
    big = tier == 'thorough'
    c = []
    T = dict(max_time=400 if big else 60, max_paths=200000)
    for pre, post in c15.CONTEXTS:
        for n in (1, 2) if big else (1,):
            c.append(Case(free, pre=pre, n=n, post=post, witness=2, weight=n * 2, **T))
    for t in c15.PROGRAMS + c15.CALLS:
        k = len(c15.toks(t))
        for what in ('replace', 'insert'):
            for at in range(0, k + (what == 'insert'), 1 if big else 2):
                c.append(Case(edit, text=t, at=at, what=what, witness=1, **T))
    ts = list(sized(big))
    for p in c15.CHARPROGS:
        for ch in [chr(i) for i in range(128)] + c15.EXTRA:
            for at in range(len(p) + 1):
                ts.append('\n' * (at % 3) + p[:at] + ch + p[at:])
    for a in c15.PIECES:
        for b in c15.PIECES:
            ts.append('output 1 ' + a + b)
            ts.append('A: 1\n ' + a + '\n' + b + ' output A')
            ts.append(a + b)
    ts = sorted(set(ts))
    for i in range(0, len(ts), 150):
        c.append(Case(texts, texts=ts[i:i + 150], name='texts(%d)' % i, witness=1, **T))
    return c
