"""Printed reports: dice with symbolic weights, faces and widths are printed by the real output code; every piece of the text (numbers symbolic) is compared with
the rounded mean, deviation, percentages and bars computed by the harness."""
from sx.run import Case
from .common import total, wide

BOUNDS = ('dice of 1..3 faces (any integers -120..120 or given integers, reals and texts), weights 0..50, widths 1..14 (any) and 40, all combinations of name, show_pdf, print_, print function and default printer, '
          'dice of 7..101 given faces (one symbolic weight), mixed faces of different lengths in narrow columns, width 180, cdf_cut 0, 10, 50; faces next to one of weight 100..1e20; numbers, sequences (equal elements, zeros, nested, ranges), blanks and empty sequences as input')
ASSUMPTIONS = ['numbers are formatted by Python: a printed symbolic number is its value and format', 'exact rounding ties may fall either way']
BUDGET = {'quick': 500, 'thorough': 1800}
DASH = '-'


def moments(pairs):
    W = total(pairs)
    m = sq = 0
    for v, w in pairs:
        m = m + v * w
        sq = sq + v * v * w
    return m / W, sq / W


def expect(S, d, pairs, named, pdf, width, table=None, texts=False):
    """pieces of the report"""
    out = []
    if named is not None:
        out.append(named + ' ')
    if texts:
        out.append('NaN ± NaN')
    else:
        mean, sq = moments(pairs)
        var = sq - mean * mean
        out += [('r2', mean), ' ± ', ('r2', S.root(var))]
    if pdf:
        W = total(pairs)
        rows = table if table is not None else [(v, w / W) for v, w in pairs]
        n = 0
        for v, _ in rows:
            k = len(str(v))
            n = k if k > n else n
        blocks = width - n if width - n > 0 else 0
        for v, p in rows:
            out += ['\n', ('pad', v, n), ': ', ('pct', 100 * p), '  ', ('bar', p * blocks)]
        out.append('\n' + '-' * (width + 8))
    return out


def build(S, faces, hi=50, lo=1):
    if isinstance(faces, int):
        v = S.ints('v', faces, -120, 120)
        for a, b in zip(v, v[1:]):
            S.assume(a < b)
    else:
        v = list(faces)
    w = S.weights('w', len(v), lo, hi) if lo < hi else [lo] * len(v)
    if lo == 0:
        S.assume(sum(w[1:], w[0]) > 0)
    return S.lib.RV(v, w), list(zip(v, w))


def text(S, faces, named, pdf, width, lo=1, hi=50):
    d, pairs = build(S, faces, lo=lo, hi=hi)
    if width == 'any':
        width = S.int('width', 1, 14)
        width = S.fork(width)
    r = S.lib.output(d, named=named, show_pdf=pdf, blocks_width=width, print_=False)
    S.check(S.report(r, expect(S, d, pairs, named, pdf, width)), 'report')


def tiny(S, n, N, width, named=None):
    """a face that is hardly ever rolled, or almost always"""
    w = S.weights('w', n - 1, 1, 3) if n == 2 else [S.choose('w%d' % i, [1, 2, 3]) for i in range(n - 1)]
    pairs = list(zip(range(n), list(w) + [N]))
    d = S.lib.RV(*zip(*pairs))
    r = S.lib.output(d, named=named, print_=False, blocks_width=width)
    S.check(S.report(r, expect(S, d, pairs, named, True, width)), 'report')


def many(S, n, start, step, width, hi, c=0):
    d, pairs = wide(S, 'd', n, start, step, hi=hi, sym=1)
    if width is None:
        r = S.lib.output(d, print_=False, cdf_cut=c)
        width = 180
    else:
        r = S.lib.output(d, print_=False, blocks_width=width, cdf_cut=c)
    S.check(S.report(r, expect(S, d, pairs, None, True, width, table=list(d.get_vals_probs(c / 100)) if c else None)), 'report')


def columns(S, faces, width):
    """faces of different lengths, the longest anywhere; one symbolic weight"""
    w = [1 + (2 * i) % 3 for i in range(len(faces))]
    w[len(faces) // 3] = S.int('w', 1, 9)
    pairs = list(zip(faces, w))
    d = S.lib.RV(faces, w)
    r = S.lib.output(d, print_=False, blocks_width=width)
    S.check(S.report(r, expect(S, d, pairs, None, True, width)), 'report')


def setting(S, faces, via):
    """width from the settings; method and repr"""
    d, pairs = build(S, faces)
    w = S.fork(S.int('width', 1, 9))
    S.lib.settings_set('DEFAULT_OUTPUT_WIDTH', w)
    if via == 'method':
        r = d.output(print_=False)
    elif via == 'repr':
        r = repr(d) if S.concrete else type(d).__repr__(d)
    else:
        r = S.lib.output(d, print_=False)
    S.check(S.report(r, expect(S, d, pairs, None, True, w)), 'report with the default width')


def cut(S, faces, c):
    d, pairs = build(S, faces)
    r = S.lib.output(d, print_=False, blocks_width=12, cdf_cut=c)
    S.check(S.report(r, expect(S, d, pairs, None, True, 12, table=list(d.get_vals_probs(c / 100)))), 'report without the rare faces')


def texts(S, faces, named):
    """text faces: rows in order, texts that look like numbers quoted, no mean"""
    raw = list(S.lib.get_seq(list(faces)))
    w = S.weights('w', len(raw), 1, 50)
    d = S.lib.RV(raw, w)
    shown = []
    for x, p in sorted(zip(faces, w), key=lambda t: (isinstance(t[0], str), t[0])):
        shown.append((('"%s"' % x if x.lstrip('-').isdigit() else x) if isinstance(x, str) else x, p))
    W = total(shown)
    r = S.lib.output(d, named=named, print_=False, blocks_width=12)
    S.check(S.report(r, expect(S, d, None, named, True, 12, table=[(x, p / W) for x, p in shown], texts=True) if False else
                     pieces_texts(S, shown, W, named)), 'report of a die with texts')


def pieces_texts(S, shown, W, named):
    out = [] if named is None else [named + ' ']
    out.append('NaN ± NaN')
    n = max(len(str(x)) for x, _ in shown)
    for x, p in shown:
        out += ['\n', ('pad', x, n), ': ', ('pct', 100 * p / W), '  ', ('bar', p * (12 - n) / W)]
    return out + ['\n' + '-' * 20]


def route(S, kind, named, pdf, print_, own):
    """exactly one printer gets the text, or it is returned"""
    L = S.lib
    log = []
    L.settings_set('DEFAULT_PRINT_FN', lambda *a: log.append(('default',) + a))
    L.settings_set('DEFAULT_OUTPUT_WIDTH', 7)
    if kind == 'die':
        x, pairs = build(S, [1, 2])
    elif kind == 'num':
        x = S.int('x', -120, 120)
        pairs = [(x, 1)]
    elif kind == 'real':
        x = 2.5
        pairs = [(x, 1)]
    elif kind == 'seq':
        v = S.ints('x', 2, -20, 20)
        S.assume(v[0] < v[1])
        x, pairs = L.Seq(list(v)), [(v[0], 1), (v[1], 1)]
    elif kind == 'list':
        v = S.ints('x', 2, -20, 20)
        S.assume(v[0] > v[1])
        x, pairs = list(v), [(v[1], 1), (v[0], 1)]
    elif kind == 'one':
        v = S.int('x', -120, 120)
        x, pairs = L.Seq(v), [(v, 1)]
    elif kind == 'alike':
        v = S.int('x', -120, 120)
        x, pairs = L.Seq(v, v, [v]), [(v, 1)]
    elif kind == 'zeros':
        x, pairs = L.Seq(0, 0), [(0, 1)]
    elif kind == 'const':
        v = S.int('x', -120, 120)
        x, pairs = L.RV.from_const(v), [(v, 1)]
    elif kind == 'range':
        x, pairs = range(0, 2), [(0, 1), (1, 1)]
    elif kind == 'nested':
        v = S.int('x', 1, 120)
        x, pairs = L.Seq([], [0, [v]]), [(0, 1), (v, 1)]
    else:
        pairs = None
        x = {'none': None, 'blank': L.roll(1, L.Seq()), 'special': L.roll(L.roll(1, L.Seq()), 6), 'empty': L.Seq()}[kind]
    f = (lambda *a: log.append(('given',) + a)) if own else None
    r = L.output(x, named=named, show_pdf=pdf, print_=print_, print_fn=f)
    if pairs is None:
        exp = [] if named is None else [named + ' ']
        exp.append('\n' + '-' * 15)
    else:
        exp = expect(S, None, pairs, named, pdf, 7)
    if print_:
        S.check(r is None and len(log) == 1 and log[0][0] == ('given' if own else 'default') and len(log[0]) == 2, 'printed once, by the right printer')
        S.check(S.report(log[0][1], exp), 'printed text')
    else:
        S.check(not log, 'nothing printed')
        S.check(S.report(r, exp), 'returned text')


def cases(tier):
    big = tier == 'thorough'
    c = []
    T = dict(max_time=300 if big else 40, max_paths=4000, witness=6, gcd='one', wtie=True, nl=True, rnd=True)
    for n in (None, '', 'x', 'two words', 'ü{}'):
        for pdf in (True, False):
            c.append(Case(text, faces=[1, 2], named=n, pdf=pdf, width=20, **T))
    for f in ([1], [1, 2], [-3, 7], [0, 100], [-100, 5, 7], [1.5, 2], [0.25, 1, 1000], [1, 2, 3]):
        c.append(Case(text, faces=f, named=None, pdf=True, width='any', **(T if len(f) < 3 or big else dict(T, hi=9))))
        c.append(Case(text, faces=f, named='d', pdf=True, width=12, lo=0, **T))
        c.append(Case(text, faces=f, named=None, pdf=True, width=40 if len(f) < 3 or big else 9, **T))
        for k in (10, 50):
            c.append(Case(cut, faces=f, c=k, **T))
    for w in (1, 3, 8):
        c.append(Case(text, faces=1, named=None, pdf=True, width=w, **T))
        c.append(Case(text, faces=2, named=None, pdf=True, width=w, hi=1 if not big else 4, **T))
    c.append(Case(text, faces=1, named='n', pdf=False, width=3, **T))
    c.append(Case(text, faces=2, named='n', pdf=False, width=3, hi=1 if not big else 4, **T))
    for n, start, step, width, hi in ((7, 1, 1, 12, 30), (9, -4, 3, 10, 30), (12, 1, 1, 9, 30), (12, -3, 9, 20, 30), (20, 1, 1, 30, 30), (30, 0, 1, 9, 9), (2, 1, 1, None, 9), (6, 1, 1, None, 9)):
        c.append(Case(many, n=n, start=start, step=step, width=width, hi=hi, **T))
        c.append(Case(many, n=n, start=start, step=step, width=width, hi=9, c=5, **T))
    for n in (10, 11, 17, 33, 65, 101):
        c.append(Case(many, n=n, start=-(n // 2), step=1 + n % 3, width=(11, 30)[n % 2], hi=5, **T))
    for f in ([1, 1.25, 2], [-1, 0.125, 3], [0, 1, 1.5, 2, 2.25, 3], [-3, -2.5, 100], [5, 5.0625, 6, 7], [-9, -1.0625, 12], [0.5], [-1, 0, 1, 10, 100]):
        for w in (4, 7, 10, 21):
            c.append(Case(columns, faces=f, width=w, **T))
    for N in (100, 10 ** 3, 10 ** 4, 2 * 10 ** 4, 10 ** 5, 10 ** 7, 10 ** 12, 10 ** 20):
        for n in (2, 3):
            c.append(Case(tiny, n=n, N=N, width=20, **T))
    for via in ('method', 'repr', 'function'):
        c.append(Case(setting, faces=[1, 20], via=via, **T))
        c.append(Case(setting, faces=1, via=via, **T))
    for f in (['a'], ['a', 'b'], ['b', 'a', 3], ['5', 'x'], ['-7', '12', 4], ['long text', 'x']):
        for n in (None, 'name'):
            c.append(Case(texts, faces=f, named=n, **T))
    for kind in ('die', 'num', 'real', 'seq', 'list', 'none', 'blank', 'special', 'empty', 'one', 'alike', 'zeros', 'const', 'range', 'nested'):
        for named in (None, 'nm'):
            for pdf in (True, False):
                for print_ in (True, False):
                    for fn in (True, False):
                        c.append(Case(route, kind=kind, named=named, pdf=pdf, print_=print_, own=fn, **T))
    return c
