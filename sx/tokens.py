"""Symbolic token streams: the real parser (its LALR driver and generated tables) runs on tokens whose kind is a solver variable.
A table lookup forks only between the entries of the current state; all tokens without an entry (syntax errors) stay one class."""
import copy

from . import plain

# text, kind and text in the reference grammar
ITEMS = ([('1', 'num', '1'), ('A', 'up', 'A'), ('a', 'low', 'a'), ('d', 'd', 'd'), ('"s"', 'str', 's'), ('"[A]"', 'strvar', 'A')] +
         [(k, 'kw', k) for k in ('output', 'function', 'loop', 'over', 'named', 'set', 'to', 'if', 'else', 'result')] +
         [(o, o, o) for o in ('+', '-', '*', '/', '^', ':', '<', '>', '=', '!=', '@', '#', '|', '&', '!', '.', '..', ',', '(', ')', '{', '}', '[', ']')])
TEXTS = [i[0] for i in ITEMS]
KINDS = {}
for _i, _x in enumerate(ITEMS):
    KINDS.setdefault(_x[1], []).append(_i)


class Tok:
    """a symbolic token"""

    def __init__(self, eng, var):
        self.eng, self.var = eng, var

    def is_any(self, ids):
        ids = sorted(ids)
        if not ids:
            return False
        if len(ids) == ids[-1] - ids[0] + 1 and len(ids) > 2:
            return bool(self.var >= ids[0]) and bool(self.var <= ids[-1])
        return any(self.var == i for i in ids)

    def id(self):
        return self.eng.concretize(self.var)

    # reference side: (kind, text)
    def __getitem__(self, k):
        return Kind(self) if k == 0 else ITEMS[self.id()][2]


class Kind:
    def __init__(self, tok):
        self.tok = tok

    def __eq__(self, o):
        return isinstance(o, str) and self.tok.is_any(KINDS.get(o, ()))

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class LType:
    """type of a symbolic token, as the parser driver sees it"""

    def __init__(self, tok):
        self.tok = tok

    def __eq__(self, o):
        return isinstance(o, str) and self.tok.is_any(lex_ids().get(o, ()))

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __str__(self):
        return '?'


class LTok:
    lineno = 1
    lexpos = 0

    def __init__(self, tok):
        self.tok = tok

    @property
    def type(self):
        if isinstance(self.tok, int):
            return lex_table()[self.tok][0]
        return LType(self.tok)

    @property
    def value(self):
        if isinstance(self.tok, int):
            return lex_table()[self.tok][1]
        eng = self.tok.eng
        a = next(m[0] for m in self.tok.var.n if m)
        v = eng.pins.get(a)
        return lex_table()[int(v)][1] if v is not None else '?'


class Actions(dict):
    def get(self, t, default=None):
        if not isinstance(t, LType):
            return dict.get(self, t, default)
        ids = lex_ids()
        # entries that shift first (their token is then known), then the reductions
        for k in sorted((k for k in self if k in ids), key=lambda k: (self[k] < 0, k)):
            if t.tok.is_any(ids[k]):
                return self[k]
        return default


class FakeLexer:
    lexdata = ''
    lineno = 1
    lexpos = 0

    def __init__(self, toks):
        self.toks, self.i = toks, 0
        self.LEX_ILLEGAL_CHARS, self.YACC_ILLEGALs = [], []

    def input(self, text):
        self.i = 0

    def token(self):
        if self.i >= len(self.toks):
            return None
        self.i += 1
        t = LTok(self.toks[self.i - 1])
        t.lexer = self
        return t

    def __iter__(self):
        return self

    def __next__(self):
        t = self.token()
        if t is None:
            raise StopIteration
        return t

    def __getattr__(self, n):
        raise AttributeError(n)


_table = None


def lex_table():
    """what the real lexer makes of each item: (type, value)"""
    global _table
    if _table is None:
        plain.compile_program('output 1')
        mp = plain.compiler_module('dice_calc.parser.myparser')
        out = []
        for t in TEXTS:
            lexer, _ = mp.build_lex_yacc()
            lexer.LEX_ILLEGAL_CHARS, lexer.YACC_ILLEGALs = [], []
            lexer.input(t)
            ts = list(lexer)
            if len(ts) != 1:
                raise AttributeError('token %r' % t)
            out.append((ts[0].type, ts[0].value))
        _table = out
    return _table


_ids = None


def lex_ids():
    global _ids
    if _ids is None:
        _ids = {}
        for i, (t, _) in enumerate(lex_table()):
            _ids.setdefault(t, []).append(i)
    return _ids


_parser = None


def compile_tokens(toks, flags):
    """compile_anydice of the real package on a stream of (symbolic or concrete) tokens -> text or raises"""
    global _parser
    lex_table()
    mp = plain.compiler_module('dice_calc.parser.myparser')
    w, m = plain._compiler
    if _parser is None:
        _, y = mp.build_lex_yacc()
        y = copy.copy(y)
        y.action = {s: Actions(d) for s, d in y.action.items()}
        _parser = y
    saved = mp.build_lex_yacc
    with w:
        mp.build_lex_yacc = lambda *a, **k: (FakeLexer(toks), _parser)
        try:
            return m.compile_anydice('tokens', flags=dict(flags) if flags else None)
        finally:
            mp.build_lex_yacc = saved


class Layout:
    """text of the tokens with n newlines, then m spaces before each one (solver variables), as far as positions in it are asked for"""

    def __init__(self, toks, gaps):
        self.lens = [len(TEXTS[t]) if isinstance(t, int) else 1 for t in toks]
        self.gaps, self.starts, self.lines, self._last = gaps, [], [], {}
        pos, line = 0, 1
        for (n, m), k in zip(gaps, self.lens):
            pos, line = pos + n + m, line + n
            self.starts.append(pos)
            self.lines.append(line)
            pos = pos + k

    def last(self, i):
        """the last newline before token i"""
        if i not in self._last:
            j = i
            while j >= 0 and not bool(self.gaps[j][0] > 0):
                j -= 1
            self._last[i] = self.starts[j] - self.gaps[j][1] - 1 if j >= 0 else -1
        return self._last[i]

    def _at(self, pos):
        for i, p in enumerate(self.starts):
            if p is pos:
                return i
        raise AttributeError('position inside the text')

    def rfind(self, what, lo=0, hi=None):
        if what != '\n' or lo != 0 or hi is None:
            raise AttributeError('search in the text')
        return self.last(self._at(hi))

    def count(self, what, lo=0, hi=None):
        if what != '\n' or lo != 0 or hi is None:
            raise AttributeError('search in the text')
        return self.lines[self._at(hi)] - 1


class PlacedLexer(FakeLexer):
    def __init__(self, toks, layout):
        FakeLexer.__init__(self, toks)
        self.lexdata = layout

    def token(self):
        t = FakeLexer.token(self)
        if t is not None:
            t.lexpos, t.lineno = self.lexpos, self.lineno = self.lexdata.starts[self.i - 1], self.lexdata.lines[self.i - 1]
        return t


def errors_of_tokens(toks, gaps):
    """the syntax errors the real parser reports on placed tokens, and where each token is: [(offset, line, column)], [(offset, line, column function)]"""
    lex_table()
    mp = plain.compiler_module('dice_calc.parser.myparser')
    w, m = plain._compiler
    try:
        compile_tokens([0], None)
    except Exception:
        pass
    layout = Layout(toks, gaps)
    lexer = PlacedLexer(toks, layout)
    with w:
        m.do_yacc('tokens', lexer, _parser)
    return [x[1:] for x in lexer.YACC_ILLEGALs], [(p, n, lambda i=i: layout.starts[i] - layout.last(i)) for i, (p, n) in enumerate(zip(layout.starts, layout.lines))]
