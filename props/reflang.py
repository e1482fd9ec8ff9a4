"""Reference implementation of the dice language: tokens, grammar (recursive descent over the documented precedence) and an interpreter
that applies the package's own primitives (roll, sequences, casting, library functions) in the order the grammar prescribes."""
import math
import operator

KEYWORDS = ('output', 'function', 'loop', 'over', 'named', 'set', 'to', 'if', 'else', 'result')
BINLEVEL = {'|': 1, '&': 2, '<': 3, '>': 3, '=': 3, '!=': 3, '<=': 3, '>=': 3, '+': 4, '-': 4, '*': 5, '/': 5, '^': 6, '@': 7}
LIBRARY = ('absolute_X', 'X_contains_X', 'count_X_in_X', 'explode_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X', 'highest_of_X_and_X',
           'lowest_of_X_and_X', 'maximum_of_X', 'reverse_X', 'sort_X', 'true_div_X_X')


class Reject(Exception):
    pass


# ---------------------------------------------------------------- tokens
def tokenize(s):
    """-> list of (kind, text); kinds: num, low, up, kw, d, str, strvar and the operator texts"""
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c in ' \t\n':
            i += 1
        elif c == '\\':
            j = s.find('\\', i + 1)
            if j < 0:
                raise Reject('illegal character')
            i = j + 1
        elif c.isdecimal():
            j = i
            while j < n and s[j].isdecimal():
                j += 1
            out.append(('num', s[i:j]))
            i = j
        elif 'a' <= c <= 'z':
            j = i
            while j < n and 'a' <= s[j] <= 'z':
                j += 1
            w = s[i:j]
            out.append(('d', w) if w == 'd' else ('kw', w) if w in KEYWORDS else ('low', w))
            i = j
        elif 'A' <= c <= 'Z' or c == '_':
            j = i
            while j < n and ('A' <= s[j] <= 'Z' or s[j] == '_'):
                j += 1
            out.append(('up', s[i:j]))
            i = j
        elif c == '"':
            j = s.find('"', i + 1)
            if j < 0 or '\n' in s[i:j]:
                raise Reject('unclosed string')
            out.extend(string_parts(s[i + 1:j]))
            i = j + 1
        elif s[i:i + 2] in ('!=', '..'):
            out.append((s[i:i + 2], s[i:i + 2]))
            i += 2
        elif c in '+-*/^:<>=@#|&!.,(){}[]':
            out.append((c, c))
            i += 1
        else:
            raise Reject('illegal character')
    return out


def string_parts(body):
    """literal text with [NAME] replaced by variables"""
    out, i, lit = [], 0, ''
    while i < len(body):
        if body[i] == '[':
            j = i + 1
            while j < len(body) and ('A' <= body[j] <= 'Z' or body[j] == '_'):
                j += 1
            if j > i + 1 and j < len(body) and body[j] == ']':
                if lit:
                    out.append(('str', lit))
                    lit = ''
                out.append(('strvar', body[i + 1:j]))
                i = j + 1
                continue
        lit += body[i]
        i += 1
    if lit:
        out.append(('str', lit))
    return out


# ---------------------------------------------------------------- grammar
class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0
        self.outputs, self.called, self.defined = 0, set(), set()

    def peek(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def text(self):
        return self.t[self.i][1]

    def take(self, kind, text=None):
        if self.peek() != kind or (text is not None and self.text() != text):
            raise Reject('expected %s' % (text or kind))
        self.i += 1
        return self.t[self.i - 1][1]

    def is_kw(self, w, k=0):
        return self.peek(k) == 'kw' and self.t[self.i + k][1] == w

    def program(self):
        body = self.block(top=True)
        if self.i != len(self.t):
            raise Reject('extra input')
        return body

    def block(self, top=False):
        out = []
        while self.peek() is not None and not (not top and self.peek() == '}'):
            out.append(self.statement())
        return out

    def braced(self):
        self.take('{')
        b = self.block()
        self.take('}')
        return b

    def statement(self):
        k = self.peek()
        if k == 'up':
            name = self.take('up')
            self.take(':')
            return ('assign', name, self.expr())
        if k != 'kw':
            raise Reject('no statement')
        w = self.text()
        if w not in ('output', 'set', 'result', 'loop', 'if', 'function'):
            raise Reject('no statement')
        self.i += 1
        if w == 'output':
            e = self.expr()
            self.outputs += 1
            if self.is_kw('named'):
                self.i += 1
                return ('output', e, self.string())
            return ('output', e, None)
        if w == 'set':
            n = self.string()
            self.take('kw', 'to')
            return ('set', n, self.expr())
        if w == 'result':
            self.take(':')
            return ('result', self.expr())
        if w == 'loop':
            v = self.take('up')
            self.take('kw', 'over')
            e = self.expr()
            return ('loop', v, e, self.braced())
        if w == 'if':
            arms = [(self.expr(), self.braced())]
            other = None
            while self.is_kw('else'):
                if self.is_kw('if', 1):
                    self.i += 2
                    arms.append((self.expr(), self.braced()))
                else:
                    self.i += 1
                    other = self.braced()
                    break
            return ('if', arms, other)
        if w == 'function':
            self.take(':')
            name, params = [], []
            while self.peek() in ('low', 'kw', 'd', 'up'):
                if self.peek() == 'up':
                    p = self.take('up')
                    ty = None
                    if self.peek() == ':':
                        self.i += 1
                        if self.peek() not in ('low', 'd'):
                            raise Reject('parameter type')
                        ty = self.text()
                        self.i += 1
                    params.append((p, ty))
                    name.append('X')
                else:
                    name.append(self.text())
                    self.i += 1
            body = self.braced()
            self.defined.add('_'.join(name))
            return ('function', '_'.join(name), params, body)
        raise Reject('no statement')

    def string(self):
        parts = []
        while self.peek() in ('str', 'strvar'):
            parts.append((self.peek(), self.text()))
            self.i += 1
        if not parts:
            raise Reject('string expected')
        return ('string', parts)

    def expr(self, level=1):
        e = self.dice()
        return self.rest(e, level)

    def binop(self):
        k = self.peek()
        for op in ('<', '>'):
            if k == op and self.peek(1) == '=':
                return op + '=', 2
        for op in BINLEVEL:
            if k == op:
                return op, 1
        return None, 0

    def rest(self, left, level):
        while True:
            op, n = self.binop()
            if op is None or BINLEVEL[op] < level:
                return left
            self.i += n
            right = self.rest(self.dice(), BINLEVEL[op] + 1)
            left = ('bin', op, left, right)

    def dice(self):
        if self.peek() == 'd':
            self.i += 1
            return ('roll', None, self.term())
        t = self.term()
        if self.peek() == 'd':
            self.i += 1
            return ('roll', t, self.term())
        return t

    def term(self):
        k = self.peek()
        for u in ('+', '-', '!', '#'):
            if k == u:
                self.i += 1
                return ('un', u, self.term())
        if k == '(':
            self.i += 1
            e = self.expr()
            self.take(')')
            return e
        if k == 'num':
            a = self.take('num')
            if self.peek() == '.':
                self.i += 1
                return ('dec', a, self.take('num'))
            return ('num', a)
        if k == 'up':
            return ('var', self.take('up'))
        if k in ('str', 'strvar'):
            return self.string()
        if k == '{':
            self.i += 1
            elems = []
            if self.peek() == '}':
                self.i += 1
                return ('seq', elems)
            while True:
                e = self.expr()
                if self.peek() == '..':
                    self.i += 1
                    e = ('range', e, self.expr())
                elems.append(e)
                if self.peek() != ',':
                    break
                self.i += 1
            self.take('}')
            return ('seq', elems)
        if k == '[':
            self.i += 1
            name, args = [], []
            while self.peek() != ']':
                if self.peek() is None:
                    raise Reject('unclosed call')
                if self.peek() in ('low', 'kw'):
                    name.append(self.text())
                    self.i += 1
                else:
                    args.append(self.expr())
                    name.append('X')
            if not name:
                raise Reject('empty call')
            self.i += 1
            self.called.add('_'.join(name))
            return ('call', '_'.join(name), args)
        raise Reject('no term')


def parse(text):
    """-> (statements, Parser); raises Reject"""
    p = Parser(tokenize(text))
    return p.program(), p


def parse_tokens(toks):
    p = Parser(toks)
    return p.program(), p


def accepts(text, exist_check=True):
    """is the text a program of the language (with an output and all called functions defined)?"""
    if text is None or text.strip() == '':
        return False
    try:
        ast, p = parse(text)
    except Reject:
        return False
    return acceptable(p, exist_check)


def acceptable(p, exist_check=True):
    if p.outputs == 0:
        return False
    return not exist_check or p.called <= (p.defined | set(LIBRARY))


# ---------------------------------------------------------------- interpreter
class Result(Exception):
    def __init__(self, v):
        self.v = v


class Unset(Exception):
    pass


class Interp:
    """runs a program; nonlocal_: called functions work on a copy of the caller's variables"""

    def __init__(self, S, variables=None, nonlocal_=False, on_int=False, extra=None):
        self.S, self.nonlocal_, self.on_int = S, nonlocal_, on_int
        self.lib = dict(S.langlib(), **(extra or {}))
        self.glob = dict(variables or {})
        self.funcs = {}
        self.outs = []

    def run(self, ast):
        self.block(ast, Scope(self, self.glob))
        return self.outs

    def block(self, body, sc):
        for st in body:
            self.stmt(st, sc)

    def stmt(self, st, sc):
        k = st[0]
        if k == 'assign':
            sc.set(st[1], self.ev(st[2], sc))
        elif k == 'output':
            v = self.ev(st[1], sc)
            self.outs.append((v, None if st[2] is None else self.text(st[2], sc)))
        elif k == 'set':
            self.lib['settings_set'](self.text(st[1], sc), self.text(st[2], sc) if st[2][0] == 'string' else self.ev(st[2], sc))
        elif k == 'result':
            raise Result(self.ev(st[1], sc))
        elif k == 'loop':
            for x in self.ev(st[2], sc):
                sc.set(st[1], x)
                self.block(st[3], sc)
        elif k == 'if':
            for c, b in st[1]:
                if self.ev(c, sc):
                    self.block(b, sc)
                    return
            if st[2] is not None:
                self.block(st[2], sc)
        elif k == 'function':
            self.funcs[st[1]] = self.define(st)

    def define(self, st):
        _, name, params, body = st
        seen, names = set(), []
        for p, _ in params:
            names.append(p)
        local = assigned(body) | set(names)
        L = self.lib
        me = self

        def run(caller, args):
            if me.nonlocal_:
                sc = Scope(me, dict(caller.vars))
            else:
                sc = Scope(me, {}, local)
            for i in reversed(range(len(names))):       # of equal parameters the first counts
                sc.vars[names[i]] = args[i]
            try:
                me.block(body, sc)
            except Result as r:
                return r.v
            return None
        # a function with the declared parameter types, cast by the package's own decorator
        cur = []

        def make():
            src = 'def f(%s):\n  return run(cur[-1], (%s))\n' % (
                ', '.join('p%d' % i for i in range(len(params))), ''.join('p%d, ' % i for i in range(len(params))))
            g = {'run': run, 'cur': cur}
            exec(src, g)
            f = g['f']
            for i, (_, ty) in enumerate(params):
                t = {'n': L['T_N'], 's': L['T_S'], 'd': L['T_D']}.get(ty)
                if t is not None:
                    f.__annotations__['p%d' % i] = t
            return L['anydice_casting']()(f)
        f = make()

        def call(caller, args):
            cur.append(caller)
            try:
                return f(*args)
            finally:
                cur.pop()
        return call

    def text(self, node, sc):
        out = ''
        for kind, t in node[1]:
            out += t if kind == 'str' else '{}'.format(sc.get(t))
        return out

    def ev(self, e, sc):
        k = e[0]
        L = self.lib
        if k == 'num':
            return int(e[1])
        if k == 'dec':
            return float(e[1] + '.' + e[2])
        if k == 'var':
            return sc.get(e[1])
        if k == 'string':
            return self.text(e, sc)
        if k == 'bin':
            return self.binary(e[1], self.ev(e[2], sc), self.ev(e[3], sc))
        if k == 'un':
            return self.unary(e[1], self.ev(e[2], sc))
        if k == 'roll':
            if e[1] is None:
                return L['roll'](self.ev(e[2], sc))
            a = self.ev(e[1], sc)
            return L['roll'](a, self.ev(e[2], sc))
        if k == 'seq':
            out = []
            for x in e[1]:
                if x[0] == 'range':
                    a = self.ev(x[1], sc)
                    out.append(L['myrange'](a, self.ev(x[2], sc)))
                else:
                    out.append(self.ev(x, sc))
            return L['get_seq'](out)
        if k == 'call':
            args = [self.ev(a, sc) for a in e[2]]
            if e[1] in self.funcs:
                return self.funcs[e[1]](sc, args)
            if e[1] in LIBRARY:
                return L[e[1]](*args)
            raise NameError(e[1])
        raise AssertionError(k)

    def binary(self, op, a, b):
        L = self.lib
        if self.on_int and op in '@&|':
            return {'@': L['myMatmul'], '&': L['myAnd'], '|': L['myOr']}[op](a, b)
        return {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.floordiv, '^': operator.pow, '@': operator.matmul,
                '&': operator.and_, '|': operator.or_, '<': operator.lt, '>': operator.gt, '=': operator.eq, '!=': operator.ne,
                '<=': operator.le, '>=': operator.ge}[op](a, b)

    def unary(self, op, a):
        L = self.lib
        if op == '-':
            return -a
        if op == '+':
            return +a
        if op == '!':
            return L['myInvert'](a) if self.on_int else ~a
        if self.on_int:
            return L['myLen'](a)
        if isinstance(a, (int, float)):
            raise TypeError('no length')
        return len(a)


def assigned(body):
    out = set()
    for st in body:
        if st[0] == 'assign':
            out.add(st[1])
        elif st[0] == 'loop':
            out.add(st[1])
            out |= assigned(st[3])
        elif st[0] == 'if':
            for _, b in st[1]:
                out |= assigned(b)
            if st[2]:
                out |= assigned(st[2])
    return out


class Scope:
    def __init__(self, interp, vars, local=None):
        self.interp, self.vars, self.local = interp, vars, local

    def get(self, name):
        if name in self.vars:
            return self.vars[name]
        if self.local is not None and name not in self.local and name in self.interp.glob:
            return self.interp.glob[name]
        raise Unset(name)

    def set(self, name, v):
        self.vars[name] = v
