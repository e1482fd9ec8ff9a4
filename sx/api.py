"""The harness interface S: one harness text, run symbolically (SymS) and concretely (ConS)."""
import contextlib
import io
import math
from fractions import Fraction

from . import plain
from .plain import PKG, PlainWorld, compile_program


def find_restricted():
    """RestrictedPython as installed for the package under test"""
    import glob
    import importlib.util
    import sys
    from importlib.machinery import PathFinder
    rp = sys.modules.get('RestrictedPython')
    if rp is None:
        try:
            import RestrictedPython as rp
        except ModuleNotFoundError:
            paths = sorted(glob.glob('/opt/venv/lib/python3*/site-packages'))
            spec = PathFinder.find_spec('RestrictedPython', paths) if paths else None
            if spec is None:
                raise
            rp = importlib.util.module_from_spec(spec)
            sys.modules['RestrictedPython'] = rp
            spec.loader.exec_module(rp)
    return rp


class Skip(BaseException):
    """assumption false in a concrete run"""


class Failed(BaseException):
    """a check failed in a concrete run"""

    def __init__(self, label, detail=''):
        self.label, self.detail = label, detail


class Base:
    """oracle helpers shared by both modes"""

    # -------- environment
    @property
    def lib(self):
        if self._world is None:
            self._world = self.new_world()
        return self._world.pkg

    @property
    def world(self):
        self.lib
        return self._world

    def mod(self, name):
        self.lib
        return self._world.load(PKG + '.' + name)

    def langlib(self):
        """the names compiled programs see"""
        m = self.mod('parser.parse_and_exec')
        with self._world:
            return m._get_lib()

    def weights(self, prefix, n, lo=1, hi=1000):
        return [self.int('%s%d' % (prefix, i), lo, hi) for i in range(n)]

    def ints(self, prefix, n, lo=None, hi=None):
        return [self.int('%s%d' % (prefix, i), lo, hi) for i in range(n)]

    def raises(self, fn, excs=Exception):
        """does fn() raise?  (returns the exception or None)"""
        try:
            fn()
        except excs as e:
            return e
        return None

    def compile(self, text, flags=None):
        r = compile_program(text, flags)
        if r[0] == 'err':
            raise r[1]
        return r[1]

    def compile_again(self, text, flags=None):
        """compiled now, whatever was compiled before -> ('ok', text) or ('err', exception)"""
        return compile_program(text, flags, cached=False)

    def compile_sym(self, text, flags=None):
        """like compile; in symbolic mode the code generator itself runs symbolically (the text may contain symbolic characters)"""
        return self.compile(text, flags)

    def front(self):
        """a fresh, unmodified instance of the package with the compiler loaded (use inside "with"); only the LALR tables, a function of the grammar, are kept"""
        w = PlainWorld()
        w.load(PKG + '.parser.parse_and_exec')
        plain.keep_tables(w)
        return w

    def compiles(self, text, flags=None):
        return compile_program(text, flags)[0] == 'ok'

    def reported(self, text, flags=None):
        """the places named by the error raised for a text; None if it is accepted, [] if the error names none"""
        import ast
        k, e = compile_program(text, flags)
        if k == 'ok':
            return None
        s = str(e)
        i = s.find('[')
        try:
            r = ast.literal_eval(s[i:]) if i >= 0 else []
        except (SyntaxError, ValueError):
            return []
        return [x for x in r if isinstance(x, tuple) and len(x) == 4]

    # -------- distributions
    def group(self, pairs):
        g = []
        for v, w in pairs:
            for e in g:
                if self.val_eq(e[0], v):
                    e[1] = e[1] + w
                    break
            else:
                g.append([v, w])
        return g

    def val_eq(self, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return bool(a == b) if not self.concrete else self.face_eq(a, b)
        if isinstance(a, (int, float)) or isinstance(b, (int, float)):
            return False
        return bool(a == b)

    def is_num(self, x):
        return isinstance(x, (int, float))

    def is_die(self, x):
        return hasattr(x, 'vals') and hasattr(x, 'probs')

    def is_blank(self, x):
        return isinstance(x, self.lib.BlankRV)

    def dist_of(self, x):
        """(value, weight) pairs of a number, sequence (as its sum) or die"""
        if self.is_die(x):
            return list(zip(x.vals, x.probs))
        return [(x, 1)]

    def same_dist(self, rv, pairs, label='distribution', sorted_faces=True):
        """the die rv has exactly the distribution given by (value, weight) pairs"""
        if not self.is_die(rv):
            if isinstance(rv, (int, float)) or type(rv).__name__ == 'StringVal':
                vals, probs = (rv,), (1,)
            else:
                self.check(False, label + ': result is not a die')
                return
        else:
            vals, probs = tuple(rv.vals), tuple(rv.probs)
        self.check(len(vals) == len(probs), label + ': as many weights as faces')
        if sorted_faces:
            for a, b in zip(vals, vals[1:]):
                self.check(bool(a < b), label + ': faces strictly ascending')
        g = self.group(pairs)
        T, R = 0, 0
        for p in probs:
            T = T + p
        for _, w in g:
            R = R + w
        used = set()
        for v, w in g:
            for i, x in enumerate(vals):
                if i not in used and self.val_eq(x, v):
                    used.add(i)
                    self.check(self.eq_prod(probs[i], R, w, T), label + ': probability of a face')
                    break
            else:
                self.check(self.eq(w, 0), label + ': every possible result is a face')
        for i in range(len(vals)):
            if i not in used:
                self.check(self.eq(probs[i], 0), label + ': no impossible result has weight')

    def same_result(self, x, pairs, label='result'):
        """x (number or die) has the distribution pairs"""
        self.same_dist(x, pairs, label)

    def conv(self, *dists, op=None):
        """distribution of op over independent draws"""
        op = op or (lambda *a: sum(a))
        acc = [((), 1)]
        for d in dists:
            acc = [(vs + (v,), w * p) for vs, w in acc for v, p in d]
        return [(op(*vs), w) for vs, w in acc]

    def snapshot(self, rv):
        """observable state of a die"""
        return (tuple(rv.vals), tuple(rv.probs), len(rv), str(rv))

    def vec_eq(self, a, b):
        """equality of two flat tuples of numbers as one formula"""
        a, b = tuple(a), tuple(b)
        if len(a) != len(b):
            return False
        fs = []
        for x, y in zip(a, b):
            xn, yn = isinstance(x, (int, float)), isinstance(y, (int, float))
            if xn and yn:
                fs.append(self.eq(x, y))
            elif xn != yn or not bool(x == y):
                return False
        return self.And(*fs)


class ConS(Base):
    concrete = True

    def __init__(self, inputs):
        self.inputs = inputs
        self._world = None
        self.count = 0
        self.rnd = 0

    def new_world(self):
        return PlainWorld()

    def int(self, name, lo=None, hi=None):
        v = self.inputs.get(name)
        if v is None:
            v = 0
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
        return int(v)

    def real(self, name, lo=None, hi=None, den=4):
        k = self.int(name, None if lo is None else lo * den, None if hi is None else hi * den)
        return k / den

    def choose(self, name, options):
        i = self.int('?' + name, 0, len(options) - 1)
        return options[i]

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, label='check'):
        self.count += 1
        if not c:
            raise Failed(label)

    def close(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)
        return a == b

    def face_eq(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            return math.isclose(a, b, rel_tol=1e-13, abs_tol=1e-13)
        return a == b

    def eq(self, a, b):
        return self.close(a, b)

    def eq_prod(self, a, b, c, d):
        return self.close(a * b, c * d)

    def fork(self, x):
        """one value of x per path"""
        return x

    def root(self, x):
        return math.sqrt(x) if x >= 0 else 0

    def hash(self, v):
        return hash(v)

    def report(self, text, pieces):
        """does the text consist of these pieces?  a text, ('r2', x): x rounded to two decimals, ('pct', x): the same right-aligned in 5 columns,
        ('bar', x): x rounded in full blocks, ('pad', v, w): v right-aligned in w columns"""
        import re
        rest = text
        for p in pieces:
            if isinstance(p, str):
                if not rest.startswith(p):
                    return False
                rest = rest[len(p):]
            elif p[0] == 'pad':
                e = str(p[1]).rjust(p[2])
                if not rest.startswith(e):
                    return False
                rest = rest[len(e):]
            elif p[0] == 'bar':
                n = len(rest) - len(rest.lstrip('\u2588'))
                if abs(n - p[1]) > 0.5 + 1e-6:
                    return False
                rest = rest[n:]
            else:
                m = re.match(r' *-?\d+\.\d\d' if p[0] == 'pct' else r'-?\d+(\.\d+)?(e[+-]?\d+)?', rest)
                if not m or abs(float(m.group()) - p[1]) > 0.005 + 1e-6 * (1 + abs(p[1])):
                    return False
                if p[0] == 'pct' and len(m.group()) != max(5, len(m.group().strip())):
                    return False
                if p[0] == 'r2' and round(float(m.group()), 2) != float(m.group()):
                    return False
                rest = rest[m.end():]
        return rest == ''

    def text_eq(self, a, b):
        return a == b

    def le(self, a, b):
        return a <= b or self.close(a, b)

    def lt(self, a, b):
        return a < b

    def Not(self, a):
        return not a

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def imp(self, a, b):
        return (not a) or bool(b)

    def note(self, *a):
        pass

    def unsupported(self, why):
        raise Skip()

    def run(self, pytext, variables=None, safe=False):
        pe = self.mod('parser.parse_and_exec')
        with self._world:
            with contextlib.redirect_stdout(io.StringIO()):
                if safe:
                    find_restricted()
                return (pe.safe_exec if safe else pe.unsafe_exec)(pytext, *([] if variables is None else [dict(variables)]))

    def text_tokens(self):
        return {}

    def frac(self, a, b):
        return Fraction(a, b)

    def quiet(self):
        return contextlib.redirect_stdout(io.StringIO())

    def char(self, name, exclude=''):
        """an arbitrary character"""
        v = self.int('c!' + name, 0, 0x10FFFF)
        if 0xD800 <= v <= 0xDFFF or chr(v) in exclude:
            raise Skip()
        return chr(v)

    def token(self, name):
        """an arbitrary token of the language"""
        from .tokens import TEXTS
        return TEXTS[self.int('t!' + name, 0, len(TEXTS) - 1)]

    def accepted(self, items, flags=None):
        """does the compiler accept this sequence of tokens (texts and tokens from S.token)?"""
        return self.compiles(' '.join(items), flags)

    def ref_tokens(self, items):
        """the sequence as tokens of the reference grammar"""
        from .tokens import ITEMS, TEXTS
        return [ITEMS[TEXTS.index(x)][1:] for x in items]

    def placed_errors(self, items, gaps):
        """the syntax errors reported for the tokens, each after n newlines and m spaces, and where each token is: [(offset, line, column)], [(offset, line, column function)]"""
        text, where = '', []
        for x, (n, m) in zip(items, gaps):
            text += '\n' * n + ' ' * m
            p = len(text) + (x[0] == '"')
            text += x
            where.append((p, text.count('\n') + 1, lambda c=p - text.rfind('\n'): c))
        return [x[1:] for x in self.reported(text) or []], where

    def token_text(self, items):
        return ' '.join(items)

    def same_text(self, a, b):
        return str(a) == str(b)

    def unescaped_ok(self, py):
        return True

    def tok(self, name):
        """an arbitrary text (concretely: determined by its rank)"""
        return rank_text(self.int('~' + name))

    def with_random(self, fn, free=None, forced=None):
        """run fn with a scripted random source; returns (result, log); forced: indices of the outcomes (impossible ones included), then the first; free: the draws (from 0) that are symbolic, the rest take the first possible outcome"""
        import random as _r
        log = []
        me = self
        state = {'n': 0}

        def pick(n):
            state['n'] += 1
            if forced is not None:
                return forced[state['n'] - 1] if state['n'] <= len(forced) else 0
            if free is not None and state['n'] - 1 not in free:
                return None
            return me.int('rnd!%d' % state['n'], 0, n - 1)

        def choices(population, weights=None, *, cum_weights=None, k=1):
            population = list(population)
            if cum_weights is None:
                if weights is None:
                    weights = [1] * len(population)
                cum, t = [], 0
                for w in weights:
                    t += w
                    cum.append(t)
            else:
                cum = list(cum_weights)
            if len(cum) != len(population):
                raise ValueError('The number of weights does not match the population')
            if not cum[-1] > 0:
                raise ValueError('Total of weights must be greater than zero')
            out = []
            for _ in range(k):
                i = pick(len(population))
                if i is None:
                    i = 0
                    while not cum[i] > (cum[i - 1] if i else 0):
                        i += 1
                prev = cum[i - 1] if i else 0
                if forced is None and not cum[i] > prev:
                    raise Skip()
                log.append(('choices', population, cum, i))
                out.append(population[i])
            return out

        def randrange(a, b=None, step=1):
            r = range(a) if b is None else range(a, b, step)
            if len(r) == 0:
                raise ValueError('empty range')
            i = pick(len(r))
            log.append(('uniform', len(r), i))
            return r[i]

        saved = {n: getattr(_r, n) for n in ('choices', 'randrange', 'randint', 'choice')}
        _r.choices, _r.randrange = choices, randrange
        _r.randint = lambda a, b: randrange(a, b + 1)
        _r.choice = lambda s: choices(s)[0]
        try:
            return fn(), log
        finally:
            for n, v in saved.items():
                setattr(_r, n, v)


def rank_text(r):
    """texts ordered like their ranks"""
    r = int(r)
    return 't%s%09d' % ('0' if r < 0 else '1', r if r >= 0 else 10 ** 9 + r) if r != 0 else 't1'
