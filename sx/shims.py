"""Stand-ins for the parts of the Python standard library that cannot take symbolic numbers."""
import collections
import fractions
import functools
import itertools
import logging
import math
import random
import types
from fractions import Fraction

from . import num
from .containers import (HashTok, SymCounter, SymDefaultDict, SymDict, SymFrozen, SymSet, has_sym, sx_hash)
from .num import SymInt, SymReal, is_sym, isint, lift, mk
from .text import SymDigit, SymText

logging.disable(logging.CRITICAL)


def sx_int(x=0, *a):
    if is_sym(x):
        return x.__trunc__()
    if isinstance(x, SymText):
        if isint(x.x) and x.spec in ('', 'd'):
            return x.x
    if isinstance(x, SymDigit):
        return x.val
    return int(x, *a)


def sx_float(x=0.0):
    if is_sym(x):
        num.float_range(num.lift(x))
        return SymReal(x.n, x.d)
    return float(x)


def sx_str(*a, **k):
    if len(a) == 1:
        x = a[0]
        if is_sym(x):
            return num.ENG.text_of(x)
        if isinstance(x, (SymText, SymDigit)):
            return x
        if type(x).__name__ == 'SymTok':
            return x
    return str(*a, **k)


def sx_meth(obj, name, *a):
    from . import chars
    if type(obj) is str and chars.present(obj):
        return getattr(chars, 'm_' + name)(num.ENG, obj, *a)
    return getattr(obj, name)(*a)


def sx_repr(x):
    if is_sym(x):
        return num.ENG.text_of(x)
    return repr(x)


def sx_format(x, spec=''):
    if is_sym(x):
        return num.ENG.text_of(x, spec)
    return format(x, spec)


def sx_bool(x=False):
    return bool(x)


class _Type:
    def __call__(self, x):
        t = type(x)
        if t is SymInt:
            return int
        if t is SymReal:
            return float
        if t is SymText or t is SymDigit or t.__name__ == 'SymTok':
            return str
        if t is SymSet:
            return set
        if t is SymFrozen:
            return frozenset
        if t is SymDict:
            return dict
        return t


sx_type = _Type()


def sx_set(it=()):
    return SymSet(it)


def sx_frozenset(it=()):
    return SymFrozen(it)


def sx_dict(*a, **k):
    return SymDict(*a, **k)


sx_dict.fromkeys = SymDict.fromkeys


def sx_mkdict(parts):
    d = SymDict()
    for star, k, v in parts:
        if star:
            d.update(k)
        else:
            d[k] = v
    return d


def sx_divmod(a, b):
    return divmod(a, b)


def builtin_overrides(eng, world):
    def sx_sorted(it, **k):
        eng.sorting += 1
        try:
            return sorted(it, **k)
        finally:
            eng.sorting -= 1

    return {
        '__sx_int__': sx_int, '__sx_str__': sx_str, '__sx_float__': sx_float, '__sx_set__': sx_set,
        '__sx_dict__': sx_dict, '__sx_frozenset__': sx_frozenset, '__sx_type__': sx_type, '__sx_hash__': sx_hash,
        '__sx_repr__': sx_repr, '__sx_format__': sx_format, '__sx_ascii__': ascii, '__sx_bool__': sx_bool,
        '__sx_mkdict__': sx_mkdict, '__sx_meth__': sx_meth, '__sx_divmod__': sx_divmod, 'sorted': sx_sorted,
    }


def _mod(name, real, **over):
    m = types.ModuleType(name)
    for k, v in vars(real).items():
        if not (k.startswith('__') and k.endswith('__')):
            setattr(m, k, v)
    for k, v in over.items():
        setattr(m, k, v)
    return m


def make(eng, world):
    def gcd(*args):
        return eng.gcd(args)

    def lcm(*args):
        if not any(is_sym(x) for x in args):
            return math.lcm(*args)
        return eng.lcm(args)

    def sqrt(x):
        return eng.sqrt(x) if is_sym(x) else math.sqrt(x)

    def log(x, *b):
        if not is_sym(x):
            return math.log(x, *b)
        if not x > 0:
            raise ValueError('math domain error')
        n, d, _ = num.lift(x)
        a = eng.atom(eng.intern(('log', num.p_key(n), num.p_key(d)) + b, 'log'), False, meta=('log', n, d))   # some real: the code only prints it
        return SymReal({(a.id,): 1})

    def log10(x):
        return log(x, 10) if is_sym(x) else math.log10(x)

    def log2(x):
        return log(x, 2) if is_sym(x) else math.log2(x)

    def isfinite(x):
        return True if is_sym(x) else math.isfinite(x)

    def isinf(x):
        return False if is_sym(x) else math.isinf(x)

    def isnan(x):
        return False if is_sym(x) else math.isnan(x)

    def fsum(it):
        t = 0.0
        for x in it:
            t = t + x
        return t

    def m_pow(a, b):
        if is_sym(a) or is_sym(b):
            return sx_float(a) ** b
        return math.pow(a, b)

    def fabs(x):
        return sx_float(abs(x))

    def fmod(a, b):
        if is_sym(a) or is_sym(b):
            return sx_float(a) - sx_float(b) * (sx_float(a) / b).__trunc__()
        return math.fmod(a, b)

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if is_sym(a) or is_sym(b):
            return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    def comb(n, k):
        n, k = eng.concretize(n), eng.concretize(k)
        return math.comb(n, k)

    def factorial(n):
        return math.factorial(eng.concretize(n))

    m_math = _mod('math', math, gcd=gcd, lcm=lcm, sqrt=sqrt, log=log, log10=log10, log2=log2, isfinite=isfinite, isinf=isinf, isnan=isnan,
                  fsum=fsum, pow=m_pow, fabs=fabs, fmod=fmod, isclose=isclose, comb=comb, factorial=factorial)

    def fraction(n=0, d=None):
        if is_sym(n) or is_sym(d):
            return n / d if d is not None else sx_float(n)
        return Fraction(n, d)

    m_frac = _mod('fractions', fractions, Fraction=fraction)

    def lru_cache(maxsize=128, typed=False):
        def deco(f):
            cache = SymDict()

            def w(*a, **k):
                key = (a, tuple(sorted(k.items())))
                if typed:
                    key = key + (tuple(sx_type(x).__name__ for x in a),)
                if key in cache:
                    return cache[key]
                r = f(*a, **k)
                cache[key] = r
                return r
            w.cache_clear = cache.clear
            w.__wrapped__ = f
            w.__name__ = getattr(f, '__name__', 'w')
            return w
        if callable(maxsize):
            f, maxsize = maxsize, 128
            return deco(f)
        return deco

    def cache(f):
        return lru_cache(None)(f)

    m_func = _mod('functools', functools, lru_cache=lru_cache, cache=cache)
    m_coll = _mod('collections', collections, defaultdict=SymDefaultDict, Counter=SymCounter, OrderedDict=SymDict)
    coll_abc = collections.abc
    m_coll.abc = coll_abc

    rs = RandomShim(eng, world)
    m_rand = _mod('random', random, choices=rs.choices, choice=rs.choice, random=rs.random, randint=rs.randint,
                  randrange=rs.randrange, uniform=rs.uniform, getrandbits=rs.getrandbits, shuffle=rs.shuffle, sample=rs.sample)
    world.random_log = rs.log
    world.random_source = rs
    return {'math': m_math, 'fractions': m_frac, 'functools': m_func, 'collections': m_coll, 'random': m_rand}


class RandomShim:
    """The random source: every draw is an arbitrary value its contract allows, and is logged."""

    def __init__(self, eng, world):
        self.eng, self.world, self.log = eng, world, []
        self.n = self.base = 0
        self.free = None        # draws that are symbolic (None: all)
        self.forced = None      # outcomes given by the harness (the first one beyond them)

    def _real(self):
        """uniform in [0,1)"""
        self.n += 1
        x = self.eng.var('rnd!%d' % self.n, integer=False, lo=0, hi=1)
        if not x < 1:
            from .engine import PathAbort
            raise PathAbort()
        return x

    def random(self):
        u = self._real()
        self.log.append(('random', u))
        return u

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def _pick(self, n):
        self.n += 1
        v = self.eng.var('rnd!%d' % self.n, integer=True, lo=0, hi=n - 1)
        return self.eng.concretize(v)

    def _draw(self, n, cum):
        if self.forced is not None:
            self.n += 1
            k = self.n - self.base - 1
            return self.forced[k] if k < len(self.forced) else 0
        if self.free is not None and self.n - self.base not in self.free:
            self.n += 1
            i = 0
            while not cum[i] > (cum[i - 1] if i else 0):
                i += 1
            return i
        return self._pick(n)

    def randrange(self, a, b=None, step=1):
        r = range(a) if b is None else range(a, b, step)
        if len(r) == 0:
            raise ValueError('empty range')
        i = self._pick(len(r))
        self.log.append(('uniform', len(r), i))
        return r[i]

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def getrandbits(self, k):
        return self.randrange(0, 2 ** k)

    def choice(self, seq):
        seq = list(seq)
        i = self._draw(len(seq), list(range(1, len(seq) + 1)))
        self.log.append(('choices', seq, list(range(1, len(seq) + 1)), i))
        return seq[i]

    def shuffle(self, lst):
        for i in range(len(lst) - 1, 0, -1):
            j = self._pick(i + 1)
            lst[i], lst[j] = lst[j], lst[i]

    def sample(self, pop, k):
        p = list(pop)
        out = []
        for _ in range(k):
            i = self._pick(len(p))
            out.append(p.pop(i))
        return out

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        """contract of random.choices: u uniform in [0,1), the first index whose cumulative weight exceeds u*total"""
        population = list(population)
        if cum_weights is None:
            if weights is None:
                weights = [1] * len(population)
            cum, t = [], 0
            for w in weights:
                t = t + w
                cum.append(t)
        else:
            if weights is not None:
                raise TypeError('Cannot specify both weights and cumulative weights')
            cum = list(cum_weights)
        if len(cum) != len(population):
            raise ValueError('The number of weights does not match the population')
        total = cum[-1]
        if not total > 0:
            raise ValueError('Total of weights must be greater than zero')
        out = []
        for _ in range(k):
            self.log.append(('choices', list(population), list(cum)))
            # the draw itself: any index of positive weight
            n = len(population)
            i = self._draw(n, cum)
            prev = cum[i - 1] if i else 0
            if self.forced is None and not cum[i] > prev:
                from .engine import PathAbort
                raise PathAbort()
            self.log[-1] = self.log[-1] + (i,)
            out.append(population[i])
        return out
