"""Symbolic numbers: rational functions over solver atoms, usable by the real Python code.

A SymNum is n/d with n, d polynomials (integer / Fraction coefficients) over the
engine's atoms.  SymInt reports __class__ int, SymReal reports __class__ float, so
isinstance() in the code under test sees the Python type it expects.  Every
comparison asks the engine for a branch decision; every C-level escape (__index__,
__int__, __float__, __hash__ ...) is intercepted here, nothing leaks silently.
"""
from fractions import Fraction
import math as _math

ENG = None  # current engine (one per process at a time)


def set_engine(e):
    global ENG
    ENG = e


# ---------------------------------------------------------------- polynomials
# dict: monomial (sorted tuple of atom ids) -> int | Fraction coefficient, no zero coefficients

ONE = {(): 1}
ZERO = {}


def p_const(c):
    return {(): c} if c != 0 else {}


def p_is_const(p):
    return not p or (len(p) == 1 and () in p)


def p_cval(p):
    return p.get((), 0)


def p_add(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_scale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_sub(a, b):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) - c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(b) == 1 and () in b:
        return p_scale(a, b[()])
    if len(a) == 1 and () in a:
        return p_scale(b, a[()])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


def p_key(p):
    return frozenset(p.items())


def p_deg(p):
    return max((len(m) for m in p), default=0)


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class SymNum:
    __slots__ = ('n', 'd', 'tag')
    __array_priority__ = 1000

    def __init__(self, n, d=ONE, tag=None):
        self.n, self.d, self.tag = n, d, tag

    # -- arithmetic
    def __add__(self, o):
        return _arith('+', self, o)

    def __radd__(self, o):
        return _arith('+', o, self)

    def __sub__(self, o):
        return _arith('-', self, o)

    def __rsub__(self, o):
        return _arith('-', o, self)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)) and self.__class__ is int:
            return o * self.__index__()
        return _arith('*', self, o)

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)) and self.__class__ is int:
            return o * self.__index__()
        return _arith('*', o, self)

    def __truediv__(self, o):
        return _div(self, o)

    def __rtruediv__(self, o):
        return _div(o, self)

    def __floordiv__(self, o):
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        return _floordiv(o, self)

    def __mod__(self, o):
        return _mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return _mod(o, self)

    def __divmod__(self, o):
        return (_floordiv(self, o), _mod(self, o))

    def __rdivmod__(self, o):
        return (_floordiv(o, self), _mod(o, self))

    def __pow__(self, o, mod=None):
        return _pow(self, o)

    def __rpow__(self, o, mod=None):
        return _pow(o, self)

    def __neg__(self):
        return mk(p_neg(self.n), self.d, isint(self))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __invert__(self):
        return -self - 1

    # -- comparisons (branch decisions)
    def __lt__(self, o):
        return _cmp(self, o, '<')

    def __le__(self, o):
        return _cmp(self, o, '<=')

    def __gt__(self, o):
        return _cmp(self, o, '>')

    def __ge__(self, o):
        return _cmp(self, o, '>=')

    def __eq__(self, o):
        return _cmp(self, o, '==')

    def __ne__(self, o):
        r = _cmp(self, o, '==')
        return r if r is NotImplemented else (not r)

    def __bool__(self):
        return not _cmp(self, 0, '==')

    def __hash__(self):
        v = ENG.pinned_value(self)
        return hash(v) if v is not None else 0x5359

    # -- rounding protocol
    def __trunc__(self):
        if isint(self):
            return self
        return self.__floor__() if self >= 0 else -((-self).__floor__())

    def __floor__(self):
        if isint(self):
            return self
        return ENG.floor_atom(self)

    def __ceil__(self):
        if isint(self):
            return self
        return -((-self).__floor__())

    def __round__(self, n=None):
        if isint(self):
            if n is None or n >= 0:
                return self
        return ENG.round_model(self, n)

    def is_integer(self):
        if isint(self):
            return True
        return self == self.__floor__()

    # -- escapes
    def __int__(self):
        return ENG.concretize(self.__trunc__())

    def __float__(self):
        return float(ENG.concretize(self))

    def __complex__(self):
        return complex(float(self))

    def __str__(self):
        return ENG.text_of(self)

    __repr__ = __str__

    def __format__(self, spec):
        return ENG.text_of(self, spec)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def __reduce__(self):
        raise TypeError('symbolic number cannot be pickled')


class SymInt(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        return ENG.concretize(self)

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def bit_length(self):
        return ENG.concretize(self).bit_length()

    def _bitop(self, o, f):
        if type(o) is not SymInt and (not isinstance(o, int) or isinstance(o, float)):
            return NotImplemented
        a = ENG.concretize(self)
        b = ENG.concretize(o) if type(o) is SymInt else o
        return f(a, b)

    def __and__(self, o):
        return self._bitop(o, lambda a, b: a & b)

    def __rand__(self, o):
        return self._bitop(o, lambda a, b: b & a)

    def __or__(self, o):
        return self._bitop(o, lambda a, b: a | b)

    def __ror__(self, o):
        return self._bitop(o, lambda a, b: b | a)

    def __xor__(self, o):
        return self._bitop(o, lambda a, b: a ^ b)

    def __lshift__(self, o):
        return self * (2 ** o)

    def __rshift__(self, o):
        return self // (2 ** o)


class SymReal(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return float


def is_sym(x):
    return type(x) is SymInt or type(x) is SymReal


def isint(x):
    t = type(x)
    return t is SymInt or t is int or t is bool or (t is not SymReal and isinstance(x, int))


def mk(n, d, integer):
    """Build the simplest Python value for n/d."""
    if d is not ONE and d != ONE:
        if not n:
            n, d = {}, ONE
        elif p_is_const(d):
            c = p_cval(d)
            n = {m: _norm(Fraction(v) / c) for m, v in n.items()}
            d = ONE
        elif n == d:
            n, d = ONE, ONE
        else:
            n, d = _cancel(n, d)
    if integer:
        if d == ONE and p_is_const(n):
            c = _norm(p_cval(n))
            if isinstance(c, int):
                return c
        return SymInt(n, d)
    return SymReal(n, d)


def _cancel(n, d):
    """cancel the common monomial (e.g. gcd atoms) of numerator and a monomial denominator"""
    if len(d) != 1:
        return n, d
    (dm, dc), = d.items()
    if not dm:
        return n, d
    rest = []
    common = list(dm)
    for m in n:
        left = list(m)
        keep = []
        for a in common:
            if a in left:
                left.remove(a)
                keep.append(a)
        common = keep
        if not common:
            return n, d
    for a in common:
        dml = list(dm)
        dml.remove(a)
        dm = tuple(dml)

        def strip(m):
            ml = list(m)
            ml.remove(a)
            return tuple(ml)
        n = {strip(m): c for m, c in n.items()}
    d = {dm: dc}
    if not dm:
        n = {m: _norm(Fraction(v) / dc) for m, v in n.items()}
        d = ONE
    return n, d


def lift(x):
    """-> (n, d, isint) or None"""
    t = type(x)
    if t is SymInt:
        return x.n, x.d, True
    if t is SymReal:
        return x.n, x.d, False
    if t is int or t is bool:
        return p_const(int(x)), ONE, True
    if isinstance(x, int):
        return p_const(int(x)), ONE, True
    if isinstance(x, Fraction):
        return p_const(_norm(x)), ONE, False
    if isinstance(x, float):
        if _math.isinf(x) or _math.isnan(x):
            return None
        return p_const(_norm(Fraction(x))), ONE, False
    return None


HUGE = 2 ** 1024


def float_range(la, lb=None):
    """an integer that meets a float is converted; Python raises when it is too large for one"""
    for x, y in ((la, lb), (lb, la)):
        if x is None or not x[2] or (lb is not None and (y is None or y[2])):
            continue
        lo, hi = ENG.bounds(x[0])
        for v in (hi, lo):
            if v is not None and abs(v) >= HUGE:
                w = mk(x[0], x[1], True)
                if is_sym(w) and (_cmp(w, HUGE, '>=') if v > 0 else _cmp(w, -HUGE, '<=')) or not is_sym(w):
                    raise OverflowError('int too large to convert to float')


def _arith(op, a, b):
    la, lb = lift(a), lift(b)
    if la and lb and la[2] != lb[2]:
        float_range(la, lb)
    if la is None or lb is None:
        if (is_sym(a) and type(b) is float) or (is_sym(b) and type(a) is float):  # inf / nan: fall back on sign reasoning
            fa = a if type(a) is float else 1.0
            fb = b if type(b) is float else 1.0
            if op == '+':
                return a if type(a) is float else b
            if op == '-':
                return a if type(a) is float else -b
            s = b if type(a) is float else a
            f = a if type(a) is float else b
            if s == 0:
                return float('nan')
            return f if s > 0 else -f
        return NotImplemented
    na, da, ia = la
    nb, db, ib = lb
    integer = ia and ib
    if op == '*':
        return mk(p_mul(na, nb), _pmul_den(da, db), integer)
    if da is db or da == db:
        return mk(p_add(na, nb) if op == '+' else p_sub(na, nb), da, integer)
    x, y = p_mul(na, db), p_mul(nb, da)
    return mk(p_add(x, y) if op == '+' else p_sub(x, y), _pmul_den(da, db), integer)


def _pmul_den(a, b):
    if a is ONE or a == ONE:
        return b
    if b is ONE or b == ONE:
        return a
    return p_mul(a, b)


def _div(a, b):
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        if type(b) is float and _math.isinf(b):
            return 0.0
        return NotImplemented
    if la[2] != lb[2]:
        float_range(la, lb)
    if (type(b) not in (SymInt, SymReal) and b == 0) or (is_sym(b) and _cmp(b, 0, '==')):
        raise ZeroDivisionError('division by zero')
    na, da, _ = la
    nb, db, _ = lb
    n, d = p_mul(na, db), _pmul_den(da, nb)
    if ENG.neg_den(d):
        n, d = p_neg(n), p_neg(d)
    return mk(n, d, False)


def _floordiv(a, b):
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return NotImplemented
    if la[2] != lb[2]:
        float_range(la, lb)
    return ENG.floordiv(a, b)


def _mod(a, b):
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return NotImplemented
    if la[2] != lb[2]:
        float_range(la, lb)
    q = ENG.floordiv(a, b)
    return a - b * q


def _pow(a, b):
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return NotImplemented
    if type(b) is SymReal or (isinstance(b, float) and not is_sym(b)):
        bv = Fraction(b) if not is_sym(b) else Fraction(ENG.concretize(b))
        if bv == Fraction(1, 2):
            return ENG.sqrt(a)
        if bv.denominator != 1:
            raise NotImplementedError('symbolic fractional power')
        r = _pow(a, int(bv))
        ln = lift(r)
        return mk(ln[0], ln[1], False)
    if type(b) is SymInt:
        b = ENG.concretize(b)
    b = int(b)
    if not is_sym(a):
        return a ** b
    if b < 0:
        return _div(1, _pow(a, -b))
    n, d, integer = la
    rn, rd = ONE, ONE
    for _ in range(b):
        rn, rd = p_mul(rn, n), _pmul_den(rd, d)
    return mk(rn, rd, integer)


def _cmp(a, b, op):
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        if isinstance(b, float) and not is_sym(b):
            if _math.isnan(b):
                return False
            if b > 0:
                return op in ('<', '<=')
            return op in ('>', '>=')
        return NotImplemented
    if op == '>':
        la, lb, op = lb, la, '<'
    elif op == '>=':
        la, lb, op = lb, la, '<='
    return ENG.compare(la, lb, op)
