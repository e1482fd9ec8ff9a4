"""dict / set stand-ins with symbolic keys: lookup compares keys with ==, forking where undecided."""
from . import num
from .num import SymNum, is_sym

_ATOMIC = (str, bytes, int, float, type(None), bool)


def has_sym(x, depth=0):
    t = type(x)
    if t is int or t is str or t is float or t is bool or x is None:
        return False
    if is_sym(x):
        return True
    if t is tuple or t is frozenset:
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, SymFrozen):
        return True
    if t is HashTok:
        return True
    d = getattr(t, '__hash__', None)
    if d is not None and d is not object.__hash__ and t.__module__.startswith('dice_calc'):
        return True   # objects with their own hash: go through hash-then-eq
    if isinstance(x, str) and t.__name__ in ('SymText', 'SymDigit', 'SymTok', 'SymStr'):
        return True
    return False


class HashTok:
    """the value of hash(x) for x with symbolic parts: equal exactly when the hashed structures are equal"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        if isinstance(o, (HashTok, IntTok)):
            return keq(self.k, o.k)
        return keq(self.k, o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 11

    def __index__(self):
        return 11


class IntTok(int):
    """the hash of a concrete tuple, comparable with the hash of a symbolic one"""
    def __new__(cls, h, k):
        o = int.__new__(cls, h)
        o.k = k
        return o

    def __eq__(self, o):
        if isinstance(o, HashTok):
            return keq(self.k, o.k)
        return int(self) == o

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return int.__hash__(self)


def _tok(x):
    return HashTok(x) if isinstance(x, (int, float)) and type(x) is not IntTok else sx_hash(x)


def sx_hash(x):
    t = type(x)
    if is_sym(x):
        return HashTok(x)
    if t is tuple:
        if has_sym(x):
            return HashTok(tuple(_tok(y) for y in x))
        k = tuple(_tok(y) for y in x)
        return HashTok(k) if any(isinstance(y, str) for y in x) else IntTok(hash(x), k)
    if isinstance(x, str):
        return HashTok(x)
    if t.__module__.startswith('dice_calc') and t.__hash__ is not object.__hash__:
        if t.__hash__ is None:
            raise TypeError('unhashable type')
        return t.__hash__(x)
    if t is HashTok:
        return x
    return hash(x)


def keq(a, b):
    """key equality as dict lookup sees it (identity, then equal hash and ==)"""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is HashTok or ta is IntTok or tb is HashTok or tb is IntTok:
        return bool(a == b if ta is HashTok or ta is IntTok else b == a)
    if ta is tuple or tb is tuple:
        if ta is not tb or len(a) != len(b):
            return False
        return all(keq(x, y) for x, y in zip(a, b))
    na, nb = isinstance(a, (int, float)), isinstance(b, (int, float))
    if na != nb:
        if na and type(b) is HashTok:
            return False
        return False
    if na:
        return bool(a == b)
    if isinstance(a, str) != isinstance(b, str):
        return False
    ha = ta.__module__.startswith('dice_calc') and ta.__hash__ is not object.__hash__
    hb = tb.__module__.startswith('dice_calc') and tb.__hash__ is not object.__hash__
    if ha != hb:
        return False
    if ha:
        if not (sx_hash(a) == sx_hash(b)):
            return False
        r = a == b
        return bool(r)
    return bool(a == b)


_MISSING = object()


class SymDict:
    def __init__(self, *args, **kw):
        self._n = {}      # concrete key -> entry
        self._o = []      # all entries in insertion order: [key, value, alive]
        self._s = []      # entries with symbolic keys
        self._len = 0
        if args:
            self.update(args[0])
        for k, v in kw.items():
            self[k] = v

    @property
    def __class__(self):
        return dict

    def _find(self, key):
        sym = has_sym(key)
        if not sym:
            e = self._n.get(key)
            if e is not None:
                return e, sym
            for e in self._s:
                if keq(e[0], key):
                    return e, sym
            return None, sym
        for e in self._s:
            if e[0] is key:
                return e, sym
        for e in self._o:
            if keq(e[0], key):
                return e, sym
        return None, sym

    def __getitem__(self, key):
        e, _ = self._find(key)
        if e is None:
            return self.__missing__(key)
        return e[1]

    def __missing__(self, key):
        raise KeyError(key)

    def __setitem__(self, key, value):
        e, sym = self._find(key)
        if e is not None:
            e[1] = value
            return
        e = [key, value]
        self._o.append(e)
        if sym:
            self._s.append(e)
        else:
            self._n[key] = e

    def __delitem__(self, key):
        e, _ = self._find(key)
        if e is None:
            raise KeyError(key)
        self._drop(e)

    def _drop(self, e):
        self._o = [x for x in self._o if x is not e]
        self._s = [x for x in self._s if x is not e]
        for k, x in list(self._n.items()):
            if x is e:
                del self._n[k]

    def __contains__(self, key):
        return self._find(key)[0] is not None

    def __len__(self):
        return len(self._o)

    def __bool__(self):
        return bool(self._o)

    def __iter__(self):
        return iter([e[0] for e in self._o])

    def __reversed__(self):
        return iter([e[0] for e in reversed(self._o)])

    def keys(self):
        return SymKeys([e[0] for e in self._o])

    def values(self):
        return [e[1] for e in self._o]

    def items(self):
        return [(e[0], e[1]) for e in self._o]

    def get(self, key, default=None):
        e, _ = self._find(key)
        return default if e is None else e[1]

    def setdefault(self, key, default=None):
        e, _ = self._find(key)
        if e is None:
            self[key] = default
            return default
        return e[1]

    def pop(self, key, default=_MISSING):
        e, _ = self._find(key)
        if e is None:
            if default is _MISSING:
                raise KeyError(key)
            return default
        self._drop(e)
        return e[1]

    def popitem(self):
        e = self._o[-1]
        self._drop(e)
        return e[0], e[1]

    def update(self, other=(), **kw):
        if hasattr(other, 'keys'):
            for k in list(other.keys()):
                self[k] = other[k]
        else:
            for k, v in other:
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self._n.clear()
        self._o.clear()
        self._s.clear()

    def copy(self):
        d = self._new()
        for e in self._o:
            d._put(e[0], e[1])
        return d

    __copy__ = copy

    def _new(self):
        return SymDict()

    def _put(self, k, v):
        """insert a key known to be new"""
        e = [k, v]
        self._o.append(e)
        if has_sym(k):
            self._s.append(e)
        else:
            self._n[k] = e

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o:
                return False
            if not (o[k] == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    __hash__ = None

    def __repr__(self):
        return '{' + ', '.join('%r: %r' % (k, v) for k, v in self.items()) + '}'

    @classmethod
    def fromkeys(cls, it, v=None):
        d = cls()
        for k in it:
            d[k] = v
        return d


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *args, **kw):
        self.default_factory = factory
        SymDict.__init__(self, *args, **kw)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v

    def _new(self):
        return SymDefaultDict(self.default_factory)


class SymCounter(SymDict):
    def __init__(self, it=None, **kw):
        SymDict.__init__(self)
        if it is not None:
            self.update(it)
        for k, v in kw.items():
            self[k] = v

    def __missing__(self, key):
        return 0

    def update(self, it=(), **kw):
        if hasattr(it, 'keys'):
            for k in list(it.keys()):
                self[k] = self.get(k, 0) + it[k]
        else:
            for k in it:
                self[k] = self.get(k, 0) + 1

    def _new(self):
        return SymCounter()

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

    def total(self):
        return sum(self.values())

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda x: x[1], reverse=True)
        return r if n is None else r[:n]

    def __add__(self, o):
        d = SymCounter()
        for k, v in self.items():
            d[k] = d.get(k, 0) + v
        for k, v in o.items():
            d[k] = d.get(k, 0) + v
        return d


class SymSetBase:
    def __init__(self, it=()):
        self._d = SymDict()
        for x in it:
            self._d[x] = True

    def __contains__(self, x):
        return x in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return bool(len(self._d))

    def copy(self):
        return type(self)(self)

    def union(self, *os):
        r = type(self)(self)
        for o in os:
            for x in o:
                r._d[x] = True
        return r

    def intersection(self, *os):
        r = self
        for o in os:
            oo = SymSet(o)
            r = type(self)(x for x in r if x in oo)
        return r

    def difference(self, *os):
        r = self
        for o in os:
            oo = SymSet(o)
            r = type(self)(x for x in r if x not in oo)
        return r

    def symmetric_difference(self, o):
        return self.difference(o).union(SymSet(o).difference(self))

    __or__ = union
    __and__ = intersection
    __sub__ = difference
    __xor__ = symmetric_difference

    def __ror__(self, o):
        return SymSet(o).union(self)

    def __rand__(self, o):
        return SymSet(o).intersection(self)

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def issubset(self, o):
        oo = SymSet(o)
        return all(x in oo for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    __le__ = issubset
    __ge__ = issuperset

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __repr__(self):
        return 'set(%r)' % (list(self),)


class SymSet(SymSetBase):
    @property
    def __class__(self):
        return set

    __hash__ = None

    def add(self, x):
        self._d[x] = True

    def update(self, *os):
        for o in os:
            for x in o:
                self._d[x] = True

    def discard(self, x):
        if x in self._d:
            del self._d[x]

    def remove(self, x):
        del self._d[x]

    def pop(self):
        return self._d.popitem()[0]

    def clear(self):
        self._d.clear()

    def intersection_update(self, *o):
        self._d = self.intersection(*o)._d

    def difference_update(self, *o):
        self._d = self.difference(*o)._d

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self


class SymFrozen(SymSetBase):
    @property
    def __class__(self):
        return frozenset

    def __hash__(self):
        return 13


class SymKeys(list):
    """d.keys(): list with the set operations views have"""

    def __and__(self, o):
        return SymSet(self) & o

    def __or__(self, o):
        return SymSet(self) | o

    def __sub__(self, o):
        return SymSet(self) - o

    def __eq__(self, o):
        return SymSet(self) == SymSet(o)

    __hash__ = None
