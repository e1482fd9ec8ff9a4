"""Text of symbolic integers: a str whose characters are computed digit by digit on demand."""
from .num import SymInt, isint


class SymDigit(str):
    """one decimal digit of a symbolic integer"""
    def __new__(cls, eng, val):
        s = str.__new__(cls, '\ue002')
        s.val = val
        return s

    def isdigit(self):
        return True

    isnumeric = isdecimal = isdigit

    def __eq__(self, o):
        if isinstance(o, SymDigit):
            return self.val == o.val
        if isinstance(o, str) and len(o) == 1 and o.isdigit():
            return self.val == int(o)
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7


class SymText(str):
    def __new__(cls, eng, x, spec=''):
        tok = '\ue000%d\ue001' % len(eng.texts)
        s = str.__new__(cls, tok)
        s.eng, s.x, s.spec, s._chars = eng, x, spec, None
        eng.texts[tok] = (x, spec)
        return s

    def chars(self):
        if self._chars is None:
            from .engine import Unsupported
            if not isint(self.x) or self.spec not in ('', 'd'):
                raise Unsupported('characters of a formatted symbolic number')
            x = self.x
            out = []
            if x < 0:
                out.append('-')
                x = -x
            k = 1
            while not x < 10 ** k:
                k += 1
                if k > 40:
                    raise Unsupported('digits of an unbounded integer')
            for i in range(k - 1, -1, -1):
                d = (x // 10 ** i) % 10
                out.append(str(d) if type(d) is int else SymDigit(self.eng, d))
            self._chars = out
        return self._chars

    def __len__(self):
        return len(self.chars())

    def __iter__(self):
        return iter(self.chars())

    def __getitem__(self, i):
        c = self.chars()
        if isinstance(i, slice):
            part = c[i]
            if all(type(x) is str for x in part):
                return ''.join(part)
            if len(part) == len(c) and part == c:
                return self
            return CharList(part)
        return c[i]

    def rjust(self, w, fill=' '):
        return fill * (w - len(self)) + str.__str__(self)

    def ljust(self, w, fill=' '):
        return str.__str__(self) + fill * (w - len(self))

    def _minus(self):
        return self.x < 0

    def lstrip(self, chars=None):
        if chars == '-':
            return self.eng.text_of(-self.x) if self.x < 0 else self
        return str.lstrip(self, chars)

    def strip(self, chars=None):
        if chars == '-':
            return self.lstrip('-')
        return self

    def replace(self, a, b, *r):
        if a == '-' and b == '':
            return self.lstrip('-')
        from .engine import Unsupported
        raise Unsupported('replace on symbolic digits')

    def startswith(self, p, *r):
        if p == '-':
            return self.x < 0
        from .engine import Unsupported
        raise Unsupported('startswith on symbolic digits')

    def isdigit(self):
        return not self.x < 0

    def __eq__(self, o):
        if isinstance(o, SymText):
            return self.x == o.x and self.spec == o.spec
        if isinstance(o, str):
            try:
                v = int(o)
            except ValueError:
                return False
            return str(v) == o and self.x == v
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        self.eng.approx = True
        return str.__hash__(self)


class CharList(list):
    """slice of symbolic digits; behaves as an iterable of characters"""

    def __add__(self, o):
        return CharList(list(self) + list(o))
