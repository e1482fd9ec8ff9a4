"""Arbitrary texts: only their order and equality matter to the code, so a text is its rank."""


class SymTok(str):
    def __new__(cls, eng, rank):
        s = str.__new__(cls, '\ue003tok\ue004')
        s.eng, s.rank = eng, rank
        return s

    @staticmethod
    def _rank(o):
        # concrete texts the code itself uses sort below every generated text ('_...' < 't...')
        return o.rank if isinstance(o, SymTok) else None

    def _c(self, o, f, below):
        if isinstance(o, SymTok):
            return f(self.rank, o.rank)
        if isinstance(o, str):
            return below if o < 't' else not below
        return NotImplemented

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b, False)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b, False)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b, True)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b, True)

    def __eq__(self, o):
        if isinstance(o, SymTok):
            return self.rank == o.rank
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 17
