"""Symbolic mode of the harness interface."""
import contextlib
from fractions import Fraction

from . import num
from .api import Base
from .engine import Engine, Formula, PathAbort, Unsupported, Violation
from .loader import World
from .num import ONE, SymInt, SymReal, is_sym, lift, p_mul, p_sub


class SymS(Base):
    concrete = False

    def __init__(self, eng):
        self.eng = eng
        self._world = None
        self.pending_checks = 0

    def new_world(self):
        return World(self.eng)

    # -------- inputs
    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            self.eng.var(name, True, lo, hi)
            return lo
        return self.eng.var(name, True, lo, hi)

    def weights(self, prefix, n, lo=1, hi=1000):
        out = Base.weights(self, prefix, n, lo, hi)
        for x in out:
            if is_sym(x):
                self.eng.weight_atoms.update(m[0] for m in x.n if m)
        return out

    def real(self, name, lo=None, hi=None, den=4):
        k = self.int(name, None if lo is None else lo * den, None if hi is None else hi * den)
        self.eng.has_real = True
        n, d, _ = lift(k)
        return SymReal(n, d) / den

    def choose(self, name, options):
        if len(options) == 1:
            return options[0]
        v = self.eng.var('?' + name, True, 0, len(options) - 1)
        return options[self.eng.concretize(v)]

    def assume(self, c):
        if not c:
            raise PathAbort()

    # -------- claims
    def eq(self, a, b):
        la, lb = lift(a), lift(b)
        if la is None or lb is None:
            return a == b
        p = p_sub(p_mul(la[0], lb[1]), p_mul(lb[0], la[1])) if not (la[1] is ONE and lb[1] is ONE) else p_sub(la[0], lb[0])
        if not p:
            self.eng.stats['discharged_identity'] += 1
            return True
        return Formula('==', p)

    def eq_prod(self, a, b, c, d):
        """a*b == c*d; when the normal form already shows it, the solver is still asked on the unexpanded terms (up to a quota)"""
        f = self.eq(a * b, c * d)
        if f is True and is_sym(a) | is_sym(b) | is_sym(c) | is_sym(d) and self.eng.cross(a, b, c, d):
            self.eng.stats['discharged_identity'] -= 1
            self.eng.stats['discharged_solver'] += 1
        return f

    def _ord(self, a, b, op):
        la, lb = lift(a), lift(b)
        if la is None or lb is None:
            return a <= b if op == '<=' else a < b
        p = p_sub(p_mul(la[0], lb[1]), p_mul(lb[0], la[1]))
        for d in (la[1], lb[1]):
            if d == ONE:
                continue
            s = self.eng.sign(d)
            if s == 0:
                s = -1 if self.eng.decide(d, '<') else 1
            if s < 0:
                p = num.p_neg(p)
        return Formula(op, p)

    def le(self, a, b):
        return self._ord(a, b, '<=')

    def lt(self, a, b):
        return self._ord(a, b, '<')

    @staticmethod
    def _f(x):
        return x if isinstance(x, Formula) else bool(x)

    def Not(self, a):
        a = self._f(a)
        return (not a) if isinstance(a, bool) else Formula('not', a)

    def And(self, *a):
        return Formula('and', *[self._f(x) for x in a])

    def Or(self, *a):
        return Formula('or', *[self._f(x) for x in a])

    def imp(self, a, b):
        return self.Or(self.Not(a), b)

    def check(self, c, label='check'):
        eng = self.eng
        eng.stats['obligations'] += 1
        if isinstance(c, Formula):
            self.obligations.append((c, label))
            if len(self.obligations) >= 400:
                self.flush()
            return
        if not c:
            self.flush()
            self.candidate(None, label)

    def flush(self):
        """send the collected obligations of this path to the solver (one query for all, then one by one)"""
        import z3
        obs, self.obligations = self.obligations, []
        if not obs:
            return
        eng = self.eng
        open_ = []
        for f, label in obs:
            e, nlf = eng.fz(f)
            if e is True:
                eng.stats['discharged_identity'] += 1
            elif e is False:
                self.candidate(None, label)
            else:
                open_.append((f, e, nlf, label))
        if not open_:
            return
        nlf = any(o[2] for o in open_)
        if len(open_) > 1:
            r = eng.sat(z3.Not(z3.And([o[1] for o in open_])), nlf)
            if r is False:
                eng.stats['discharged_solver'] += len(open_)
                return
        for f, e, nlf, label in open_:
            r = eng.sat(z3.Not(e), nlf, retry=15000 if nlf else 0)
            if r is False:
                eng.stats['discharged_solver'] += 1
                continue
            self.candidate((f, z3.Not(e), r), label)

    def candidate(self, claim, label):
        """a claim that failed, or could not be discharged: look for inputs and replay them on the real code"""
        self.on_candidate(claim, label)

    def unsupported(self, why):
        raise Unsupported(why)

    def note(self, *a):
        self.eng.notes.append(' '.join(str(x) for x in a))

    # -------- running compiled programs
    def run(self, pytext, variables=None, safe=False):
        pe = self.world.load('dice_calc.parser.parse_and_exec')
        return list((pe.safe_exec if safe else pe.unsafe_exec)(pytext, *([] if variables is None else [dict(variables)])))

    def text_eq(self, a, b):
        """equality of two texts that may contain printed symbolic numbers"""
        import re
        if a == b:
            return True
        pa, pb = (re.split('(\ue000\\d+\ue001)', str.__str__(x)) for x in (a, b))

        def lit(p):
            return [x for i, x in enumerate(p) if i % 2 == 0]

        def syms(p):
            return [self.eng.texts[x] for i, x in enumerate(p) if i % 2]
        if lit(pa) == lit(pb) and [t[1] for t in syms(pa)] == [t[1] for t in syms(pb)]:
            return self.And(*[self.eq(x[0], y[0]) for x, y in zip(syms(pa), syms(pb))])

        # a number may be symbolic in one text and known on this path in the other
        na, nb = (re.split('(\\d+|-?\\d+(?:\\.\\d+)?)', str.__str__(x)) for x in (a, b))
        if lit(na) == lit(nb):
            out = []
            for x, y in zip(na[1::2], nb[1::2]):
                sx, sy = x[0] == '', y[0] == ''
                if not sx and not sy:
                    ok = x == y
                elif sx and sy:
                    (x, p), (y, q) = self.eng.texts[x], self.eng.texts[y]
                    ok = self.eq(x, y) if p == q else None
                else:
                    (x, p), y = (self.eng.texts[x], y) if sx else (self.eng.texts[y], x)
                    ok = self.eq(x, Fraction(y)) if p == '' and isinstance(x, int) == ('.' not in y) else None
                if ok is None:
                    break
                out.append(ok)
            else:
                return self.And(*out)

        def full(p):
            out = ''
            for i, x in enumerate(p):
                if i % 2 == 0:
                    out += x
                else:
                    v, spec = self.eng.texts[x]
                    out += format(self.eng.concretize(v) if is_sym(v) and isinstance(v, int) else v, spec)
            return out
        return full(pa) == full(pb)

    def char(self, name, exclude=''):
        from . import chars
        v = self.int('c!' + name, 0, 0x10FFFF)
        cs = [self.Or(self.lt(v, 0xD800), self.lt(0xDFFF, v))] + [self.Not(self.eq(v, ord(x))) for x in exclude]
        for f in cs:
            self.eng.assume(f)
        self.eng.chars.append(v)
        return chars.placeholder(len(self.eng.chars) - 1)

    def token(self, name):
        from .tokens import TEXTS, Tok
        return Tok(self.eng, self.int('t!' + name, 0, len(TEXTS) - 1))

    def ref_tokens(self, items):
        from .tokens import ITEMS, TEXTS
        return [ITEMS[TEXTS.index(x)][1:] if isinstance(x, str) else x for x in items]

    def token_text(self, items):
        from .tokens import TEXTS
        return ' '.join(x if isinstance(x, str) else TEXTS[x.id()] for x in items)

    def accepted(self, items, flags=None):
        from .tokens import TEXTS, compile_tokens
        try:
            compile_tokens([TEXTS.index(x) if isinstance(x, str) else x for x in items], flags)
            return True
        except (AttributeError, KeyError, TypeError):
            # the front end is organised differently: use it as it is, token by token
            return self.compiles(self.token_text(items), flags)
        except Exception:
            return False

    def placed_errors(self, items, gaps):
        from .engine import Unsupported
        from .tokens import TEXTS, errors_of_tokens
        try:
            return errors_of_tokens([TEXTS.index(x) if isinstance(x, str) else x for x in items], gaps)
        except (AttributeError, KeyError, TypeError) as e:
            raise Unsupported('the front end is organised differently: %s' % e)

    def same_text(self, a, b):
        from . import chars
        a, b = str(a), str(b)
        if len(a) != len(b):
            return False
        return self.And(*[self.eq(chars.code(self.eng, x), chars.code(self.eng, y)) for x, y in zip(a, b) if x != y])

    def unescaped_ok(self, py):
        """every symbolic character that stands unescaped in the generated source means itself there"""
        from . import chars
        fs = []
        for c, special in chars.raw_constraints(py):
            if special is None:
                return False
            fs += [self.Not(self.eq(chars.code(self.eng, c), ord(x))) for x in special]
        return self.And(*fs)

    def compile_sym(self, text, flags=None):
        from . import plain
        plain.compile_program('output 1')       # makes sure the parser tables exist
        w = self.world
        full = 'dice_calc.parser.myparser'
        if w.modules.get(full) is not plain.compiler_module(full):
            for k in [k for k in w.modules if k.startswith('dice_calc.parser')]:
                del w.modules[k]
            w.modules[full] = plain.compiler_module(full)
        return w.load('dice_calc.parser.parse_and_exec').compile_anydice(text, flags=dict(flags) if flags else None)

    def text_tokens(self):
        return self.eng.texts

    def frac(self, a, b):
        from fractions import Fraction
        return a / b if is_sym(a) or is_sym(b) else Fraction(a, b)

    def quiet(self):
        return contextlib.nullcontext()

    def close(self, a, b):
        return bool(a == b)

    def report(self, text, pieces):
        out = ''
        for p in pieces:
            if isinstance(p, str):
                out += p
            elif p[0] == 'pad':
                out += format(p[1], '>%d' % p[2]) if is_sym(p[1]) else str(p[1]).rjust(p[2])
            elif p[0] == 'bar':
                n = round(p[1])
                out += '\u2588' * (n.__index__() if is_sym(n) else n)
            elif p[0] == 'pct':
                out += format(p[1] if is_sym(p[1]) else float(p[1]), '>5.2f')
            else:
                out += str(round(p[1] if is_sym(p[1]) else float(p[1]), 2))
        return self.text_eq(text, out)

    def fork(self, x):
        return self.eng.concretize(x) if is_sym(x) else x

    def root(self, x):
        if not is_sym(x):
            return float(x) ** 0.5
        return self.eng.sqrt(x) if x >= 0 else 0

    def hash(self, v):
        from .containers import sx_hash
        return sx_hash(v)

    def tok(self, name):
        from .toks import SymTok
        return SymTok(self.eng, self.int('~' + name, -10 ** 8, 10 ** 8))

    def with_random(self, fn, free=None, forced=None):
        rs = self.world.random_source
        n = len(rs.log)
        rs.free, rs.base, rs.forced = free, rs.n, forced
        try:
            r = fn()
        finally:
            rs.free = rs.forced = None
        return r, rs.log[n:]
