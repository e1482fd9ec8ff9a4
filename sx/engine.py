"""Path exploration of the real Python code with an SMT solver.

The code under test runs under CPython on SymNum values.  Every comparison of symbolic
values comes here; the solver tells which outcomes are possible under the path taken so
far, and the engine re-executes the harness once per feasible combination of outcomes
(depth first, decisions replayed from a prefix).  Obligations are sent to the solver with
the negated claim; `unsat` discharges them for every value of the symbolic inputs on that
path, a model becomes a concrete counterexample candidate.
"""
import math
import random
import time
from fractions import Fraction

import z3

from . import num
from .num import (ONE, SymInt, SymReal, is_sym, isint, lift, mk, p_add, p_cval, p_deg,
                  p_is_const, p_key, p_mul, p_neg, p_scale, p_sub)


class PathAbort(BaseException):
    """assumption false on this path: nothing to check"""


class Unsupported(BaseException):
    """the encoding cannot follow the code here: inconclusive, never a verdict"""


class CaseStop(BaseException):
    """stop exploring this case (budget, or confirmed violation)"""


class Violation(BaseException):
    def __init__(self, label):
        self.label = label


class Atom:
    __slots__ = ('id', 'name', 'integer', 'lo', 'hi', 'z', 'meta', 'inp')

    def __init__(self, id, name, integer, lo, hi, meta=None, inp=False):
        self.id, self.name, self.integer, self.lo, self.hi = id, name, integer, lo, hi
        self.z = z3.Int(name) if integer else z3.Real(name)
        self.meta = meta
        self.inp = inp


def _isq(a):
    """value -> z3 numeral text"""
    if isinstance(a, Fraction) and a.denominator != 1:
        return z3.RealVal(str(a.numerator) + '/' + str(a.denominator))
    return None


class Formula:
    """boolean combination of polynomial (in)equalities"""
    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def __bool__(self):
        raise TypeError('formula used as a Python truth value')


def p_multiple(p, q):
    """is p an integer times q?"""
    if not p:
        return True
    if len(p) != len(q) or set(p) != set(q):
        return False
    m = next(iter(q))
    k = Fraction(p[m]) / q[m]
    return k.denominator == 1 and all(p[m] == k * c for m, c in q.items())


def psd(p):
    """is this quadratic polynomial nonnegative everywhere? (exact elimination on its matrix; False: not shown)"""
    ids = sorted({a for m in p for a in m})
    n = len(ids) + 1
    at = {a: i + 1 for i, a in enumerate(ids)}
    M = [[Fraction(0)] * n for _ in range(n)]
    for m, c in p.items():
        if len(m) > 2:
            return False
        i, j = ([0, 0] + [at[a] for a in m])[-2:] if len(m) < 2 else [at[a] for a in m]
        M[i][j] += Fraction(c) / 2
        M[j][i] += Fraction(c) / 2
    for k in range(n - 1, -1, -1):
        if M[k][k] < 0 or (M[k][k] == 0 and any(M[k][:k])):
            return False
        if M[k][k] == 0:
            continue
        for i in range(k):
            if M[i][k]:
                f = M[i][k] / M[k][k]
                for j in range(k):
                    M[i][j] -= f * M[k][j]
    return True


class Engine:
    def __init__(self, nl_check=False, gcd_mode='abstract', solver_ms=4000, seed=1,
                 max_paths=4000, max_time=60.0, tie_forks=2, opaque_text=True):
        self.nl_check = nl_check
        self.round_atoms = False
        self.gcd_mode = gcd_mode
        self.solver_ms = solver_ms
        self.rng = random.Random(seed)
        self.max_paths, self.max_time = max_paths, max_time
        self.tie_forks = tie_forks
        self.atoms = []
        self.by_name = {}
        self.zcache = {}
        self.interned = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', solver_ms)
        self.stats = dict(paths=0, aborted=0, unsupported=0, decisions=0, forks=0, queries=0,
                          obligations=0, discharged_solver=0, discharged_identity=0, unknown=0,
                          inconclusive=0, solver_s=0.0, replays=0, native_hash=0, nl_forks=0)
        self.cross_left = 40
        self.weight_ties = False
        self.weight_atoms = set()
        self.reset_path([])

    # ------------------------------------------------------------ per path state
    has_real = False

    def reset_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.lin = []          # asserted linear constraints (z3)
        self.nl = []           # nonlinear constraints (z3)
        self.known = {}
        self.pins = {}
        self.inputs = []       # (name, atom id) in creation order
        self.model = {}        # atom id -> value, satisfies self.lin  (None: unknown)
        self.model_ok = True
        self.live = set()      # atoms alive in this path
        self.texts = {}
        self.chars = []
        self.dets = 0
        self.notes = []
        self.approx = False
        self.ties = 0
        self.sorting = 0

    # ------------------------------------------------------------ atoms
    def atom(self, name, integer, lo=None, hi=None, meta=None, inp=False):
        a = self.by_name.get(name)
        if a is None:
            a = Atom(len(self.atoms), name, integer, lo, hi, meta, inp)
            self.atoms.append(a)
            self.by_name[name] = a
        else:
            a.lo, a.hi = lo, hi
        if a.id not in self.live:
            self.live.add(a.id)
            if lo is not None:
                self._assert(a.z >= self._znum(lo))
            if hi is not None:
                self._assert(a.z <= self._znum(hi))
            v = 0
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
            if self.model is not None:
                self.model[a.id] = v
            if inp:
                self.inputs.append((name, a.id))
        return a

    def intern(self, key, tag):
        n = self.interned.get(key)
        if n is None:
            n = self.interned[key] = '%s!%d' % (tag, len(self.interned))
        return n

    def _znum(self, v):
        if isinstance(v, int):
            return z3.IntVal(v)
        v = Fraction(v)
        return z3.IntVal(v.numerator) if v.denominator == 1 else z3.RealVal(str(v))

    def var(self, name, integer=True, lo=None, hi=None):
        a = self.atom(name, integer, lo, hi, inp=True)
        return SymInt({(a.id,): 1}) if integer else SymReal({(a.id,): 1})

    def _assert(self, e):
        self.lin.append(e)

    def assume(self, f):
        """restrict the inputs of this path by a formula"""
        e, nlf = self.fz(f)
        if e is True:
            return
        if e is False:
            raise PathAbort()
        self._assert(e)
        self.model = None

    # ------------------------------------------------------------ polynomials -> z3
    def z(self, p):
        k = p_key(p)
        e = self.zcache.get(k)
        if e is None:
            terms = []
            for m, c in p.items():
                zc = None if c == 1 and m else self._znum(c)
                t = zc
                for a in m:
                    v = self.atoms[a].z
                    t = v if t is None else t * v
                terms.append(t)
            e = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.IntVal(0))
            if len(self.zcache) < 200000:
                self.zcache[k] = e
        return e

    def bounds(self, p):
        lo = hi = 0
        for m, c in p.items():
            tl = th = c
            i = 0
            n = len(m)
            while i < n:
                a = m[i]
                e = 1
                while i + e < n and m[i + e] == a:
                    e += 1
                i += e
                at = self.atoms[a]
                al, ah = at.lo, at.hi
                if a in self.pins and type(self.pins[a]) is not dict:
                    al = ah = self.pins[a]
                if e > 1:
                    if e % 2 == 0:
                        if al is not None and al >= 0:
                            al, ah = al ** e, (ah ** e if ah is not None else None)
                        elif ah is not None and ah <= 0:
                            al, ah = ah ** e, (al ** e if al is not None else None)
                        else:
                            ah = max(al ** e, ah ** e) if al is not None and ah is not None else None
                            al = 0
                    else:
                        al = al ** e if al is not None else None
                        ah = ah ** e if ah is not None else None
                tl, th = _imul(tl, th, al, ah)
                if tl is None and th is None:
                    break
            lo = None if lo is None or tl is None else lo + tl
            hi = None if hi is None or th is None else hi + th
            if lo is None and hi is None:
                return None, None
        return lo, hi

    def subst(self, p):
        pins = self.pins
        if not pins or not any(a in pins for m in p for a in m):
            return p
        r = {}
        for m, c in p.items():
            mm = []
            polys = None
            for a in m:
                v = pins.get(a)
                if v is None:
                    mm.append(a)
                elif type(v) is dict:
                    polys = polys or []
                    polys.append(v)
                else:
                    c = c * v
            if c == 0:
                continue
            if polys is None:
                mm = tuple(mm)
                v = r.get(mm, 0) + c
                if v == 0:
                    r.pop(mm, None)
                else:
                    r[mm] = v
            else:
                t = {tuple(mm): c}
                for q in polys:
                    t = p_mul(t, q)
                r = p_add(r, t)
                if r is t or type(r) is not dict:
                    r = dict(r)
        return {m: num._norm(c) for m, c in r.items()}

    def sign(self, p):
        lo, hi = self.bounds(self.subst(p))
        if lo is not None and lo > 0:
            return 1
        if hi is not None and hi < 0:
            return -1
        return 0

    def neg_den(self, d):
        return self.sign(d) < 0

    def all_int(self, p):
        return all(self.atoms[a].integer for m in p for a in m) and all(isinstance(c, int) for c in p.values())

    # ------------------------------------------------------------ deciding comparisons
    def compare(self, la, lb, op):
        na, da, _ = la
        nb, db, _ = lb
        if da is ONE and db is ONE:
            p = p_sub(na, nb)
        elif da == db:
            p = p_sub(na, nb)
            if da != ONE and op != '==':
                s = self.sign(da)
                if s == 0:
                    s = 1 if self.decide(p_neg(da), '<') else -1
                if s < 0:
                    p = p_neg(p)
        else:
            p = p_sub(p_mul(na, db), p_mul(nb, da))
            if op != '==':
                for d in (da, db):
                    if d is ONE or d == ONE:
                        continue
                    s = self.sign(d)
                    if s == 0:
                        s = 1 if self.decide(p_neg(d), '<') else -1
                    if s < 0:
                        p = p_neg(p)
        return self.decide(p, op)

    def canon(self, p, op):
        """-> (verdict, p, op, flip): p normalised, op in ('==','<=')"""
        p = self.subst(p)
        if p_is_const(p):
            c = p_cval(p)
            return (c == 0 if op == '==' else c < 0 if op == '<' else c <= 0), p, op, False
        lo, hi = self.bounds(p)
        if (lo is None or lo < 0) and (hi is None or hi > 0) and 3 <= len(p) <= 20 and p_deg(p) == 2:
            if psd(p):
                lo = 0
            elif psd(p_neg(p)):
                hi = 0
        if op == '==':
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False, p, op, False
        elif op == '<':
            if hi is not None and hi < 0:
                return True, p, op, False
            if lo is not None and lo >= 0:
                return False, p, op, False
        else:
            if hi is not None and hi <= 0:
                return True, p, op, False
            if lo is not None and lo > 0:
                return False, p, op, False
        # clear denominators, divide by content
        den = 1
        for c in p.values():
            if isinstance(c, Fraction):
                den = den * c.denominator // math.gcd(den, c.denominator)
        if den != 1:
            p = {m: int(c * den) for m, c in p.items()}
        elif any(type(c) is not int for c in p.values()):
            p = {m: int(c) for m, c in p.items()}
        ints = self.all_int(p)
        if ints:
            g = 0
            for m, c in p.items():
                if m:
                    g = math.gcd(g, c)
            c0 = p.get((), 0)
            if op == '<':
                c0, op = c0 + 1, '<='
            if op == '==':
                if c0 % g:
                    return False, p, op, False
                q0 = c0 // g
            else:
                q0 = -((-c0) // g)
            p = {m: c // g for m, c in p.items() if m}
            if q0:
                p[()] = q0
        else:
            g = 0
            for c in p.values():
                g = math.gcd(g, c)
            if g > 1:
                p = {m: c // g for m, c in p.items()}
        lead = min(m for m in p if m)
        neg = p[lead] < 0
        flip = False
        if op == '==':
            if neg:
                p = p_neg(p)
        elif op == '<=':
            if neg:  # p<=0  <=>  not (-p + 1 <= 0) on ints / not (-p < 0)
                if ints:
                    p = p_neg(p)
                    v = p.get((), 0) + 1
                    if v:
                        p[()] = v
                    else:
                        p.pop((), None)
                    flip = True
                else:
                    p, op, flip = p_neg(p), '<', True
        else:  # '<' on reals
            if neg:
                p, op, flip = p_neg(p), '<=', True
        return None, p, op, flip

    def decide(self, p, op):
        v, p, op, flip = self.canon(p, op)
        if v is not None:
            return v
        key = (op, p_key(p))
        r = self.known.get(key)
        if r is None and op == '==' and len(p) == 2:    # equal squares: two linear questions
            (m1, c1), (m2, c2) = p.items()
            if c1 == -c2 and len(m1) == len(m2) == 2 and m1[0] == m1[1] and m2[0] == m2[1]:
                r = self.known[key] = (self.decide({m1[:1]: 1, m2[:1]: -1}, '==') or self.decide({m1[:1]: 1, m2[:1]: 1}, '=='))
        if r is None and op in ('==', '<=') and () not in p and p_deg(p) > 1 and (len(p) == 1 or all(
                c > 0 and all(self.atoms[a].lo is not None and self.atoms[a].lo >= 0 for a in m) for m, c in p.items())) and (
                op == '==' or all(self.atoms[a].lo is not None and self.atoms[a].lo >= 0 for m in p for a in m)):
            # a sum of products of nonnegative numbers is zero only if each product has a zero factor
            r = self.known[key] = all(any(self.decide({(a,): 1}, '==') for a in sorted(set(m))) for m in p)
        if r is None and len(p) == 2 and p.get(()) == -1:
            m = next(m for m in p if m)
            if len(m) == 1 and p[m] == 1 and self.atoms[m[0]].meta and self.atoms[m[0]].meta[0] == 'gcd':
                r = self.known[key] = False    # an abstract gcd is taken as > 1 (dividing by 1 changes nothing)
        if r is None:
            r = self.branch(p, op)
            self.known[key] = r
            if r and p_deg(p) == 1 and len(p) > 1 and () not in p and all(
                    c > 0 and self.atoms[m[0]].lo is not None and self.atoms[m[0]].lo >= 0 for m, c in p.items()):
                for m in p:     # nonnegative numbers adding up to nothing
                    self._maybe_pin({m: 1})
            elif r and op == '==':
                self._maybe_pin(p)
        return (not r) if flip else r

    def _maybe_pin(self, p):
        """use a linear equality on the path as a substitution"""
        if p_deg(p) != 1:
            return
        ms = [m for m in p if m]
        if len(ms) == 1:
            a = ms[0][0]
            v = num._norm(Fraction(-p.get((), 0)) / p[ms[0]])
        else:
            for m in reversed(ms):
                at = self.atoms[m[0]]
                if at.meta is None and (abs(p[m]) == 1 or not at.integer):
                    # an integer atom may only be replaced by an integer-valued expression and vice versa
                    if at.integer and not self.all_int(p):
                        continue
                    a = m[0]
                    k = Fraction(-1) / p[m]
                    v = {q: num._norm(c * k) for q, c in p.items() if q != m}
                    break
            else:
                return
        self.pins[a] = v
        for b, w in list(self.pins.items()):
            if type(w) is dict and (a,) in w:
                w = self.subst(w)
                self.pins[b] = p_cval(w) if p_is_const(w) else w

    def zrel(self, p, op):
        e = self.z(p)
        return e == 0 if op == '==' else e <= 0 if op == '<=' else e < 0

    def eval_model(self, p, model):
        t = 0
        for m, c in p.items():
            for a in m:
                v = model.get(a)
                if v is None:
                    return None
                c = c * v
            t = t + c
        return t

    @staticmethod
    def holds(v, op):
        return v == 0 if op == '==' else v <= 0 if op == '<=' else v < 0

    def branch(self, p, op):
        i = len(self.trace)
        nonlin = p_deg(p) >= 2
        tie = self.sorting and ((nonlin and not self.nl_check) or (self.weight_ties and all(a in self.weight_atoms for m in p for a in m)))
        if i < len(self.prefix):
            ent = self.prefix[i]
            if len(ent) != 2:
                raise Unsupported('replay divergence')
            val, forced = ent
            self.trace.append(ent)
            if forced:
                return val
            if tie:
                self.ties += 1
            if self.model is not None:
                x = self.eval_model(p, self.model)
                if x is None or self.holds(x, op) != val:
                    self.model = None
        else:
            self.stats['decisions'] += 1
            if len(self.trace) > 20000:
                raise Unsupported('path too long')
            if tie:
                if self.ties >= self.tie_forks:
                    # order of equal faces with different weights while sorting: one order explored
                    self.dets += 1
                    self.trace.append((False, True))
                    return False
                self.ties += 1
            val, forced = True, False
            if nonlin and not self.nl_check:
                self.stats['nl_forks'] += 1
                self.model = None
            else:
                e = self.zrel(p, op)
                mv = None
                if self.model is not None:
                    x = self.eval_model(p, self.model)
                    if x is not None:
                        mv = self.holds(x, op)
                if mv is True:
                    forced = self.sat(z3.Not(e), nonlin) is False
                else:
                    r = self.sat(e, nonlin)
                    if r is False:
                        val, forced = False, True
                    else:
                        keep = self.last_model if r else None
                        if mv is None:
                            forced = self.sat(z3.Not(e), nonlin) is False
                        self.model = keep
            if not forced:
                self.stats['forks'] += 1
                self.pending.append(self.trace + [(False, False)])
            self.trace.append((val, forced))
            if forced:
                return val
        e = self.zrel(p, op)
        (self.nl if nonlin else self.lin).append(e if val else z3.Not(e))
        return val

    def sat(self, extra, with_nl=False, retry=0):
        """True / False / None (unknown) for path & extra"""
        s = self.solver
        t0 = time.time()
        s.push()
        try:
            for c in self.lin:
                s.add(c)
            if with_nl or self.nl_check:
                for c in self.nl:
                    s.add(c)
            if extra is not None:
                s.add(extra)
            r = s.check()
            self.stats['queries'] += 1
            if r == z3.sat:
                self.last_model = self._read_model(s.model())
                if extra is None:
                    self.model = dict(self.last_model)
                return True
            if r == z3.unsat:
                return False
            if retry:   # a fresh solver preprocesses the whole goal; the incremental one does not
                f = z3.Solver()
                f.set('timeout', retry)
                f.add(s.assertions())
                r = f.check()
                self.stats['queries'] += 1
                if r == z3.unsat:
                    return False
                if r == z3.sat:
                    self.last_model = self._read_model(f.model())
                    return True
            self.stats['unknown'] += 1
            return None
        finally:
            s.pop()
            self.stats['solver_s'] += time.time() - t0

    def _read_model(self, m):
        d = {}
        for a in self.live:
            v = m[self.atoms[a].z]
            at = self.atoms[a]
            if v is None:
                x = 0
                if at.lo is not None and x < at.lo:
                    x = at.lo
                if at.hi is not None and x > at.hi:
                    x = at.hi
                d[a] = x
            else:
                d[a] = _zval(v)
        return d

    # ------------------------------------------------------------ services for SymNum
    def pinned_value(self, x):
        n, d = self.subst(x.n), self.subst(x.d)
        if p_is_const(n) and p_is_const(d):
            v = Fraction(p_cval(n)) / p_cval(d)
            if isint(x) and v.denominator == 1:
                return int(v)
            return num._norm(v) if isint(x) else float(v)
        self.stats['native_hash'] += 1
        self.approx = True
        return None

    def concretize(self, x):
        """fork over the values of x"""
        if not is_sym(x):
            return x
        for _ in range(100000):
            n, d = self.subst(x.n), self.subst(x.d)
            if p_is_const(n) and p_is_const(d):
                v = Fraction(p_cval(n)) / p_cval(d)
                if isint(x):
                    return int(v)
                return v
            i = len(self.trace)
            if i < len(self.prefix):
                v = self.prefix[i]
                if not (isinstance(v, tuple) and len(v) == 3):
                    raise Unsupported('replay divergence')
                v = v[2]
            else:
                v = self._pick_value(n, d, isint(x))
            self.trace.append((True, True, v))   # remembers the value probed
            # try x == v
            p = p_sub(n, p_scale(d, v))
            if self.decide(p, '=='):
                # p may not be a single atom; the value is nevertheless fixed on this path
                return int(v) if isint(x) else v
        raise Unsupported('concretisation diverges')

    def _pick_value(self, n, d, integer):
        lo, hi = (self.bounds(n) if d == ONE else (None, None))
        if lo is not None and hi is not None and hi - lo <= 4096:
            # smallest first, deterministic
            for v in range(math.ceil(lo), math.floor(hi) + 1):
                k = self.canon(p_sub(n, p_scale(d, v)), '==')
                if k[0] is False or self.known.get((k[2], p_key(k[1]))) is False:
                    continue
                return v
        if self.model is None:
            r = self.sat(None)
            if r is False:
                raise PathAbort()
            if r is None:
                raise Unsupported('solver unknown')
        a, b = self.eval_model(n, self.model), self.eval_model(d, self.model)
        if a is None or b in (None, 0):
            raise Unsupported('no model value')
        v = Fraction(a) / b
        if integer:
            return int(v)
        return num._norm(v)

    def floordiv(self, a, b):
        integer = isint(a) and isint(b)
        (na, da, _), (nb, db, _) = lift(a), lift(b)
        if num._cmp(b, 0, '==') if is_sym(b) else b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if len(nb) == 1 and db == ONE:   # an argument of a gcd divided by that gcd is exact
            (m, c), = nb.items()
            if c == 1 and len(m) == 1:
                meta = self.atoms[m[0]].meta
                if meta and meta[0] == 'gcd':
                    sn, sd = self.subst(na), self.subst(da)
                    if (p_key(sn), p_key(sd)) in meta[1] or any(
                            p_multiple(p_mul(sn, self.subst(d)), p_mul(self.subst(n), sd)) for n, d in meta[2]):
                        return mk(na, p_mul(da, nb), integer)
        for i in set.intersection(*[set(m) for m in na]) if na and not p_is_const(nb) else ():
            meta = self.atoms[i].meta
            if meta and meta[0] == 'lcm' and any(p_multiple(p_mul(self.subst(n), self.subst(db)), p_mul(self.subst(nb), self.subst(d))) for n, d in meta[1]):
                return mk(na, p_mul(da, nb), integer) if db == ONE else mk(p_mul(na, db), p_mul(da, nb), integer)
        n, d = p_mul(na, db), p_mul(da, nb)
        n, d = self.subst(n), self.subst(d)
        q = self._exact_quotient(n, d, integer)
        if q is not None:
            return q
        if d != ONE and self.sign(d) == 0:
            if self.decide(d, '<'):
                n, d = p_neg(n), p_neg(d)
        elif self.sign(d) < 0:
            n, d = p_neg(n), p_neg(d)
        n, d = self.subst(n), self.subst(d)
        if not p_is_const(d):
            lo, hi = self.bounds(d)
            g = math.gcd(*d.values()) if all(isinstance(c, int) for c in d.values()) else 1
            if lo is not None and hi is not None and hi - lo <= 24 * g and self.all_int(d):
                v = self.concretize(SymInt({m: c // g for m, c in d.items()})) * g
                return self.floordiv(mk(n, ONE, isint(a)), v)
        return self._floor(n, d, integer)

    def _exact_quotient(self, n, d, integer):
        """n/d when d is known to divide n (as polynomials over the integers, or by a gcd's definition)"""
        if not n:
            return 0 if integer else SymReal({})
        if p_is_const(d):
            c = p_cval(d)
            if p_is_const(n):
                v = Fraction(p_cval(n)) / c
                v = math.floor(v)
                return v if integer else SymReal(num.p_const(v))
            if integer and self.all_int(n) and all(Fraction(x, 1) % c == 0 for x in n.values()):
                return mk({m: num._norm(Fraction(x) / c) for m, x in n.items()}, ONE, True)
            return None
        q = poly_div(n, d)
        if q is not None and (not integer or all(isinstance(c, int) for c in q.values())):
            if integer and not self.all_int(q):
                return None
            return mk(q, ONE, integer)
        return None

    def _floor(self, n, d, integer):
        """floor(n/d), d > 0"""
        name = self.intern(('floor', p_key(n), p_key(d)), 'fl')
        lo = hi = None
        bl, bh = self.bounds(n)
        if p_is_const(d):
            c = p_cval(d)
            lo = math.floor(Fraction(bl) / c) if bl is not None else None
            hi = math.floor(Fraction(bh) / c) if bh is not None else None
        elif bl is not None and bl >= 0:
            lo = 0
            hi = bh
        fresh = name not in self.by_name or self.by_name[name].id not in self.live
        a = self.atom(name, True, lo, hi, meta=('floor', n, d))
        if fresh:
            zn, zd = self.z(n), self.z(d)
            nonlin = not p_is_const(d) or p_deg(n) >= 2
            e1, e2 = a.z * zd <= zn, zn < a.z * zd + zd
            (self.nl if nonlin else self.lin).extend([e1, e2])
            if self.model is not None:
                x, y = self.eval_model(n, self.model), self.eval_model(d, self.model)
                if x is None or y is None or y == 0:
                    self.model = None
                else:
                    self.model[a.id] = math.floor(Fraction(x) / y)
        p = {(a.id,): 1}
        return SymInt(p) if integer else SymReal(p)

    def floor_atom(self, x):
        n, d = self.subst(x.n), self.subst(x.d)
        if p_is_const(n) and p_is_const(d):
            return math.floor(Fraction(p_cval(n)) / p_cval(d))
        if d == ONE and all(isinstance(c, int) for c in n.values()) and self.all_int(n):
            return SymInt(n)
        q = None if p_is_const(d) else poly_div(n, d)
        if q is not None and all(isinstance(c, int) for c in q.values()) and self.all_int(q):
            return mk(q, ONE, True)
        if self.sign(d) == 0 and not p_is_const(d):
            if self.decide(d, '<'):
                n, d = p_neg(n), p_neg(d)
        elif self.sign(d) < 0:
            n, d = p_neg(n), p_neg(d)
        return self._floor(n, d, True)

    def round_model(self, x, nd):
        """round half to even on exact rationals (binary rounding of decimals is outside the encoding)"""
        k = 10 ** abs(nd or 0)
        y = x * k if (nd or 0) >= 0 else (x * Fraction(1, k) if not isint(x) else SymReal(x.n, x.d) * Fraction(1, k))
        y = SymReal(*lift(y)[:2])
        if self.round_atoms:   # some integer within one half (ties either way), the same one for the same number
            y = mk(self.subst(y.n), self.subst(y.d), False)
            n, d = y.n, y.d
            if p_is_const(n) and p_is_const(d):
                r = round(Fraction(p_cval(n)) / p_cval(d))
            else:
                if self.sign(d) < 0:
                    n, d = p_neg(n), p_neg(d)
                name = self._same_number('round', n, d) or self.intern(('round', p_key(n), p_key(d)), 'rn')
                fresh = name not in self.by_name or self.by_name[name].id not in self.live
                a = self.atom(name, True, meta=('round', n, d)) if fresh else self.by_name[name]
                if fresh:
                    zn, zd = self.z(n), self.z(d)
                    nonlin = not p_is_const(d) or p_deg(n) >= 2
                    e = [2 * a.z * zd - zd <= 2 * zn, 2 * zn <= 2 * a.z * zd + zd]
                    (self.nl if nonlin else self.lin).extend(e)
                    if self.model is not None:
                        x, yv = self.eval_model(n, self.model), self.eval_model(d, self.model)
                        if x is None or yv in (None, 0):
                            self.model = None
                        else:
                            self.model[a.id] = round(Fraction(x) / yv)
                r = SymInt({(a.id,): 1})
            if nd is None:
                return r
            r = r * Fraction(1, k) if nd >= 0 else r * k
            n, d, _ = lift(r)
            return mk(n, d, isint(x))
        f = y.__floor__()
        fr = y - f
        half = Fraction(1, 2)
        if fr < half:
            r = f
        elif fr > half:
            r = f + 1
        else:
            r = f if f % 2 == 0 else f + 1
        if nd is None:
            return r
        r = r * Fraction(1, k) if nd >= 0 else r * k
        n, d, _ = lift(r)
        return mk(n, d, isint(x))

    def _same_number(self, kind, n, d):
        """an atom of this kind for a number that equals n/d on this path"""
        if self.pins:
            for i in self.live:
                meta = self.atoms[i].meta
                if meta and meta[0] == kind and p_mul(self.subst(meta[1]), d) == p_mul(n, self.subst(meta[2])):
                    return self.atoms[i].name
        return None

    def sqrt(self, x):
        n, d, _ = lift(x)
        y = mk(self.subst(n), self.subst(d), False)
        n, d = y.n, y.d
        if num._cmp(x, 0, '<') if is_sym(x) else x < 0:
            raise ValueError('math domain error')
        if p_is_const(n) and p_is_const(d):
            v = Fraction(p_cval(n)) / p_cval(d)
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator:
                return SymReal(num.p_const(num._norm(Fraction(a, b))))
        name = self._same_number('sqrt', n, d) or self.intern(('sqrt', p_key(n), p_key(d)), 'sq')
        fresh = name not in self.by_name or self.by_name[name].id not in self.live
        a = self.atom(name, False, 0, None, meta=('sqrt', n, d)) if fresh else self.by_name[name]
        if fresh:
            self.nl.append(a.z * a.z * self.z(d) == self.z(n))
            self.model = None if self.model is None else self.model
            if self.model is not None:
                self.model.pop(a.id, None)
        return SymReal({(a.id,): 1})

    def gcd(self, args):
        args = [x for x in args]
        if not args:
            return 0
        if not any(is_sym(x) for x in args):
            return math.gcd(*args)
        polys = []
        for x in args:
            n, d, _ = lift(x)
            n, d = self.subst(n), self.subst(d)
            m = next(iter(n)) if len(n) == 1 and d == ONE else ()
            if len(m) == 1 and n[m] == 1 and self.atoms[m[0]].meta and self.atoms[m[0]].meta[0] == 'gcd':
                polys.extend(self.atoms[m[0]].meta[2])      # gcd(gcd(a, b), c) is gcd(a, b, c)
            else:
                polys.append((n, d))
        if all(p_is_const(n) and p_is_const(d) for n, d in polys):
            return math.gcd(*[int(Fraction(p_cval(n)) / p_cval(d)) for n, d in polys])
        nz = [(n, d) for n, d in polys if n]
        if len(nz) == 1 and (self.bounds(nz[0][0])[0] is not None and self.bounds(nz[0][0])[0] >= 0) and self.sign(nz[0][1]) > 0:
            return mk(nz[0][0], nz[0][1], True)
        if self.gcd_mode == 'one' or any(p_is_const(n) and p_is_const(d) and abs(p_cval(n)) == p_cval(d) for n, d in nz):
            return 1
        polys = nz
        name = self.intern(('gcd', tuple((p_key(n), p_key(d)) for n, d in polys)), 'gc')
        if self.gcd_mode == 'exact' and all(d == ONE for _, d in polys):
            return self._gcd_exact(name, [n for n, _ in polys], args)
        # abstract: some g >= 1 dividing every argument (all-zero argument lists excepted)
        allzero_possible = all(self.sign(n) == 0 for n, _ in polys)
        if allzero_possible:
            tot = 0
            for x in args:
                tot = tot + x
            if tot == 0:
                return 0
        keys = {(p_key(n), p_key(d)) for n, d in polys}
        a = self.atom(name, True, 1, None, meta=('gcd', keys, polys))
        return SymInt({(a.id,): 1})

    def lcm(self, args):
        polys = []
        for x in args:
            n, d, _ = lift(x)
            n, d = self.subst(n), self.subst(d)
            if not n:
                return 0
            m = next(iter(n)) if len(n) == 1 and d == ONE else ()
            if len(m) == 1 and n[m] == 1 and self.atoms[m[0]].meta and self.atoms[m[0]].meta[0] == 'lcm':
                polys.extend(self.atoms[m[0]].meta[1])
            elif n != ONE or d != ONE:
                polys.append((n, d))
        if any(self.sign(n) <= 0 or self.sign(d) <= 0 for n, d in polys) or self.gcd_mode == 'exact':
            r = 1
            for x in args:
                g = self.gcd((r, x))
                if g == 0:
                    return 0
                r = abs(r * x) // g
            return r
        if len(polys) <= 1:
            return mk(polys[0][0], polys[0][1], True) if polys else 1
        name = self.intern(('lcm', tuple((p_key(n), p_key(d)) for n, d in polys)), 'lc')
        his = [self.bounds(n)[1] for n, _ in polys]
        a = self.atom(name, True, 1, math.prod(his) if None not in his else None, meta=('lcm', polys))
        return SymInt({(a.id,): 1})

    def _gcd_exact(self, name, polys, args):
        his = []
        for p in polys:
            lo, hi = self.bounds(p)
            if hi is None or lo is None or lo < 0:
                raise Unsupported('exact gcd of an unbounded weight')
            his.append(hi)
        top = max(his)
        a = self.atom(name, True, 0, top, meta=('gcdx', polys))
        zs = [self.z(p) for p in polys]
        if name not in self.known:
            self.known[name] = True
            cases = []
            for d in range(1, top + 1):
                c = [a.z == d] + [zp % d == 0 for zp in zs]
                for e in range(2 * d, top + 1, d):
                    c.append(z3.Or([zp % e != 0 for zp in zs]))
                cases.append(z3.And(c))
            cases.append(z3.And([a.z == 0] + [zp == 0 for zp in zs]))
            self.lin.append(z3.Or(cases))
            self.model = None
        return self.concretize(SymInt({(a.id,): 1}))

    # ------------------------------------------------------------ text of numbers
    def text_of(self, x, spec=''):
        n, d = self.subst(x.n), self.subst(x.d)
        if p_is_const(n) and p_is_const(d):
            v = Fraction(p_cval(n)) / p_cval(d)
            v = int(v) if isint(x) else float(v)
            return format(v, spec) if spec else str(v)
        from .text import SymText
        if spec and spec[-1] in 'eEfFgG%':
            num.float_range(lift(x))
        return SymText(self, x, spec)

    # ------------------------------------------------------------ obligations
    def cross(self, a, b, c, d):
        """ask the solver for a counterexample of a*b == c*d (rational terms cleared); True: none exists"""
        if self.cross_left <= 0:
            return False
        ts = [lift(x) for x in (a, b, c, d)]
        if any(len(t[0]) + len(t[1]) > 60 for t in ts):
            return False
        self.cross_left -= 1
        (na, da, _), (nb, db, _), (nc, dc, _), (nd, dd, _) = ts
        e = self.z(na) * self.z(nb) * self.z(dc) * self.z(dd) == self.z(nc) * self.z(nd) * self.z(da) * self.z(db)
        s = self.solver
        t0 = time.time()
        s.push()
        try:
            s.set('timeout', 500)
            s.add(z3.Not(e))
            for c in self.lin:
                s.add(c)
            r = s.check()
            self.stats['queries'] += 1
        finally:
            s.pop()
            s.set('timeout', self.solver_ms)
            self.stats['solver_s'] += time.time() - t0
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            return False
        raise Unsupported('solver disagrees with the normal form')

    def fz(self, f):
        """Formula -> (z3 expr, nonlinear?) ; True/False when constant"""
        if f is True or f is False:
            return f, False
        if f.op in ('==', '<=', '<'):
            p, op = f.args[0], f.op
            p = self.reduce(self.subst(p))
            v, p, op, flip = self.canon(p, op)
            if v is not None:
                return v, False
            k = self.known.get((op, p_key(p)))
            if k is not None:
                return (k != flip), False
            e = self.zrel(p, op)
            return (z3.Not(e) if flip else e), p_deg(p) >= 2
        if f.op == 'not':
            e, nlf = self.fz(f.args[0])
            return ((not e) if isinstance(e, bool) else z3.Not(e)), nlf
        es, nlf = [], False
        for g in f.args:
            e, x = self.fz(g)
            nlf = nlf or x
            if isinstance(e, bool):
                if f.op == 'and' and not e:
                    return False, False
                if f.op == 'or' and e:
                    return True, False
            else:
                es.append(e)
        if not es:
            return f.op == 'and', False
        return (z3.And(es) if f.op == 'and' else z3.Or(es)), nlf

    def reduce(self, p):
        """eliminate squares of sqrt atoms"""
        for _ in range(8):
            hit = None
            for m in p:
                for i in range(len(m) - 1):
                    if m[i] == m[i + 1] and self.atoms[m[i]].meta and self.atoms[m[i]].meta[0] == 'sqrt':
                        hit = m[i]
                        break
                if hit is not None:
                    break
            if hit is None:
                return p
            _, n, d = self.atoms[hit].meta
            r = {}
            for m, c in p.items():
                ml = list(m)
                if ml.count(hit) >= 2:
                    ml.remove(hit)
                    ml.remove(hit)
                    r = p_add(r, p_mul({tuple(ml): c}, n))
                else:
                    r = p_add(r, p_mul({m: c}, d))
            p = r
        return p

    def eval_f(self, f, model):
        if f is True or f is False:
            return f
        if f.op in ('==', '<=', '<'):
            v = self.eval_model(f.args[0], model)
            return None if v is None else self.holds(v, f.op)
        if f.op == 'not':
            v = self.eval_f(f.args[0], model)
            return None if v is None else not v
        vs = [self.eval_f(g, model) for g in f.args]
        if f.op == 'and':
            return False if False in vs else (None if None in vs else True)
        return True if True in vs else (None if None in vs else False)

    def models(self, extra=None, k=6):
        """a few models of the path (and extra), small and spread-out inputs preferred"""
        s = self.solver
        out, seen = [], set()
        t0 = time.time()
        ins = [self.atoms[a] for _, a in self.inputs]
        plan = [(3, False, True), (4, True, True), (9, True, True), (9, True, False), (60, True, False),
                (None, False, True), (None, False, False)]
        for b, spread, use_nl in plan[:k + 1]:
            s.push()
            try:
                for c in self.lin:
                    s.add(c)
                if use_nl:
                    for c in self.nl:
                        s.add(c)
                if extra is not None:
                    s.add(extra)
                if b is not None:
                    for a in ins:
                        lo = -b if a.lo is None or a.lo < -b else a.lo
                        hi = max(b, math.ceil(lo) + b)
                        s.add(a.z <= self._znum(hi), a.z >= self._znum(lo))
                r = s.check()
                self.stats['queries'] += 1
                if r == z3.sat:
                    m = s.model()
                    if spread:
                        for a in self.rng.sample(ins, len(ins)):
                            if not a.integer:
                                continue
                            lo = -b if a.lo is None or a.lo < -b else math.ceil(a.lo)
                            hi = min(max(b, lo + b), a.hi if a.hi is not None else lo + b)
                            s.push()
                            s.add(a.z == self.rng.randint(lo, max(lo, math.floor(hi))))
                            if s.check() == z3.sat:
                                m = s.model()
                            else:
                                s.pop()
                    d = self._read_model(m)
                    key = tuple(d.get(a.id) for a in ins)
                    if key not in seen:
                        seen.add(key)
                        out.append(d)
            except z3.Z3Exception:
                pass
            finally:
                while s.num_scopes() > 0:
                    s.pop()
            if time.time() - t0 > 20:
                break
        self.stats['solver_s'] += time.time() - t0
        return out

    def large_model(self, lim=2 ** 56, limit_s=2.0):
        """a model of the path with inputs as large as their bounds allow (beyond the precision of floats where unbounded)"""
        if self.has_real:   # floats among the inputs: stay where float arithmetic is exact
            lim = 2 ** 16
        s = self.solver
        t0 = time.time()
        depth = 0
        s.push()
        try:
            for c in self.lin:
                s.add(c)
            for c in self.nl:
                s.add(c)
            if s.check() != z3.sat:
                return None
            m = s.model()
            self.stats['queries'] += 1
            for a in [self.atoms[a] for _, a in self.inputs]:
                if not a.integer or a.name.startswith('?') or time.time() - t0 > limit_s:
                    continue
                lo = -lim if a.lo is None else a.lo
                hi = lim if a.hi is None else a.hi
                if hi - lo < 8:
                    continue
                x = self.rng.randint(int(lo + (hi - lo) * 3 // 4), int(hi)) | 1
                for c in (a.z == x, a.z >= int(lo + (hi - lo) * 3 // 4), a.z >= int(lo + (hi - lo) * 9 // 16)):
                    s.push()
                    s.add(c)
                    r = s.check()
                    self.stats['queries'] += 1
                    if r == z3.sat:
                        m = s.model()
                        depth += 1
                        break
                    s.pop()
            return self._read_model(m)
        except z3.Z3Exception:
            return None
        finally:
            for _ in range(depth + 1):
                s.pop()
            self.stats['solver_s'] += time.time() - t0

    def input_values(self, model):
        d = {}
        for name, a in self.inputs:
            v = model.get(a, 0)
            v = Fraction(v)
            d[name] = int(v) if v.denominator == 1 and self.atoms[a].integer else [v.numerator, v.denominator]
        return d


def _imul(al, ah, bl, bh):
    """interval product with None = unbounded"""
    if al == 0 and ah == 0 or bl == 0 and bh == 0:
        return 0, 0
    INF = math.inf
    a = [-INF if al is None else al, INF if ah is None else ah]
    b = [-INF if bl is None else bl, INF if bh is None else bh]
    c = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                c.append(0)
            elif x in (INF, -INF) or y in (INF, -INF):
                c.append(INF if (x > 0) == (y > 0) else -INF)
            else:
                c.append(x * y)
    lo, hi = min(c), max(c)
    return (None if lo == -INF else lo), (None if hi == INF else hi)


def poly_div(n, d):
    """exact multivariate division or None"""
    if len(n) * len(d) > 250000:
        return None
    lead = max(d, key=lambda m: (len(m), m))
    lc = d[lead]
    q = {}
    r = dict(n)
    steps = 0
    while r:
        steps += 1
        if steps > 20000:
            return None
        m = max(r, key=lambda m: (len(m), m))
        c = r[m]
        ml = list(m)
        for a in lead:
            if a in ml:
                ml.remove(a)
            else:
                return None
        qm = tuple(ml)
        qc = num._norm(Fraction(c) / lc)
        q[qm] = q.get(qm, 0) + qc
        for dm, dc in d.items():
            k = tuple(sorted(qm + dm))
            v = r.get(k, 0) - qc * dc
            v = num._norm(v)
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    return q


def _zval(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return num._norm(f)
    if z3.is_algebraic_value(v):
        a = v.approx(12)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return 0
