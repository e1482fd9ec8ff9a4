"""Text faces: texts are symbolic ranks (any order and any equalities between them), coefficients and numbers are symbolic; order, equality, hashing and
addition of text values are compared with collected terms, and dice and sequences of text faces with the same computations on numbers."""
import operator
from itertools import permutations, product
from sx.run import Case
from .common import roll_dist

BOUNDS = ('text values of up to 3 terms (texts in any order and with any coincidences, numbers any integer) - thorough 4; all bracketings and orders of addition; order on triples of values of up to 2 terms; '
          'dice and sequences of up to 3 elements mixing texts and numbers, weights 1..50, pools of 2')
ASSUMPTIONS = ['the code only compares, sorts and concatenates texts, so a text is its rank', 'texts other than the internal name of the constant term']
BUDGET = {'quick': 500, 'thorough': 1800}
OPS = [('==', operator.eq), ('!=', operator.ne), ('<', operator.lt), ('<=', operator.le), ('>', operator.gt), ('>=', operator.ge)]
G = dict(nl=True, gcd='one', wtie=True)


def term(S, t, vals):
    """a text (letter) or number (digit index) of the shape"""
    if t.islower():
        s = S.tok(t)
        vals[t] = s
        return S.lib.get_seq([s])._seq[0] if hasattr(S.lib.get_seq([s]), '_seq') else list(S.lib.get_seq([s]))[0]
    return S.int('n' + t, -20, 20)


def value(S, shape):
    """sum of the terms of a shape such as 'ab1', from left to right"""
    v = None
    for t in shape:
        x = term(S, t, {})
        v = x if v is None else v + x
    return v


def collected(S, shape):
    """texts with their counts, and the constant (None: no numbers)"""
    terms, const = [], None
    for t in shape:
        if t.islower():
            s = S.tok(t)
            for e in terms:
                if e[0] == s:
                    e[1] += 1
                    break
            else:
                terms.append([s, 1])
        else:
            n = S.int('n' + t, -20, 20)
            const = n if const is None else const + n
    return terms, const


def same_terms(S, a, b):
    (ta, ca), (tb, cb) = a, b
    if len(ta) != len(tb) or (ca is None) != (cb is None):
        return False
    for s, k in ta:
        if not any(s == t and k == m for t, m in tb):
            return False
    return ca is None or bool(ca == cb)


def trees(items):
    """all bracketings of items"""
    if len(items) == 1:
        yield items[0]
        return
    for i in range(1, len(items)):
        for l in trees(items[:i]):
            for r in trees(items[i:]):
                yield (l, r)


def build(S, tree):
    if isinstance(tree, tuple):
        return build(S, tree[0]) + build(S, tree[1])
    return term(S, tree, {})


def algebra(S, shape):
    """every order and bracketing of the same addends is the same value, with the same hash and the same text"""
    ref = value(S, shape)
    for p in sorted(set(permutations(shape))):
        for t in trees(list(p)):
            v = build(S, t)
            S.check(v == ref, 'order and grouping of addition do not matter')
            S.check(not v != ref, 'order and grouping of addition do not matter (!=)')
            S.check(S.hash(v) == S.hash(ref), 'equal values hash alike')
            S.check(S.text_eq(str(v), str(ref)), 'equal values print alike')


def equality(S, a, b):
    """two sums are equal exactly when their collected terms are"""
    x, y = value(S, a), value(S, b)
    exp = same_terms(S, collected(S, a), collected(S, b))
    S.check(bool(x == y) == exp, 'equality is equality of collected terms')
    S.check(bool(x != y) == (not exp), 'inequality likewise')
    S.check(bool(y == x) == exp, 'equality is symmetric')


def order(S, a, b):
    x, y = value(S, a), value(S, b)
    lt, gt, eq = bool(x < y), bool(x > y), bool(x == y)
    S.check(lt + gt + eq == 1, 'exactly one of less, greater, equal')
    S.check(bool(x <= y) == (lt or eq) and bool(x >= y) == (gt or eq) and bool(x != y) == (not eq), 'all comparisons agree')
    S.check(bool(y > x) == lt and bool(y < x) == gt and bool(y >= x) == (lt or eq) and bool(y <= x) == (gt or eq), 'order is antisymmetric')


def triple(S, a, b, c):
    x, y, z = value(S, a), value(S, b), value(S, c)
    if bool(x < y) and bool(y < z):
        S.check(bool(x < z), 'order is transitive')
    if bool(x == y) and bool(y == z):
        S.check(bool(x == z), 'equality is transitive')
    if bool(x <= y) and bool(y <= z):
        S.check(bool(x <= z), 'order is transitive (<=)')


def above(S, a):
    """every text is above every number"""
    x = value(S, a)
    for n in (S.int('m'), 2.5):
        S.check(bool(x > n) and bool(x >= n) and bool(n < x) and bool(n <= x), 'text above numbers')
        S.check(not bool(x < n) and not bool(x <= n) and not bool(n > x) and not bool(n >= x), 'text not below numbers')
        S.check(not bool(x == n) and bool(x != n) and not bool(n == x), 'text is no number')


def faces(S, shapes):
    return [value(S, s) for s in shapes]


def group(S, shapes):
    """a die groups equal text faces and sorts them"""
    f = faces(S, shapes)
    w = S.weights('w', len(f), 1, 50)
    d = S.lib.RV(list(f), w)
    S.same_dist(d, list(zip(f, w)), 'die of text faces')
    return d, list(zip(f, w))


def sums(S, shapes, shapes2):
    """sum of dice with text faces"""
    f, g = faces(S, shapes), faces(S, shapes2)
    w, u = S.weights('w', len(f), 1, 50), S.weights('u', len(g), 1, 50)
    d = S.lib.RV(list(f), w) + S.lib.RV(list(g), u)
    S.same_dist(d, S.conv(list(zip(f, w)), list(zip(g, u)), op=lambda a, b: a + b), 'sum of text dice')


def plus(S, shapes, what):
    f = faces(S, shapes)
    w = S.weights('w', len(f), 1, 50)
    k = S.int('k', -20, 20)
    d = S.lib.RV(list(f), w)
    r = d + k if what == 'n' else k + d
    S.same_dist(r, [(x + k, p) for x, p in zip(f, w)], 'number added to a text die')


def pool(S, shapes):
    """pool of two: sum, positions"""
    f = faces(S, shapes)
    w = S.weights('w', len(f), 1, 50)
    p = S.lib.roll(2, S.lib.RV(list(f), w))
    two = S.conv(list(zip(f, w)), list(zip(f, w)), op=lambda a, b: (a, b))
    S.same_dist(p, [(a + b, q) for (a, b), q in two], 'sum of a pool of text dice')
    S.same_dist(1 @ p, [(a if bool(a > b) else b, q) for (a, b), q in two], 'highest of a pool of text dice')
    S.same_dist(2 @ p, [(b if bool(a > b) else a, q) for (a, b), q in two], 'lowest of a pool of text dice')


def seq(S, shapes):
    """sequences of texts keep their elements, in order; positions, length, sum, die"""
    L = S.lib
    raw = [S.tok(s) if s.islower() else S.int('n' + s, -20, 20) for s in shapes]
    f = faces(S, shapes)
    q = L.get_seq(list(raw))
    S.check(len(q) == len(f), 'length')
    got = list(q)
    S.check(len(got) == len(f) and all(S.val_eq(a, b) for a, b in zip(got, f)), 'elements in order')
    for i in range(1, len(f) + 1):
        S.check(S.val_eq(i @ q, f[i - 1]), 'position %d' % i)
    S.check(S.val_eq(0 @ q, 0) and S.val_eq((len(f) + 1) @ q, 0), 'outside positions are 0')
    tot = 0
    for x in f:
        tot = tot + x
    S.check(S.val_eq(q.sum(), tot), 'sum')
    S.same_dist(L.roll(1, q), [(x, 1) for x in f], 'die of the sequence')
    r = S.langlib()['reverse_X'](q)
    S.check(all(S.val_eq(a, b) for a, b in zip(list(r), reversed(f))) and len(r) == len(f), 'reverse')
    s = list(S.langlib()['sort_X'](q))
    S.check(len(s) == len(f), 'sort keeps the length')
    for a, b in zip(s, s[1:]):
        S.check(bool(a >= b), 'sort is descending')
    for x in f:
        S.check(sum(1 for y in s if S.val_eq(x, y)) == sum(1 for y in f if S.val_eq(x, y)), 'sort keeps the elements')


def count(S, shapes, needle):
    L = S.lib
    raw = [S.tok(s) if s.islower() else S.int('n' + s, -20, 20) for s in shapes]
    f = faces(S, shapes)
    x = value(S, needle)
    q = L.get_seq(list(raw))
    n = sum(1 for y in f if S.val_eq(x, y))
    ns = L.get_seq([S.tok(needle) if needle.islower() else S.int('n' + needle, -20, 20)])
    S.check(S.eq(S.langlib()['count_X_in_X'](ns, q), n), 'count of a text in a sequence')
    S.check(S.eq(1 if S.langlib()['X_contains_X'](q, x) else 0, 1 if n else 0), 'contains')


def mixed(S, shapes, needle):
    """a text value with a sequence or a die, on either side"""
    L = S.lib
    f = faces(S, shapes)
    x = value(S, needle)
    q = L.get_seq(list(f))
    w = S.weights('w', len(f), 1, 50)
    for name, op in OPS:
        S.check(S.eq(op(q, x), sum(1 for y in f if bool(op(y, x)))), 'sequence %s text counts the elements' % name)
        S.check(S.eq(op(x, q), sum(1 for y in f if bool(op(x, y)))), 'text %s sequence counts the elements' % name)
        d = L.RV(list(f), w)
        S.same_dist(op(d, x), [(1 if bool(op(y, x)) else 0, p) for y, p in zip(f, w)], 'die %s text' % name)
        S.same_dist(op(x, d), [(1 if bool(op(x, y)) else 0, p) for y, p in zip(f, w)], 'text %s die' % name)
    d = L.RV(list(f), w)
    S.same_dist(d + x, [(y + x, p) for y, p in zip(f, w)], 'die + text')
    S.same_dist(x + d, [(y + x, p) for y, p in zip(f, w)], 'text + die')
    tot = 0
    for y in f:
        tot = tot + y
    S.check(S.val_eq(q + x, tot + x) and S.val_eq(x + q, tot + x), 'sequence + text')


def explode(S, shapes):
    """the highest face is the one that explodes, texts above numbers"""
    f = faces(S, shapes)
    w = S.weights('w', len(f), 1, 50)
    d = S.lib.RV(list(f), w)
    top = f[0]
    for y in f[1:]:
        top = y if bool(y > top) else top
    S.check(S.val_eq(S.langlib()['maximum_of_X'](d), top), 'maximum of a die with texts')
    S.lib.settings_set('explode depth', 1)
    W = 0
    for p in w:
        W = W + p
    exp = []
    for y, p in zip(f, w):
        if S.val_eq(y, top):
            exp += [(y + z, p * u) for z, u in zip(f, w)]
        else:
            exp.append((y, p * W))
    S.same_dist(S.langlib()['explode_X'](d), exp, 'explode a die with texts')


def cases(tier):
    big = tier == 'thorough'
    c = []
    T = dict(max_time=300 if big else 40, max_paths=20000, witness=3, **G)
    for s in ['ab', 'a1', 'aa', 'abc', 'ab1', 'a12', 'aab', 'aa1'] + (['abcd', 'aab1', 'ab12', 'abc1', 'aaab', 'aabb'] if big else []):
        c.append(Case(algebra, shape=s, **T))
    shapes = ['a', 'b', 'ab', 'a1', 'aa', 'b1', 'ba', 'c', 'cb', 'c2', 'ab1', 'cd', 'aab', 'a12', 'dc2', 'bba', 'bb']
    for a, b in product(shapes, repeat=2):
        if len(a) + len(b) <= (6 if big else 5):
            c.append(Case(equality, a=a, b=b, **T))
            if not set('12') & set(a) & set(b) or True:
                c.append(Case(order, a=a, b=b, **T))
    tri = ['a', 'b', 'c', 'ab', 'cd', 'a1', 'e2', 'ef', 'gg']
    for t in product(tri, repeat=3):
        n = sum(len(x) for x in t)
        if n <= (6 if big else 4) or t in (('ab', 'cd', 'ef'), ('a1', 'e2', 'c'), ('ab', 'e2', 'cd'), ('gg', 'ab', 'e2')):
            c.append(Case(triple, a=t[0], b=t[1], c=t[2], **T))
    for s in shapes:
        c.append(Case(above, a=s, **T))
    dies = [['a', 'b'], ['a', '1'], ['a', 'b', 'c'], ['a', 'b', '1'], ['1', 'a', '2'], ['ab', 'ba'], ['ab', 'c'], ['a1', 'a'], ['aa', 'b', 'a'], ['a', 'a', 'b']]
    for d in dies:
        c.append(Case(group, shapes=d, **T))
        c.append(Case(plus, shapes=d, what='n', **T))
        c.append(Case(plus, shapes=d, what='r', **T))
        if len(d) == 2:
            c.append(Case(pool, shapes=d, **T))
        for e in dies:
            if len(d) + len(e) <= (5 if big else 4):
                c.append(Case(sums, shapes=d, shapes2=e, **T))
    for s in (['a'], ['a', 'b'], ['a', '1'], ['1', 'a'], ['a', 'b', 'c'], ['a', '1', 'b'], ['a', 'a', '2'], ['1', '2', 'a']):
        c.append(Case(seq, shapes=s, **T))
        for n in ('a', 'b', '1', 'd'):
            c.append(Case(count, shapes=s, needle=n, **T))
            if n.islower() and len(s) <= 2:
                c.append(Case(mixed, shapes=s, needle=n, **T))
    for s in (['a'], ['a', 'b'], ['a', '1'], ['1', 'a'], ['ab', 'c'], ['a1', 'b']):
        c.append(Case(explode, shapes=s, **T))
    c.append(Case(mixed, shapes=['a', 'b'], needle='ab', **T))
    c.append(Case(mixed, shapes=['ab', 'c'], needle='a1', **T))
    return c
