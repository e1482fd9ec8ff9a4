"""Sampling: the random source is replaced by its contract (any outcome it allows, logged with its probability); whatever face the source picks, the
solver shows that it was picked with exactly the die's probability; all outcomes of the source together give the product distribution."""
from sx.run import Case
from .common import die, roll_dist, total, wide

BOUNDS = ('dice of up to 4 faces (thorough 5; faces any numbers, weights 0..1000), pools of 2 and 3, sums, numbers, sequences with repeated values, text faces, mixtures; counts none, 0..3 (thorough 4), dice of 7-60 given faces (three symbolic weights, counts none, 1 and 2), 5-100 draws (the first two and the last one symbolic), '
          'every outcome of the random source; the joint distribution over all outcomes for up to 3 draws')
ASSUMPTIONS = ['the random source follows the contract of random.choices / random.choice; other uses of the random module are reported as undecided']
LARGE = 3      # paths per case also replayed with inputs beyond float precision
BUDGET = {'quick': 500, 'thorough': 1200}


def make(S, kind):
    """-> (argument of roller, the distribution it denotes)"""
    L = S.lib
    if kind.startswith('die'):
        return die(S, 'a', int(kind[3:]), lo=0)
    if kind[0] == 'w':
        n = int(kind[1:])
        return wide(S, 'a', n, start=1 if n % 2 else -n // 2)
    if kind == 'fixed':
        return die(S, 'a', faces=[1, 2, 3], lo=0)
    if kind == 'number':
        x = S.int('x')
        return x, [(x, 1)]
    if kind == 'float':
        return 2.5, [(2.5, 1)]
    if kind.startswith('seq'):
        xs = S.ints('x', int(kind[3:]))
        return L.get_seq(list(xs)), [(x, 1) for x in xs]
    if kind == 'list':
        xs = S.ints('x', 2)
        return list(xs), [(x, 1) for x in xs]
    if kind == 'text':
        w = S.weights('w', 2, 1, 50)
        r = L.RV([S.lib.get_seq(['a'])._seq[0], 3], w)
        return r, list(zip([S.lib.get_seq(['a'])._seq[0], 3], w))
    if kind == 'pool2':
        a, pa = die(S, 'a', faces=[1, 2])
        return L.roll(2, a), roll_dist(pa, 2)
    if kind == 'pool3':
        a, pa = die(S, 'a', faces=[0, 1])
        return L.roll(3, a), roll_dist(pa, 3)
    if kind == 'sum':
        a, pa = die(S, 'a', faces=[0, 2])
        b, pb = die(S, 'b', faces=[0, 5])
        return a + b, S.conv(pa, pb)
    if kind == 'mix':
        x, y = S.int('x', 1, 9), S.int('y', 1, 9)
        return L.RV.from_rvs([L.RV([1, 2], [1, 3]), 7], [x, y]), [(1, x), (2, 3 * x), (7, 4 * y)]
    if kind == 'dupl':
        w = S.weights('w', 3, 0, 50)
        S.assume(sum(w) > 0)
        return L.RV([2, 1, 2], w), [(1, w[1]), (2, w[0] + w[2])]
    raise AssertionError(kind)


def sample(S, kind, count, free=None):
    L = S.lib
    x, pairs = make(S, kind)
    f = S.mod('roller').roller
    call = (lambda: f(x)) if count is None else (lambda: f(x, count))
    r, log = S.with_random(call, free)
    n = 1 if count is None else count
    if any(e[0] != 'choices' for e in log):
        S.unsupported('random source used directly')
    if count is None:
        S.check(isinstance(r, (int, float)) or type(r).__name__ == 'StringVal', 'one value without a count')
        r = (r,)
    S.check(isinstance(r, (tuple, list)) and len(r) == n, 'as many values as asked for')
    if len(log) != n or not all(S.val_eq(v, e[1][e[3]]) for v, e in zip(r, log)):
        other(S, r, log, pairs)
        return
    for j, (v, (_, pop, cum, i)) in enumerate(zip(r, log)):
        if free and j not in free and j % 7:
            continue
        drawn = [(p, c - (cum[j - 1] if j else 0)) for j, (p, c) in enumerate(zip(pop, cum))]
        S.same_dist(L.RV([p for p, _ in drawn], [w for _, w in drawn]), pairs, 'drawn with its probability')
        w = 0
        for p, q in pairs:
            if S.val_eq(p, v):
                w = w + q
        S.check(S.lt(0, w), 'a face of positive probability')


def other(S, r, log, pairs):
    """values and draws do not correspond in order: a certain face needs no draw; otherwise each value needs a draw of its own (the joint distribution is decided by the cases named joint)"""
    possible = []
    for p, w in pairs:
        if S.val_eq(w, 0):
            continue
        if not any(S.val_eq(p, x) for x in possible):
            possible.append(p)
    if len(possible) == 1:
        S.check(all(S.val_eq(v, possible[0]) for v in r), 'the only possible face')
        return
    left = [e[1][e[3]] for e in log]
    for v in r:
        for j, d in enumerate(left):
            if S.val_eq(v, d):
                del left[j]
                break
        else:
            S.check(False, 'one independent draw per value')
    S.unsupported('values and draws do not correspond in order')


def add(x, y):
    (a, b), (c, d) = x, y
    return (a + c, b) if b is d or same(b, d) else (a * d + c * b, b * d)


def same(b, d):
    return type(b) is type(d) and str(b) == str(d)


def joint(S, kind, count):
    """all outcomes of the random source together: the results have the product distribution"""
    x, pairs = make(S, kind)
    f = S.mod('roller').roller
    call = (lambda: f(x)) if count is None else (lambda: f(x, count))
    n = 1 if count is None else count
    runs, todo = [], [()]
    while todo:
        pre = todo.pop()
        if len(runs) > 300:
            S.unsupported('too many draws')
        r, log = S.with_random(call, forced=pre)
        if any(e[0] != 'choices' for e in log):
            S.unsupported('random source used directly')
        if count is None:
            r = (r,)
        S.check(isinstance(r, (tuple, list)) and len(r) == n, 'as many values as asked for')
        num = den = 1
        for _, pop, cum, i in log:
            num, den = num * (cum[i] - (cum[i - 1] if i else 0)), den * cum[-1]
        runs.append((tuple(r), num, den))
        for k in range(len(pre), len(log)):
            for i in range(1, len(log[k][1])):
                todo.append(pre + (0,) * (k - len(pre)) + (i,))
    exp = [((), 1)]
    for _ in range(n):
        exp = [(t + (v,), w * p) for t, w in exp for v, p in pairs]
    table = []      # distinct tuples: [tuple, (num, den) observed, expected weight]

    def row(t):
        for e in table:
            if all(S.val_eq(a, b) for a, b in zip(e[0], t)):
                return e
        table.append([t, (0, 1), 0])
        return table[-1]
    for t, w in exp:
        e = row(t)
        e[2] = e[2] + w
    for t, num, den in runs:
        e = row(t)
        e[1] = (num, den) if type(e[1][0]) is int and e[1][0] == 0 else add(e[1], (num, den))
    T = total(exp)
    for t, (num, den), w in table:
        S.check(S.eq(num * T, w * den), 'joint probability of the drawn values')


def cases(tier):
    big = tier == 'thorough'
    c = []
    for kind in ['die1', 'die2', 'die3', 'die4', 'fixed', 'number', 'float', 'seq1', 'seq2', 'seq3', 'list', 'text', 'pool2', 'pool3', 'sum', 'mix', 'dupl'] + (['die5', 'seq4'] if big else []):
        for count in (None, 0, 1, 2, 3) + ((4,) if big else ()):
            if kind in ('die4', 'seq3', 'die5', 'pool3', 'seq4') and (count or 0) > 2 and not big:
                continue
            c.append(Case(sample, kind=kind, count=count, nl=True, gcd='one', max_time=300 if big else 40, max_paths=20000, witness=4))
    for kind in ['die1', 'die2', 'die3', 'fixed', 'number', 'seq1', 'seq2', 'list', 'text', 'pool2', 'sum', 'mix', 'dupl'] + (['die4', 'seq3', 'pool3'] if big else []):
        for count in (None, 0, 1, 2, 3):
            if kind in ('die3', 'seq3', 'pool2', 'pool3', 'sum', 'mix', 'die4', 'fixed') and (count or 0) > 2 and not big:
                continue
            c.append(Case(joint, kind=kind, count=count, nl=True, gcd='one', max_time=300 if big else 40, max_paths=20000, witness=4))
    for kind in ('w7', 'w10', 'w20', 'w60'):
        for count in (None, 1, 2) if kind < 'w2' or big else (None, 1):
            c.append(Case(sample, kind=kind, count=count, nl=True, gcd='one', wtie=True, max_time=300 if big else 40, max_paths=20000, witness=4))
    for kind in ('die1', 'die2', 'die3', 'seq2', 'pool2', 'number', 'w7'):
        for count in (5, 8, 11, 17, 33, 100):
            c.append(Case(sample, kind=kind, count=count, free=(0, count - 1) if kind != 'die2' else (0, 1, count - 1), nl=True, gcd='one', wtie=True, max_time=300 if big else 40, max_paths=20000, witness=4))
    return c
