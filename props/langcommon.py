"""Running compiled programs against the reference interpreter."""
from . import reflang
from .common import die


def same_value(S, got, exp, label='value'):
    """the same observable value"""
    if S.is_blank(got) or S.is_blank(exp):
        S.check(S.is_blank(got) and S.is_blank(exp), label + ': blank')
        S.check(got._special_null == exp._special_null, label + ': kind of blank')
        return
    if S.is_die(exp) or S.is_die(got):
        S.check(S.is_die(got) and S.is_die(exp), label + ': both dice')
        S.check(len(got) == len(exp), label + ': pool size')
        S.check(S.text_eq(str(got), str(exp)), label + ': name of the die')
        S.same_dist(got, list(zip(exp.vals, exp.probs)), label)
        return
    if isinstance(exp, (int, float)) or isinstance(got, (int, float)):
        S.check(isinstance(got, (int, float)) and isinstance(exp, (int, float)), label + ': both numbers')
        S.check(S.eq(got, exp), label)
        return
    if isinstance(exp, str) or isinstance(got, str):
        S.check(isinstance(got, str) and isinstance(exp, str) and S.text_eq(got, exp), label + ': text')
        return
    if hasattr(exp, '__iter__') and hasattr(got, '__iter__'):
        S.check(S.vec_eq(list(got), list(exp)), label + ': sequence')
        return
    S.check(type(got) is type(exp) and bool(got == exp), label + ': value')


def outcome(f):
    try:
        return f(), None
    except RecursionError:
        raise
    except Exception as e:
        return None, e


def compare(S, text, variables=None, flags=None, label='', inputs=None, error=None):
    """compiled program and reference: same outputs in the same order, or both fail.
    inputs: makes a list; the program's [maximum of k] is replaced by a function returning element k
    error: the program must fail (True) or must not (False)"""
    flags = flags or {}
    ast, p = reflang.parse(text)
    py = S.compile(text, flags)
    v = variables or (lambda: {})
    # the two runs get their own operands, in the same instance of the package
    a, b = v(), v()
    if inputs:
        ia, ib = inputs(), inputs()
        a = dict(a, maximum_of_X=lambda k, *args, **kw: ia[k])
        extra = {'maximum_of_X': lambda k: ib[k]}
    else:
        extra = None
    got, e1 = outcome(lambda: S.run(py, a))
    if S.lib.settings_set is not None:
        S.lib.settings_reset()
    ref = reflang.Interp(S, b, flags.get('COMPILER_FLAG_NON_LOCAL_SCOPE', False), flags.get('COMPILER_FLAG_OPERATOR_ON_INT', False), extra)
    exp, e2 = outcome(lambda: ref.run(ast))
    S.check((e1 is None) == (e2 is None), label + ('error: %s' % (e1 or e2)))
    if error is not None:
        S.check((e1 is not None) == error, label + ('error expected' if error else 'no error expected: %s' % e1))
    if e2 is not None:
        return None
    S.check(len(got) == len(exp), label + 'number of outputs')
    for (args, kw), (val, name) in zip(got, exp):
        S.check(len(args) == 1 and set(kw) <= {'named'}, label + 'output call')
        same_value(S, args[0], val, label + 'output')
        if name is None:
            S.check(kw.get('named') is None, label + 'no name')
        else:
            S.check(S.text_eq(kw.get('named'), name), label + 'name')
    return exp
