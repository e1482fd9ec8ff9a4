"""Loads the package under test from its source for symbolic execution.

Every module is parsed from /repo's current source on each run; dict/set displays and a few
built-in conversions are redirected to stand-ins that understand symbolic values, everything
else is executed by CPython as written.  A World is one fresh instance of the package.
"""
import ast
import builtins
import os
import types

from . import shims

PKG = 'dice_calc'
SRC = os.environ.get('VERIF_SRC', '/repo/src')

_METHODS = {'replace', 'translate', 'splitlines'}
_CALLS = {'int', 'str', 'float', 'set', 'dict', 'frozenset', 'type', 'hash', 'repr', 'format', 'ascii', 'bool', 'divmod'}


class Rewrite(ast.NodeTransformer):
    def _n(self, name, node):
        return ast.copy_location(ast.Name('__sx_%s__' % name, ast.Load()), node)

    def _call(self, name, args, node):
        return ast.copy_location(ast.Call(self._n(name, node), args, []), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        parts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                parts.append(ast.Tuple([ast.Constant(True), v, ast.Constant(None)], ast.Load()))
            else:
                parts.append(ast.Tuple([ast.Constant(False), k, v], ast.Load()))
        return self._call('mkdict', [ast.List(parts, ast.Load())], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call('set', [ast.List(node.elts, ast.Load())], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return self._call('dict', [g], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call('set', [ast.GeneratorExp(node.elt, node.generators)], node)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in _METHODS and not node.keywords:
            return self._call('meth', [self.visit(f.value), ast.copy_location(ast.Constant(f.attr), node)] + [self.visit(a) for a in node.args], node)
        inst = isinstance(f, ast.Name) and f.id in ('isinstance', 'issubclass', 'cast', 'TypeVar')
        if isinstance(f, ast.Name) and f.id in self.calls and not (f.id == 'type' and len(node.args) != 1):
            f = self._n(f.id, f)
        else:
            f = self.visit(f)
        args = []
        for a in node.args:
            if not inst and isinstance(a, ast.Name) and a.id in self.calls and isinstance(a.ctx, ast.Load):
                args.append(self._n(a.id, a))
            elif inst:
                args.append(a if a is not node.args[0] else self.visit(a))
            else:
                args.append(self.visit(a))
        kws = []
        for k in node.keywords:
            v = k.value
            if isinstance(v, ast.Name) and v.id in self.calls:
                v = self._n(v.id, v)
            else:
                v = self.visit(v)
            kws.append(ast.copy_location(ast.keyword(k.arg, v), k))
        return ast.copy_location(ast.Call(f, args, kws), node)

    # annotations are left alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node


def _bound(nodes):
    """names bound by these statements"""
    out = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.alias):
            out.add((n.asname or n.name).split('.')[0])
    return out


def rewrite(src, filename):
    tree = ast.parse(src, filename)
    if filename == '<generated>':
        own = _bound(ast.walk(tree))
    else:
        own = _bound(x for st in tree.body for x in ([st] + (list(ast.walk(st)) if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) else [])))
    rw = Rewrite()
    rw.calls = _CALLS - own
    tree = rw.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


_code_cache = {}


def module_code(fullname):
    """code object of a package module, from the current source"""
    if fullname in _code_cache:
        return _code_cache[fullname]
    rel = fullname.split('.')[1:]
    base = os.path.join(SRC, *rel)
    if os.path.isdir(base):
        path, is_pkg = os.path.join(base, '__init__.py'), True
    else:
        path, is_pkg = base + '.py', False
    if not os.path.exists(path):
        _code_cache[fullname] = None
        return None
    with open(path) as f:
        src = f.read()
    r = (rewrite(src, path), path, is_pkg)
    _code_cache[fullname] = r
    return r


class World:
    """one fresh instance of the package, executed with symbolic stand-ins"""

    def __init__(self, eng, random_source=None):
        self.eng = eng
        self.modules = {}
        self.printed = []
        self.shims = shims.make(eng, self)
        self.shims_random_source = random_source
        b = dict(vars(builtins))
        b['__import__'] = self._import
        b['print'] = lambda *a, **k: self.printed.append(' '.join(str(x) for x in a))
        b.update(shims.builtin_overrides(eng, self))
        b['exec'] = self._exec
        self.builtins = b
        self.pkg = self.load(PKG)

    def load(self, fullname):
        m = self.modules.get(fullname)
        if m is not None:
            return m
        c = module_code(fullname)
        if c is None:
            raise ModuleNotFoundError('No module named %r' % fullname, name=fullname)
        if '.' in fullname:
            parent = self.load(fullname.rpartition('.')[0])
        code, path, is_pkg = c
        m = types.ModuleType(fullname)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = fullname if is_pkg else fullname.rpartition('.')[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        self.modules[fullname] = m
        if '.' in fullname:
            setattr(parent, fullname.rpartition('.')[2], m)
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(fullname, None)
            raise
        return m

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = (globals or {}).get('__package__') or PKG
            base = pkg.split('.')
            base = base[:len(base) - (level - 1)]
            full = '.'.join(base + ([name] if name else []))
        else:
            full = name
        if full == PKG or full.startswith(PKG + '.'):
            m = self.load(full)
            for n in fromlist or ():
                if n != '*' and not hasattr(m, n) and hasattr(m, '__path__'):
                    try:
                        setattr(m, n, self.load(full + '.' + n))
                    except ModuleNotFoundError:
                        pass
            if not fromlist and level == 0:
                return self.modules[PKG]
            return m
        if full.split('.')[0] == 'RestrictedPython' and 'RestrictedPython' not in self.shims:
            self.shims['RestrictedPython'] = restricted(self)
        if full in self.shims:
            return self.shims[full]
        top = full.split('.')[0]
        if top in self.shims and not fromlist:
            return self.shims[top]
        return builtins.__import__(full, globals, locals, fromlist, 0)

    def _exec(self, code, glob=None, loc=None):
        """the built-in exec for code of the package: texts are executed with symbolic stand-ins"""
        if isinstance(code, str):
            code = _text_code(code)
        if glob is None or loc is not None:
            from .engine import Unsupported
            raise Unsupported('exec in local variables')
        g = dict(glob.items())
        g.setdefault('__builtins__', self.builtins)
        try:
            exec(code, g)
        finally:
            for k, v in g.items():
                if k not in glob or glob[k] is not v:
                    glob[k] = v

    def run(self, src, glob):
        """execute generated Python text with symbolic stand-ins"""
        code = _text_code(src)
        g = dict(glob)
        g['__builtins__'] = self.builtins
        exec(code, g)
        return g


def restricted(world):
    """RestrictedPython: its own transformation of the program, followed by the rewriting for symbolic values"""
    from .api import find_restricted
    rp = find_restricted()
    import RestrictedPython.Eval
    import RestrictedPython.Guards
    from RestrictedPython.transformer import RestrictingNodeTransformer
    m = types.ModuleType('RestrictedPython')
    m.__dict__.update({k: v for k, v in vars(rp).items() if not k.startswith('__')})
    b = {k: world.builtins.get(k, v) for k, v in rp.safe_builtins.items()}
    b.update({k: v for k, v in world.builtins.items() if k.startswith('__sx_')})
    m.safe_builtins = b
    from .containers import SymDict
    g = types.ModuleType('RestrictedPython.Guards')
    g.__dict__.update({k: v for k, v in vars(rp.Guards).items() if not k.startswith('__')})
    guard = rp.Guards.full_write_guard
    g.full_write_guard = lambda ob: ob if type(ob) is SymDict else guard(ob)      # a dict for the package
    m.Guards = g

    def compile_restricted(source, filename='<unknown>', mode='exec', flags=0, dont_inherit=False, policy=RestrictingNodeTransformer):
        c = _restricted.get((source, mode))
        if c is None:
            tree = ast.parse(source, filename, mode)
            errors = []
            policy(errors, [], {}).visit(tree)
            if errors:
                raise SyntaxError(errors)
            rw = Rewrite()
            rw.calls = _CALLS - _bound(ast.walk(tree))
            tree = rw.visit(tree)
            ast.fix_missing_locations(tree)
            c = compile(tree, filename, mode)
            if len(_restricted) > 2000:
                _restricted.clear()
            _restricted[source, mode] = c
        return c
    m.compile_restricted = compile_restricted
    return m


_restricted = {}
_texts = {}


def _text_code(src):
    c = _texts.get(src)
    if c is None:
        c = rewrite(src, '<generated>')
        if len(_texts) > 5000:
            _texts.clear()
        _texts[src] = c
    return c
