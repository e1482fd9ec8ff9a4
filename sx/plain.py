"""Fresh, unmodified instances of the package (concrete replay, and the compiler front end)."""
import builtins
import importlib
import logging
import os
import sys
import types

logging.disable(logging.CRITICAL)
PKG = 'dice_calc'
SRC = os.environ.get('VERIF_SRC', '/repo/src')
_code = {}


def _module_code(fullname):
    if fullname in _code:
        return _code[fullname]
    base = os.path.join(SRC, *fullname.split('.')[1:])
    path, is_pkg = (os.path.join(base, '__init__.py'), True) if os.path.isdir(base) else (base + '.py', False)
    r = None
    if os.path.exists(path):
        with open(path) as f:
            r = compile(f.read(), path, 'exec', dont_inherit=True), path, is_pkg
    _code[fullname] = r
    return r


class _Finder:
    """meta path finder: the package from SRC, compiled once, executed afresh per instance"""

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        c = _module_code(name)
        if c is None:
            return None
        from importlib.machinery import ModuleSpec
        spec = ModuleSpec(name, self, origin=c[1], is_package=c[2])
        spec.has_location = True
        if c[2]:
            spec.submodule_search_locations = [os.path.dirname(c[1])]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(_module_code(module.__name__)[0], module.__dict__)


_finder = None


def install():
    global _finder
    if _finder is None:
        _finder = _Finder()
        sys.meta_path.insert(0, _finder)


class PlainWorld:
    """one fresh import of the real package; sys.modules is swapped in while its code runs"""

    def __init__(self):
        install()
        saved = {k: v for k, v in sys.modules.items() if k == PKG or k.startswith(PKG + '.')}
        for k in saved:
            del sys.modules[k]
        try:
            self.pkg = importlib.import_module(PKG)
            self.mods = {k: v for k, v in sys.modules.items() if k == PKG or k.startswith(PKG + '.')}
        finally:
            for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + '.')]:
                del sys.modules[k]
            sys.modules.update(saved)
        self.printed = []

    def load(self, name):
        with self:
            m = importlib.import_module(name)
        return m

    def __enter__(self):
        self._saved = {k: v for k, v in sys.modules.items() if k == PKG or k.startswith(PKG + '.')}
        for k in self._saved:
            del sys.modules[k]
        sys.modules.update(self.mods)
        return self

    def __exit__(self, *a):
        for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + '.')]:
            self.mods[k] = sys.modules[k]
            del sys.modules[k]
        sys.modules.update(self._saved)


_compiler = None
_compiled = {}
_ply = {}


def _ply_cached(mp):
    """lex() and yacc() build their tables from the grammar once per process; every compilation gets its own lexer"""
    lex, yacc = mp.lex, mp.yacc

    def lex1(*a, **k):
        if 'lex' not in _ply:
            _ply['lex'] = lex(module=mp, debug=False)
        return _ply['lex'].clone()

    def yacc1(*a, **k):
        if 'yacc' not in _ply:
            _ply['yacc'] = yacc(module=mp, debug=False)
        return _ply['yacc']
    mp.lex, mp.yacc = lex1, yacc1


_tables = {}


def keep_tables(w):
    y = w.mods.get(PKG + '.parser.ply.yacc')
    real = getattr(y, 'LRTable', None)
    if real is None:
        return

    def table(grammar, *a, **k):
        key = repr([(str(p), p.prec) for p in grammar.Productions]), repr(sorted(grammar.Precedence.items())), grammar.Start
        if key not in _tables:
            _tables[key] = real(grammar, *a, **k)
        old = _tables[key]
        lr = object.__new__(type(old))
        lr.__dict__.update(old.__dict__)
        lr.grammar, lr.lr_productions = grammar, grammar.Productions
        lr.lr_action, lr.lr_goto = ({s: dict(r) for s, r in t.items()} for t in (old.lr_action, old.lr_goto))
        return lr
    y.LRTable = table


def compile_program(text, flags=None, cached=True):
    """the real compiler on concrete text -> ('ok', python text) or ('err', exception)"""
    global _compiler
    key = (text, tuple(sorted((flags or {}).items())))
    r = _compiled.get(key) if cached else None
    if r is None:
        if _compiler is None:
            w = PlainWorld()
            m = w.load(PKG + '.parser.parse_and_exec')
            try:
                _ply_cached(w.load(PKG + '.parser.myparser'))
            except AttributeError:
                pass        # the front end is organised differently: use it as it is
            _compiler = w, m
        w, m = _compiler
        with w:
            try:
                r = ('ok', m.compile_anydice(text, flags=dict(flags) if flags else None))
            except Exception as e:
                r = ('err', e)
        if len(_compiled) > 20000:
            _compiled.clear()
        if cached:
            _compiled[key] = r
    return r


def compiler_module(name):
    return _compiler[0].mods[name]
