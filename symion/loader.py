"""Loads transformed copies of the package under test (from its current source) and of the
pure-Python standard modules it leans on."""
import builtins
import collections
import collections.abc
import importlib.abc
import importlib.util
import os
import sys
import types

from . import rewrite, rt, shims

REPO = os.environ.get('SYMION_REPO', '/repo')
PYPY_LIB = '/usr/lib/pypy3.9'
ENCODED = {}            # module -> list of function names transformed

_loaded_shims = {}


def _real_import(name, g=None, l=None, fromlist=(), level=0):
    return builtins.__import__(name, g, l, fromlist, level)


def _sym_import(name, g=None, l=None, fromlist=(), level=0):
    if level == 0:
        top = name.split('.')[0]
        if top in ('_datetime', '_decimal', '__pypy__'):
            raise ImportError(name)
        if name in SHIM_FACTORIES:
            m = get_shim(name)
            if fromlist or '.' not in name:
                return m
            return get_shim(top)
    return builtins.__import__(name, g, l, fromlist, level)


def make_builtins():
    d = dict(vars(builtins))
    d['__import__'] = _sym_import
    d.update(rt.NAMES)
    return d


SYM_BUILTINS = None


def get_builtins():
    global SYM_BUILTINS
    if SYM_BUILTINS is None:
        SYM_BUILTINS = make_builtins()
    return SYM_BUILTINS


def exec_transformed(module, path):
    with open(path, encoding='utf-8') as f:
        source = f.read()
    if module.__name__ == 'datetime':
        source = source.replace("'_microseconds', '_hashcode'", "'_microseconds', '_hashcode', '_secs'")
    code = rewrite.transform(source, path)
    module.__dict__['__builtins__'] = get_builtins()
    exec(code, module.__dict__)
    names = []

    def walk(c, pre):
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                if not k.co_name.startswith('<'):
                    names.append((pre + k.co_name, k.co_firstlineno))
                walk(k, pre + k.co_name + '.')
    walk(code, '')
    ENCODED[module.__name__] = names
    return module


class _Loader(importlib.abc.Loader):
    def __init__(self, path, pkg):
        self.path, self.pkg = path, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if self.path is None:
            return
        exec_transformed(module, self.path)


class _Finder(importlib.abc.MetaPathFinder):
    roots = {'amazon': None, 'harness': None}

    def find_spec(self, name, path, target=None):
        parts = name.split('.')
        if parts[0] == 'amazon':
            base = os.path.join(REPO, *parts)
        elif parts[0] == 'harness':
            base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), *parts)
        else:
            return None
        if os.path.isdir(base):
            init = os.path.join(base, '__init__.py')
            if name in ('amazon', 'harness') or not os.path.exists(init):
                init = None
            spec = importlib.util.spec_from_loader(name, _Loader(init, True), is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_loader(name, _Loader(base + '.py', False), origin=base + '.py')
        return None


def _copy_module(name):
    real = __import__(name)
    m = types.ModuleType(name)
    for k, v in vars(real).items():
        if k not in ('__builtins__', '__spec__', '__loader__'):
            m.__dict__[k] = v
    return m


def _mk_collections():
    m = _copy_module('collections')
    for k in collections.abc.__all__:
        setattr(m, k, getattr(collections.abc, k))
    return m


def _mk_six():
    m = _copy_module('six')
    m.BytesIO = shims.SBytesIO
    m.StringIO = shims.SStringIO
    return m


def _mk_io():
    m = _copy_module('io')
    m.BytesIO = shims.SBytesIO
    m.StringIO = shims.SStringIO
    m.TextIOBase = shims.STextIOBase
    return m


def _mk_transformed(name, fn):
    def make():
        m = types.ModuleType(name)
        m.__dict__['__name__'] = name
        _loaded_shims[name] = m
        path = os.path.join(PYPY_LIB, fn)
        if not os.path.exists(path):
            path = os.path.join(os.path.dirname(os.__file__), fn if fn != 'datetime.py' else '_pydatetime.py')
        exec_transformed(m, path)
        shims.patch(name, m)
        return m
    return make


SHIM_FACTORIES = {
    'collections': _mk_collections,
    'six': _mk_six,
    'io': _mk_io,
    're': lambda: shims.make_re(_copy_module('re')),
    'codecs': lambda: shims.make_codecs(_copy_module('codecs')),
    'decimal': _mk_transformed('decimal', '_pydecimal.py'),
    'datetime': _mk_transformed('datetime', 'datetime.py'),
}


def get_shim(name):
    m = _loaded_shims.get(name)
    if m is None:
        m = SHIM_FACTORIES[name]()
        _loaded_shims[name] = m
    return m


_installed = False


def install():
    global _installed
    if not _installed:
        sys.meta_path.insert(0, _Finder())
        sys.dont_write_bytecode = True
        _installed = True
