"""Standard library around marsh's config files: paths, file system, omegaconf containers.

* The string functions of `os.path` are run from their own (rewritten) source.
* File system calls go to the virtual file system of the harness while one is active.
* `OmegaConf.create`/`to_container` on elements holding symbolic values is a plain copy of the
  element; strings that could hold an interpolation are outside of the model.
"""
import builtins
import difflib
import genericpath
import io
import os
import posixpath
import types

from . import engine as E
from . import hooks as H
from . import instrument

DIFFLIB = None      # difflib run from its own (rewritten) source, see base.EXACT_DIFFLIB
VFS = None          # active virtual file system: an object with the methods named below

CALLS = {           # method: real function
    'listdir': os.listdir, 'getcwd': os.getcwd, 'chdir': os.chdir, 'mkdir': os.mkdir,
    'scandir': os.scandir, 'remove': os.remove, 'rmdir': os.rmdir, 'open': builtins.open,
    'makedirs': os.makedirs, 'isfile': os.path.isfile, 'isdir': os.path.isdir,
    'exists': os.path.exists, 'lexists': os.path.lexists,
}


def _vfs(name, real):
    def call(*a, **k):
        if VFS is None:
            return real(*[H.realize(x) for x in a], **k)
        return getattr(VFS, name)(*a, **k)
    return call


def _load(mod, name, extra):
    with open(mod.__file__ if os.path.isfile(mod.__file__ or '') else
              os.path.join(os.path.dirname(io.__file__), mod.__name__ + '.py')) as f:
        code = instrument.rewrite(f.read(), mod.__name__ + '.py', name)
    m = types.ModuleType(name)
    m.__dict__.update(extra)
    exec(code, m.__dict__)
    return m


class Container:
    """An omegaconf container around symbolic values."""

    def __init__(self, value):
        self.value = value


def _plain(x):
    if isinstance(x, dict):
        return dict([(k, _plain(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if H.is_str(x) and H.contains('${', x):
        raise E.PathEnd('unsupported', 'interpolation of a symbolic string')
    return x


def _create(real):
    def create(obj=None, *a, **k):
        if H.deep_has_sym(obj) and isinstance(obj, (dict, list, tuple)):
            return Container(_plain(obj))
        return real(obj, *a, **k)
    return create


def _to_container(real):
    def to_container(cfg, *a, **k):
        if type(cfg) is Container:
            return _plain(cfg.value)
        return real(cfg, *a, **k)
    return to_container


def install():
    global DIFFLIB
    DIFFLIB = _load(difflib, 'symx_difflib', {})
    generic = _load(genericpath, 'symx_genericpath', {})
    # the module imports genericpath by name: give it the rewritten one
    posix = _load(posixpath, 'symx_posixpath', {})
    posix.genericpath = generic
    for name in ('join', 'split', 'splitext', 'basename', 'dirname', 'isabs',
                 'splitdrive'):
        H.PYFUNCS[getattr(posixpath, name)] = getattr(posix, name)
    fspath = os.fspath
    H.TABLE[fspath] = lambda p: p if H.is_sym(p) else fspath(p)
    for name, real in CALLS.items():
        model = _vfs(name, real)
        if isinstance(real, types.FunctionType):
            H.PYFUNCS[real] = model
        else:
            H.TABLE[real] = model
            H._ALWAYS.add(real)
    try:
        import omegaconf
    except ImportError:
        return
    for name, model in (('create', _create), ('to_container', _to_container)):
        real = getattr(omegaconf.OmegaConf, name)
        H.PYFUNCS[real] = model(real)
