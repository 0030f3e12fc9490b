"""Loading the code under test into simulated processes."""

import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import warnings

import kernel

REPO = kernel.REPO
_code = {}


class _Loader(importlib.abc.InspectLoader):
    def __init__(self, name, path, pkg):
        self.name, self.path, self.pkg = name, path, pkg

    def is_package(self, name):
        return self.pkg

    def get_source(self, name):
        with kernel.R_open(self.path, encoding='utf-8') as fp:
            return fp.read()

    def get_filename(self, name):
        return self.path

    def get_code(self, name):
        c = _code.get(self.path)
        if c is None:
            c = _code[self.path] = compile(self.get_source(name), self.path, 'exec',
                                           dont_inherit=True)
        return c

    def exec_module(self, module):
        exec(self.get_code(self.name), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    """Always load from source: stale byte code is never used."""

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in ('strata', 'droplets'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        ex = os.path.exists
        if ex(os.path.join(base, '__init__.py')):
            f, pkg = os.path.join(base, '__init__.py'), True
        elif ex(base + '.py'):
            f, pkg = base + '.py', False
        else:
            return None
        spec = importlib.util.spec_from_loader(name, _Loader(name, f, pkg),
                                               origin=f, is_package=pkg)
        spec.has_location = True
        if pkg:
            spec.submodule_search_locations = [base]
        return spec


_setup = False


def setup():
    """Install the seams, then import the third party libraries."""
    global _setup
    if _setup:
        return
    _setup = True
    sys.dont_write_bytecode = True
    kernel.install()
    sys.meta_path.insert(0, _Finder())
    warnings.simplefilter('ignore')
    import numpy, pandas, click, progressbar            # noqa
    import scipy.optimize, scipy.stats                   # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt                      # noqa
    import mpl_toolkits.axes_grid1                       # noqa
    import encodings.ascii, encodings.latin_1, encodings.utf_8   # noqa
    import asyncio, shutil, tempfile, glob, pathlib      # noqa
    kernel.dt_mod.datetime = kernel.SimDatetime
    # warm lazily initialised parts of the libraries
    fresh_modules()
    plt.figure()
    plt.plot([0, 1], [0, 1])
    plt.title('x')
    plt.tight_layout()
    import io
    plt.savefig(io.BytesIO())
    plt.close('all')
    kernel.figures()
    warnings.simplefilter('always')
    warnings.showwarning = _showwarning


def _showwarning(message, category, filename, lineno, file=None, line=None):
    if issubclass(category, (DeprecationWarning, PendingDeprecationWarning)):
        return                      # as the interpreter does by default
    a = kernel.current()
    if a is not None and not a.dead:
        a.stderr.write('%s: %s\n' % (category.__name__, message))


def fresh_modules():
    """Import the program as a new process would; return its modules."""
    for n in [n for n in sys.modules if n.split('.')[0] in ('strata', 'droplets')]:
        del sys.modules[n]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        importlib.import_module('strata.strata')
    mods = {n: m for n, m in sys.modules.items()
            if n.split('.')[0] in ('strata', 'droplets')}
    return mods


def cli(argv):
    """The body of a simulated process which runs the command line tool."""
    argv = [str(x) for x in argv]

    def body(actor):
        prog = actor.modules['strata.strata'].strata
        prog.main(args=list(argv), prog_name='strata', standalone_mode=True)
    return body


def call(fn):
    """A simulated process which runs library code; fn(modules) -> result."""
    def body(actor):
        return fn(actor.modules)
    return body
