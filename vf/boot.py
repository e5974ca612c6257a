"""Make the code under test (and Hypothesis) importable in a worker.

* ``zope.index`` is imported from the working tree in REPO (``/repo``).
* The C extension is compiled from REPO's current ``okascore.c`` into a scratch
  directory, and loaded from there: a stale ``.so`` in the tree is never used.
"""
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'zope', 'index') + os.sep
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
OKASCORE = 'zope.index.text.okascore'


class HarnessError(Exception):
    """Something is wrong with the check or its environment (exit 2)."""


def build_extension(outdir, asan=False):
    """Compile okascore.c of the working tree; return the path of the .so."""
    src = os.path.join(SRC, 'text', 'okascore.c')
    out = os.path.join(outdir, 'okascore_asan.so' if asan else 'okascore.so')
    inc = sysconfig.get_paths()['include']
    cmd = ['gcc', '-shared', '-fPIC', '-fwrapv', '-w', '-I' + inc, src,
           '-o', out]
    if asan:
        cmd[1:1] = ['-g', '-O1', '-fsanitize=address,undefined',
                    '-fno-sanitize-recover=undefined',
                    '-fno-omit-frame-pointer']
    else:
        cmd[1:1] = ['-O2']
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if p.returncode:
        raise HarnessError('cannot compile %s:\n%s' % (src, p.stderr))
    return out


def load_extension(path, name=OKASCORE):
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def setup():
    """Prepare the import system of this process."""
    sys.dont_write_bytecode = True
    if VT not in sys.path:
        sys.path.append(VT)
    import zope
    p = os.path.join(REPO, 'src', 'zope')
    rest = [x for x in zope.__path__ if x not in (p, '/repo/src/zope')]
    zope.__path__ = [p] + rest
    ext = os.environ.get('VERIF_EXT')
    if not ext:
        raise HarnessError('VERIF_EXT is not set')
    sys.modules[OKASCORE] = load_extension(ext)
    import zope.index
    if not os.path.abspath(zope.index.__file__).startswith(SRC):
        raise HarnessError('zope.index comes from ' + zope.index.__file__)
    import zope.index.text
    import zope.index.text.okapiindex as okapi
    zope.index.text.okascore = sys.modules[OKASCORE]
    return okapi


_pure = None


def pure_okapi():
    """A second copy of okapiindex, in its pure-Python configuration."""
    global _pure
    if _pure is None:
        path = os.path.join(SRC, 'text', 'okapiindex.py')
        name = 'verif_pure_okapiindex'
        spec = importlib.util.spec_from_file_location(name, path)
        mod = importlib.util.module_from_spec(spec)
        old = os.environ.get('PURE_PYTHON')
        os.environ['PURE_PYTHON'] = '1'
        try:
            sys.modules[name] = mod
            spec.loader.exec_module(mod)
        finally:
            if old is None:
                del os.environ['PURE_PYTHON']
            else:
                os.environ['PURE_PYTHON'] = old
        _pure = mod
    return _pure


def cleanup(path):
    if path and path.startswith('/tmp/verif-'):
        shutil.rmtree(path, ignore_errors=True)
