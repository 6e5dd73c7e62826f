"""Process set-up shared by all checks: environment before numpy, euphonic from /repo, extension variants."""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get('EUPHONIC_VERIF_REPO', '/repo')
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='euphonic-verif-')
        pid = os.getpid()

        def clean(path=_scratch):
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def environ():
    sys.dont_write_bytecode = True
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[k] = '1'
    os.environ['MPLBACKEND'] = 'agg'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch(), 'mpl')
    os.environ.pop('EUPHONIC_NUM_THREADS', None)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def import_euphonic(variant='plain'):
    """imports euphonic from /repo with the freshly built extension variant (None: leave absent)"""
    environ()
    warnings.simplefilter('ignore')
    from . import build
    so = build.build(variant) if variant else None
    import euphonic
    assert os.path.realpath(euphonic.__file__).startswith(os.path.realpath(REPO) + os.sep), euphonic.__file__
    if so:
        load_ext(so)
    return euphonic


def load_ext(so):
    import importlib.machinery
    import importlib.util
    import euphonic
    name = 'euphonic._euphonic'
    loader = importlib.machinery.ExtensionFileLoader(name, str(so))
    spec = importlib.util.spec_from_file_location(name, str(so), loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    sys.modules[name] = mod
    euphonic._euphonic = mod
    return mod
