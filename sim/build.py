"""Builds variants of Euphonic's C extension out of tree from /repo/c (never touches /repo).

plain : as setup.py does, gcc -O2 -fopenmp, real libgomp
sim   : instrumented, linked to the simulated OpenMP runtime / allocator / LAPACK seam (rt/simrt.c)
"""
import hashlib
import os
import pathlib
import shutil
import subprocess
import sysconfig
import tempfile

REPO = pathlib.Path(os.environ.get('EUPHONIC_VERIF_REPO', '/repo'))
VERIF = pathlib.Path(__file__).resolve().parent.parent
BUILD = VERIF/'.build'
RT = VERIF/'sim'/'rt'/'simrt.c'
WRAPS = ['malloc', 'calloc', 'free', 'realloc', 'aligned_alloc', 'posix_memalign',
         'PyMem_RawMalloc', 'PyMem_RawCalloc', 'PyMem_RawRealloc', 'PyMem_RawFree',
         'memset', 'memcpy', 'memmove']
SIM_FLAGS = ['-O1', '-g', '-fPIC', '-fopenmp', '-fsanitize=thread', '-fno-builtin',
             '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-w']
PLAIN_FLAGS = ['-O2', '-g', '-fno-strict-overflow', '-DNDEBUG', '-fPIC', '-fopenmp', '-w']


class BuildError(RuntimeError):
    pass


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(' '.join(map(str, cmd)) + '\n' + r.stdout)


def sources():
    c = REPO/'c'
    return sorted(c.glob('*.c')), sorted(c.glob('*.h'))


def build(variant):
    import numpy
    srcs, hdrs = sources()
    h = hashlib.sha256()
    for f in [*srcs, *hdrs, RT]:
        h.update(f.name.encode() + b'\0' + f.read_bytes() + b'\0')
    h.update(repr((variant, SIM_FLAGS, PLAIN_FLAGS, WRAPS, numpy.__version__,
                   sysconfig.get_config_var('EXT_SUFFIX'))).encode())
    out = BUILD/f'{variant}-{h.hexdigest()[:20]}'
    so = out/'_euphonic.so'
    if so.exists():
        return so
    BUILD.mkdir(exist_ok=True)
    tmp = pathlib.Path(tempfile.mkdtemp(prefix='tmp-', dir=BUILD))
    try:
        inc = ['-I', str(REPO/'c'), '-I', sysconfig.get_paths()['include'], '-I', numpy.get_include()]
        flags = SIM_FLAGS if variant == 'sim' else PLAIN_FLAGS
        objs = []
        procs = []
        for s in srcs:
            o = tmp/(s.stem + '.o')
            procs.append((s, subprocess.Popen(['gcc', *flags, *inc, '-c', str(s), '-o', str(o)],
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            objs.append(o)
        for s, p in procs:
            txt = p.communicate()[0]
            if p.returncode:
                raise BuildError(f'{s}:\n{txt}')
        if variant == 'sim':
            for o in objs:
                cmd = ['objcopy']
                for w in WRAPS:
                    cmd += ['--redefine-sym', f'{w}=__wrap_{w}']
                _run([*cmd, str(o)])
            rt = tmp/'simrt.o'
            _run(['gcc', '-O2', '-g', '-fPIC', '-fvisibility=hidden', '-w', '-c', str(RT), '-o', str(rt)])
            _run(['gcc', '-shared', '-Wl,-Bsymbolic', *map(str, objs), str(rt), '-o', str(tmp/'_euphonic.so'), '-lm', '-lpthread'])
        else:
            _run(['gcc', '-shared', '-fopenmp', *map(str, objs), '-o', str(tmp/'_euphonic.so'), '-lm'])
        try:
            os.replace(tmp, out)
        except OSError:
            if not so.exists():
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return so


if __name__ == '__main__':
    for v in ('plain', 'sim'):
        print(v, build(v))
