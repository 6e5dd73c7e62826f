"""Shared by C07 and C08: damage a file set, load it through the simulated storage, compare with the undamaged load."""
import errno
import io
import os
import pathlib
import re
import shutil
import warnings
from contextlib import redirect_stdout

import numpy as np

from . import boot, core, files, simfs, world as W

DATA = pathlib.Path(boot.REPO)/'tests_and_analysis'/'test'/'data'
TEXT = ('.phonon', '.phonon_dos', '.yaml', 'FORCE_CONSTANTS', 'BORN')


def is_text(name):
    return name.endswith(TEXT)


def file_set(spec):
    """{name: bytes} for a generated or a repository file set"""
    if 'repo' in spec:
        return {dst: (DATA/src).read_bytes() for dst, src in spec['repo'].items()}
    return files.WRITERS[spec['fmt']](spec)


# -------------------------------------------------------------------- loaders
def loaders(spec, names):
    from euphonic import ForceConstants, QpointFrequencies, QpointPhononModes
    from euphonic.spectra import Spectrum1D, Spectrum1DCollection
    fmt = spec['fmt']
    if fmt == 'phonon':
        n = [x for x in names if x.endswith('.phonon')][0]
        return [lambda d: QpointPhononModes.from_castep(f'{d}/{n}'),
                lambda d: QpointFrequencies.from_castep(f'{d}/{n}'),
                lambda d: QpointPhononModes.from_castep(f'{d}/{n}', prefer_non_loto=True),
                lambda d: QpointFrequencies.from_castep(f'{d}/{n}', average_repeat_points=False)]
    if fmt == 'phonon_dos':
        n = [x for x in names if x.endswith('.phonon_dos')][0]
        from euphonic.readers.castep import read_phonon_dos_data
        return [lambda d: Spectrum1DCollection.from_castep_phonon_dos(f'{d}/{n}'),
                lambda d: Spectrum1D.from_castep_phonon_dos(f'{d}/{n}'),
                lambda d: read_phonon_dos_data(f'{d}/{n}')]
    if fmt == 'castep_bin':
        n = names[0]
        return [lambda d: ForceConstants.from_castep(f'{d}/{n}')]
    if fmt == 'phonopy_fc':
        kw = dict(summary_name='phonopy.yaml')
        if 'BORN' in names:
            kw['born_name'] = 'BORN'
        fc = [x for x in names if x in ('FORCE_CONSTANTS', 'force_constants.hdf5')]
        if fc:
            kw['fc_name'] = fc[0]
        return [lambda d: ForceConstants.from_phonopy(path=d, **kw)]
    n = [x for x in names if x != 'phonopy.yaml'][0]
    out = [lambda d: QpointFrequencies.from_phonopy(path=d, phonon_name=n)]
    if spec.get('evec', True):
        out.append(lambda d: QpointPhononModes.from_phonopy(path=d, phonon_name=n))
    return out


# --------------------------------------------------------------------- faults
def gen_damage(rng, content, spec, n_loaders, kinds):
    """content: {name: bytes}"""
    names = sorted(content)
    name = rng.choice(names)
    data = content[name]
    text = is_text(name)
    kind = rng.choice([k for k in kinds if text or k not in ('zero_block',)
                       and not (k == 'zero_tail' and name.endswith('.hdf5'))])
    d = dict(kind=kind, file=name, loader=rng.randrange(n_loaders))
    size = len(data)

    def pos():
        r = rng.random()
        if r < 0.25:
            return rng.randrange(size)
        if r < 0.40:
            return max(0, size - 1 - int(rng.expovariate(1/120)))
        if r < 0.48:
            return min(size - 1, 512*rng.randrange(1 + size//512))
        if not text and name.endswith('castep_bin'):
            return rng.choice(_records(data))
        marks = [m.start() for m in re.finditer(rb'\n[^\n]*(q-pt=|q-position|symbol:|BEGIN|END|shape|^[a-z_]+:|- # )', data)] if r < 0.75 else []
        if not marks:
            marks = [i for i, c in enumerate(data) if c == 10]
        if not marks:
            return rng.randrange(size)
        return min(size - 1, rng.choice(marks) + rng.choice([0, 1, 1, 1]))
    if kind in ('cut', 'zero_tail', 'torn_between_opens'):
        d['at'] = pos()
    if kind == 'torn_between_opens':
        d['nth'] = rng.choice([1, 2, 2, 3])
    if kind == 'zero_block':
        n = rng.choice([512, 512, 4096])
        d['at'] = n*rng.randrange(max(1, -(-size//n)))
        d['size'] = n
    if kind == 'eio_at':
        d['at'] = rng.randrange(size)
    if kind == 'eio_read':
        d['nth'] = rng.choice([1, 1, 2, 3, rng.randrange(1, 60)])
        d['bufsize'] = rng.choice([64, 512, 8192])
    if kind == 'open_error':
        d['nth'] = rng.choice([1, 1, 2, 3])
        d['errno'] = rng.choice([errno.EIO, errno.EACCES, errno.EMFILE, errno.ESTALE, errno.ENOENT])
    if kind in ('short', 'eio_at'):
        d['short'] = rng.randrange(1 << 30)
        d['bufsize'] = rng.choice([16, 64, 500, 8192])
    return d


def _records(data):
    import struct
    out, p = [], 0
    while p + 8 <= len(data):
        n = struct.unpack('>i', data[p:p + 4])[0]
        if n < 0 or p + 8 + n > len(data):
            break
        out += [p, p + 4, p + 4 + n, p + 8 + n]
        p += 8 + n
    return [x for x in out if x < len(data)] or [0]


def apply(dirname, content, d):
    """writes the damaged set; returns the fault plan for the simulated storage"""
    plan = {'*bufsize': d.get('bufsize', io.DEFAULT_BUFFER_SIZE)}
    for n, data in content.items():
        if n == d.get('file'):
            if d['kind'] == 'missing':
                continue
            if d['kind'] == 'cut':
                data = data[:d['at']]
            elif d['kind'] == 'zero_tail':
                data = data[:d['at']] + bytes(len(data) - d['at'])
            elif d['kind'] == 'zero_block':
                e = min(len(data), d['at'] + d['size'])
                data = data[:d['at']] + bytes(e - d['at']) + data[e:]
        with simfs._real['io_open'](os.path.join(dirname, n), 'wb') as f:
            f.write(data)
    if d['kind'] in ('eio_at', 'eio_read', 'open_error'):
        plan[d['file']] = [dict(d)]
    if d['kind'] == 'torn_between_opens':
        plan[d['file']] = [dict(kind=d['kind'], nth=d['nth'], size=d['at'])]
    if 'short' in d:
        plan['*short'] = d['short']
    return plan


def mid_number(data, at):
    num = b'0123456789.eE+-'
    return 0 < at < len(data) and data[at - 1] in num and (data[at] in num)


def count_diff(a, b):
    """number of differing numbers, or None when the structure differs"""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return None
        if a.dtype.kind in 'USO' or b.dtype.kind in 'USO':
            return int(np.sum(a != b))
        with np.errstate(all='ignore'):
            return int(np.sum(~((a == b) | ((a != a) & (b != b)))))
    if type(a) is not type(b):
        return None
    if isinstance(a, dict):
        if set(a) != set(b):
            return None
        parts = [count_diff(a[k], b[k]) for k in a]
    elif isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return None
        parts = [count_diff(x, y) for x, y in zip(a, b)]
    else:
        return 0 if a == b or (a != a and b != b) else 1 if isinstance(a, (int, float)) else None
    return None if any(p is None for p in parts) else sum(parts)


class DamageCheck(core.Check):
    technique = ('deterministic simulation of storage: the readers run on damaged, vanishing, failing and slow simulated files and every load '
                 'is compared with the undamaged load')
    rule = ('one evaluation = one load of a damaged file set; a state is a distinct (format, file, fault kind, outcome class, position bucket); '
            'non-trivial = at least one fault took effect')
    run_timeout = 100
    kinds = ['cut']*6 + ['zero_tail', 'zero_tail', 'zero_block', 'zero_block', 'eio_at', 'eio_read', 'short', 'open_error', 'missing',
                         'torn_between_opens']
    n_damage = 24
    real = ['euphonic readers and object constructors', 'PyYAML, h5py, numpy text parsing', 'Python buffered and text I/O layers']
    stub = ['the raw file below them (read results, errors, truncation between opens)']
    formats = []
    repo_sets = []

    def prepare(self, tier):
        simfs.install()
        boot.import_euphonic(None)
        import yaml, h5py    # noqa: F401,E401
        import random
        import tempfile
        for fmt in self.formats:
            for i in range(3):
                s = files.gen_spec(random.Random(i), fmt)
                content = file_set(s)
                with tempfile.TemporaryDirectory(dir=boot.scratch()) as d, redirect_stdout(io.StringIO()):
                    apply(d, content, dict(kind='none'))
                    for ld in loaders(s, sorted(content)):
                        ld(d)

    def generate(self, rng, idx, tier):
        if self.repo_sets and rng.random() < (0.06 if tier == 'quick' else 0.15):
            spec = dict(rng.choice(self.repo_sets))
            n = max(4, self.n_damage//4)
        else:
            spec = files.gen_spec(rng, rng.choice(self.formats))
            n = self.n_damage
        content = file_set(spec)
        nl = len(loaders(spec, sorted(content)))
        return dict(spec=spec, damage=[gen_damage(rng, content, spec, nl, self.kinds) for _ in range(n)])

    def excused(self, spec, content, d, got, want, load_alt):
        """differences the property leaves open; None or a reason"""
        data = content[d['file']]
        if d['kind'] in ('cut', 'torn_between_opens') and is_text(d['file']) and mid_number(data, d['at']):
            n = count_diff(got, want)
            if n is not None and n <= 1:
                return 'last number shortened'
        return None

    def execute(self, case, out):
        warnings.simplefilter('ignore')
        spec = case['spec']
        content = file_set(spec)
        names = sorted(content)
        lds = loaders(spec, names)
        top = os.path.join(boot.scratch(), f'run-{os.getpid()}')
        os.makedirs(top)
        try:
            d0 = os.path.join(top, 'd')
            os.makedirs(d0)

            def load(ld, plan=None):
                fs = simfs.SimFS(top, plan, out)
                with fs, redirect_stdout(io.StringIO()):
                    return W.snap(lds[ld](d0)), fs
            apply(d0, content, dict(kind='none'))
            want, reads = {}, {}
            for i in range(len(lds)):
                want[i], fs = load(i)
                reads[i] = fs.n_reads
            out.evals = 0
            for d in case['damage']:
                shutil.rmtree(d0)
                os.makedirs(d0)
                i = d['loader'] % len(lds)
                plan = apply(d0, content, d)
                plan['*budget'] = 20*reads[i] + sum(map(len, content.values())) + 2000
                out.evals += 1
                where = f'{spec.get("fmt")} {d["file"]} ({len(content[d["file"]])} bytes) {d}'
                if d['kind'] in ('cut', 'zero_tail', 'zero_block', 'missing'):
                    out.fault(d['kind'])
                fs = None
                try:
                    got, fs = load(i, plan)
                    res = 'loaded'
                except simfs.SimHang as e:
                    out.fail('hang', f'reading never ends: {where}: {e}', f'hang-{spec["fmt"]}')
                    return
                except Exception as e:
                    res = type(e).__name__
                bucket = d.get('at', 0)*8//max(1, len(content[d['file']]))
                out.sigs.add(f'{spec["fmt"]}:{d["file"]}:{d["kind"]}:{res}:{bucket}:{d["loader"]}:{d.get("nth", 0)}')
                out.log(d['kind'], d['file'], d.get('at'), res)
                if res == 'loaded':
                    m = W.diff(got, want[i])
                    if m is None:
                        out.probe('identical')
                    else:
                        def load_alt(alt, i=i):
                            shutil.rmtree(d0)
                            os.makedirs(d0)
                            apply(d0, alt, dict(kind='none'))
                            return load(i)[0]
                        why = self.excused(spec, content, d, got, want[i], load_alt)
                        if why:
                            out.probe(why)
                        else:
                            kind = 'short-read' if d['kind'] == 'short' else 'silent-damage'
                            out.fail(kind, f'{where} loaded as if intact, but {m}', f'{kind}-{spec["fmt"]}')
                            return
                else:
                    out.probe('raised')
                    if d['kind'] == 'short':
                        out.fail('short-read', f'{where}: slow storage made the load fail: {res}', f'short-{spec["fmt"]}')
                        return
            shutil.rmtree(d0)
            os.makedirs(d0)
            apply(d0, content, dict(kind='none'))
            for i in range(len(lds)):
                got, _ = load(i)
                m = W.diff(got, want[i])
                if m:
                    out.fail('later-load', f'{spec["fmt"]}: the intact files load differently after the faults: {m}')
                    return
            out.sample = dict(spec=spec, damage=case['damage'][:3])
        finally:
            shutil.rmtree(top, ignore_errors=True)

    def shrink(self, case, res):
        dm = case['damage']
        if len(dm) > 1:
            h = len(dm)//2
            yield dict(case, damage=dm[:h])
            yield dict(case, damage=dm[h:])
            for i in range(len(dm)):
                yield dict(case, damage=dm[:i] + dm[i + 1:])
