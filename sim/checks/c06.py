"""C06: simulated process environments - extension present/absent/broken, threads, array layouts, optional packages."""
import contextlib
import copy
import importlib
import io
import os
import sys
import warnings

import numpy as np

from .. import boot, core, fixtures as F, world as W

EXT = 'euphonic._euphonic'
LAYOUTS = ['C', 'C', 'F', 'strided', 'reversed', 'bigendian', 'readonly', 'shared', 'offset', 'int64', 'int32', 'int8', 'float32']
PACKAGES = ['matplotlib', 'yaml', 'h5py', 'brille']
WORDS = {'matplotlib': ['matplotlib', 'brille'], 'yaml': ['yaml', 'phonopy_reader', 'phonopy-reader'], 'h5py': ['h5py', 'phonopy_reader', 'phonopy-reader'],
         'brille': ['brille']}


class Ext:
    """decides, import by import, whether the extension can be imported"""

    def __init__(self, mod):
        self.mod, self.script, self.n = mod, ['present'], 0

    def set(self, script):
        import euphonic
        self.script, self.n = script, 0
        sys.modules.pop(EXT, None)
        if hasattr(euphonic, '_euphonic'):
            del euphonic._euphonic

    def find_spec(self, name, path=None, target=None):
        if name != EXT:
            return None
        st = self.script[min(self.n, len(self.script) - 1)]
        self.n += 1
        if st == 'absent':
            raise ModuleNotFoundError(f"No module named '{EXT}'", name=EXT)
        if st == 'broken':
            raise ImportError('_euphonic.so: undefined symbol: zheevd_', name=EXT)
        if st == 'nolib':
            raise ImportError('libgomp.so.1: cannot open shared object file: No such file or directory', name=EXT)
        from importlib.machinery import ModuleSpec
        return ModuleSpec(EXT, self)

    def create_module(self, spec):
        return self.mod

    def exec_module(self, mod):
        pass


class Block:
    """makes packages unimportable; `mode`: missing, or raising on a submodule for the first n attempts"""

    def __init__(self, names):
        self.names = set(names)
        self.hits = 0

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in self.names or (name in ('tqdm', 'tqdm.auto') and 'tqdm' in self.names):
            self.hits += 1
            raise ModuleNotFoundError(f'No module named {name.split(".")[0]!r}', name=name.split('.')[0])
        return None


def layout(a, how, g):
    """an array equal to `a` with another memory layout (or an exactly converting type)"""
    a = np.asarray(a)
    if how in ('int64', 'int32', 'int8'):
        return np.rint(a).astype(how)
    if how == 'float32':
        return a.astype(np.float32) if a.dtype.kind == 'f' else a.astype(np.float64)
    if how == 'C':
        return np.ascontiguousarray(a)
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'bigendian':
        return a.astype(a.dtype.newbyteorder('>')) if a.dtype.kind in 'fi' else a
    if how == 'readonly':
        b = a.copy()
        b.flags.writeable = False
        return b
    if how == 'reversed':
        return a[::-1].copy()[::-1]
    if how == 'strided':
        big = np.full(a.shape[:-1] + (2*a.shape[-1],), 77, dtype=a.dtype)
        big[..., ::2] = a
        return big[..., ::2]
    if how == 'offset':
        big = np.full((a.shape[0] + 2,) + a.shape[1:], 55, dtype=a.dtype)
        big[1:-1] = a
        return big[1:-1]
    if how == 'shared':
        buf = bytearray(a.nbytes + 1)
        b = np.frombuffer(buf, dtype=a.dtype, count=a.size, offset=1).reshape(a.shape)     # unaligned
        b[...] = a
        return b
    raise ValueError(how)


def rounded(a, how):
    """the value the converted array stands for, as float64"""
    if how.startswith('int'):
        return np.rint(a).astype(np.float64)
    if how == 'float32':
        return a.astype(np.float32).astype(np.float64)
    return a


class C06(core.Check):
    id = 'C06'
    technique = ('deterministic simulation of process environments: import faults for the extension and optional packages, environment '
                 'variables, thread counts and array layouts, against the pure-Python result on plain arrays')
    rule = ('one evaluation = one calculation or feature use in one simulated environment; a state is a distinct (extension state, use_c, '
            'threads, layouts) or (package, state, feature) combination; non-trivial = something was missing, broken or unusually laid out')
    n_runs = {'quick': 1000, 'thorough': 10000}
    wall = {'quick': 80, 'thorough': 1500}
    real = ['euphonic, C extension (plain build, libgomp threads)', 'numpy, pint, matplotlib, PyYAML, h5py, brille when present']
    stub = ['import system (one meta-path finder)', 'environment variables', 'heap contents (M_PERTURB)']
    assumptions = ['packages are missing as a whole', 'arrays convert exactly to int32 / float64 (float32 compared with a wider tolerance)']

    def prepare(self, tier):
        import random
        boot.import_euphonic('plain')
        import euphonic.powder, euphonic.sampling    # noqa: F401,E401
        for m in ('matplotlib', 'yaml', 'h5py', 'brille'):
            assert m not in sys.modules, m
        rng = random.Random(5)
        try:                            # only to have things imported and cached
            spec = W.gen_spec(rng)
            o = W.build(spec)
            for k in W.OPS:
                if W.OPS[k]['group'] in ('calc',):
                    p = W.gen_op(rng, spec, names=[k])
                    if p.get('use_c'):
                        p['use_c'] = False
                    W.run_op(o, p)
        except Exception:
            pass
        self.ext = Ext(sys.modules[EXT])
        sys.meta_path.insert(0, self.ext)
        self.data = os.path.join(boot.REPO, 'tests_and_analysis', 'test', 'data')
        # reference values of the optional features, from a process where everything is present
        import pickle
        path = os.path.join(boot.scratch(), 'c06.pickle')
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                vals = {f: self.feature(f) for f in FEATURES}
                with open(path, 'wb') as fd:
                    pickle.dump(vals, fd)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        if os.waitpid(pid, 0)[1] != 0:
            raise SystemExit('the optional features do not work even with every package present')
        with open(path, 'rb') as fd:
            self.ref = pickle.load(fd)

    # ------------------------------------------------------------ cases
    def generate(self, rng, idx, tier):
        if idx % 8 == 7:
            pk = rng.choice(PACKAGES + ['tqdm', 'CSafeLoader'])
            feats = [rng.choice(list(FEATURES)) for _ in range(rng.choice([2, 3, 4]))]
            mine = [f for f in FEATURES if FEATURES[f][0] == pk]
            if mine:
                feats[0] = rng.choice(mine)
            spec = W.gen_spec(rng)
            ops = [W.gen_op(rng, spec, names=[k for k in W.OPS if W.OPS[k]['group'] in ('calc', 'io')]) for _ in range(4)]
            return dict(kind='packages', block=sorted(set([pk] + ([rng.choice(PACKAGES)] if rng.random() < 0.3 else []))), features=feats,
                        world=spec, ops=ops, later=rng.random() < 0.8)
        spec = F.fc_spec(rng, born=rng.random() < 0.8, p_big=0.03)
        lay = {}
        for k in ['cell', 'atom_r', 'mass', 'sc', 'org', 'fc', 'born', 'diel', 'qpts', 'weights']:
            if rng.random() < 0.45:
                lay[k] = rng.choice(LAYOUTS)
        for k in ('cell', 'mass'):      # rounding these must not give a different kind of crystal
            if 'int' in lay.get(k, ''):
                lay[k] = 'int64'
        if lay.get('qpts') == 'int8':
            lay['qpts'] = 'int64'
        calls = []
        for _ in range(rng.choice([1, 2, 3])):
            opts = F.calc_options(rng, spec['born'])
            calls.append(dict(q=F.qpt_list(rng, rng.choice([1, 2, 3, 5]), p_near=0.08), opts=opts, kind=rng.choice(['modes', 'freqs', 'grads']),
                              use_c=rng.choice([None, None, True, True, False]), n_threads=rng.choice([None, None, 1, 2, 5]),
                              env=rng.choice([None, None, '1', '3', '', '0', '-2', 'many', ' 2 ', '2.5']),
                              ext=rng.choice([['present'], ['present'], ['present'], ['absent'], ['broken'], ['nolib'], ['absent', 'present']]),
                              weights=rng.random() < 0.4))
        return dict(kind='backend', fc=spec, layouts=lay, calls=calls, fill=rng.choice([-1, 0x7f, 0x41, 0xff]))

    # ---------------------------------------------------------- backends
    def make(self, d, lay, g, plain):
        from euphonic import ForceConstants, Crystal, ureg
        Q = ureg.Quantity

        def get(k):
            how = lay.get(k, 'C')
            v = rounded(d[k], how) if k not in ('sc', 'org') else d[k]
            return v.copy() if plain else layout(v, how, g)
        cr = Crystal(Q(get('cell'), 'bohr'), get('atom_r'), d['atom_type'], Q(get('mass'), 'm_e'))
        kw = {}
        if d['born'] is not None:
            kw = dict(born=Q(get('born'), 'e'), dielectric=Q(get('diel'), 'e**2/(bohr*hartree)'))
        return ForceConstants(cr, Q(get('fc'), 'hartree/bohr**2'), get('sc'), get('org'), **kw)

    @staticmethod
    def calc(fc, call, q, w, **kw):
        fn = fc.calculate_qpoint_frequencies if call['kind'] == 'freqs' else fc.calculate_qpoint_phonon_modes
        r = fn(q, weights=w, return_mode_gradients=call['kind'] == 'grads', **call['opts'], **kw)
        m, grads = r if call['kind'] == 'grads' else (r, None)
        return dict(freqs=m.frequencies.to('meV').magnitude, evecs=getattr(m, 'eigenvectors', None), weights=m.weights, qpts=m.qpts,
                    grads=None if grads is None else grads.to('meV*bohr').magnitude)

    @staticmethod
    def compare(got, want, loose):
        tol = 1e-4 if loose else 1e-8
        if got['qpts'].shape != want['qpts'].shape:
            return f'{got["qpts"].shape[0]} q-points instead of {want["qpts"].shape[0]}'
        if not np.allclose(got['qpts'], want['qpts'], rtol=0, atol=1e-12):
            return 'q-points differ'
        if not np.allclose(got['weights'], want['weights'], rtol=1e-6 if loose else 1e-12):
            return 'weights differ'
        if got['evecs'] is not None:
            m = F.cmp_modes(got['freqs'], got['evecs'], want['freqs'], want['evecs'], tol=tol)
        else:
            m = F.cmp_freqs(got['freqs'], want['freqs'], tol=tol)
        if not m and got['grads'] is not None and not loose:
            m = F.cmp_grads(got['grads'], want['grads'], want['freqs'], tol=1e-5)
        return m

    def backend(self, case, out):
        import ctypes
        from euphonic.force_constants import ImportCError
        g = F.np_rng('layout', case['fc']['seed'])
        # arrays in atomic units, scaled so that integers can represent them
        d = F.fc_arrays(case['fc'])
        lay = {k: v for k, v in case['layouts'].items() if d.get(k) is not None or k in ('qpts', 'weights')}
        d['cell'] = d['cell']*1.9
        d['mass'] = d['mass']*1822.0
        if 'int' in lay.get('fc', ''):
            d['fc'] = d['fc']*20/np.abs(d['fc']).max()
            # translation invariance is lost by rounding, which does not matter here
        if 'int' in lay.get('born', ''):
            d['born'] = np.rint(d['born']*2)
        if 'int' in lay.get('diel', ''):
            e = np.rint(d['diel']*3)
            d['diel'] = e + e.T
            d['diel'] += np.eye(3)*(8 + max(0.0, -2*np.linalg.eigvalsh(d['diel']).min()))
        if 'int' in lay.get('atom_r', ''):
            d['atom_r'] = np.arange(d['atom_r'].size).reshape(d['atom_r'].shape) % 3*1.0     # unusual but legitimate: only layout matters
            lay['atom_r'] = 'C' if d['born'] is not None and len(d['atom_r']) > 1 else lay['atom_r']
            if lay['atom_r'] == 'C':
                d = dict(d, atom_r=F.fc_arrays(case['fc'])['atom_r'])
        loose = 'float32' in lay.values()
        ref = self.make(d, lay, g, True)
        fc = self.make(d, lay, g, False)
        libc = ctypes.CDLL(None)
        out.evals = 0
        for k, v in lay.items():
            if v != 'C':
                out.fault('layout_' + v)
        for i, c in enumerate(case['calls']):
            q = np.array(c['q'], dtype=float)
            if 'int' in lay.get('qpts', ''):
                q = np.rint(q*3)
            qr = rounded(q, lay.get('qpts', 'C'))
            w = wr = None
            if c['weights']:
                w = np.rint(F.np_rng('w', i).uniform(1, 9, len(q)))
                wr = w.copy()
                w = layout(w, lay.get('weights', 'C'), g)
            os.environ.pop('EUPHONIC_NUM_THREADS', None)
            want = self.calc(ref, c, qr.copy(), wr, use_c=False)
            if c['env'] is not None:
                os.environ['EUPHONIC_NUM_THREADS'] = c['env']
                out.fault('env_num_threads')
            self.ext.set(c['ext'])
            here = self.ext.script[0] == 'present'
            if not here:
                out.fault('extension_' + c['ext'][0])
            kw = dict(use_c=c['use_c'])
            if c['n_threads'] is not None:
                kw['n_threads'] = c['n_threads']
            env_bad = False
            if here and c['use_c'] is not False and c['n_threads'] is None and c['env']:
                try:
                    int(c['env'])
                except ValueError:
                    env_bad = True
            what = f'call {i} {c} with layouts {lay}'
            qa = layout(qr, lay.get('qpts', 'C'), g)
            keep = qa.copy()
            out.evals += 1
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                libc.mallopt(-6, case['fill'] ^ 0xff if case['fill'] >= 0 else 0)
                try:
                    got = self.calc(fc, c, qa, w, **kw)
                    err = None
                except Exception as e:
                    err = e
                finally:
                    libc.mallopt(-6, 0)
            msgs = [str(x.message) for x in ws if 'extension' in str(x.message)]
            out.log(what, type(err).__name__, len(msgs))
            if err is not None:
                if env_bad and isinstance(err, (ValueError, TypeError)):
                    out.probe('bad_env_rejected')
                    continue
                if not here and c['use_c'] is True:
                    if not isinstance(err, ImportCError):
                        out.fail('wrong-error', f'{what}: expected ImportCError, got {type(err).__name__}: {err}')
                        return
                    out.probe('import_c_error')
                    continue
                import traceback
                out.fail('call-raised', f'{what}: {type(err).__name__}: {err}\n{"".join(traceback.format_tb(err.__traceback__)[-3:])}')
                return
            if not here and c['use_c'] is True:
                out.fail('no-error', f'{what}: the extension was demanded and cannot be imported, but the call returned')
                return
            if not here and c['use_c'] is None and not msgs:
                out.fail('no-warning', f'{what}: fell back to Python without a warning')
                return
            if (here or c['use_c'] is False) and msgs:
                out.fail('needless-warning', f'{what}: warned {msgs[0]!r}')
                return
            if not np.array_equal(keep, qa):
                out.fail('input-changed', f'{what}: the q-point array was changed')
                return
            if got['weights'].dtype.kind != 'f' and w is None:
                out.fail('wrong-result', f'{what}: weights dtype {got["weights"].dtype}')
                return
            m = self.compare(got, want, loose)
            if m:
                out.fail('wrong-result', f'{what}: {m}')
                return
            out.sigs.add(f'{c["ext"]}/{c["use_c"]}/{c["n_threads"]}/{c["env"]}/{sorted(lay.items())}')
        out.nontrivial = bool(out.faults)
        out.sample = case

    # ---------------------------------------------------------- packages
    def feature(self, name):
        with contextlib.redirect_stdout(io.StringIO()):
            return W.snap(FEATURES[name][1](self))

    def packages(self, case, out):
        block = Block(case['block'])
        sys.meta_path.insert(0, block)
        undo = None
        if 'CSafeLoader' in case['block'] and 'yaml' not in case['block']:
            import yaml
            undo = (yaml, yaml.CSafeLoader)
            del yaml.CSafeLoader
            out.fault('no_libyaml')
        ref_obj = W.build(case['world'])
        want = [W.snap(W.run_op(copy.deepcopy(ref_obj), p)) for p in case['ops']]      # matplotlib etc. not needed
        out.evals = 0
        for rnd, blocked in enumerate([True] + ([False] if case['later'] else [])):
            if not blocked:
                sys.meta_path.remove(block)
                importlib.invalidate_caches()
                out.fault('package_appears_later')
            for f in case['features']:
                out.evals += 1
                need = FEATURES[f][0]
                is_missing = blocked and any(b in case['block'] for b in ([need] if isinstance(need, str) else need))
                out.sigs.add(f'{sorted(case["block"])}/{blocked}/{f}')
                try:
                    got = self.feature(f)
                except ImportError as e:
                    out.log(f, 'ImportError')
                    if not is_missing:
                        out.fail('feature-failed', f'{f} with {case["block"]} {"missing" if blocked else "back again"}: {type(e).__name__}: {e}')
                        return
                    out.fault('missing_' + '+'.join(b for b in case['block'] if b in ([need] if isinstance(need, str) else need)))
                    words = [w for n in ([need] if isinstance(need, str) else need) for w in WORDS[n]]
                    if not any(w in str(e).lower() for w in words):
                        out.fail('unclear-error', f'{f} without {case["block"]}: the error does not say what is missing: {e}')
                        return
                except Exception as e:
                    import traceback
                    out.fail('wrong-error', f'{f} with {case["block"]} {"missing" if blocked else "back again"}: {type(e).__name__}: {e}\n'
                             + traceback.format_exc()[-800:])
                    return
                else:
                    out.log(f, 'ok')
                    if is_missing:
                        out.fail('no-error', f'{f} worked without {case["block"]}')
                        return
                    m = W.result_diff(got, self.ref[f])
                    if m:
                        out.fail('wrong-result', f'{f} with {case["block"]} {"missing" if blocked else "back again"}: {m}')
                        return
            for p, w in zip(case['ops'], want):
                with contextlib.redirect_stdout(io.StringIO()):
                    m = W.result_diff(W.snap(W.run_op(copy.deepcopy(ref_obj), p)), w)
                if m:
                    out.fail('wrong-result', f'{p} with {case["block"]} {"missing" if blocked else "back again"}: {m}')
                    return
        if undo:
            undo[0].CSafeLoader = undo[1]
        out.sample = case

    def execute(self, case, out):    
        return self.packages(case, out) if case['kind'] == 'packages' else self.backend(case, out)

    def shrink(self, case, res):
        if case['kind'] == 'packages':
            for i in range(len(case['features'])):
                yield dict(case, features=case['features'][:i] + case['features'][i + 1:])
            for i in range(len(case['ops'])):
                yield dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
            if case['later']:
                yield dict(case, later=False)
            return
        for i in range(len(case['calls'])):
            if len(case['calls']) > 1:
                yield dict(case, calls=case['calls'][:i] + case['calls'][i + 1:])
        for k in case['layouts']:
            yield dict(case, layouts={a: b for a, b in case['layouts'].items() if a != k})
        if case['fill'] != -1:
            yield dict(case, fill=-1)
        for i, c in enumerate(case['calls']):
            def sub(**kw):
                return dict(case, calls=case['calls'][:i] + [dict(c, **kw)] + case['calls'][i + 1:])
            for kw in (dict(env=None), dict(n_threads=None), dict(ext=['present']), dict(weights=False), dict(use_c=True), dict(kind='freqs')):
                if any(c[a] != b for a, b in kw.items()):
                    yield sub(**kw)
            if len(c['q']) > 1:
                yield sub(q=c['q'][:1])
                yield sub(q=c['q'][1:])
            for k in c['opts']:
                yield sub(opts={a: b for a, b in c['opts'].items() if a != k})


# -------------------------------------------------------------- optional features
def _s1(self):
    from euphonic import ureg, Spectrum1D
    return Spectrum1D(np.arange(5.)*ureg('meV'), np.array([1., 3, 2, 5])*ureg('1/meV'))


def f_plot(self):
    from euphonic.plot import plot_1d
    fig = plot_1d(_s1(self))
    line = fig.axes[0].lines[0]
    return [len(fig.axes), np.array(line.get_xdata()), np.array(line.get_ydata())]


def f_cli_dos(self):
    from euphonic.cli.dos import get_parser
    return get_parser().parse_args(['x', '--ebins', '7']).ebins


def f_cli_powder(self):
    from euphonic.cli.powder_map import get_parser
    return get_parser().parse_args(['x', '--npts', '7']).npts


def f_phonopy_yaml(self):
    from euphonic import ForceConstants
    return ForceConstants.from_phonopy(path=os.path.join(self.data, 'phonopy_files', 'NaCl'), summary_name='phonopy_nofc.yaml',
                                       fc_name='FORCE_CONSTANTS_nacl', born_name='BORN_nacl')


def f_qpoints_yaml(self):
    from euphonic import QpointPhononModes
    return QpointPhononModes.from_phonopy(path=os.path.join(self.data, 'phonopy_files', 'NaCl', 'qpoints'), phonon_name='qpoints.yaml',
                                          summary_name='phonopy.yaml')


def f_fc_hdf5(self):
    from euphonic import ForceConstants
    return ForceConstants.from_phonopy(path=os.path.join(self.data, 'phonopy_files', 'NaCl'), summary_name='phonopy_nofc_noborn.yaml',
                                       fc_name='force_constants.hdf5')


def f_mesh_hdf5(self):
    from euphonic import QpointFrequencies
    return QpointFrequencies.from_phonopy(path=os.path.join(self.data, 'phonopy_files', 'NaCl', 'mesh'), phonon_name='mesh.hdf5',
                                          summary_name='phonopy.yaml')


def f_castep(self):
    from euphonic import ForceConstants
    return ForceConstants.from_castep(os.path.join(self.data, 'castep_files', 'Si2-sc-skew', 'Si2-sc-skew.castep_bin'))


def f_phonon(self):
    from euphonic import QpointPhononModes
    return QpointPhononModes.from_castep(os.path.join(self.data, 'castep_files', 'NaH', 'NaH.phonon'))


def f_brille(self):
    from euphonic.brille import BrilleInterpolator
    fc = F.build_fc(dict(seed=3, n_atoms=1, sc=F.SC_CHOICES[0], born=False))
    b = BrilleInterpolator.from_force_constants(fc, grid_npts=20, interpolation_kwargs=dict(use_c=False))
    return b.calculate_qpoint_frequencies(np.array([[.1, .2, .3], [.4, 0, .2]])).frequencies


FEATURES = {
    'plot': ('matplotlib', f_plot), 'cli_dos': ('matplotlib', f_cli_dos), 'cli_powder': ('matplotlib', f_cli_powder),
    'phonopy_yaml': ('yaml', f_phonopy_yaml), 'qpoints_yaml': ('yaml', f_qpoints_yaml), 'fc_hdf5': (('yaml', 'h5py'), f_fc_hdf5),
    'mesh_hdf5': (('yaml', 'h5py'), f_mesh_hdf5), 'castep': ('', f_castep), 'phonon': ('', f_phonon), 'brille': (('brille', 'matplotlib'), f_brille),
}

CHECK = C06()
