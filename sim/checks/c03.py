"""C03: seeded histories on one ForceConstants object against fresh objects."""
import copy
import ctypes

import numpy as np

from .. import boot, core, fixtures as F
from ..pristine import Pristine

UNITS = {
    'force_constants': ['hartree/bohr**2', 'eV/angstrom**2', 'mdyne/angstrom', 'mRy/bohr**2', 'meV/(bohr*angstrom)'],
    'born': ['e', 'coulomb', '1000*e'],
    'dielectric': ['e**2/(bohr*hartree)', 'e**2/(angstrom*eV)', 'coulomb**2/(bohr*hartree)'],
}
INTERNAL = {'force_constants': 'hartree/bohr**2', 'born': 'e', 'dielectric': 'e**2/(bohr*hartree)'}


def unit_names(kind):
    return [u for u in UNITS[kind] if '*e' not in u or kind != 'born']


def perturb(byte):
    """fresh heap memory gets filled with a known byte (glibc M_PERTURB; -1: off)"""
    libc = ctypes.CDLL(None)
    libc.mallopt(-6, byte ^ 0xff if byte >= 0 else 0)


def new_data(kind, n_atoms, base, seed):
    """replacement data of the given kind derived from the spec's arrays"""
    g = F.np_rng('new', kind, seed)
    if kind == 'force_constants':
        return base['fc']*float(g.uniform(0.5, 2.0)) + 0.0
    if kind == 'born':
        b = base['born'] if base['born'] is not None else np.array([(-1.0)**i*np.eye(3) for i in range(n_atoms)])
        return b*float(g.uniform(0.5, 1.5)) + 0.05*g.normal(size=b.shape)
    e = 0.3*g.normal(size=(3, 3))
    return (2 + float(g.uniform(0, 3)))*np.eye(3) + e @ e.T


def other_fc(spec, seed):
    """an independent force constants matrix for the same crystal"""
    d = F.fc_arrays(spec)
    e = F.fc_arrays(dict(spec, seed=seed))
    return e['fc'] if e['fc'].shape == d['fc'].shape else d['fc']*1.3


class C03(core.Check):
    id = 'C03'
    technique = 'deterministic simulation: seeded operation histories with failing calls and dirty memory, vs a fresh object as reference model'
    rule = ('one evaluation = one calculation inside a history, compared with the same calculation on a newly made object holding the '
            'same data in a process that calculated nothing before; a state is a distinct (operation prefix, options) signature; non-trivial = the history changed options, data '
            'or failed before the compared calculation')
    n_runs = {'quick': 1200, 'thorough': 8000}
    wall = {'quick': 80, 'thorough': 1500}
    real = ['euphonic/force_constants.py and everything below it', 'C extension (plain build)', 'numpy', 'pint']
    stub = ['heap contents of fresh allocations (glibc M_PERTURB)']
    assumptions = ['one thread; histories of at most 14 operations on crystals of at most 9 atoms, and at most two more objects of the same shape']

    def prepare(self, tier):
        boot.import_euphonic('plain')

    def warm(self, tier):
        fc = F.build_fc(dict(seed=1, n_atoms=7, sc=F.SC_CHOICES[0], born=True))     # a shape no case uses
        fc.calculate_qpoint_phonon_modes(np.array([[0., 0, 0]]), use_c=False)
        fc.calculate_qpoint_phonon_modes(np.array([[0., 0, 0]]), use_c=True, n_threads=1)   # no libgomp pool before forking

    def gen_calc(self, rng, born):
        o = F.calc_options(rng, born)
        q = F.qpt_list(rng, rng.choice([1, 2, 3, 4]), p_near=0.08)
        if rng.random() < 0.3:
            o['weights'] = [round(rng.uniform(0, 2), 3) for _ in q]
        return dict(op='calc', kind=rng.choice(['modes', 'modes', 'grads', 'freqs']), q=q,
                    opts=o, use_c=rng.choice([True, True, False]), n_threads=rng.choice([1, 2]))

    def generate(self, rng, idx, tier):
        spec = F.fc_spec(rng, born=rng.random() < 0.8, p_big=0.03)
        born = spec['born']
        ops = []
        for _ in range(rng.randint(3, 14 if tier == 'thorough' else 9)):
            r = rng.random()
            kinds = ['force_constants'] + (['born', 'dielectric'] if born else [])
            if r < 0.42:
                ops.append(self.gen_calc(rng, born))
            elif r < 0.5:
                # another object of the same shape: some of the data differ
                ops.append(dict(self.gen_calc(rng, spec['born']), twin='all' if rng.random() < 0.3 else
                                '+'.join(rng.sample(['cell', 'atom_r', 'mass', 'fc', 'born', 'diel'], rng.randint(1, 3)))))
            elif r < 0.72:
                k = rng.choice(kinds)
                how = rng.choice(['assign', 'assign', 'assign', 'imul', 'same'])
                ops.append(dict(op='set', kind=k, seed=rng.randrange(1000), unit=rng.choice(UNITS[k]), how=how,
                                other=rng.random() < 0.3))
            elif r < 0.80:
                k = rng.choice(kinds)
                ops.append(dict(op='unit', kind=k, unit=rng.choice(UNITS[k])))
            elif r < 0.86:
                ops.append(dict(op='bad_set', kind=rng.choice(kinds), bad=rng.choice(['kg', 'angstrom', 'meV', 'none', 'float', 'mode'])))
            elif r < 0.93:
                ops.append(dict(op='bad_calc', bad=rng.choice(['qshape', 'weights', 'str', 'nthreads', 'scalar', 'wshape', 'empty']),
                                use_c=rng.choice([True, False]), asr=rng.choice([None, 'realspace', 'reciprocal'])))
            elif r < 0.95:
                ops.append(dict(op='getters'))
            elif r < 0.97:
                ops.append(dict(op='add_born', seed=rng.randrange(1000)))
                born = True
            else:
                ops.append(dict(op='restore', how=rng.choice(['deepcopy', 'dict', 'copy', 'pickle'])))
        ops.append(self.gen_calc(rng, born))
        if rng.random() < 0.5:
            # repeat an earlier calculation at the end
            calcs = [o for o in ops if o['op'] == 'calc']
            ops.append(dict(rng.choice(calcs)))
        return dict(fc=spec, ops=ops, fill=rng.choice([-1, 0x7f, 0x41, 0xff, 0xc0]), skew=rng.random() < 0.1)

    @staticmethod
    def _calc(fc, op):
        g = op['kind'] == 'grads'
        fn = fc.calculate_qpoint_frequencies if op['kind'] == 'freqs' else fc.calculate_qpoint_phonon_modes
        kw = dict(op['opts'])
        if 'weights' in kw:
            kw['weights'] = np.array(kw['weights'])
        if op['use_c']:
            kw['n_threads'] = op['n_threads']
        r = fn(np.array(op['q'], dtype=float), use_c=op['use_c'], return_mode_gradients=g, **kw)
        m, grads = r if g else (r, None)
        return dict(freqs=m.frequencies.to('meV').magnitude, evecs=getattr(m, 'eigenvectors', None),
                    grads=None if grads is None else grads.to('meV*angstrom').magnitude, qpts=m.qpts, weights=m.weights)

    @staticmethod
    def compare(got, want):
        for k in ('qpts', 'weights'):
            if not np.array_equal(got[k], want[k]):
                return f'{k} differ'
        if got['evecs'] is not None:
            m = F.cmp_modes(got['freqs'], got['evecs'], want['freqs'], want['evecs'], tol=1e-10)
        else:
            m = F.cmp_freqs(got['freqs'], want['freqs'], tol=1e-10)
        if not m and got['grads'] is not None:
            m = F.cmp_grads(got['grads'], want['grads'], want['freqs'], tol=1e-7)
        return m

    def arrays(self, case):
        d = F.fc_arrays(case['fc'])
        if case.get('skew'):
            g = F.np_rng('skew', case['fc']['seed'])
            d['cell'] = d['cell'] + np.array([[0, 0, 0], [3.5, 0, 0], [float(g.uniform(-4, 4)), 3.5, 0]])
        return d

    def fresh(self, model, case):
        return F.build_fc(case['fc'], dict(model))

    def execute(self, case, out):
        # references come from processes forked off before anything is calculated here
        ref = Pristine(lambda model, op: self._calc(self.fresh(model, case), op))
        try:
            self.history(case, out, ref)
        finally:
            ref.close()

    def twin(self, case, how):
        d = self.arrays(dict(case, fc=dict(case['fc'], seed=case['fc']['seed'] ^ 0x5a5a)))
        if how != 'all':
            d = dict(self.arrays(case), **{k: d[k] for k in how.split('+')})
        return d

    def history(self, case, out, ref):
        from euphonic import ForceConstants, ureg
        model = self.arrays(case)
        twins = {}
        base = self.arrays(case)
        n = case['fc']['n_atoms']
        fc = self.fresh(model, case)
        key = {'force_constants': 'fc', 'born': 'born', 'dielectric': 'diel'}
        units = {k: getattr(fc, k + '_unit') for k in key}
        out.evals = 0
        changed = False
        prefix = ''

        def check_data(where):
            for k, mk in key.items():
                v = getattr(fc, k)
                if (v is None) != (model[mk] is None):
                    out.fail('data-changed', f'{k} is {"None" if v is None else "not None"} after {where}')
                    return False
                if v is None:
                    continue
                if not np.allclose(v.to(INTERNAL[k]).magnitude, model[mk], rtol=1e-9, atol=1e-13):
                    out.fail('data-changed', f'{k} is no longer the value last set, after {where}')
                    return False
                if str(v.units) != str(ureg(units[k]).units):
                    out.fail('data-changed', f'{k} is reported in {v.units}, expected {units[k]}, after {where}')
                    return False
            c = fc.crystal
            for name, v, w in (('cell_vectors', c.cell_vectors.to('angstrom').magnitude, model['cell']), ('atom_r', c.atom_r, model['atom_r']),
                               ('atom_mass', c.atom_mass.to('amu').magnitude, model['mass']), ('cell_origins', fc.cell_origins, model['org']),
                               ('sc_matrix', fc.sc_matrix, model['sc'])):
                if not np.allclose(v, w, rtol=1e-9, atol=1e-12):
                    out.fail('data-changed', f'{name} changed after {where}')
                    return False
            return True
        perturb(case['fill'])
        if case['fill'] >= 0:
            out.fault('dirty_memory')
        for i, op in enumerate(case['ops']):
            kind = op['op']
            where = f'operation {i} {op}'
            if kind == 'calc':
                data, obj = model, fc
                if op.get('twin'):
                    if op['twin'] not in twins:
                        d = self.twin(case, op['twin'])
                        twins[op['twin']] = d, F.build_fc(case['fc'], dict(d), crystal=None if set(op['twin'].split('+')) & {'all', 'cell', 'atom_r', 'mass'} else fc.crystal)
                    data, obj = twins[op['twin']]
                perturb(case['fill'])
                got = self._calc(obj, op)
                perturb(0)
                want = ref(data, op)
                out.evals += 1
                m = self.compare(got, want)
                out.log(i, 'calc', np.round(got['freqs'], 5).tolist())
                if m:
                    out.fail('stale-or-history-dependent', f'{where}: differs from a fresh object: {m}')
                    return
                if changed:
                    out.sigs.add(f'{hash_(prefix)}/{op["opts"]}/{op["kind"]}/{op["use_c"]}')
            elif kind == 'set':
                k = op['kind']
                if model[key[k]] is None:
                    continue
                if op['how'] == 'same':
                    setattr(fc, k, getattr(fc, k))
                elif op['how'] == 'imul':
                    v = getattr(fc, k)
                    v *= 1.25
                    setattr(fc, k, v)
                    model[key[k]] = model[key[k]]*1.25
                else:
                    v = new_data(k, n, base, op['seed'])
                    if k == 'force_constants' and op['other']:
                        v = other_fc(case['fc'], op['seed'])
                    q = (v*ureg(INTERNAL[k])).to(ureg(op['unit']).units)
                    setattr(fc, k, q)
                    model[key[k]] = v
                    units[k] = str(ureg(op['unit']).units)
                changed = True
            elif kind == 'add_born':
                if model['born'] is None:
                    b, e = new_data('born', n, base, op['seed']), new_data('dielectric', n, base, op['seed'])
                    fc.born = b*ureg('e')
                    fc.dielectric = e*ureg(INTERNAL['dielectric'])
                    model['born'], model['diel'] = b, e
                    units['born'], units['dielectric'] = str(ureg('e').units), str(ureg(INTERNAL['dielectric']).units)
                    changed = True
            elif kind == 'unit':
                u = str(ureg(op['unit']).units)
                setattr(fc, op['kind'] + '_unit', u)
                units[op['kind']] = u
            elif kind == 'bad_set':
                v = dict(none=None, float=3.0, mode='x').get(op['bad'], 0)
                if v == 0:
                    cur = getattr(fc, op['kind'])
                    shape = np.shape(cur.magnitude) if cur is not None else (n, 3, 3)
                    v = np.ones(shape)*ureg(op['bad'])
                try:
                    setattr(fc, op['kind'], v)
                except Exception as e:
                    out.fault('failed_assignment')
                    out.log(i, 'bad_set', type(e).__name__)
                else:
                    out.probe('bad_set_accepted')
                    out.log(i, 'accepted')
                    return
                changed = True
            elif kind == 'bad_calc':
                q = np.array([[0., 0, 0], [.1, .2, .3]])
                kw = dict(asr=op['asr'], use_c=op['use_c'])
                if op['bad'] == 'qshape':
                    q = q[:, :2]
                elif op['bad'] == 'scalar':
                    q = np.array(3.0)
                elif op['bad'] == 'empty':
                    q = np.zeros((0, 3))
                elif op['bad'] == 'weights':
                    kw['weights'] = np.ones(5)
                elif op['bad'] == 'wshape':
                    kw['weights'] = np.ones((2, 2))
                elif op['bad'] == 'str':
                    q = np.array([['a', 'b', 'c']])
                elif op['bad'] == 'nthreads':
                    kw.update(use_c=True, n_threads='many')
                try:
                    fc.calculate_qpoint_phonon_modes(q, **kw)
                except Exception as e:
                    out.fault('failed_calculation')
                    out.log(i, 'bad_calc', type(e).__name__)
                    changed = True
                else:
                    out.log(i, 'bad calc returned')
            elif kind == 'getters':
                for k in key:
                    v = getattr(fc, k)
                    if v is not None:
                        v.magnitude[...] = 17.0     # editing what a getter returned
                changed = True
            elif kind == 'restore':
                if op['how'] == 'deepcopy':
                    fc = copy.deepcopy(fc)
                elif op['how'] == 'copy':
                    fc = copy.copy(fc)
                elif op['how'] == 'pickle':
                    import pickle
                    fc = pickle.loads(pickle.dumps(fc))
                else:
                    fc = ForceConstants.from_dict(fc.to_dict())
                changed = True
            prefix += f'{kind}:{op.get("kind")}:{op.get("how")}:{op.get("bad")};'
            if not check_data(where):
                return
        out.unit('operations', len(case['ops']))
        out.nontrivial = changed
        out.sample = dict(fc=case['fc'], ops=[o['op'] for o in case['ops']], fill=case['fill'])

    def shrink(self, case, res):
        ops = case['ops']
        for i in range(len(ops)):
            yield dict(case, ops=ops[:i] + ops[i + 1:])
        if case['fill'] != -1:
            yield dict(case, fill=-1)
        if case['skew']:
            yield dict(case, skew=False)
        f = case['fc']
        if f['sc'] != F.SC_CHOICES[0]:
            yield dict(case, fc=dict(f, sc=F.SC_CHOICES[0]))
        if f['n_atoms'] > 1:
            yield dict(case, fc=dict(f, n_atoms=f['n_atoms'] - 1))
        for i, o in enumerate(ops):
            def sub(**kw):
                return dict(case, ops=ops[:i] + [dict(o, **kw)] + ops[i + 1:])
            if o['op'] == 'calc':
                if len(o['q']) > 1:
                    yield sub(q=o['q'][:1])
                    yield sub(q=o['q'][1:])
                if o['use_c']:
                    yield sub(use_c=False)
                for k, v in list(o['opts'].items()):
                    yield sub(opts={a: b for a, b in o['opts'].items() if a != k})
                if o['kind'] != 'modes':
                    yield sub(kind='modes')


def hash_(s):
    import hashlib
    return hashlib.md5(s.encode()).hexdigest()[:10]


CHECK = C03()
