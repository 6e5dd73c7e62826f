"""C12: histories of operations and edits over a population of live objects; only what was edited may change."""
import copy
import json
import warnings

import numpy as np

from .. import boot, core, fixtures as F, units as U, world as W

SPECTRA = ('Spectrum1D', 'Spectrum1DCollection', 'Spectrum2D', 'Spectrum2DCollection')
SLOTS = {'ForceConstants': ['fc'], 'QpointPhononModes': ['qpm'], 'QpointFrequencies': ['qpf'], 'StructureFactor': ['sf', 'sfn'], 'DebyeWaller': ['dw'],
         'Crystal': ['crystal'], 'Spectrum1D': ['s1', 's1b'], 'Spectrum1DCollection': ['s1c', 'disp'], 'Spectrum2D': ['s2'], 'Spectrum2DCollection': ['s2c']}
QUANT = {'ForceConstants': ['force_constants', 'born', 'dielectric'], 'QpointPhononModes': ['frequencies'], 'QpointFrequencies': ['frequencies'],
         'StructureFactor': ['frequencies', 'structure_factors', 'temperature'], 'DebyeWaller': ['debye_waller', 'temperature'],
         'Crystal': ['cell_vectors', 'atom_mass'], 'Spectrum1D': ['x_data', 'y_data'], 'Spectrum1DCollection': ['x_data', 'y_data'],
         'Spectrum2D': ['x_data', 'y_data', 'z_data'], 'Spectrum2DCollection': ['x_data', 'y_data', 'z_data']}
ARRAYS = {'QpointPhononModes': ['eigenvectors'], 'Crystal': ['atom_r'], 'ForceConstants': ['cell_origins']}
BAD = ['bins', 'reference', 'shape', 'temperature', 'options', 'mismatch']
UNITS = {'frequencies': ['meV', 'THz', '1/cm'], 'force_constants': ['hartree/bohr**2', 'eV/angstrom**2'], 'cell_vectors': ['bohr', 'angstrom', 'nm'],
         'temperature': ['K', 'mK'], 'debye_waller': ['angstrom**2', 'bohr**2'], 'atom_mass': ['amu', 'kg']}
POOL = [n for n in W.OPS if not n.startswith('powder')]


# extra operations, only used here -------------------------------------------------------------------------------------------
def extra(o, p, rng_seed):
    """operations whose arguments are members of the population"""
    from euphonic import util
    from euphonic.spectra import Spectrum1DCollection, Spectrum2DCollection
    g = F.np_rng('extra', rng_seed)
    k = p['kind']
    if k == 'modes_arrays':
        kw = dict(o['opts'])
        kw['weights'] = o['weights'] if p['w'] else None
        return o['fc'].calculate_qpoint_phonon_modes(o['qpts'], use_c=p['use_c'], **({'n_threads': 1} if p['use_c'] else {}), **kw)
    if k == 'freqs_arrays':
        return o['fc'].calculate_qpoint_frequencies(o['qpts'], weights=o['weights'] if p['w'] else None, use_c=False, **o['opts'])
    if k == 'from_dict':
        d = o['dict:' + p['which']]
        return type(o[p['which']]).from_dict(d)
    if k == 'from_spectra':
        return (Spectrum1DCollection.from_spectra(o['list1']), Spectrum2DCollection.from_spectra(o['list2']))[p['i']]
    if k == 'qpt_labels':
        return util.get_qpoint_labels(o['qpts'], cell=o['crystal'].to_spglib_cell() if p['w'] else None)
    if k == 'dw_grid':
        return o['qpm'].calculate_debye_waller(o['temperature'])
    if k == 'sqw_T':
        return o['sfn'].calculate_sqw_map(o['bins'], calc_bose=True, temperature=o['temperature'])
    if k == 'bose':
        return o['sfn'].calculate_1d_average(o['bins'], calc_bose=True, temperature=o['temperature'], weights=o['weights'] if len(o['weights']) == o['sfn'].n_qpts
                                             else None)
    if k == 'widths':
        from euphonic.util import mode_gradients_to_widths
        return mode_gradients_to_widths(o['grads'], o['crystal'].cell_vectors)
    if k == 'mp_grid':
        return [o['crystal'].get_mp_grid_spec(o['spacing'])]
    if k == 'powder':
        from euphonic.powder import sample_sphere_structure_factor
        return sample_sphere_structure_factor(o['fc'], o['spacing'], temperature=o['temperature'] if p['w'] else None, dw_spacing=o['spacing']*4,
                                              scattering_lengths=o['sl'], energy_bins=o['bins'] if p['i'] else None, npts=8, use_c=False)
    if k == 'pdos_widths':
        return o['qpm'].calculate_pdos(o['bins'], mode_widths=o['mode_widths'], mode_widths_min=o['wmin'], cross_sections=o['xs'], weighting='coherent')
    if k == 'broaden_x':
        return o['s1'].broaden(o['width1'], method='convolve')
    if k == 'map_widths':
        return o['qpf'].calculate_dos_map(o['bins'], mode_widths=o['mode_widths'], mode_widths_min=o['wmin'])
    if k == 'dos_widths':
        return o['qpf'].calculate_dos(o['bins'], mode_widths=o['mode_widths'], mode_widths_min=o['wmin'], adaptive_method='fast')
    if k == 'construct1':
        from euphonic import Spectrum1D
        return Spectrum1D(o['bins'], o['ydata'], x_tick_labels=o['ticks'], metadata=None)
    if k == 'kinematic':
        from euphonic.spectra import apply_kinematic_constraints
        return apply_kinematic_constraints(o['s2'], e_i=o['e_i'], angle_range=o['angles'])
    if k == 'brille':
        import contextlib
        import io
        from .. import fakegrid
        fakegrid.install()
        from euphonic.brille import BrilleInterpolator
        with contextlib.redirect_stdout(io.StringIO()):
            b = BrilleInterpolator.from_force_constants(o['fc'], grid_npts=15, interpolation_kwargs=o['ikw'])
        return b.calculate_qpoint_phonon_modes(o['qpts'])
    if k == 'refdata':
        return util.get_reference_data(['Sears1992', 'BlueBook'][p['i']], ['coherent_scattering_length', 'incoherent_cross_section'][p['w']])
    if k == 'reorder':
        q = type(o['qpm']).from_dict(o['qpm'].to_dict())
        q.reorder_frequencies(reorder_gamma=p['w'])
        return q
    if k == 'empty_crystal':
        from euphonic import Crystal
        return Crystal.from_cell_vectors(o['crystal'].cell_vectors)
    if k == 'plot_axis':
        import matplotlib.pyplot as plt
        from euphonic import plot
        fig, ax = plt.subplots()
        try:
            if p['w']:
                plot.plot_1d_to_axis(o['s1c'], ax, labels=o['labels'])
            else:
                plot.plot_2d_to_axis(o['s2'], ax)
        finally:
            plt.close(fig)
        return None
    if k == 'variable':
        from euphonic.broadening import variable_width_broadening
        return variable_width_broadening(o['bins'], o['s1'].get_bin_centres(), lambda x: x*0 + o['wmin'], o['s1'].y_data*o['wmin'], o['wmin'], fit='cubic')
    raise KeyError(k)


EXTRA = ['modes_arrays', 'modes_arrays', 'freqs_arrays', 'from_dict', 'from_dict', 'from_spectra', 'qpt_labels', 'dw_grid', 'broaden_x', 'map_widths',
         'dos_widths', 'brille', 'construct1', 'kinematic', 'plot_axis', 'variable', 'sqw_T', 'bose', 'widths', 'mp_grid', 'powder', 'pdos_widths', 'dw_grid', 'map_widths', *['refdata']*8,
         'reorder', 'empty_crystal']
# arrays that results of phonon calculations may share by reference, and objects that hold them: never edited in place
SHARED = {'qpts', 'weights'}


class C12(core.Check):
    id = 'C12'
    technique = ('deterministic simulation: seeded histories of operations (some failing) and edits over a population of live objects, results, arrays and option '
                 'dictionaries; after every step every member that was not itself edited is compared with its earlier state')
    rule = ('one evaluation = one step followed by a comparison of the whole population; a state is a distinct (operation or edit, class, outcome); '
            'non-trivial = at least one edit of a result or source happened')
    n_runs = {'quick': 950, 'thorough': 9000}
    wall = {'quick': 80, 'thorough': 1200}
    run_timeout = 120
    real = ['all Euphonic object classes, spectra, broadening, util, plot, brille interpolation']
    stub = ['the grids of the brille library (sim/fakegrid.py)', 'the faults are failing operations and hostile edits inside the history']
    assumptions = ['crystals of at most 2 atoms, histories of at most 40 steps', 'q-points, weights and the crystal of phonon results are shared by design and not edited']

    def prepare(self, tier):
        boot.import_euphonic('plain')
        from .. import fakegrid
        fakegrid.install()
        import matplotlib.pyplot  # noqa: F401

    def warm(self, tier):
        W.build(W.gen_spec(core.rng_for(0, 'warm', 0)))

    def generate(self, rng, idx, tier):
        spec = W.gen_spec(rng)
        steps = []
        for _ in range(rng.randint(8, 44 if tier == 'thorough' else 26)):
            r = rng.random()
            earlier = [s for s in steps if s['do'] != 'edit']
            if earlier and rng.random() < 0.12:          # the same request once more: a remembered result must not be handed out twice
                steps.append(dict(rng.choice(earlier), bad=None))
            elif r < 0.42:
                steps.append(dict(do='run', calc=W.gen_op(rng, spec, names=POOL), sub=rng.choice([None, None, rng.randrange(1000)]),
                                  bad=rng.choice([None, None, None, rng.choice(BAD + ['all']*6)])))
            elif r < 0.58:
                k = rng.choice(EXTRA)
                steps.append(dict(do='extra', p=dict(kind=k, w=rng.random() < 0.5, use_c=rng.random() < 0.4, i=rng.randrange(2),
                                                     which=rng.choice(W.DICTABLE)), seed=rng.randrange(1000), sub=rng.choice([None, rng.randrange(1000)]),
                                  bad=rng.choice([None, None, None, rng.choice(BAD + ['all']*6)])))
            else:
                steps.append(dict(do='edit', target=rng.randrange(10000), result=rng.random() < 0.6, how=rng.randrange(10000)))
        return dict(spec=spec, steps=steps)

    # -------------------------------------------------------------- execution
    def population(self, spec):
        from euphonic import ureg
        o = W.build(spec)
        q = np.array(spec['q'], dtype=float)
        o['qpts'] = q
        o['weights'] = np.linspace(0.5, 1.5, len(q))
        o['opts'] = dict(asr='reciprocal' if spec['seed'] % 3 == 0 else None, dipole=True, splitting=spec['seed'] % 2 == 0)
        o['ikw'] = dict(asr='realspace', insert_gamma=True, reduce_qpts=False, use_c=False)
        for n in W.DICTABLE:
            o['dict:' + n] = o[n].to_dict()
        o['list1'] = [o['s1'].copy(), o['s1b'].copy()]
        o['list2'] = [o['s2'].copy(), o['s2'].copy()]
        # arguments in units the code uses internally as well as in others: a conversion may return the very same array
        v = F.np_rng('arg units', spec['seed'])
        o['temperature'] = ureg.Quantity(120.0, 'K').to(str(v.choice(['K', 'mK', 'degC'])))
        o['grads'] = o['grads'].to(str(v.choice(['hartree*bohr', 'meV*angstrom'])))
        o['spacing'] = ureg.Quantity(0.7, '1/angstrom').to(str(v.choice(['1/angstrom', '1/bohr'])))
        bw = o['bins'][1] - o['bins'][0]
        o['width1'] = bw*2.5
        o['wmin'] = bw*1.0
        o['mode_widths'] = ureg.Quantity(F.np_rng('mw', spec['seed']).uniform(0.2, 3, o['qpf'].frequencies.shape), bw.units)*bw.magnitude
        o['mode_widths'] = o['mode_widths'].to(str(v.choice(['hartree', str(bw.units)])), 'reciprocal_spectroscopy')
        o['wmin'] = o['wmin'].to(str(v.choice(['hartree', str(bw.units)])), 'reciprocal_spectroscopy')
        o['ydata'] = ureg.Quantity(np.linspace(0, 1, len(o['bins']) - 1), '1/meV')
        o['ticks'] = [(0, 'A'), (2, 'B')]
        o['e_i'] = ureg.Quantity(60.0, 'meV')
        o['angles'] = [3.0, 130.0]
        o['labels'] = [f'l{i}' for i in range(len(o['s1c']))]
        return o

    @staticmethod
    def flatten(r, depth=0):
        """members that a result contributes"""
        if r is None or isinstance(r, (int, float, str, bool)):
            return []
        if isinstance(r, tuple) and depth < 2:
            return [x for y in r for x in C12.flatten(y, depth + 1)]
        if isinstance(r, list) and depth < 2 and any(hasattr(x, 'to_dict') or hasattr(x, 'units') or isinstance(x, np.ndarray) for x in r):
            return [x for y in r for x in C12.flatten(y, depth + 1)]
        return [r]

    def execute(self, case, out):
        warnings.simplefilter('ignore')
        o = self.population(case['spec'])
        results = []                     # [name, object]
        out.evals = 0
        out.nontrivial = False
        snaps = {n: W.snap(v) for n, v in o.items()}
        count = 0
        for i, st in enumerate(case['steps']):
            out.evals += 1
            members = dict(o)
            members.update(results)
            exempt = set()
            if st['do'] in ('run', 'extra'):
                env = dict(o)
                if st['sub'] is not None:
                    for cls, slots in SLOTS.items():
                        c = [r for r in results if type(r[1]).__name__ == cls]
                        if c:
                            env[slots[st['sub'] % len(slots)]] = c[st['sub'] % len(c)][1]
                if st.get('bad'):
                    for b in (BAD if st['bad'] == 'all' else [st['bad']]):
                        self.spoil_env(env, b)
                p = st['calc'] if st['do'] == 'run' else st['p']
                label = p['op'] if st['do'] == 'run' else 'extra.' + p['kind']
                p0 = json.dumps(p, sort_keys=True, default=str)
                try:
                    with np.errstate(all='ignore'):
                        r = W.run_op(env, p) if st['do'] == 'run' else extra(env, p, st['seed'])
                    err = None
                except Exception as e:
                    r, err = None, e
                    out.fault('failing operation' if not st.get('bad') else 'bad ' + st['bad'])
                what = f'step {i} {label} {p} -> {type(r).__name__ if err is None else f"{type(err).__name__}: {err}"}'
                out.sigs.add(f'{label}:{type(err).__name__ if err else type(r).__name__}:{st["sub"] is not None}')
                if json.dumps(p, sort_keys=True, default=str) != p0:
                    out.fail('changed-argument', f'{what}: changed an option it was given: {p0} -> {p}', f'changed-argument-{label}')
                    return
                for x in self.flatten(r):
                    count += 1
                    results.append([f'result {count} of {label}', x])
                    snaps[results[-1][0]] = W.snap(x)
            else:
                if st['result'] and results:
                    name, obj = results[st['target'] % len(results)]
                else:
                    name = sorted(o)[st['target'] % len(o)]
                    obj = o[name]
                    if name in SHARED:
                        continue
                done = self.edit(obj, st['how'])
                if done is None:
                    continue
                how, own, err = done
                if own and name in results:
                    pass
                what = f'step {i} edit of {name} ({type(obj).__name__}): {how}' + (f' -> {type(err).__name__}: {err}' if err else '')
                out.sigs.add(f'edit:{type(obj).__name__}:{how.split("=")[0][:40]}:{type(err).__name__}')
                out.nontrivial = True
                out.unit('edits')
                if own:
                    exempt.add(name)
                    snaps[name] = W.snap(obj)
                    # a container in the population may hold this very object (a list given to from_spectra)
                    if name in ('list1', 'list2'):
                        exempt.add(name)
                label = f'edit-{type(obj).__name__}-{how.split("=")[0]}'
            out.log(what)
            for n, v in members.items():
                if n in exempt:
                    continue
                m = W.diff(W.snap(v), snaps[n])
                if m:
                    out.fail('changed', f'{what}: changed {n} ({type(v).__name__}): {m}', f'changed-{label}-{type(v).__name__}')
                    return
            while len(results) > 36:
                snaps.pop(results.pop(0)[0])
        out.sample = dict(spec=case['spec'], steps=case['steps'][:5])

    @staticmethod
    def spoil_env(env, bad):
        """replaces arguments of the next operation by ones that it has to refuse; the population itself is not changed"""
        from euphonic import ureg, Spectrum1D, Spectrum1DCollection, Spectrum2D
        if bad == 'bins':
            env['bins'] = ureg.Quantity(np.linspace(0, 1, 6), 'kelvin*meter')
            env['wmin'] = ureg.Quantity(1.0, 'kelvin')
            env['width1'] = ureg.Quantity(1.0, 'kelvin')
        elif bad == 'reference':
            for n in ('sl', 'xs', 'rd'):
                if n in env:
                    env[n] = {}
        elif bad == 'shape':
            env['qpts'] = env['qpts'][:, :2]
            env['weights'] = env['weights'][:-1]
            env['mode_widths'] = env['mode_widths'][:, :1]
            env['ydata'] = env['ydata'][:1]
        elif bad == 'temperature':
            env['temperature'] = ureg.Quantity(3.0, 'meter')
        elif bad == 'options':
            env['opts'] = dict(env['opts'], asr='none of these')
            env['ikw'] = dict(env['ikw'], asr='none of these')
        else:
            a = env['s1']
            env['s1b'] = Spectrum1D(a.x_data*1.5, a.y_data)
            env['list1'] = [a, env['s1b']]
            s2 = env['s2']
            env['list2'] = [s2, Spectrum2D(s2.x_data*1.5, s2.y_data, s2.z_data)]
            c = env['s1c']
            env['disp'] = Spectrum1DCollection(c.x_data*2, c.y_data*ureg('kelvin'))
            env['e_i'] = ureg.Quantity(1.0, 'kelvin')

    # ------------------------------------------------------------------ edits
    def edit(self, obj, h):
        """edits obj in a way its public interface allows; (what, changes obj itself?, error) or None"""
        import random
        rng = random.Random(h)
        cls = type(obj).__name__
        try:
            if cls in QUANT:
                return self.edit_object(obj, cls, rng)
            if hasattr(obj, 'units'):
                if np.ndim(obj.magnitude):
                    obj.magnitude[...] = obj.magnitude*1.5 + 1
                    return 'values in place', True, None
                return None
            if isinstance(obj, np.ndarray):
                if obj.dtype.kind not in 'fciu':
                    return None
                obj[...] = obj*2 + 1
                return 'array values in place', True, None
            if isinstance(obj, (dict, list)):
                self.spoil(obj)
                return 'container contents in place', True, None
        except ValueError as e:
            if 'read-only' in str(e):
                return None
            raise
        return None

    def spoil(self, obj, depth=0):
        """edit everything inside a container in place"""
        if hasattr(obj, 'units'):
            if np.ndim(obj.magnitude):
                obj.magnitude[...] = obj.magnitude*1.5 + 1
        elif isinstance(obj, np.ndarray):
            if obj.dtype.kind in 'fciu':
                obj[...] = obj*2 + 1
        elif isinstance(obj, dict):
            for v in list(obj.values()):
                self.spoil(v, depth + 1)
            if depth < 3:
                obj['edited'] = 'yes'
        elif isinstance(obj, list):
            for v in obj:
                self.spoil(v, depth + 1)
            if obj and depth:
                obj.append(obj[0])
            else:
                obj.reverse()
        elif hasattr(obj, 'metadata'):
            obj.metadata['edited'] = 'yes'
            obj *= 1.25

    def edit_object(self, obj, cls, rng):
        from euphonic import ureg
        kinds = ['assign', 'assign', 'unit', 'unit', 'getter', 'getter', 'to_dict']
        if cls in SPECTRA:
            kinds += ['imul', 'imul', 'meta', 'meta', 'meta', 'line', 'line', 'ticks', 'ticks_in', 'metadel']
        if cls in ARRAYS:
            kinds += ['array']
        k = rng.choice(kinds)
        attr = rng.choice(QUANT[cls])
        if k in ('assign', 'unit', 'getter'):
            q = getattr(obj, attr)
            if q is None:
                return None
            if k == 'getter':
                # the value handed out belongs to the caller
                if np.ndim(q.magnitude) == 0:
                    return None
                if rng.random() < 0.5:
                    q *= 1.5
                else:
                    q.magnitude[...] = q.magnitude + 1
                return f'the {attr} it returned, in place', False, None
            if k == 'assign':
                try:
                    setattr(obj, attr, q*1.25 if rng.random() < 0.8 else ureg.Quantity(np.ones(3), 'kelvin*meter**5'))
                    err = None
                except Exception as e:
                    err = e
                return f'{attr} assigned', err is None, err
            u = UNITS.get(attr) or ([str(q.units), 'THz', '1/cm', 'meV', '1/angstrom', '1/bohr', '1/meV', '1/THz'])
            u = rng.choice(u)
            try:
                setattr(obj, attr + '_unit', u)
                err = None
            except Exception as e:
                err = e
            return f'{attr}_unit={u}', err is None, err
        if k == 'to_dict':
            d = obj.to_dict()
            d.pop('crystal', None)
            d.pop('qpts', None)
            d.pop('weights', None)
            self.spoil(d)
            return 'the dictionary to_dict returned', False, None
        if k == 'imul':
            if cls == 'Spectrum2DCollection':
                obj.z_data = obj.z_data*1.5
            else:
                obj *= 1.5
            return 'scaled in place', True, None
        if k == 'meta':
            obj.metadata[rng.choice(['label', 'species', 'new'])] = rng.choice(['a', 'b', 3])
            return 'metadata item', True, None
        if k == 'metadel':
            keys = [x for x in obj.metadata if x != 'line_data']
            if not keys:
                return None
            del obj.metadata[rng.choice(sorted(keys))]
            return 'metadata item deleted', True, None
        if k == 'line':
            if 'line_data' not in obj.metadata:
                return None
            obj.metadata['line_data'][0]['species'] = 'Edited'
            return 'line metadata', True, None
        if k == 'ticks':
            obj.x_tick_labels = [(0, 'Z')]
            return 'tick labels assigned', True, None
        if k == 'ticks_in':
            if obj.x_tick_labels is None:
                return None
            obj.x_tick_labels.append((1, 'Q'))
            return 'tick labels appended', True, None
        a = getattr(obj, rng.choice(ARRAYS[cls]))
        if a.dtype.kind == 'i':
            a += 1
        else:
            a *= 1.001
        return 'array attribute in place', True, None

    def shrink(self, case, res):
        st = case['steps']
        n = len(st)
        k = n//2
        while k >= 1:
            for i in range(0, n, k):
                if len(st) - len(st[i:i + k]) > 0:
                    yield dict(case, steps=st[:i] + st[i + k:])
            k //= 2


CHECK = C12()
