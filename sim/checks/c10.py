"""C10: command-line tools and exports on a simulated disk: what is said to be saved is saved, complete and right."""
import contextlib
import errno
import io
import json
import os
import random
import re
import shutil
import sys
import warnings

import numpy as np

from .. import boot, core, damage as D, files, fixtures as F, simfs, world as W

UNITS = ['meV', 'THz', '1/cm']
LENGTHS = ['angstrom', 'bohr']
PDOS_W = ['coherent-dos', 'incoherent-dos', 'coherent-plus-incoherent-dos']
SAID = re.compile(r'^(?:Written to|Saved plot to) (.+)$', re.M)


class C10(core.Check):
    id = 'C10'
    technique = ('deterministic simulation of storage: the command-line tools and export methods run in-process on a simulated disk with full disks, '
                 'write/open/close errors, interruptions, process death, damaged and failing inputs, against a reference built from library calls')
    rule = ('one evaluation = one run of a tool or export; a state is a distinct (tool, input kind, fault kind, outcome, messages printed); '
            'non-trivial = a fault took effect')
    n_runs = {'quick': 560, 'thorough': 2600}
    wall = {'quick': 110, 'thorough': 1200}
    run_timeout = 120
    real = ['euphonic.cli (all tools except the brille convergence plots), euphonic.plot, to_json_file, to_text_file, file readers, matplotlib, Pillow, '
            'json, numpy.savetxt, Python buffered and text I/O']
    stub = ['the raw file below them (write and read results, errors, capacity, process death)']
    assumptions = ['plots are saved as png, svg or pdf; HDF5 inputs are not damaged here (see C08)']

    def prepare(self, tier):
        simfs.install()
        boot.import_euphonic('plain')
        os.environ['SOURCE_DATE_EPOCH'] = '0'
        import matplotlib.pyplot as plt
        import matplotlib
        matplotlib.rcParams['svg.hashsalt'] = 'x'
        plt.figure()
        plt.text(0.1, 0.1, 'warm')
        plt.savefig(io.BytesIO(), format='png')
        plt.savefig(io.BytesIO(), format='svg')
        plt.savefig(io.BytesIO(), format='pdf')
        plt.close('all')
        import h5py, yaml, seekpath  # noqa: F401,E401
        from euphonic.cli import dos, dispersion, intensity_map, powder_map, show_sampling, optimise_dipole_parameter, brille_convergence  # noqa: F401
        from .. import fakegrid
        fakegrid.install()

    def warm(self, tier):
        for i, tool in enumerate(['dos', 'dispersion', 'map', 'powder', 'show']):
            rng = random.Random(i)
            case = self.generate(rng, i, tier, tool)
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    self.execute(dict(case, faults=[]), core.Outcome())
                except BaseException:
                    pass

    # ------------------------------------------------------------------ cases
    def generate(self, rng, idx, tier, tool=None):
        tool = tool or rng.choice(['dos']*6 + ['dispersion']*4 + ['map']*6 + ['powder']*5 + ['show', 'show', 'optimise', 'brille'] + ['export']*4)
        if tool == 'export':
            spec = W.gen_spec(rng)
            case = dict(tool=tool, spec=spec, obj=rng.choice(['s1', 's1b', 's1c', 'disp', 's1', 's1c', 'fc', 'qpm', 'sf', 's2', 'crystal', 'dw']),
                        text=rng.random() < 0.75, fmt=rng.choice([None, None, '%.10g', '%12.5e']), outs=['json'])
            case['faults'] = [self.gen_fault(rng, ['out.dat'], {}) for _ in range(8)]
            return case
        case = dict(tool=tool)
        if tool == 'show':
            case['opt'] = dict(npts=rng.randint(6, 30), sampling=rng.choice(['golden-square', 'regular-square', 'golden-sphere', 'recurrence-square',
                                                                            'sphere-from-square-grid', 'spherical-polar-grid', 'recurrence-cube',
                                                                            'spherical-polar-improved', 'random-sphere']), jitter=rng.random() < 0.4)
            case['plot'] = rng.choice(['png', 'svg', 'pdf'])
            case['json'] = False
            inp = {}
            ins = []
        else:
            fc_only = tool in ('powder', 'optimise', 'brille')
            kind = rng.choice(['json_fc', 'json_fc', 'castep_bin', 'phonopy_fc'] + ([] if fc_only else ['json_qpm', 'json_qpf', 'phonon', 'phonopy_phonons']))
            if kind.startswith('json'):
                case['input'] = dict(kind=kind, spec=W.gen_spec(rng))
            else:
                s = files.gen_spec(rng, kind)
                if kind in ('phonon', 'phonopy_phonons'):
                    s['nq'] = rng.choice([3, 5, 8])
                    s['evec'] = True
                case['input'] = dict(kind=kind, spec=s, direct=rng.random() < 0.4)
            inp, _, _ = self.inputs(case)
            ins = sorted(inp)
            is_fc = kind in ('json_fc', 'castep_bin', 'phonopy_fc')
            evec = kind not in ('json_qpf',)
            o = case['opt'] = dict(energy_unit=rng.choice(UNITS), asr=rng.choice([None, None, 'reciprocal', 'realspace']),
                                   dp=rng.choice([1.0, 1.0, 0.7]), length_unit=rng.choice(LENGTHS), scale=rng.choice([None, None, 2.5, 0.0]))
            if tool not in ('optimise', 'brille'):
                case['plot'] = rng.choice(['png', 'png', 'png', 'svg', 'pdf', None])
                case['json'] = case['plot'] is None or rng.random() < 0.8
            else:
                case['plot'], case['json'] = None, False
            o['ebins'] = rng.choice([5, 12, 30])
            o['e_range'] = rng.choice([[None, None], [None, None], [0.0, 30.0], [-1.0, 12.0], [None, 25.0], [2.0, None], [0.0, None], [-3.0, None], [None, 0.5]])
            o['eb'] = rng.choice([None, None, None, [1.5], [0.2], [1.5], [0.4, 0.02], [0.3, 0.01, 1e-4]])
            o['ib'] = rng.choice([None, None, [0.7], [0.5, 0.01]]) if tool == 'dos' else None
            o['qb'] = rng.choice([None, [0.3]] + ([[0.2, 0.05]] if tool == 'powder' else []))
            o['q_step'] = rng.choice([0.1, 0.2, 0.3])
            o['shape'] = rng.choice(['gauss', 'lorentz'])
            o['temperature'] = rng.choice([None, 5.0, 300.0, 0.0])
            o['reorder'] = evec and rng.random() < 0.3
            o['grid'] = rng.choice([[2, 2, 2], [1, 2, 3], [3, 1, 1], None])
            o['grid_spacing'] = rng.choice([0.6, 1.0])
            o['adaptive'] = tool == 'dos' and is_fc and rng.random() < 0.35
            o['a_scale'] = rng.choice([None, 2.0, 0.5])
            o['a_method'] = rng.choice([None, 'reference', 'fast', 'fast'])
            o['a_error'] = rng.choice([None, 0.03])
            o['a_fit'] = rng.choice([None, 'cubic', 'cheby-log'])
            if o['adaptive'] and o['eb'] and len(o['eb']) == 1:
                o['a_scale'] = None
            elif o['eb']:
                o['ib'] = None
            if rng.random() < 0.5:
                o['ib'] = None
            o['c'] = rng.choice([False, False, True])
            o['bare_asr'] = o['asr'] == 'reciprocal' and rng.random() < 0.5
            o['labels'] = rng.random() < 0.4
            o['style'] = rng.choice([None, None, dict(lw=rng.choice([None, 2.5]), cmap=rng.choice([None, 'bone']), nobase=rng.random() < 0.5,
                                                     extra=rng.random() < 0.5, font=rng.random() < 0.3)])
            o['widgets'] = rng.random() < 0.4
            o['vlim'] = rng.choice([[None, None], [None, None], [0.0, 1.0], [None, 1e9], [0.0, None]])
            o['btol'] = rng.choice([None, None, 1.5, 3.0])
            o['weighting'] = 'dos'
            o['pdos'] = None
            if tool == 'dos' and evec and rng.random() < 0.5:
                o['weighting'] = rng.choice(['dos'] + PDOS_W)
                o['pdos'] = rng.choice([None, [], ['#0']])
            if tool == 'powder' and rng.random() < 0.4:
                o['weighting'] = rng.choice(PDOS_W)
                o['pdos'] = rng.choice([None, None, ['#0']])
            elif tool in ('map', 'powder') and evec and rng.random() < 0.5:
                o['weighting'] = 'coherent'
                if not is_fc:
                    o['temperature'] = None
            o['sampling'] = rng.choice(['golden', 'sphere-projected-grid', 'spherical-polar-grid', 'recurrence-sphere'])
            if tool == 'brille' or tool == 'powder' and rng.random() < 0.25:
                o['brille'] = [rng.choice([None, 'trellis', 'mesh', 'nest']), rng.choice([None, 20, 3000]), rng.choice([None, None, 40, 2000])]
                o['c'] = o['c'] and tool == 'powder'
            if tool == 'brille':
                o['npts'], o['n'] = rng.randint(2, 12), rng.choice([0, 0, 1, 3])
                o['brille'][1:] = [rng.choice([[20], [30, 3000]]), rng.choice([None, None, [40], [50, 2000]])]
                o['eb'] = rng.choice([None, [1.5], [0.3]])
            if tool == 'powder':
                o['sampling'] = rng.choice(['golden', 'sphere-projected-grid', 'spherical-polar-grid'])
                o['kinematic'] = rng.choice([None, None, ['i', 20.0], ['f', 4.0], ['i', 8.0]])
                o['angles'] = rng.choice([None, [10.0, 130.0]])
                o['density'] = rng.choice([None, None, None, [3, 4, 9], [2, 100, 10000]])
                o['jitter'] = rng.random() < 0.3
                o['sampling'] = rng.choice([o['sampling']]*3 + ['random-sphere', 'spherical-polar-improved'])
        outs = (['out.json'] if case['json'] else []) + ([f'out.{case["plot"]}'] if case['plot'] else [])
        n = 3 if tool == 'optimise' else 2 if tool == 'brille' else 0 if rng.random() < 0.6 else 5
        if tool not in ('show', 'optimise', 'brille') and rng.random() < 0.3:
            case['bad'] = [[i, rng.random() < 0.5] for i in rng.sample(range(12), 2)]
        case['faults'] = [self.gen_fault(rng, outs, inp, ins) for _ in range(n)]
        return case

    def gen_fault(self, rng, outs, inp, ins=()):
        d = dict(old=rng.random() < 0.5)
        if ins and (rng.random() < 0.35 or not outs):
            f = rng.choice([x for x in ins if not x.endswith('.hdf5')] or list(ins))
            k = rng.choice(['missing', 'cut', 'cut', 'cut', 'eio_at', 'open_error', 'zero_tail'])
            if f.endswith('.hdf5'):
                k = 'missing'
            if f == 'BORN' and k == 'missing':
                k = 'cut'
            d.update(kind=k, file=f, input=True)
            size = len(inp[f])
            if k in ('cut', 'zero_tail', 'eio_at'):
                d['at'] = rng.choice([rng.randrange(size), rng.randrange(size), 0, max(0, size - rng.randint(1, 200))])
            if k == 'open_error':
                d.update(errno=rng.choice([errno.EIO, errno.EACCES, errno.ENOENT]), nth=1)
            return d
        f = rng.choice(outs)
        k = rng.choice(['space', 'space', 'space', 'eio_write', 'eio_write', 'interrupt', 'crash', 'crash', 'close_error', 'open_error', 'short', 'none'])
        d.update(kind=k, file=f)
        if k in ('space', 'crash'):
            d['frac'] = rng.choice([0.0, rng.random(), rng.random(), rng.random(), 0.9999])
        if k in ('eio_write', 'interrupt'):
            d['nth'] = rng.choice([1, 1, 2, 3, rng.randrange(1, 12)])
            d['errno'] = rng.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EFBIG])
        if k == 'open_error':
            d['errno'] = rng.choice([errno.EACCES, errno.EROFS, errno.ENOSPC, errno.EMFILE])
        if k == 'short':
            d['seed'] = rng.randrange(1 << 30)
        d['bufsize'] = rng.choice([256, 1024, 8192])
        return d

    # ----------------------------------------------------------------- inputs
    def inputs(self, case):
        """({name: bytes}, main file name, loader(dir) -> library object)"""
        if 'input' not in case:
            return {}, None, None
        from euphonic import ForceConstants, QpointFrequencies, QpointPhononModes
        kind, spec = case['input']['kind'], case['input']['spec']
        if kind.startswith('json'):
            key = json.dumps(case['input'], sort_keys=True)
            if not hasattr(self, '_json'):
                self._json = {}
            if key not in self._json:
                objs = W.build(spec)
                o = objs[{'json_fc': 'fc', 'json_qpm': 'qpm', 'json_qpf': 'qpf'}[kind]]
                p = os.path.join(boot.scratch(), f'in-{os.getpid()}.json')
                with contextlib.redirect_stdout(io.StringIO()):
                    o.to_json_file(p)
                with open(p, 'rb') as f:
                    self._json[key] = f.read()
                os.unlink(p)
            cls = dict(json_fc=ForceConstants, json_qpm=QpointPhononModes, json_qpf=QpointFrequencies)[kind]
            return {'data.json': self._json[key]}, 'data.json', lambda d, fo=False: (QpointFrequencies if fo and cls is QpointPhononModes else cls).from_json_file(f'{d}/data.json')
        content = files.WRITERS[kind](spec)
        names = sorted(content)
        if kind == 'castep_bin':
            return content, names[0], lambda d, fo=False: ForceConstants.from_castep(f'{d}/{names[0]}')
        if kind == 'phonon':
            n = [x for x in names if x.endswith('.phonon')][0]
            return content, n, lambda d, fo=False: (QpointFrequencies if fo else QpointPhononModes).from_castep(f'{d}/{n}')
        if kind == 'phonopy_fc':
            kw = dict(summary_name='phonopy.yaml')
            if 'BORN' in names:
                kw['born_name'] = 'BORN'
            fc = [x for x in names if x in ('FORCE_CONSTANTS', 'force_constants.hdf5')]
            if fc:
                kw['fc_name'] = fc[0]
            return content, fc[0] if fc and fc[0].endswith('.hdf5') and case['input'].get('direct') else 'phonopy.yaml', lambda d, fo=False: ForceConstants.from_phonopy(path=d, **kw)
        n = [x for x in names if x != 'phonopy.yaml'][0]
        return content, n, lambda d, fo=False: (QpointFrequencies if fo else QpointPhononModes).from_phonopy(path=d, phonon_name=n)

    # -------------------------------------------------------------- reference
    def ebins(self, freqs, o, headroom):
        from euphonic import ureg
        f = freqs.to(o['energy_unit'])
        lo, hi = o['e_range']
        if lo is None:
            lo = min(np.min(f.magnitude) - ureg.Quantity(1e-5, 'meV').to(o['energy_unit']).magnitude, 0.)
        if hi is None:
            k = o.get('kinematic')
            hi = k[1] if k and k[0] == 'i' else np.max(f.magnitude)*headroom
        if hi <= lo:
            raise ValueError('no energy range')
        return ureg.Quantity(np.linspace(lo, hi, o['ebins'] + 1), o['energy_unit'])

    def expected(self, case, d):
        """what the library computes for the same request: spectrum, list of spectra plotted"""
        from euphonic import ForceConstants, Spectrum1D, Spectrum1DCollection, Spectrum2D, ureg
        from euphonic.util import get_qpoint_labels, mode_gradients_to_widths, mp_grid
        from euphonic.spectra import apply_kinematic_constraints
        from euphonic import powder
        tool, o = case['tool'], case['opt']
        _, _, load = self.inputs(case)
        eu, recip = o['energy_unit'], f'1/{o["length_unit"]}'
        kw = dict(asr=o['asr'], dipole_parameter=o['dp'], use_c=o['c'], **(dict(n_threads=1) if o['c'] else {}))
        if tool == 'brille':
            return self.expected_convergence(load(d), o, kw)

        def grid(data):
            return mp_grid(tuple(o['grid']) if o['grid'] else data.crystal.get_mp_grid_spec(ureg.Quantity(o['grid_spacing'], recip)))

        def width(coef, unit):
            """a width, or the polynomial that gives it as a function of position"""
            if not coef:
                return None
            if len(coef) == 1:
                return ureg.Quantity(coef[0], unit)
            return lambda x: ureg.Quantity(sum(c*x.to(unit).magnitude**i for i, c in enumerate(coef)), unit)
        if tool == 'dos':
            plain = o['weighting'] == 'dos' and o['pdos'] is None
            data = load(d, plain)
            widths = None
            if isinstance(data, ForceConstants):
                q = grid(data)
                if o['adaptive']:
                    modes, grads = data.calculate_qpoint_phonon_modes(q, return_mode_gradients=True, **kw)
                    widths = mode_gradients_to_widths(grads, modes.crystal.cell_vectors)
                    a_scale, inst = self.adaptive(o)
                    if a_scale is not None:
                        widths = widths*a_scale
                    if inst and o['shape'] == 'gauss':
                        w = width(inst, eu)
                        w = w(modes.frequencies) if callable(w) else w
                        widths = np.sqrt(widths.to(eu)**2 + w**2)
                else:
                    modes = data.calculate_qpoint_phonon_modes(q, **kw)
            else:
                modes = data
            modes.frequencies_unit = eu
            bins = self.ebins(modes.frequencies, o, 1.05)
            akw = dict(mode_widths=widths)
            if widths is not None:
                akw.update(adaptive_method=o['a_method'] or 'reference', adaptive_error=o['a_error'] or 0.01, adaptive_error_fit=o['a_fit'] or 'cubic')
            if plain:
                s = modes.calculate_dos(bins, **akw)
            else:
                p = modes.calculate_pdos(bins, **akw, weighting=None if o['weighting'] == 'dos' else o['weighting'][:-4])
                s = p.sum()
                if o['pdos'] is not None:
                    groups, sp = [], []
                    for i in range(len(p)):
                        k = p.metadata['line_data'][i]['species'] if 'line_data' in p.metadata else p.metadata['species']
                        if k in sp:
                            groups[sp.index(k)] = groups[sp.index(k)] + p.y_data[i]
                        else:
                            sp.append(k)
                            groups.append(p.y_data[i])
                    lines = [('Total', s.y_data)] + list(zip(sp, groups)) if not o['pdos'] else [(k, y) for k, y in zip(sp, groups) if k in o['pdos']]
                    s = Spectrum1DCollection(p.x_data, ureg.Quantity(np.array([y.to(p.y_data.units).magnitude for _, y in lines]), p.y_data.units),
                                             metadata=dict(line_data=[dict(label=k) for k, _ in lines]))
            w = width(self.adaptive(o)[1] if o['adaptive'] else o['eb'] or o['ib'], eu)
            if w is not None and not (o['adaptive'] and o['shape'] == 'gauss'):
                if callable(w):
                    s = s.broaden(x_width=w, shape=o['shape'], method='convolve', width_interpolation_error=o['a_error'] or 0.01, width_fit='cheby-log')
                else:
                    s = s.broaden(w, shape=o['shape'])
            if o['scale'] is not None:
                s *= o['scale']
            return s, [s]
        if tool in ('dispersion', 'map'):
            data = load(d, not o['reorder'] if tool == 'dispersion' else o['weighting'] != 'coherent')
            split, ticks = dict(btol=o['btol'] or 10.0), None
            if isinstance(data, ForceConstants):
                import seekpath
                path = seekpath.get_explicit_k_path(data.crystal.to_spglib_cell(),
                                                    reference_distance=(o['q_spacing']*ureg(recip)).to('1/angstrom').magnitude)
                q, lab = [list(x) for x in path['explicit_kpoints_rel']], list(path['explicit_kpoints_labels'])
                if tool == 'dispersion':
                    # every interior gamma point is there twice, for LO-TO splitting
                    i = 1
                    while i < len(lab) - 1:
                        if lab[i] == 'GAMMA':
                            q.insert(i, [0., 0., 0.])
                            lab.insert(i, 'GAMMA')
                            i += 1
                        i += 1
                ticks = [(i, r'$\Gamma$' if t == 'GAMMA' else t) for i, t in enumerate(lab) if t]
                split = dict(indices=[i + 1 for i in range(len(lab) - 1) if lab[i] and lab[i + 1] and lab[i] != lab[i + 1]])
                modes = data.calculate_qpoint_phonon_modes(np.array(q), reduce_qpts=False, **kw)
            else:
                modes = data
                if tool == 'map':
                    ticks = get_qpoint_labels(modes.qpts, cell=modes.crystal.to_spglib_cell())
            modes.frequencies_unit = eu
            if tool == 'dispersion':
                if o['reorder']:
                    modes.reorder_frequencies()
                s = modes.get_dispersion()
                if ticks:
                    s.x_tick_labels = ticks
                return s, s.split(**split)
            bins = self.ebins(modes.frequencies, o, 1.05)
            if o['weighting'] == 'coherent':
                dw = None
                if o['temperature'] is not None:
                    dw = data.calculate_qpoint_phonon_modes(grid(data), **kw).calculate_debye_waller(ureg.Quantity(o['temperature'], 'K'))
                s = modes.calculate_structure_factor(dw=dw).calculate_sqw_map(bins)
            else:
                s = modes.calculate_dos_map(bins)
            if o['qb'] or o['eb']:
                s = s.broaden(x_width=width(o['qb'], recip), y_width=width(o['eb'], eu), shape=o['shape'], method='convolve')
            if ticks:
                s.x_tick_labels = ticks
            if o['scale'] is not None:
                s *= o['scale']
            return s, s.split(**split)
        # powder
        fc = load(d)
        if o.get('brille'):
            fc, kw = self.brille(fc, o['brille'], kw), dict(useparallel=False, threads=1) if o['c'] else {}
        edges = ureg.Quantity(np.linspace(o['q_min'], o['q_max'], o['nq'] + 1), recip)
        m = fc.calculate_qpoint_frequencies(np.array([[0., 0., 0.5]]), **kw)
        bins = self.ebins(m.frequencies, o, 1.2)
        dw, t = None, None
        if o['weighting'] == 'coherent' and o['temperature'] is not None:
            t = ureg.Quantity(o['temperature'], 'K')
            dw = fc.calculate_qpoint_phonon_modes(grid(fc), **kw).calculate_debye_waller(t)
        rows = []
        for i in range(o['nq']):
            q = (edges[i] + edges[i + 1])/2
            npts = o['npts']
            if o['density']:
                dens, least, most = o['density']
                npts = max(least, min(most, int(np.ceil(dens*q.magnitude**2))))
            skw = dict(npts=npts, sampling=o['sampling'], jitter=o['jitter'], energy_bins=bins, **kw)
            if o['weighting'] == 'coherent':
                s1 = powder.sample_sphere_structure_factor(fc, q, dw=dw, temperature=t, **skw)
            elif o['weighting'] == 'dos' and o['pdos'] is None:
                s1 = powder.sample_sphere_dos(fc, q, **skw)
            else:
                p = powder.sample_sphere_pdos(fc, q, weighting=None if o['weighting'] == 'dos' else o['weighting'][:-4], **skw)
                s1 = p.select(species=o['pdos'][0]).sum() if o['pdos'] else p.sum()
            rows.append(s1.y_data.to(s1.y_data.units))
        s = Spectrum2D(edges, bins, ureg.Quantity(np.array([r.to(rows[0].units).magnitude for r in rows]), rows[0].units))
        if o['eb'] or o['qb']:
            s = s.broaden(x_width=width(o['qb'], recip), y_width=width(o['eb'], eu), shape=o['shape'])
        top = np.nanmax(np.abs(s.z_data.magnitude), initial=0.)*abs(o['scale'] if o['scale'] is not None else 1.)
        if o['kinematic']:
            s = apply_kinematic_constraints(s, **{'e_' + o['kinematic'][0]: ureg.Quantity(o['kinematic'][1], eu)}, angle_range=tuple(o['angles'] or (0., 180.)))
        if o['scale'] is not None:
            s *= o['scale']
        s._rounding = 1e-13*top                      # of convolutions by FFT; what remains after the constraint can be much smaller
        return s, [s]

    @staticmethod
    def brille(fc, b, kw):
        from euphonic.brille import BrilleInterpolator
        return BrilleInterpolator.from_force_constants(fc, grid_type=b[0] or 'trellis', grid_npts=b[1] or 5000, grid_density=b[2], interpolation_kwargs=kw)

    def expected_convergence(self, fc, o, kw):
        """[(what, numbers)] of the lines drawn by euphonic-brille-convergence"""
        from euphonic import sampling, ureg
        q = np.array(list(sampling.recurrence_sequence(o['npts'], order=3)))
        modes = fc.calculate_qpoint_phonon_modes(q, **kw)
        modes.frequencies_unit = o['energy_unit']
        sf = modes.calculate_structure_factor()
        bins = self.ebins(modes.frequencies, o, 1.05)

        def spectra(sf):
            avg = sf.calculate_1d_average(bins)
            if o['eb']:
                avg = avg.broaden(ureg.Quantity(o['eb'][0], o['energy_unit']), shape=o['shape'])
            rows = []
            if o['n']:
                m = sf.calculate_sqw_map(bins)
                if o['eb']:
                    m = m.broaden(y_width=ureg.Quantity(o['eb'][0], o['energy_unit']), shape=o['shape'])
                rows = [m.z_data[i + 1].magnitude for i in range(o['n'])]
            return [avg.y_data.magnitude] + rows
        plain = spectra(sf)
        lines = {('f', 0): [], ('sf', 0): []}
        for i, y in enumerate(plain):
            lines['i', i], lines['e', i] = [y], []
        for size in o['brille'][2] or o['brille'][1]:
            b = self.brille(fc, [o['brille'][0], None if o['brille'][2] else size, size if o['brille'][2] else None], kw)
            m2 = b.calculate_qpoint_phonon_modes(q)
            m2.frequencies_unit = o['energy_unit']
            sf2 = m2.calculate_structure_factor()
            lines['f', 0].append((m2.frequencies - modes.frequencies).magnitude.ravel())
            lines['sf', 0].append((sf2.structure_factors - sf.structure_factors).magnitude.ravel())
            for i, (y, y2) in enumerate(zip(plain, spectra(sf2))):
                lines['i', i].append(y2)
                lines['e', i].append(y2 - y)
        return lines

    def compare_convergence(self, lines):
        import matplotlib.pyplot as plt
        figs = [plt.figure(n) for n in plt.get_fignums()]
        want = [[lines['f', 0]], [lines['sf', 0]]] + [[lines['i', i], lines['e', i]] for k, i in lines if k == 'i']
        if [len(f.axes) for f in figs] != [len(w) for w in want]:
            return f'figures with {[len(f.axes) for f in figs]} axes, expected {[len(w) for w in want]}'
        for i, (f, w) in enumerate(zip(figs, want)):
            for ax, ys in zip(f.axes, w):
                got = [np.asarray(x.get_data_3d()[2] if i == 1 else x.get_ydata(), dtype=float) for x in ax.lines]
                if len(got) != len(ys):
                    return f'figure {i}: {len(got)} lines, expected {len(ys)}'
                for g, y in zip(got, ys):
                    m = self.close(g, y, f'figure {i}', 1e-12)
                    if m:
                        return m
        return None

    def bad_requests(self, case):
        """arguments that make any request of this tool impossible"""
        tool, kind, o = case['tool'], case['input']['kind'], case['opt']
        r = [['--energy-unit', 'nonsense'], ['--save-jsn', 'x'], ['--asr=nonsense'], ['--dipole-parameter', 'x']]
        if kind == 'json_qpf':
            r += dict(dos=[['--pdos'], ['--weighting', 'coherent-dos']], dispersion=[['--reorder']], map=[['--weighting', 'coherent']]).get(tool, [])
        if not kind.endswith(('fc', 'bin')):
            r += dict(dos=[['--adaptive']], map=[['--weighting', 'coherent', '--temperature', '5']]).get(tool, [])
        elif tool == 'dos':
            r += [['--adaptive', '--adaptive-scale', '2', '--eb', '1.5'], ['--adaptive', '--instrument-broadening', '1', '--eb', '1.5', '0.1']]
        if tool != 'dispersion':
            r += [['--weighting', 'nonsense'], ['--shape', 'nonsense'], ['--energy-unit', 'kg']]
        if tool == 'powder':
            r += [['--e-i', '20', '--e-f', '4'], ['--weighting', 'coherent', '--pdos', 'Na'], ['--sampling', 'nonsense'], ['--length-unit', 'nonsense']]
        if tool in ('dos', 'powder') and kind != 'json_qpf' and o['weighting'] != 'coherent':
            r += [['--pdos', 'Xx']]
        return r

    def argv(self, case, d, main):
        tool, o = case['tool'], case['opt']
        if tool == 'show':
            return [str(o['npts']), o['sampling'], '-s', f'{d}/out.{case["plot"]}'] + (['--jitter'] if o['jitter'] else [])
        a = [f'{d}/{main}'] + (['--use-c', '--n-threads', '1'] if o['c'] else ['--disable-c'])
        if o['asr']:
            a += ['--asr' if o['bare_asr'] else f'--asr={o["asr"]}']
        if tool == 'optimise':
            return a + ['-n', '2', '--min', '0.5', '--max', '1.0', '--step', '0.25']
        a += [f'--dipole-parameter={o["dp"]}', '--energy-unit', o['energy_unit'], '--length-unit', o['length_unit'],
              '--figsize', '3', '2', '--figsize-unit', 'inches', '--fontsize', '6']
        if o.get('brille'):
            b = o['brille']
            a += ['--use-brille'] if tool == 'powder' else []
            a += ['--brille-grid-type', b[0]] if b[0] else []
            for k, v in (('npts', b[1]), ('npts-density', b[2])):
                a += [f'--brille-{k}'] + [str(x) for x in np.atleast_1d(v)] if v else []
        if tool == 'brille':
            a = [f'{d}/{main}', '--disable-c', f'--dipole-parameter={o["dp"]}', '--energy-unit', o['energy_unit']]
            a += [f'--asr={o["asr"]}'] if o['asr'] else []
            b = o['brille']
            a += ['--brille-grid-type', b[0]] if b[0] else []
            a += ['--brille-npts'] + [str(x) for x in b[1]] + (['--brille-npts-density'] + [str(x) for x in b[2]] if b[2] else [])
            a += ['--npts', str(o['npts']), '-n', str(o['n']), '--ebins', str(o['ebins']), '--shape', o['shape']]
            a += ['--energy-broadening', str(o['eb'][0])] if o['eb'] else []
            return a + [f'--e-{m}={v}' for m, v in zip(('min', 'max'), o['e_range']) if v is not None]
        if case['json']:
            a += ['--save-json', f'{d}/out.json']
        if case['plot']:
            a += ['--save-to', f'{d}/out.{case["plot"]}']
        if tool != 'dispersion':
            a += ['--ebins', str(o['ebins'])]
            a += [f'--e-{m}={v}' for m, v in zip(('min', 'max'), o['e_range']) if v is not None]
            if o['scale'] is not None:
                a += ['--scale', str(o['scale'])]
            if o['eb']:
                a += [['--energy-broadening', '--eb'][o['ebins'] % 2]] + [str(x) for x in o['eb']]
            if o['ib']:
                a += ['--instrument-broadening'] + [str(x) for x in o['ib']]
            a += ['--shape', o['shape'], '--weighting', o['weighting']]
            a += ['--grid'] + [str(x) for x in o['grid']] if o['grid'] else ['--grid-spacing', str(o['grid_spacing'])]
        st = o.get('style')
        if st:
            a += ['--linewidth', str(st['lw'])] if st['lw'] and tool in ('dos', 'dispersion') else []
            a += ['--cmap', st['cmap']] if st['cmap'] and tool in ('map', 'powder') else []
            a += ['--no-base-style'] if st['nobase'] else []
            a += ['--style', 'dark_background'] if st['extra'] else []
            a += ['--font', 'DejaVu Sans'] if st['font'] else []
        if o['labels']:
            a += ['--title', 'The title', '--xlabel', 'along x', '--ylabel', 'along y']
        if tool in ('map', 'powder'):
            a += [f'--v{m}={v}' for m, v in zip(('min', 'max'), o['vlim']) if v is not None]
            if o['qb']:
                a += ['--q-broadening'] + [str(x) for x in o['qb']]
            if o['temperature'] is not None and o['weighting'] == 'coherent':
                a += ['--temperature', str(o['temperature'])]
        if tool in ('dispersion', 'map'):
            a += ['--q-spacing', repr(o['q_spacing'])]
            if o['btol']:
                a += ['--btol', str(o['btol'])]
        if tool == 'dispersion' and o['reorder']:
            a += ['--reorder']
        if tool == 'dos':
            if o['adaptive']:
                a += ['--adaptive']
            for n in ('scale', 'method', 'error', 'fit'):
                if o['a_' + n] is not None:
                    a += ['--adaptive-' + n, str(o['a_' + n])]
        if tool == 'powder':
            if o['density']:
                a += ['--npts-density', str(o['density'][0]), '--npts-min', str(o['density'][1]), '--npts-max', str(o['density'][2])]
            else:
                a += ['--npts', str(o['npts'])]
            a += ['--q-min', str(o['q_min']), '--q-max', str(o['q_max']), '--q-spacing', repr((o['q_max'] - o['q_min'])/o['nq']*1.0001),
                  '--sampling', o['sampling']] + ([] if o.get('widgets') else ['--no-widgets'])
            if o['kinematic']:
                a += ['--e-' + o['kinematic'][0], str(o['kinematic'][1])]
                if o['angles']:
                    a += ['--angle-range'] + [str(x) for x in o['angles']]
            if o['jitter']:
                a += ['--jitter']
        if o['pdos'] is not None and tool in ('dos', 'powder'):
            a += ['--pdos'] + o['pdos']
        return a

    @staticmethod
    def adaptive(o):
        """(scale of the adaptive widths, coefficients of the instrumental width)"""
        if o['eb'] and len(o['eb']) == 1:
            return o['eb'][0], o['ib']
        return o['a_scale'], o['eb'] or o['ib']

    def run_tool(self, case, argv):
        """(return value or exception, stdout)"""
        import importlib
        import matplotlib.pyplot as plt
        plt.close('all')
        mod = importlib.import_module('euphonic.cli.' + dict(map='intensity_map', powder='powder_map', show='show_sampling',
                                                             optimise='optimise_dipole_parameter', brille='brille_convergence').get(case['tool'], case['tool']))
        buf = io.StringIO()
        np.random.seed(5)
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()), np.errstate(all='ignore'):
            try:
                mod.main(list(argv))
                return None, buf.getvalue()
            except BaseException as e:
                if isinstance(e, core.Violation):
                    raise
                return e, buf.getvalue()

    # -------------------------------------------------------------- execution
    def execute(self, case, out):
        warnings.simplefilter('ignore')
        top = os.path.join(boot.scratch(), f'run-{os.getpid()}')
        os.makedirs(top)
        d = os.path.join(top, 'd')
        try:
            out.evals = 0
            out.nontrivial = False
            if case['tool'] == 'export':
                self.run_export(case, out, top, d)
            else:
                self.run_cli(case, out, top, d)
        finally:
            shutil.rmtree(top, ignore_errors=True)

    def fill(self, d, content, fault, outs, old):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        plan = D.apply(d, content, fault if fault.get('input') else dict(kind='none'))
        for n in outs:
            if old:
                with simfs._real['io_open'](os.path.join(d, n), 'wb') as f:
                    f.write(b'previous contents')
        return plan

    def write_plan(self, fault, total):
        plan = {'*bufsize': fault.get('bufsize', 8192)}
        k = fault['kind']
        if k in ('space', 'crash'):
            plan['*' + k] = max(1 if k == 'crash' else 0, int(fault['frac']*total))
        elif k == 'short':
            plan['*short'] = fault['seed']
        elif k == 'open_error':
            plan[fault['file']] = [dict(kind=k, mode='w', errno=fault['errno'])]
        elif k != 'none':
            plan[fault['file']] = [dict(fault, mode='w')]
        return plan

    @staticmethod
    def contents(d, outs):
        got = {}
        for n in outs:
            try:
                with simfs._real['io_open'](os.path.join(d, n), 'rb') as f:
                    got[n] = f.read()
            except FileNotFoundError:
                got[n] = None
        return got

    def run_cli(self, case, out, top, d):
        o = case['opt']
        tool = case['tool']
        content, main, load = self.inputs(case)
        outs = (['out.json'] if case['json'] else []) + ([f'out.{case["plot"]}'] if case['plot'] else [])
        self.fill(d, content, {}, outs, False)
        if load is not None:
            data = load(d)
            L = 1.0 if o['length_unit'] == 'angstrom' else 0.529177
            o['q_spacing'] = round(o['q_step']*L, 4)
            o['q_min'], o['q_max'], o['nq'], o['npts'] = 0.2, 2.0, 3, 7
            if o.get('pdos') == ['#0']:
                o['pdos'] = [str(data.crystal.atom_type[0])]
        argv = self.argv(case, d, main)
        what = f'{tool} {" ".join(argv)} on {case.get("input", {}).get("kind")}'
        fs = simfs.SimFS(top, {}, out)
        with fs:
            e, said = self.run_tool(case, argv)
        out.evals += 1
        kind = case.get('input', {}).get('kind', '')
        exp = None
        if tool not in ('show', 'optimise'):
            with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
                try:
                    np.random.seed(5)
                    exp = self.expected(case, d)
                except Exception as x:
                    if e is None:
                        import traceback
                        raise RuntimeError(f'reference failed but the tool did not: {what}: {x!r}\n{traceback.format_exc()}') from None
                    out.probe('request not possible')
                    return
        if exp and tool != 'brille' and e is not None and any(len(p.x_data) < 2 or np.ptp(p.x_data.magnitude) == 0 for p in exp[1]):
            out.probe('a single point makes no plot')
            return
        if e is not None:
            import traceback
            out.fail('fails', f'{what}: fails on a healthy system: {type(e).__name__}: {e} {"".join(traceback.format_tb(e.__traceback__)[-3:])}', f'fails-{tool}-{type(e).__name__}')
            return
        want = self.contents(d, outs)
        m = self.truthful(said, d, outs, want, want, True) or (self.compare_convergence(exp) if tool == 'brille' else self.compare(case, exp, want) if exp else self.compare_points(o) if tool == 'show' else None)
        if m:
            out.fail('wrong-output', f'{what}: {m}', f'wrong-{tool}')
            return
        total = fs.bytes_written
        out.sigs.add(f'{tool}:{kind}:ok')
        for i, old in case.get('bad', []):
            bad = self.bad_requests(case)
            bad = bad[i % len(bad)]
            self.fill(d, content, {}, outs, old)
            with simfs.SimFS(top, {}, out):
                e, said = self.run_tool(case, argv + bad)
            out.evals += 1
            out.fault('impossible request')
            out.sigs.add(f'{tool}:{kind}:{bad}:{type(e).__name__}')
            got = self.contents(d, outs)
            if e is None or isinstance(e, SystemExit) and e.code in (0, None):
                out.fail('accepted', f'{what}: returns normally although asked for {bad}', f'accepted-{tool}-{bad[0]}')
                return
            wrong = [n for n in outs if got[n] != (b'previous contents' if old else None)]
            if wrong or SAID.search(said):
                out.fail('output-despite-error', f'{what} with {bad}: {type(e).__name__}: {e}, yet {wrong} written, said {said[-100:]!r}', f'bad-{tool}-{bad[0]}')
                return
        for f in case['faults']:
            plan = self.fill(d, content, f, outs, f['old'])
            if not f.get('input'):
                plan.update(self.write_plan(f, total))
            plan['*budget'] = 50*fs.n_reads + sum(map(len, content.values())) + 5000
            fs2 = simfs.SimFS(top, plan, out)
            with fs2:
                e, said = self.run_tool(case, argv)
            out.evals += 1
            if f.get('input') and f['kind'] in ('missing', 'cut', 'zero_tail'):
                out.fault('input_' + f['kind'])
            out.nontrivial = out.nontrivial or bool(fs2.fired) or f.get('input', False)
            got = self.contents(d, outs)
            out.sigs.add(f'{tool}:{kind}:{f["kind"]}:{f["file"]}:{type(e).__name__}:{len(SAID.findall(said))}')
            out.log(f['kind'], f['file'], type(e).__name__)
            m = self.judge(case, f, fs2, e, said, got, want, outs, d, content)
            if m:
                out.fail(m[0], f'{what}: with {f}: {m[1]}', f'{m[0]}-{tool}-{f["kind"]}')
                return
        out.sample = dict(tool=tool, argv=argv, faults=case['faults'][:2])

    def judge(self, case, f, fs, e, said, got, want, outs, d, content):
        m = self.truthful(said, d, outs, got, want, e is None)
        if f.get('input') and m:
            # the damaged input may hold the same data, or be outside of what damage can be told
            if self.excused(case, f, content, d):
                return None
        if m:
            return ('false-success', f'{m} (outcome {type(e).__name__}: {e})')
        if isinstance(e, simfs.SimHang):
            return ('hang', str(e))
        if e is None:
            return None
        if f.get('input'):
            bad = [n for n in outs if got[n] != (b'previous contents' if f['old'] else None)]
            if bad:
                return ('output-despite-error', f'{type(e).__name__}: {e}, yet {bad} were written')
        elif not fs.fired or fs.fired and set(fs.fired) <= {'short_write', 'short_read'}:
            return ('fails', f'fails with {type(e).__name__}: {e} although no fault took effect ({fs.fired[:3]})')
        return None

    def excused(self, case, f, content, d):
        """the damaged input loads by itself as other data: a matter for C07 and C08, with their exemptions"""
        data = content[f['file']]
        if f['kind'] == 'cut' and D.is_text(f['file']):
            try:
                _, _, load = self.inputs(case)
                with contextlib.redirect_stdout(io.StringIO()):
                    load(d)
                return True
            except Exception:
                return False
        return False

    @staticmethod
    def truthful(said, d, outs, got, want, returned):
        """None, or what is claimed but not true"""
        claimed = [os.path.basename(p) for p in SAID.findall(said)]
        for n in outs:
            if n in claimed or returned:
                how = 'reports it saved' if n in claimed else 'returns normally without having written'
                if got[n] is None:
                    return f'{how} {n}, which does not exist'
                if got[n] == b'previous contents':
                    return f'{how} {n}, which still has its previous contents'
                if got[n] != want[n]:
                    return f'{how} {n}, but the file has {len(got[n])} bytes against {len(want[n])} of the complete file, first difference at ' \
                           f'{next((i for i, (a, b) in enumerate(zip(got[n], want[n])) if a != b), min(len(got[n]), len(want[n])))}'
            if returned and n not in claimed:
                return f'returns normally but does not report {n}'
        for p in SAID.findall(said):
            if os.path.dirname(p) != os.path.realpath(d) or os.path.basename(p) not in outs:
                return f'reports {p}, which was not asked for'
        return None

    # ------------------------------------------------------------ correctness
    def compare(self, case, exp, want):
        import matplotlib.pyplot as plt
        s, parts = exp
        if case['json']:
            j = json.loads(want['out.json'])
            if j.get('__euphonic_class__') != type(s).__name__:
                return f'saved a {j.get("__euphonic_class__")}, expected {type(s).__name__}'
            for a in ('x_data', 'y_data', 'z_data'):
                if hasattr(s, a):
                    q = getattr(s, a)
                    m = self.close(j[a], q.magnitude, f'{a} saved in out.json', getattr(s, '_rounding', 0.) if a == 'z_data' else 0.)
                    if m:
                        return m
                    from euphonic import ureg
                    if ureg.Unit(j[a + '_unit']) != q.units:
                        return f'{a} saved in {j[a + "_unit"]}, expected {q.units}'
            t = [[int(i), str(x)] for i, x in s.x_tick_labels] if s.x_tick_labels else None
            g = [[int(i), str(x)] for i, x in j['x_tick_labels']] if j.get('x_tick_labels') else None
            if t != g:
                return f'tick labels saved {g}, expected {t}'
            if case['tool'] == 'dos' and case['opt']['pdos'] is not None and hasattr(s, 'metadata') and 'line_data' in s.metadata:
                labels = [x['label'] for x in s.metadata['line_data']]
                md = j['metadata']
                gl = [x.get('label', md.get('label')) for x in md['line_data']] if 'line_data' in md else [md.get('label')]*len(j['y_data'])
                if len(labels) == 1:
                    gl = [md.get('label', gl[0])]
                if gl != labels:
                    return f'lines are labelled {gl}, expected {labels}'
        axes = plt.gcf().axes
        if case['opt']['labels']:
            import matplotlib.text
            texts = [t.get_text() for t in plt.gcf().findobj(matplotlib.text.Text)]
            for t in ('The title', 'along x', 'along y'):
                if texts.count(t) != 1:
                    return f'{t!r} is drawn {texts.count(t)} times'
        if not np.allclose(plt.gcf().get_size_inches(), [3, 2]):
            return f'figure of {plt.gcf().get_size_inches()} inches, expected 3 by 2'
        st = case['opt'].get('style') or {}
        if st.get('lw') and any(ln.get_linewidth() != st['lw'] for ax in axes[:len(parts)] for ln in ax.lines):
            return f'lines are not drawn with a width of {st["lw"]}'
        if st.get('cmap') and any(im.get_cmap().name != st['cmap'] for ax in axes[:len(parts)] for im in ax.images):
            return f'not drawn with the colour map {st["cmap"]}'
        if len(axes) < len(parts):
            return f'{len(axes)} axes drawn for {len(parts)} parts'
        for i, (p, ax) in enumerate(zip(parts, axes)):
            where = f'plot of part {i}'
            if hasattr(p, 'z_data'):
                if len(ax.images) != 1:
                    return f'{where}: {len(ax.images)} images'
                a = np.ma.filled(np.ma.asarray(ax.images[0].get_array(), dtype=float), np.nan)
                noise = getattr(p, '_rounding', 0.)
                m = self.close(a, p.z_data.magnitude.T, where, noise)
                if m:
                    return m
                lim = [v if v is not None else w for v, w in zip(case['opt']['vlim'], (min(np.nanmin(q.z_data.magnitude) for q in parts),
                                                                                       max(np.nanmax(q.z_data.magnitude) for q in parts)))]
                m = self.close(ax.images[0].get_clim(), lim, where + ', colour limits', noise)
                if m and np.all(np.isfinite(lim)):
                    return m
                continue
            ys = np.atleast_2d(p.y_data.magnitude)
            lines = [np.array(ln.get_xydata()) for ln in ax.lines]
            n = len(lines)//len(ys)
            if not lines or n*len(ys) != len(lines):
                return f'{where}: {len(lines)} lines drawn for {len(ys)} spectra'
            for k, y in enumerate(ys):
                xy = np.concatenate(lines[k*n:(k + 1)*n])
                m = self.close(xy[:, 0], p.get_bin_centres().magnitude, f'{where}, line {k}, x') or self.close(xy[:, 1], y, f'{where}, line {k}, y')
                if m:
                    return m
        return None

    def compare_points(self, o):
        import matplotlib.pyplot as plt
        from euphonic import sampling
        n, name = o['npts'], o['sampling']
        j = dict(jitter=o['jitter'])
        root, half = int(np.ceil(np.sqrt(n))), int(np.ceil(np.sqrt(n/2)))
        np.random.seed(5)
        pts = {'golden-square': lambda: sampling.golden_square(n, **j), 'golden-sphere': lambda: sampling.golden_sphere(n, **j),
               'regular-square': lambda: sampling.regular_square(root, root, **j), 'random-sphere': lambda: sampling.random_sphere(n),
               'recurrence-square': lambda: sampling.recurrence_sequence(n, order=2), 'recurrence-cube': lambda: sampling.recurrence_sequence(n, order=3),
               'sphere-from-square-grid': lambda: sampling.sphere_from_square_grid(2*half, half, **j),
               'spherical-polar-grid': lambda: sampling.spherical_polar_grid(2*half, half, **j),
               'spherical-polar-improved': lambda: sampling.spherical_polar_improved(n, **j)}[name]()
        pts = np.array(list(pts))
        c = plt.gcf().axes[0].collections
        if len(c) != 1:
            return f'{len(c)} sets of points drawn'
        got = np.column_stack([np.ma.getdata(x) for x in c[0]._offsets3d]) if hasattr(c[0], '_offsets3d') else np.ma.getdata(c[0].get_offsets())
        return self.close(got, pts, 'points drawn')

    @staticmethod
    def close(a, b, what, noise=0.):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            return f'{what}: shape {a.shape}, expected {b.shape}'
        fin = np.isfinite(b)
        if not np.array_equal(np.isfinite(a), fin) or not np.allclose(a[fin], b[fin], rtol=1e-9, atol=max(noise, 1e-10*np.abs(b[fin]).max(initial=0))):
            i = np.argmax(np.abs(np.where(fin, a - b, 0)))
            return f'{what}: {np.ravel(a)[i]}, expected {np.ravel(b)[i]}'
        return None

    # ---------------------------------------------------------------- exports
    def run_export(self, case, out, top, d):
        objs = W.build(case['spec'])
        o = objs[case['obj']]
        text = case['text'] and hasattr(o, 'to_text_file')
        outs = ['out.dat']

        def run():
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                try:
                    if text:
                        o.to_text_file(f'{d}/out.dat', fmt=case['fmt'])
                    else:
                        o.to_json_file(f'{d}/out.dat')
                    return None, buf.getvalue()
                except BaseException as e:
                    return e, buf.getvalue()
        what = f'{type(o).__name__}.{"to_text_file" if text else "to_json_file"} fmt={case["fmt"]}'
        self.fill(d, {}, {}, outs, False)
        fs = simfs.SimFS(top, {}, out)
        before = W.snap(o)
        with fs:
            e, said = run()
        out.evals += 1
        if e is not None:
            out.fail('fails', f'{what}: fails on a healthy system: {type(e).__name__}: {e}', f'fails-export-{type(e).__name__}')
            return
        want = self.contents(d, outs)
        if text:
            m = self.check_text(o, want['out.dat'].decode(), case['fmt'])
            if m:
                out.fail('wrong-output', f'{what}: {m}', 'wrong-export')
                return
        for f in case['faults']:
            self.fill(d, {}, {}, outs, f['old'])
            fs2 = simfs.SimFS(top, self.write_plan(f, fs.bytes_written), out)
            with fs2:
                e, said = run()
            out.evals += 1
            out.nontrivial = out.nontrivial or bool(fs2.fired)
            got = self.contents(d, outs)
            out.sigs.add(f'export:{text}:{f["kind"]}:{type(e).__name__}')
            if (e is None or SAID.search(said)) and got['out.dat'] != want['out.dat']:
                out.fail('false-success', f'{what}: with {f}: reports success ({said!r}) but the file has {len(got["out.dat"] or b"")} of {len(want["out.dat"])} bytes',
                         f'false-success-export-{f["kind"]}')
                return
            if e is not None and set(fs2.fired) <= {'short_write'}:
                out.fail('fails', f'{what}: with {f}: {type(e).__name__}: {e} although no fault took effect', f'fails-export-{f["kind"]}')
                return
            m = W.diff(W.snap(o), before)
            if m:
                out.fail('changed', f'{what}: with {f}: the object changed: {m}', 'changed-export')
                return
        out.sample = dict(export=what, faults=case['faults'][:2])

    def check_text(self, o, text, fmt):
        lines = text.splitlines()
        head = [x[2:] for x in lines if x.startswith('# ')]
        rows = np.array([[float(v) for v in x.split()] for x in lines if not x.startswith('#')])
        ys = np.atleast_2d(o.y_data.magnitude)
        want = np.column_stack([o.get_bin_centres().to(o.x_data.units).magnitude] + list(ys))
        rtol = {None: 1e-15, '%.10g': 1e-9, '%12.5e': 1e-5}[fmt]
        if rows.shape != want.shape:
            return f'text has shape {rows.shape}, expected {want.shape}'
        if not np.allclose(rows, want, rtol=rtol, atol=1e-300):
            return f'text values differ by up to {np.abs(rows - want).max()}'
        if f'x_data in ({o.x_data.units})' not in head or f'y_data in ({o.y_data.units})' not in head:
            return f'units not in the header {head[:3]}'
        if len([h for h in head if h.startswith('Column ')]) != want.shape[1]:
            return f'header does not describe every column: {head}'
        return None

    def shrink(self, case, res):
        fs = case['faults']
        if len(fs) > 1:
            for i in range(len(fs)):
                yield dict(case, faults=[fs[i]])
        if fs:
            yield dict(case, faults=[])


CHECK = C10()
