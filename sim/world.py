"""A small world of Euphonic objects and a catalogue of public operations on them, used by C04, C05, C09, C12, C15.

Everything is addressed by name and parametrised by JSON values, so that a case is replayable.
"""
import copy
import math
import numbers

import numpy as np

from . import fixtures as F


# ------------------------------------------------------------------ snapshots
def snap(o, depth=0):
    """plain nested structure with copies of all public data of o"""
    import pint
    if isinstance(o, str):
        return str(o)
    if o is None or isinstance(o, bool):
        return o
    if isinstance(o, numbers.Integral):
        return int(o)
    if isinstance(o, numbers.Real):
        return float(o)
    if isinstance(o, pint.Quantity):
        return ('Q', np.array(o.magnitude, copy=True), str(o.units))
    if isinstance(o, np.ndarray):
        return ('A', np.array(o, copy=True))
    if isinstance(o, dict):
        return {k: snap(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return ('L', [snap(v, depth + 1) for v in o])
    if hasattr(o, 'to_dict'):
        d = {k: snap(v, depth + 1) for k, v in o.to_dict().items()}
        for name in ('n_qpts', 'weights', 'n_atoms', 'n_cells_in_sc', 'metadata', 'x_tick_labels'):
            if hasattr(o, name):
                d['.' + name] = snap(getattr(o, name), depth + 1)
        return ('O', type(o).__name__, d)
    return ('?', type(o).__name__)


def diff(a, b, rtol=0.0, path=''):
    """None or a message naming the first difference"""
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return f'{path}: {_s(a)} is not {_s(b)}'
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return f'{path}: shape {a.shape} != {b.shape}'
        if a.dtype.kind in 'US' or b.dtype.kind in 'USO':
            return None if np.array_equal(a, b) else f'{path}: {_s(a)} != {_s(b)}'
        if rtol == 0:
            same = np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc' and b.dtype.kind in 'fc')
        else:
            fin = np.isfinite(b)
            sc = np.abs(b[fin]).max(initial=0.0) if b.size else 0.0
            same = np.allclose(a, b, rtol=rtol, atol=rtol*sc, equal_nan=True)
        if same:
            return None
        with np.errstate(all='ignore'):
            bad = np.argwhere(~((a == b) | ((a != a) & (b != b))))
        i = tuple(int(x) for x in bad[0]) if len(bad) else ()
        return f'{path}: {len(bad)} of {a.size} elements differ, first at {i}: {a[i]!r} != {b[i]!r}'
    if isinstance(a, dict):
        if set(a) != set(b):
            return f'{path}: keys {sorted(map(str, a))} != {sorted(map(str, b))}'
        for k in a:
            m = diff(a[k], b[k], rtol, f'{path}.{k}')
            if m:
                return m
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: length {len(a)} != {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            m = diff(x, y, rtol, f'{path}[{i}]' if not (isinstance(a, tuple) and a and a[0] in ('Q', 'A', 'L', 'O')) else path)
            if m:
                return m
        return None
    if isinstance(a, float) or isinstance(b, float):
        if a == b or (a != a and b != b):
            return None
        if rtol and math.isclose(a, b, rel_tol=rtol, abs_tol=1e-300):
            return None
        return f'{path}: {a!r} != {b!r}'
    return None if a == b else f'{path}: {_s(a)} != {_s(b)}'


def _s(x):
    s = repr(x)
    return s if len(s) < 120 else s[:120] + '...'


# ---------------------------------------------------------------------- world
FREQ_UNITS = ['meV', 'THz', '1/cm', 'hartree', 'eV']
LEN_UNITS = ['angstrom', 'bohr', 'nm']


def gen_spec(rng, born=None):
    n = rng.choice([2, 3, 4, 5])
    q = F.qpt_list(rng, n, p_gamma=rng.choice([0.0, 0.0, 0.3]))
    return dict(fc=F.fc_spec(rng, max_atoms=2, born=born, max_cells=4), q=q, seed=rng.randrange(1 << 20),
                funit=rng.choice(FREQ_UNITS[:2] * 2 + FREQ_UNITS), bunit=rng.choice(FREQ_UNITS), lunit=rng.choice(LEN_UNITS), gradients=True)


def build(spec):
    """dict of named objects"""
    from euphonic import ureg
    from euphonic.spectra import Spectrum2DCollection
    g = F.np_rng('world', spec['seed'])
    fc = F.build_fc(spec['fc'])
    fc.crystal.cell_vectors_unit = spec['lunit']
    w = g.uniform(0.2, 1.0, len(spec['q']))
    qpm, grads = fc.calculate_qpoint_phonon_modes(np.array(spec['q']), weights=w, use_c=False, insert_gamma=False,
                                                  dipole=spec.get('dipole', True), return_mode_gradients=True)
    # fresh objects that share nothing
    qpm = copy.deepcopy(qpm)
    fc2 = F.build_fc(spec['fc'])
    fc2.crystal.cell_vectors_unit = spec['lunit']
    qpm.frequencies_unit = spec['funit']
    o = dict(fc=fc2, qpm=qpm, grads=grads)
    o['qpf'] = copy.deepcopy(qpm.to_qpoint_frequencies())
    fmax = max(float(np.nanmax(np.abs(qpm.frequencies.magnitude))), 1e-6)
    o['bins'] = (np.linspace(0, 1.1*fmax, 24)*ureg(spec['funit'])).to(spec.get('bunit', spec['funit']))
    o['dw'] = copy.deepcopy(qpm.calculate_debye_waller(ureg.Quantity(250., 'K'), symmetrise=False))
    sl = scattering_lengths(qpm.crystal)
    o['sl'] = sl
    o['sf'] = copy.deepcopy(qpm.calculate_structure_factor(sl, dw=o['dw']))
    o['sfn'] = copy.deepcopy(qpm.calculate_structure_factor(sl))
    o['s1'] = copy.deepcopy(o['qpf'].calculate_dos(o['bins']))
    o['s1'].metadata.update(label='dos', species='Xx', n=1)
    o['s1b'] = o['s1']*2.0
    o['s1b'].metadata.update(label='other')
    o['s1c'] = copy.deepcopy(qpm.calculate_pdos(o['bins']))
    o['s1c'] = o['s1c'] + (o['s1c']*0.5)
    for i, l in enumerate(o['s1c'].metadata.setdefault('line_data', [{} for _ in range(len(o['s1c']))])):
        l['group'] = i % 2
        l['run'] = 'ab'[i*2//len(o['s1c'])]
    o['disp'] = copy.deepcopy(qpm.get_dispersion())
    s2 = o['sf'].calculate_sqw_map(o['bins'])
    z = np.nan_to_num(s2.z_data.magnitude, nan=1.0, posinf=2.0, neginf=0.0)*s2.z_data.units
    x = np.linspace(0.5, 3.0, len(s2.x_data) + (1 if spec['seed'] % 2 else 0))*s2.x_data.units
    o['s2'] = type(s2)(x, s2.y_data, z, x_tick_labels=[(0, 'G'), (1, 'X')], metadata=dict(label='sqw', species='Na'))
    b = o['s2']*3.0
    b.metadata.update(species='Cl', label='sqw')
    o['s2c'] = Spectrum2DCollection.from_spectra([o['s2'], b])
    o['crystal'] = copy.deepcopy(fc2.crystal)
    o['xs'] = {k: ureg.Quantity(float(3 + 2*i), 'barn') for i, k in enumerate(dict.fromkeys(qpm.crystal.atom_type))}
    return o


def scattering_lengths(crystal):
    from euphonic import ureg
    return {str(k): ureg.Quantity(3.0 + 1.7*i, 'fm') for i, k in enumerate(dict.fromkeys(crystal.atom_type))}


# ----------------------------------------------------------------- operations
OPS = {}


def op(name, uses, gen=None, group='calc', inplace=()):
    """registers run(objects, params) -> result; uses: names of the objects it takes part in"""
    def deco(f):
        OPS[name] = dict(run=f, uses=uses, gen=gen or (lambda rng, spec: {}), group=group, inplace=inplace)
        return f
    return deco


def gen_op(rng, spec, names=None, groups=None):
    pool = [n for n in (names or OPS) if groups is None or OPS[n]['group'] in groups]
    n = rng.choice(pool)
    return dict(op=n, **OPS[n]['gen'](rng, spec))


def neighbour_op(rng, spec, o):
    """the same call with one of its arguments different"""
    new = copy.deepcopy(o)
    path = None
    for _ in range(20):
        other = gen_op(rng, spec, names=[o['op']])
        if path is None:
            slots = [(None, k) for k in sorted(new) if k != 'op']
            for j in ('opts', 'kw'):
                if isinstance(new.get(j), dict):
                    slots = [x for x in slots if x[1] != j] + [(j, k) for k in sorted(new[j])]
            if not slots:
                break
            path = rng.choice(slots)
        j, k = path
        a, b = (new, other) if j is None else (new[j], other.get(j) or {})
        if isinstance(a.get(k), bool):
            a[k] = not a[k]
            break
        if k in b and a.get(k) != b[k]:
            a[k] = b[k]
            break
    return new


def run_op(objs, o):
    return OPS[o['op']]['run'](objs, o)


def _gen_calc(rng, spec):
    return dict(opts=F.calc_options(rng, spec['fc']['born']), use_c=rng.choice([False, False, True]),
                q=F.qpt_list(rng, rng.choice([1, 2, 3])))


def _calc(objs, p, fn, **kw):
    kw = dict(p['opts'], **kw)
    if p['use_c']:
        kw['n_threads'] = 1
    return getattr(objs['fc'], fn)(np.array(p['q'], dtype=float), use_c=p['use_c'], **kw)


@op('fc.modes', ['fc'], _gen_calc)
def _(o, p):
    return _calc(o, p, 'calculate_qpoint_phonon_modes')


@op('fc.freqs', ['fc'], _gen_calc)
def _(o, p):
    return _calc(o, p, 'calculate_qpoint_frequencies')


@op('fc.grads', ['fc'], _gen_calc)
def _(o, p):
    return _calc(o, p, 'calculate_qpoint_phonon_modes', return_mode_gradients=True)


@op('qpm.sf', ['qpm', 'dw', 'sl'], lambda r, s: dict(dw=r.random() < 0.5, ref=r.random() < 0.4))
def _(o, p):
    return o['qpm'].calculate_structure_factor('Sears1992' if p['ref'] else o['sl'], dw=o['dw'] if p['dw'] else None)


@op('qpm.dw', ['qpm'], lambda r, s: dict(T=r.choice([0, 5., 300.]), sym=r.random() < 0.5))
def _(o, p):
    from euphonic import ureg
    return o['qpm'].calculate_debye_waller(ureg.Quantity(p['T'], 'K'), symmetrise=p['sym'])


def _widths(o, p):
    from euphonic.util import mode_gradients_to_widths
    if not p.get('widths'):
        return {}
    w = mode_gradients_to_widths(o['grads'], o['qpm'].crystal.cell_vectors)
    w = np.nan_to_num(w.to('meV').magnitude, nan=1.0, posinf=1.0)*w.to('meV').units
    return dict(mode_widths=w)


def _gen_dos(r, s):
    d = dict(widths=r.random() < 0.6, method=r.choice(['reference', 'fast']), fit=r.choice(['cubic', 'cheby-log']))
    return d


def _dos_kw(o, p):
    kw = _widths(o, p)
    if kw:
        kw.update(adaptive_method=p['method'], adaptive_error_fit=p['fit'])
    return kw


@op('qpf.dos', ['qpf', 'bins', 'grads', 'qpm'], _gen_dos)
def _(o, p):
    return o['qpf'].calculate_dos(o['bins'], **_dos_kw(o, p))


@op('qpm.pdos', ['qpm', 'bins', 'xs', 'grads'],
    lambda r, s: dict(_gen_dos(r, s), weighting=r.choice([None, 'coherent', 'incoherent', 'coherent-plus-incoherent']), xs=r.random() < .4))
def _(o, p):
    kw = _dos_kw(o, p)
    if p['xs']:
        kw['cross_sections'] = o['xs']
    return o['qpm'].calculate_pdos(o['bins'], weighting=p['weighting'], **kw)


@op('qpf.dos_map', ['qpf', 'bins', 'grads', 'qpm'], lambda r, s: dict(widths=r.random() < 0.5))
def _(o, p):
    return o['qpf'].calculate_dos_map(o['bins'], **_widths(o, p))


@op('qpm.dispersion', ['qpm'])
def _(o, p):
    return o['qpm'].get_dispersion()


@op('qpm.to_qpf', ['qpm'])
def _(o, p):
    return o['qpm'].to_qpoint_frequencies()


def _gen_sqw(r, s):
    return dict(bose=r.random() < 0.7, T=r.choice([None, None, 20.0]), which=r.choice(['sf', 'sfn']), w=r.random() < 0.5)


def _sqw_kw(o, p):
    from euphonic import ureg
    kw = dict(calc_bose=p['bose'])
    if p['T'] is not None and p['which'] == 'sfn':
        kw['temperature'] = ureg.Quantity(p['T'], 'K')
    return kw


@op('sf.sqw', ['sf', 'sfn', 'bins'], _gen_sqw)
def _(o, p):
    return o[p['which']].calculate_sqw_map(o['bins'], **_sqw_kw(o, p))


@op('sf.average', ['sf', 'sfn', 'bins'], _gen_sqw)
def _(o, p):
    sf = o[p['which']]
    kw = _sqw_kw(o, p)
    if p['w']:
        kw['weights'] = np.arange(1.0, sf.n_qpts + 1)
    return sf.calculate_1d_average(o['bins'], **kw)


@op('sf.to_qpf', ['sf'])
def _(o, p):
    return o['sf'].to_qpoint_frequencies()


def _gen_broaden(r, s):
    return dict(func=r.random() < 0.4, shape=r.choice(['gauss', 'lorentz']), w=r.choice([1.5, 3.0, 6.0]), axis=r.choice(['x', 'y', 'xy', 'none']),
                method=r.choice([None, 'convolve']), wu=r.random())


def other_unit(bins, k):
    """a unit of the same kind as that of bins (its own one in part of the cases), chosen by 0 <= k < 1"""
    c = [u for u in ('meV', 'hartree', 'J', '1/angstrom', '1/bohr', '1/m', '1/ps') if bins.check(u)]
    i = int(k*2*max(len(c), 1))
    return c[i] if i < len(c) else bins.units


def _width(bins, p):
    u = bins.units
    wu = other_unit(bins, p.get('wu', 0.99))
    w = float(bins.magnitude[-1] - bins.magnitude[0])/max(len(bins) - 1, 1)*p['w']
    if p['func']:
        b0 = bins[0]
        return lambda x: ((x - b0)*0.05 + w*bins[0:1][0].__class__(1.0, u)).to(wu)
    return bins.__class__(w, u).to(wu)


def _broaden_kw(p):
    kw = dict(shape=p['shape'])
    if not p['func']:
        kw['method'] = p['method']
    return kw


@op('s1.broaden', ['s1'], _gen_broaden)
def _(o, p):
    return o['s1'].broaden(_width(o['s1'].x_data, p), **_broaden_kw(p))


@op('s1c.broaden', ['s1c'], _gen_broaden)
def _(o, p):
    return o['s1c'].broaden(_width(o['s1c'].x_data, p), **_broaden_kw(p))


@op('s2.broaden', ['s2'], _gen_broaden)
def _(o, p):
    kw = {}
    if 'x' in p['axis']:
        kw['x_width'] = _width(o['s2'].x_data, p)
    if 'y' in p['axis']:
        kw['y_width'] = _width(o['s2'].y_data, dict(p, func=p['func'] and p['axis'] != 'xy'))
    return o['s2'].broaden(shape=p['shape'], method=p['method'], **kw)


@op('s2.kinematic', ['s2'], lambda r, s: dict(direct=r.random() < 0.5, e=r.choice([5., 30., 200.])))
def _(o, p):
    from euphonic import ureg
    from euphonic.spectra import apply_kinematic_constraints
    e = ureg.Quantity(p['e'], 'meV')
    return apply_kinematic_constraints(o['s2'], angle_range=(3., 135.), **({'e_i': e} if p['direct'] else {'e_f': e}))


def _gen_split(r, s):
    return dict(which=r.choice(['s1', 's1c', 's2', 's2c', 'disp']), at=r.choice([[1], None]))


@op('spec.split', ['s1', 's1c', 's2', 's2c', 'disp'], _gen_split)
def _(o, p):
    return o[p['which']].split(p['at']) if p['at'] else o[p['which']].split(btol=3.0)


@op('spec.copy', ['s1', 's1c', 's2', 's2c'], lambda r, s: dict(which=r.choice(['s1', 's1c', 's2', 's2c'])))
def _(o, p):
    return o[p['which']].copy()


@op('spec.mul', ['s1', 's1c', 's2'], lambda r, s: dict(which=r.choice(['s1', 's1c', 's2']), f=r.choice([2, 0.5, -1.0])))
def _(o, p):
    return o[p['which']]*p['f']


@op('spec.add', ['s1', 's1b', 's1c', 's2c'], lambda r, s: dict(which=r.choice(['s1', 's1c', 's2c'])))
def _(o, p):
    return o[p['which']] + o['s1b' if p['which'] == 's1' else p['which']]


@op('spec.sum', ['s1c', 's2c'], lambda r, s: dict(which=r.choice(['s1c', 's2c'])))
def _(o, p):
    return o[p['which']].sum()


@op('spec.group', ['s1c', 's2c'], lambda r, s: dict(which=r.choice(['s1c', 's1c', 's2c']), keys=r.choice([['species'], ['group'], ['group', 'run'], ['nokey']])))
def _(o, p):
    return o[p['which']].group_by(*p['keys'])


@op('spec.select', ['s1c', 's2c'], lambda r, s: dict(which=r.choice(['s1c', 's1c', 's2c'])))
def _(o, p):
    c = o[p['which']]
    sp = [m['species'] for m in c.iter_metadata()]
    return c.select(species=sp[0])


@op('spec.item', ['s1c', 's2c', 'disp'], lambda r, s: dict(which=r.choice(['s1c', 's2c', 'disp']), item=r.choice([0, -1, 1, [0, 1], [1, 0, 0], 'slice', 'array'])))
def _(o, p):
    it = p['item']
    return o[p['which']][slice(0, 1) if it == 'slice' else np.array([1, 0]) if it == 'array' else it]


@op('spec.from_spectra', ['s1c', 's2c', 's1', 's1b'], lambda r, s: dict(which=r.choice(['s1c', 's2c', 'pair'])))
def _(o, p):
    from euphonic.spectra import Spectrum1DCollection, Spectrum2DCollection
    if p['which'] == 'pair':
        return Spectrum1DCollection.from_spectra([o['s1'], o['s1b'], o['s1']])
    return (Spectrum1DCollection if p['which'] == 's1c' else Spectrum2DCollection).from_spectra(list(o[p['which']]))


@op('spec.bins', ['s1', 's1c', 's2'], lambda r, s: dict(which=r.choice(['s1', 's1c', 's2'])))
def _(o, p):
    s = o[p['which']]
    return [s.get_bin_edges(), s.get_bin_centres(), s.get_bin_widths()]


def _gen_dict(r, s):
    return dict(which=r.choice(['fc', 'qpm', 'qpf', 'dw', 'sf', 's1', 's1c', 's2', 's2c', 'crystal']))


DICTABLE = ['fc', 'qpm', 'qpf', 'dw', 'sf', 's1', 's1c', 's2', 's2c', 'crystal']


@op('any.to_dict', DICTABLE, _gen_dict)
def _(o, p):
    return o[p['which']].to_dict()


@op('any.dict_roundtrip', DICTABLE, _gen_dict)
def _(o, p):
    return type(o[p['which']]).from_dict(o[p['which']].to_dict())


@op('crystal.geometry', ['crystal'], lambda r, s: dict())
def _(o, p):
    from euphonic import ureg
    c = o['crystal']
    return [c.reciprocal_cell(), c.cell_volume(), c.get_mp_grid_spec(0.3*ureg('1/angstrom')), c.to_spglib_cell(),
            dict(c.get_species_idx())]


@op('crystal.symmetry', ['crystal'])
def _(o, p):
    return list(o['crystal'].get_symmetry_equivalent_atoms())


def _gen_brille(r, s):
    return dict(grid=r.choice(['trellis', 'mesh', 'nest']), size=r.choice([dict(grid_npts=20), dict(grid_density=50), dict(grid_density=2000)]),
                q=F.qpt_list(r, r.choice([1, 3])), opts=F.calc_options(r, s['fc']['born']), modes=r.random() < 0.6, par=r.random() < 0.5)


@op('fc.brille', ['fc'], _gen_brille, group='brille')
def _(o, p):
    """interpolation on a brille grid, with stand-ins for the grids of the brille library; the size of the grid and the interpolated modes"""
    import contextlib
    import io
    from . import fakegrid
    fakegrid.install()
    from euphonic.brille import BrilleInterpolator
    with contextlib.redirect_stdout(io.StringIO()):
        b = BrilleInterpolator.from_force_constants(o['fc'], grid_type=p['grid'], interpolation_kwargs=dict(p['opts'], use_c=False), **p['size'])
    f = b.calculate_qpoint_phonon_modes if p['modes'] else b.calculate_qpoint_frequencies
    r = f(np.array(p['q'], dtype=float), **(dict(useparallel=False, threads=1) if p['par'] else {}))
    return [np.array([b._grid.kw[k] for k in sorted(b._grid.kw)]), dict(frequencies=r.frequencies.magnitude, frequencies_unit=str(r.frequencies.units))]


@op('util.widths', ['grads', 'qpm'])
def _(o, p):
    from euphonic.util import mode_gradients_to_widths
    return mode_gradients_to_widths(o['grads'], o['qpm'].crystal.cell_vectors)


def _gen_powder(r, s):
    return dict(sampling=r.choice(['golden', 'sphere-projected-grid', 'spherical-polar-grid', 'spherical-polar-improved']),
                npts=r.choice([8, 8, 9, 13]), q=r.choice([0.4, 1.1]), use_c=r.random() < 0.5, dw=r.choice(['given', 'none', 'auto']),
                bins=r.random() < 0.6)


def _powder_kw(p):
    return dict(npts=p['npts'], sampling=p['sampling'], use_c=p['use_c'], **({'n_threads': 1} if p['use_c'] else {}))


@op('powder.sf', ['fc', 'dw', 'bins', 'sl'], _gen_powder, group='powder')
def _(o, p):
    from euphonic import ureg
    from euphonic.powder import sample_sphere_structure_factor
    kw = _powder_kw(p)
    if p['dw'] == 'given':
        kw.update(dw=o['dw'], temperature=o['dw'].temperature)
    elif p['dw'] == 'none':
        kw.update(temperature=None)
    else:
        kw.update(dw_spacing=3.0*ureg('1/angstrom'))
    return sample_sphere_structure_factor(o['fc'], p['q']*ureg('1/angstrom'), scattering_lengths=o['sl'],
                                          energy_bins=o['bins'] if p['bins'] else None, **kw)


@op('powder.dos', ['fc', 'bins'], _gen_powder, group='powder')
def _(o, p):
    from euphonic import ureg
    from euphonic.powder import sample_sphere_dos
    return sample_sphere_dos(o['fc'], p['q']*ureg('1/angstrom'), energy_bins=o['bins'] if p['bins'] else None, **_powder_kw(p))


@op('powder.pdos', ['fc', 'bins', 'xs'], _gen_powder, group='powder')
def _(o, p):
    from euphonic import ureg
    from euphonic.powder import sample_sphere_pdos
    return sample_sphere_pdos(o['fc'], p['q']*ureg('1/angstrom'), energy_bins=o['bins'] if p['bins'] else None,
                              cross_sections=o['xs'], weighting='coherent', **_powder_kw(p))


def _close(fig):
    import matplotlib.pyplot as plt
    n = len(fig.axes)
    plt.close(fig)
    return n


@op('plot.1d', ['s1', 's1c', 'disp'], lambda r, s: dict(which=r.choice(['s1', 's1c', 'disp', 'split', 'list'])), group='plot')
def _(o, p):
    from euphonic.plot import plot_1d
    kw = {}
    if p['which'] == 'split':
        a = o['disp'].split([1])
    elif p['which'] == 'list':
        a = [o['s1'], o['s1']]
        kw = dict(title='t', labels=['a'])
    else:
        a = o[p['which']]
    return _close(plot_1d(a, **kw))


@op('plot.2d', ['s2'], lambda r, s: dict(split=r.random() < 0.4), group='plot')
def _(o, p):
    from euphonic.plot import plot_2d
    a = o['s2']
    if p['split']:
        a = a.split([1])
        for s in a:
            s.x_tick_labels = s.x_tick_labels or None
    return _close(plot_2d(a, title='x'))


def _io(fn):
    import os
    import tempfile
    d = tempfile.mkdtemp(prefix='euphonic-verif-op-')
    path = os.path.join(d, 'out')
    try:
        return fn(path)
    finally:
        if os.path.exists(path):
            os.remove(path)
        os.rmdir(d)


@op('io.json', DICTABLE, _gen_dict, group='io')
def _(o, p):
    def f(path):
        o[p['which']].to_json_file(path)
        return type(o[p['which']]).from_json_file(path)
    return _io(f)


@op('io.text', ['s1', 's1c'], lambda r, s: dict(which=r.choice(['s1', 's1c']), fmt=r.choice([None, '%.6e'])), group='io')
def _(o, p):
    def f(path):
        o[p['which']].to_text_file(path, fmt=p['fmt'])
        return open(path).read()
    return _io(f)


# -------------------------------------------------------- comparison of results
def result_diff(got, want, rtol=1e-9):
    """snapshots of results; phonon modes are compared up to the choice of eigenvectors of equal frequencies"""
    d = diff(got, want)
    if d is None:
        return None
    if isinstance(got, tuple) and got[0] == 'O' and 'eigenvectors' in got[2] and isinstance(want, tuple):
        a, b = dict(got[2]), dict(want[2])
        ea, eb = a.pop('eigenvectors'), b.pop('eigenvectors')
        m = diff(a, b, rtol)
        if m:
            return m
        return F.cmp_modes(a['frequencies'][1], ea[1], b['frequencies'][1], eb[1])
    if isinstance(got, tuple) and got[0] == 'L' and isinstance(want, tuple) and len(got[1]) == len(want[1]):
        for x, y in zip(got[1], want[1]):
            m = result_diff(x, y, 1e-6 if isinstance(x, tuple) and x[0] == 'Q' else rtol)
            if m:
                return m
        return None
    return diff(got, want, rtol)
