"""Writers for small CASTEP and Phonopy output files in the layouts the readers accept, from seeded random data."""
import io
import math
import struct

import numpy as np

from . import fixtures as F

SPECIES = ['Na', 'Cl', 'Si', 'O', 'Zn']


def gen_spec(rng, fmt):
    n_species = rng.choice([1, 1, 2, 2, 3])
    counts = [rng.choice([1, 1, 2, 3]) for _ in range(n_species)]
    while sum(counts) > 4:
        counts[rng.randrange(n_species)] = 1
    return dict(fmt=fmt, seed=rng.randrange(1 << 20), counts=counts, nq=rng.choice([1, 2, 3, 5]),
                split=rng.choice([0, 0, 1, 2]), grad_bins=rng.choice([3, 17, 60]), sc=rng.choice([[1, 1, 1], [2, 1, 1], [2, 2, 1], [1, 1, 3]]),
                born=rng.random() < 0.6, full=rng.random() < 0.3, evec=rng.random() < 0.7, trail=rng.random() < 0.3,
                comments=rng.random() < 0.3, factor=rng.random() < 0.7, old=rng.random() < 0.5, fc_in_yaml=rng.random() < 0.25,
                prim=rng.random() < 0.3, wrap=rng.random() < 0.3)


class Data:
    def __init__(self, s):
        g = self.g = F.np_rng('files', s['seed'])
        self.types = [SPECIES[i] for i, c in enumerate(s['counts']) for _ in range(c)]
        self.n = n = len(self.types)
        self.mass = [20.0 + 7.25*SPECIES.index(t) for t in self.types]
        self.cell = np.diag(g.uniform(3, 6, 3)) + 0.3*g.normal(size=(3, 3))
        self.r = g.uniform(0, 0.95, (n, 3))
        nq = s['nq']
        self.q = g.uniform(-0.5, 0.5, (nq, 3)).round(6)
        self.w = np.full(nq, round(1/nq, 10))
        self.f = np.sort(g.uniform(5, 500, (nq, 3*n)), axis=1)
        self.e = g.normal(size=(nq, 3*n, n, 3)) + 1j*g.normal(size=(nq, 3*n, n, 3))
        self.born = g.normal(size=(n, 3, 3))
        self.diel = 2.5*np.eye(3) + 0.1*g.normal(size=(3, 3))


def _castep_head(d, lines, label):
    out = [' BEGIN header', f' Number of ions         {d.n}'] + lines
    if label == 'phonon':
        out += [' Frequencies in         cm-1', ' IR intensities in      (D/A)**2/amu', ' Raman activities in    A**4 amu**(-1)']
    out.append(' Unit cell vectors (A)')
    out += ['  ' + ''.join(f'{x:12.6f}' for x in v) for v in d.cell]
    out.append(' Fractional Co-ordinates')
    out += [f'{i + 1:6d}' + ''.join(f'{x:13.6f}' for x in d.r[i]) + f'   {d.types[i]:2s}{d.mass[i]:16.6f}' for i in range(d.n)]
    out.append(' END header')
    return out


def phonon(s):
    d = Data(s)
    g = d.g
    out = _castep_head(d, [f' Number of branches     {3*d.n}', f' Number of wavevectors  {s["nq"]}'], 'phonon')

    def block(i, q, direction):
        line = f'     q-pt={i + 1:5d} ' + ''.join(f'{x:10.6f}' for x in q) + f'      {d.w[i]:.10f}'
        if direction is not None:
            line += ' ' + ''.join(f'{x:10.6f}' for x in direction)
        out.append(line)
        f = np.sort(g.uniform(5, 500, 3*d.n))
        for k in range(3*d.n):
            out.append(f'{k + 1:8d}{f[k]:16.6f}{g.uniform(0, 9):23.7f}' + ' '*34)
        out.append('                        Phonon Eigenvectors')
        out.append('Mode Ion                X                                   Y                                   Z')
        e = g.normal(size=(3*d.n, d.n, 6))/3
        for k in range(3*d.n):
            for a in range(d.n):
                v = e[k, a]
                out.append(f'{k + 1:4d}{a + 1:4d}' + '    '.join(f'{v[2*c]:16.12f}{v[2*c + 1]:16.12f}' for c in range(3)))
    for i in range(s['nq']):
        if i == 0 and s['split'] and s['nq'] > 1:
            for k in range(s['split']):
                block(i, [0, 0, 0], g.normal(size=3))
            block(i, [0, 0, 0], None)
        else:
            block(i, d.q[i], None)
    return {'x.phonon': ('\n'.join(out) + '\n').encode()}


def phonon_dos(s):
    d = Data(s)
    g = d.g
    out = _castep_head(d, [f' Number of species      {len(s["counts"])}', f' Number of branches     {3*d.n}', f' Number of bins in DOS  {s["grad_bins"]:5d}'], 'dos')
    out.append(' BEGIN GRADIENTS')
    for i in range(s['nq']):
        out.append(f'     q-pt={i + 1:5d} ' + ''.join(f'{x:10.6f}' for x in d.q[i]) + f'      {d.w[i]:.10f}')
        for k in range(3*d.n):
            out.append(f'{k + 1:8d}{d.f[i, k]:16.6f}{g.uniform(0, 90):23.7f}' + ' '*34)
    out.append(' END GRADIENTS')
    sp = list(dict.fromkeys(d.types))
    out.append(' BEGIN DOS   Freq (cm-1)  g(f)   ' + ''.join(f'{t:10s}' for t in sp))
    for k in range(s['grad_bins']):
        out.append(f'{-20.0 + k:8.1f}' + ''.join(f'{x:11.6f}' for x in g.uniform(0, 3, 1 + len(sp))))
    out.append('  END DOS')
    return {'x.phonon_dos': ('\n'.join(out) + '\n').encode()}


def castep_bin(s):
    d = Data(s)
    g = d.g
    b = io.BytesIO()

    def rec(data):
        m = struct.pack('>i', len(data))
        b.write(m + data + m)

    def head(x, n=30):
        rec(x.encode().ljust(n))
    I = lambda *a: struct.pack('>%di' % len(a), *[int(x) for x in a])
    D = lambda a: np.ascontiguousarray(a, dtype='>f8').tobytes()
    head('CASTEP_BIN', 10)
    head('BEGIN_PARAMETERS_DUMP')
    head('20.100', 10)
    head('BEGIN_GENERAL')
    for k in range(3):
        rec(I(k))
    rec(b'')
    head('END_PARAMETERS_DUMP')
    cnt = s['counts']
    for copy in range(2):
        head('BEGIN_UNIT_CELL', 256)
        head('CELL%REAL_LATTICE', 256)
        rec(D(d.cell.T*1.889*(1 + 0.01*copy)))
        head('CELL%NUM_SPECIES', 256)
        rec(I(len(cnt)))
        head('CELL%NUM_IONS', 256)
        rec(I(d.n))
        head('CELL%NUM_IONS_IN_SPECIES', 256)
        rec(I(*cnt))
        head('CELL%IONIC_POSITIONS', 256)
        pos = np.zeros((len(cnt), max(cnt), 3))
        k = 0
        for i, c in enumerate(cnt):
            pos[i, :c] = d.r[k:k + c]
            k += c
        rec(D(pos))
        head('CELL%SPECIES_MASS', 256)
        rec(D([1822.9*(20.0 + 7.25*i) for i in range(len(cnt))]))
        head('CELL%SPECIES_SYMBOL', 256)
        rec(b''.join(SPECIES[i].encode().ljust(8) for i in range(len(cnt))))
        head('END_UNIT_CELL', 256)
    rec(I(1))
    rec(D(g.normal(size=200)))
    head('FORCES', 10)
    rec(D(g.normal(size=(d.n, 3))))
    sc = np.diag(s['sc'])
    nc = int(np.prod(s['sc']))
    head('FORCE_CON', 10)
    rec(I(*sc.T.ravel()))
    rec(D(g.normal(size=(nc, 3*d.n, 3*d.n))))
    org = [[i, j, k] for i in range(s['sc'][0]) for j in range(s['sc'][1]) for k in range(s['sc'][2])]
    rec(I(*np.array(org).ravel()))
    rec(I(0))
    if s['born']:
        head('BORN_CHGS', 10)
        rec(D(d.born))
        head('DIELECTRIC', 10)
        rec(D(d.diel))
    head('FINE_FREQ', 10)
    rec(D(g.normal(size=40)))
    head('END', 10)
    if s['trail']:
        for k in range(4):
            rec(D(g.normal(size=30)))
    return {'x.castep_bin': b.getvalue()}


# -------------------------------------------------------------------- phonopy
def _vec(v, f='{:22.15f}'):
    return '[ ' + ', '.join(f.format(float(x)) for x in v) + ' ]'


def _points(r, types, mass, ind, reduced=None):
    out = []
    for i in range(len(r)):
        out += [f'{ind}- symbol: {types[i]} # {i + 1}', f'{ind}  coordinates: {_vec(r[i])}', f'{ind}  mass: {mass[i]:.6f}']
        if reduced is not None:
            out.append(f'{ind}  reduced_to: {reduced[i]}')
    return out


def _cells(s):
    """primitive cells along each edge of the supercell"""
    return [s['sc'][0]*(2 if s.get('prim') else 1), *s['sc'][1:]]


def _supercell(d, m, wrap=False):
    g = F.np_rng('wrap', d.n, *m)
    r, types, mass, red = [], [], [], []
    k = 1
    for a in range(d.n):
        first = None
        for x in range(m[0]):
            for y in range(m[1]):
                for z in range(m[2]):
                    r.append((d.r[a] + np.array([x, y, z]))/np.array(m) + (g.integers(-1, 2, 3) if wrap and a else 0))
                    types.append(d.types[a])
                    mass.append(d.mass[a])
                    first = first or k
                    red.append(first)
                    k += 1
    return np.array(r), types, mass, red


def phonopy_yaml(s, fc=None):
    d = Data(s)
    out = ['phonopy:', '  version: 2.4.2', '  frequency_unit_conversion_factor: 15.633302']
    if s['old']:
        out.append('  nac_unit_conversion_factor: 14.400000')
    out += ['  configuration:', '    dim: "2 2 2"', '', 'physical_unit:', '  atomic_mass: "AMU"', '  length: "Angstrom"',
            '  force_constants: "eV/Angstrom^2"', '', 'supercell_matrix:']
    out += ['- [ %3d, %3d, %3d ]' % tuple(v) for v in np.diag(s['sc'])]
    m = _cells(s)
    if s.get('prim'):
        out += ['', 'primitive_matrix:'] + [f'- {_vec(v)}' for v in np.diag(np.array(s['sc'])/m)]
    out += ['', 'space_group:', '  type: "P1"', '  number: 1', '']
    lat = ['  lattice:'] + [f'  - {_vec(v)} # {c}' for v, c in zip(d.cell, 'abc')] + ['  points:']
    out += ['primitive_cell:'] + lat + _points(d.r, d.types, d.mass, '  ')
    if s.get('prim'):
        r, types, mass, red = _supercell(d, [2, 1, 1])
        out += ['', 'unit_cell:', '  lattice:'] + [f'  - {_vec(v)}' for v in d.cell*np.array([2, 1, 1])[:, None]] + ['  points:']
        out += _points(r, types, mass, '  ', red)
    else:
        out += ['', 'unit_cell:'] + lat + _points(d.r, d.types, d.mass, '  ', list(range(1, d.n + 1)))
    r, types, mass, red = _supercell(d, m, s.get('wrap'))
    out += ['', 'supercell:', '  lattice:'] + [f'  - {_vec(v)}' for v in d.cell*np.array(m)[:, None]] + ['  points:']
    out += _points(r, types, mass, '  ', red) + ['']
    born = [f'  - # {i}\n' + '\n'.join(f'    - {_vec(v)}' for v in b) for i, b in enumerate(d.born)] if s['born'] else None
    diel = [f'  - {_vec(v)}' for v in d.diel]
    if s['born'] == 1 and not s['old']:
        out += ['nac:', '  unit_conversion_factor: 14.400000', '  born_effective_charge:'] + born + ['  dielectric_constant:'] + diel + ['']
    elif s['born'] == 1:
        out += ['born_effective_charge:'] + born + ['', 'dielectric_constant:'] + diel + ['']
    if fc is not None:
        out += ['force_constants:', '  format: "compact"', '  shape: [ %d, %d ]' % fc.shape[:2], '  elements:']
        for i in range(fc.shape[0]):
            for j in range(fc.shape[1]):
                out.append(f'  - # ({i + 1}, {j + 1})')
                out += [f'    - {_vec(v)}' for v in fc[i, j]]
    return ('\n'.join(out) + '\n').encode()


def _fc(s):
    d = Data(s)
    ns = d.n*int(np.prod(_cells(s)))
    return F.np_rng('fcs', s['seed']).normal(size=(ns if s['full'] else d.n, ns, 3, 3)).round(12), d


def force_constants(s):
    fc, d = _fc(s)
    out = [f'{fc.shape[0]} {fc.shape[1]}' if not (s['full'] and s['trail']) else f'{fc.shape[0]}']
    for i in range(fc.shape[0]):
        for j in range(fc.shape[1]):
            out.append(f'{i + 1} {j + 1}')
            out += [' ' + ''.join(f'{x:22.15f}' for x in v) for v in fc[i, j]]
    return ('\n'.join(out) + '\n').encode()


def force_constants_hdf5(s):
    import h5py
    fc, d = _fc(s)
    b = io.BytesIO()
    with h5py.File(b, 'w') as f:
        f.create_dataset('force_constants', data=fc, compression='gzip' if s['trail'] else None)
        f.create_dataset('p2s_map', data=np.arange(fc.shape[0]))
    return b.getvalue()


def born_file(s):
    d = Data(s)
    out = []
    if s['comments']:
        out.append('# epsilon and Z* of atoms')
    if s['factor']:
        out.append('14.400')
    out.append(' '.join(f'{x:.8f}' for x in d.diel.ravel()))
    out += [' '.join(f'{x:.8f}' for x in b.ravel()) for b in d.born]
    return ('\n'.join(out) + '\n').encode()


def phonopy_fc(s):
    """phonopy.yaml with FORCE_CONSTANTS or force_constants.hdf5 and BORN"""
    s = dict(s)
    use_born_file = bool(s['born']) and s['comments'] != s['factor']
    if use_born_file:
        s['born'] = 0
        s['factor'] = s['factor'] or not s['old']
    files = {'phonopy.yaml': phonopy_yaml(s, _fc(s)[0] if s['fc_in_yaml'] else None)}
    if not s['fc_in_yaml']:
        files['FORCE_CONSTANTS' if not s['evec'] else 'force_constants.hdf5'] = force_constants_hdf5(s) if s['evec'] else force_constants(s)
    if use_born_file:
        files['BORN'] = born_file(s)
    return files


def phonons_yaml(s, kind):
    d = Data(s)
    out = []
    if kind == 'mesh':
        out.append('mesh: [     4,     4,     4 ]')
    out.append(f'nqpoint: {s["nq"]:<7d}')
    if kind == 'band':
        out += ['npath: 1', 'segment_nqpoint:', f'- {s["nq"]}']
    out += ['reciprocal_lattice:'] + [f'- {_vec(v)} # {c}*' for v, c in zip(np.linalg.inv(d.cell).T, 'abc')]
    out.append(f'natom:   {d.n:<7d}')
    if kind != 'qpoints':
        out += ['lattice:'] + [f'- {_vec(v)} # {c}' for v, c in zip(d.cell, 'abc')] + ['points:'] + _points(d.r, d.types, d.mass, '') + ['']
    out.append('phonon:')
    for i in range(s['nq']):
        out.append(f'- q-position: {_vec(d.q[i], "{:12.7f}")}')
        if kind == 'mesh':
            out += [f'  distance_from_gamma: {np.linalg.norm(d.q[i]):12.9f}', f'  weight: {1 + i % 3}']
        elif kind == 'band':
            out.append(f'  distance:    {i*0.125:.7f}')
        out.append('  band:')
        for k in range(3*d.n):
            out += [f'  - # {k + 1}', f'    frequency: {d.f[i, k]/33:15.10f}']
            if s['evec']:
                out.append('    eigenvector:')
                for a in range(d.n):
                    out.append(f'    - # atom {a + 1}')
                    out += [f'      - [ {z.real:17.14f}, {z.imag:17.14f} ]' for z in d.e[i, k, a]]
        out.append('')
    return ('\n'.join(out) + '\n').encode()


def phonons_hdf5(s, kind):
    import h5py
    d = Data(s)
    b = io.BytesIO()
    kw = dict(compression='gzip') if s['trail'] else {}
    ev = d.e.reshape(s['nq'], 3*d.n, 3*d.n).transpose(0, 2, 1) if kind == 'band' else d.e.reshape(s['nq'], 3*d.n, 3*d.n)
    with h5py.File(b, 'w') as f:
        if kind == 'band':
            f.create_dataset('path', data=d.q[None], **kw)
            f.create_dataset('distance', data=np.arange(s['nq'])[None])
            f.create_dataset('frequency', data=d.f[None]/33, **kw)
            if s['evec']:
                f.create_dataset('eigenvector', data=ev[None], **kw)
        else:
            f.create_dataset('qpoint', data=d.q, **kw)
            f.create_dataset('frequency', data=d.f/33, **kw)
            if s['evec']:
                f.create_dataset('eigenvector', data=ev, **kw)
            if kind == 'mesh':
                f.create_dataset('mesh', data=np.array([4, 4, 4]))
                f.create_dataset('weight', data=1 + np.arange(s['nq']) % 3)
    return b.getvalue()


def phonopy_phonons(s):
    kind = ['mesh', 'band', 'qpoints'][s['seed'] % 3]
    h5 = s['comments']
    name = kind + ('.hdf5' if h5 else '.yaml')
    files = {name: phonons_hdf5(s, kind) if h5 else phonons_yaml(s, kind)}
    if h5 or kind == 'qpoints':
        files['phonopy.yaml'] = phonopy_yaml(dict(s, born=0))
    return files


WRITERS = dict(phonon=phonon, phonon_dos=phonon_dos, castep_bin=castep_bin, phonopy_fc=phonopy_fc, phonopy_phonons=phonopy_phonons)
