"""Synthetic crystals, force constants, q-point lists and result comparison used by many checks."""
import itertools
import random

import numpy as np


def np_rng(*key):
    return np.random.Generator(np.random.PCG64(random.Random('/'.join(map(str, key))).getrandbits(64)))


SC_CHOICES = [
    [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    [[2, 0, 0], [0, 1, 0], [0, 0, 1]],
    [[2, 0, 0], [0, 2, 0], [0, 0, 1]],
    [[2, 0, 0], [0, 2, 0], [0, 0, 2]],
    [[3, 0, 0], [0, 1, 0], [0, 0, 2]],
    [[1, 1, 0], [-1, 1, 0], [0, 0, 2]],
    [[2, 1, 0], [0, 2, 0], [0, 0, 1]],
]


def cell_origins(sc):
    sc = np.array(sc)
    n = int(round(abs(np.linalg.det(sc))))
    inv = np.linalg.inv(sc)
    out = []
    for r in itertools.product(range(-4, 7), repeat=3):
        f = np.array(r) @ inv
        if np.all(f > -1e-9) and np.all(f < 1 - 1e-9):
            out.append(r)
    assert len(out) == n, (sc, out)
    return np.array(out, dtype=np.int32)


def fc_spec(rng, max_atoms=3, born=None, max_cells=8, p_big=0.0):
    big = p_big and rng.random() < p_big
    if big:
        max_cells = 2
    while True:
        sc = rng.choice(SC_CHOICES)
        if abs(round(np.linalg.det(np.array(sc)))) <= max_cells:
            break
    n = rng.choice([4, 5, 6, 8, 9]) if big else rng.choice([1, 2, 2, 3][:max_atoms + 1])
    return dict(seed=rng.randrange(1 << 30), n_atoms=n, sc=sc,
                born=bool(rng.random() < 0.6) if born is None else born)


def fc_arrays(spec):
    """plain numpy data of a stable, translation-invariant crystal (slightly perturbed so that ASR has work to do)"""
    g = np_rng('fc', spec['seed'], spec['n_atoms'])
    n = spec['n_atoms']
    sc = np.array(spec['sc'], dtype=np.int64)
    cell = np.diag(g.uniform(3.0, 4.5, 3)) + g.uniform(-0.4, 0.4, (3, 3))
    if n > 3:
        cell *= (n/2.5)**(1/3)
    while True:
        r = np.round(g.uniform(0, 1, (n, 3)), 4)
        d = r[:, None] - r[None]
        d -= np.rint(d)
        dist = np.linalg.norm(d @ cell, axis=-1) + 10*np.eye(n)
        if dist.min() > 1.2:
            break
    mass = g.uniform(10, 100, n)
    org = cell_origins(sc)
    nc = len(org)
    inv = np.linalg.inv(sc)
    key = {}
    for i, o in enumerate(org):
        f = o @ inv
        key[tuple(np.rint((f - np.floor(f + 1e-9))*1e6).astype(int))] = i

    def find(o):
        f = o @ inv
        return key[tuple(np.rint((f - np.floor(f + 1e-9))*1e6).astype(int))]
    neg = [find(-o) for o in org]
    phi = np.zeros((nc, n, n, 3, 3))
    for c in range(nc):
        for a in range(n):
            for b in range(n):
                if c == 0 and a == b:
                    continue
                k = g.uniform(0.002, 0.02)
                v = g.normal(size=(3, 3))
                m = k*(v @ v.T/3 + 0.7*np.eye(3))
                phi[c, a, b] -= 0.5*m
                phi[neg[c], b, a] -= 0.5*m.T
    for a in range(n):
        phi[0, a, a] -= phi[:, a].sum(axis=(0, 1))
        phi[0, a, a] = 0.5*(phi[0, a, a] + phi[0, a, a].T)
        phi[0, a, a] += (1e-5 + 0.0)*np.eye(3)      # breaks the acoustic sum rule a little
    fc = phi.transpose(0, 1, 3, 2, 4).reshape(nc, 3*n, 3*n)
    out = dict(cell=cell, atom_r=r, mass=mass, sc=sc.astype(np.int32), org=org, fc=fc,
               atom_type=np.array((['Si', 'O', 'Na', 'Cl']*3)[:n]), born=None, diel=None)
    if spec['born']:
        b = 0.15*g.normal(size=(n, 3, 3)) + np.array([(-1)**i for i in range(n)])[:, None, None]*1.1*np.eye(3)
        out['born'] = b - b.mean(axis=0) + (0.3*np.eye(3) if n == 1 else 0)
        e = 0.3*g.normal(size=(3, 3))
        out['diel'] = 2.5*np.eye(3) + e @ e.T
    return out


def build_fc(spec, arrays=None, crystal=None):
    from euphonic import Crystal, ForceConstants, ureg
    d = arrays or fc_arrays(spec)
    if crystal is None:
        crystal = Crystal(d['cell'].copy()*ureg('angstrom'), d['atom_r'].copy(), d['atom_type'].copy(), d['mass'].copy()*ureg('amu'))
    kw = {}
    if d['born'] is not None:
        kw = dict(born=d['born'].copy()*ureg('e'), dielectric=d['diel'].copy()*ureg('e**2/(bohr*hartree)'))
    return ForceConstants(crystal, d['fc'].copy()*ureg('hartree/bohr**2'), d['sc'].copy(), d['org'].copy(), **kw)


GAMMAS = [[0., 0., 0.], [1., 0., 0.], [0., -1., 2.], [1., 1., 1.]]


def qpt_list(rng, n, p_gamma=0.3, p_dup=0.2, p_near=0.0):
    """q-points with gamma points, duplicates and equivalents (plain lists)"""
    out = []
    for _ in range(n):
        r = rng.random()
        if r < p_gamma:
            out.append(list(rng.choice(GAMMAS)) if rng.random() < 0.4 else [0., 0., 0.])
            if p_near and rng.random() < p_near:         # within rounding of a gamma point, or just beside it
                out[-1][rng.randrange(3)] += rng.choice([2e-16, -4e-16, 1e-15, 3e-4, -2e-5])
        elif r < p_gamma + p_dup and out:
            q = list(rng.choice(out))
            r = rng.random()
            if r < 0.3 and any(abs(x - round(x)) > 1e-3 for x in q):     # nearly the same
                q[rng.randrange(3)] += rng.choice([1e-4, -1e-5, 3e-6])
            elif r < 0.65:
                q[rng.randrange(3)] += rng.choice([-1., 1., 2.])
            out.append(q)
        elif r < p_gamma + p_dup + 0.15:
            out.append([rng.choice([0., 0.5, 0.25, -0.5]) for _ in range(3)])
        else:
            out.append([round(rng.uniform(-1, 1), 3) for _ in range(3)])
    return out


def calc_options(rng, born):
    o = dict(asr=rng.choice([None, 'realspace', 'reciprocal', 'reciprocal']), reduce_qpts=rng.random() < 0.5)
    if born:
        o.update(dipole=rng.random() < 0.85, splitting=rng.random() < 0.75, insert_gamma=rng.random() < 0.25,
                 dipole_parameter=rng.choice([1.0, 1.0, 0.6, 1.5]))
    return o


# ------------------------------------------------------------ comparing results
def dynmats(freqs, evecs):
    """mass-weighted dynamical matrices rebuilt from (n_q, 3N) frequencies and (n_q, 3N, N, 3) eigenvectors"""
    nq, nm = freqs.shape
    v = evecs.reshape(nq, nm, nm)
    w2 = np.sign(freqs)*freqs**2
    return np.einsum('qma,qm,qmb->qab', v, w2, v.conj())


def cmp_freqs(a, b, tol=1e-7):
    """compares squared frequencies relative to the largest one; returns None or a message"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f'shape {a.shape} != {b.shape}'
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        if np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a, b, equal_nan=True, rtol=1e-6):
            return None
        return 'non-finite frequencies: ' + repr(np.argwhere(~np.isfinite(a))[:5].tolist())
    wa, wb = np.sign(a)*a**2, np.sign(b)*b**2
    scale = max(np.max(np.abs(wb), initial=0.0), 1.0)
    d = np.abs(wa - wb)/scale
    if d.size and d.max() > tol:
        i = np.unravel_index(np.argmax(d), d.shape)
        return f'frequency at {tuple(int(x) for x in i)}: {a[i]!r} != {b[i]!r}'
    return None


def cmp_modes(fa, ea, fb, eb, tol=1e-7):
    m = cmp_freqs(fa, fb, tol)
    if m:
        return m
    ea, eb = np.asarray(ea), np.asarray(eb)
    if ea.shape != eb.shape:
        return f'eigenvector shape {ea.shape} != {eb.shape}'
    if not np.all(np.isfinite(ea)):
        return 'non-finite eigenvectors'
    nq, nm = fa.shape
    v = ea.reshape(nq, nm, nm)
    gram = np.einsum('qma,qna->qmn', v, v.conj())
    if nq and np.abs(gram - np.eye(nm)).max() > 1e-6:
        q = int(np.argmax(np.abs(gram - np.eye(nm)).reshape(nq, -1).max(axis=1)))
        return f'eigenvectors at q index {q} are not orthonormal'
    da, db = dynmats(fa, ea), dynmats(fb, eb)
    scale = max(np.abs(db).max(initial=0.0), 1.0)
    d = np.abs(da - db)/scale
    if d.size and d.max() > tol*10:
        i = np.unravel_index(np.argmax(d), d.shape)
        return f'dynamical matrix rebuilt at q index {int(i[0])} differs (rel {d.max():.2e})'
    return None


def cmp_grads(ga, gb, freqs, tol=1e-5):
    """mode gradients, only for modes well separated from their neighbours and from zero"""
    ga, gb = np.asarray(ga), np.asarray(gb)
    if ga.shape != gb.shape:
        return f'mode gradient shape {ga.shape} != {gb.shape}'
    f = np.asarray(freqs)
    fm = max(np.abs(f).max(initial=0.0), 1.0)
    gap = np.full(f.shape, np.inf)
    d = np.abs(np.diff(f, axis=1))
    gap[:, 1:] = np.minimum(gap[:, 1:], d)
    gap[:, :-1] = np.minimum(gap[:, :-1], d)
    ok = (gap > 1e-3*fm) & (np.abs(f) > 0.05*fm)
    if not ok.any():
        return None
    a, b = ga[ok], gb[ok]
    scale = max(np.abs(b).max(), 1e-3*fm)
    if not np.all(np.isfinite(a)):
        return 'non-finite mode gradients'
    e = np.abs(a - b).max()/scale
    return f'mode gradients differ (rel {e:.2e})' if e > tol else None
