"""C14: sampling and powder averaging under hostile random streams, stand-in force constants and failing calculations."""
import contextlib
import io
import itertools
import json
import math
import os
import random
import shutil
import tempfile

import numpy as np

from .. import boot, core, fixtures as F, units as U

TOP = (1 << 53) - 1                         # the largest double random() can give is TOP/2**53
SPECIAL = [0, 1, TOP, TOP - 1, 1 << 52, (1 << 52) - 1, 1 << 51, 3 << 51]
SQUARE = ['golden_square', 'regular_square', 'recurrence_sequence']
SPHERE = ['golden_sphere', 'sphere_from_square_grid', 'spherical_polar_grid', 'spherical_polar_improved', 'random_sphere']
KINDS = ['golden', 'sphere-projected-grid', 'spherical-polar-grid', 'spherical-polar-improved', 'random-sphere']
LUNITS = {'angstrom': 1e-10, 'bohr': U.BOHR, 'nm': 1e-9}


# ------------------------------------------------------------------------------------------------ the random-number seam
def untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x & 0xffffffff
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def doubles(stream, n=312):
    """the first n values of a stream, as integers k in 0..2**53-1 standing for k/2**53"""
    s = random.Random(f'stream/{stream["seed"]}')
    k = stream['kind']
    if k == 'const':
        return [stream['value']]*n
    if k == 'cycle':
        return list(itertools.islice(itertools.cycle(stream['values']), n))
    if k == 'special':
        return [s.choice(SPECIAL) for _ in range(n)]
    if k == 'near':
        return [min(max(s.choice(SPECIAL) + s.randrange(-4, 5), 0), TOP) for _ in range(n)]
    out = [s.getrandbits(53) for _ in range(n)]
    if k == 'spike':
        for i in range(n):
            if s.random() < stream['p']:
                out[i] = s.choice(SPECIAL)
    return out


def set_stream(stream):
    """makes numpy's global generator produce the stream, whichever of its functions is used to draw doubles"""
    random.seed(f'py/{stream["seed"]}')
    if stream['kind'] == 'seed':
        np.random.seed(stream['seed'] % 2**32)
        return
    key = np.empty(624, dtype=np.uint32)
    for i, k in enumerate(doubles(stream)):
        key[2*i] = untemper((k >> 26) << 5)
        key[2*i + 1] = untemper((k & ((1 << 26) - 1)) << 6)
    np.random.set_state(('MT19937', key, 0, 0, 0.0))


def rng_state():
    s = np.random.get_state()
    return (s[1].tobytes(), s[2], s[3], s[4], random.getstate())


def gen_stream(r):
    k = r.choice(['const', 'const', 'cycle', 'special', 'near', 'spike', 'plain', 'seed'])
    s = dict(kind=k, seed=r.randrange(100000))
    if k == 'const':
        s['value'] = r.choice(SPECIAL + [r.getrandbits(53)])
    elif k == 'cycle':
        s['values'] = [r.choice(SPECIAL) for _ in range(r.choice([2, 2, 3, 4]))]
    elif k == 'spike':
        s['p'] = r.choice([0.05, 0.3])
    return s


def gen_npts(r, big=4000):
    x = r.random()
    if x < 0.45:
        return r.randint(1, 20)
    if x < 0.85:
        return r.randint(20, 320)
    if x > 0.96 and big > 1000:
        return r.choice([4097, 5000, 8200, 10001, r.randint(4000, 12000), r.randint(12000, 33000)])
    return r.randint(320, big)


class Boom(MemoryError):
    pass


class Proxy:
    """what powder averaging needs from its force constants (as BrilleInterpolator provides it); records and may fail"""

    def __init__(self, fc, fail_at=None):
        self.fc, self.calls, self.fail_at = fc, [], fail_at

    @property
    def crystal(self):
        return self.fc.crystal

    def _call(self, name, qpts, kw):
        self.calls.append((name, np.array(qpts, dtype=float), dict(kw)))
        if self.fail_at is not None and len(self.calls) == self.fail_at:
            raise Boom('injected: out of memory')
        return getattr(self.fc, name)(qpts, **kw)

    def calculate_qpoint_phonon_modes(self, qpts, **kw):
        return self._call('calculate_qpoint_phonon_modes', qpts, kw)

    def calculate_qpoint_frequencies(self, qpts, **kw):
        return self._call('calculate_qpoint_frequencies', qpts, kw)


def gather(f):
    with contextlib.redirect_stdout(io.StringIO()) as so:
        v = f()
    return v, so.getvalue()


class C14(core.Check):
    id = 'C14'
    technique = ('deterministic simulation: the random-number generator is a seam whose outputs are chosen value by value (extremes, cycles, mixtures, seeded); '
                 'the sampled points and the q-points that powder averages pass on are checked as they appear; calculations fail part-way and are repeated')
    rule = ('one evaluation = one sampling generator run or one powder average with its repetitions; a state is a distinct (sampling, options, stream kind, outcome); '
            'non-trivial = at least one random number was chosen by the simulator')
    n_runs = {'quick': 700, 'thorough': 40000}
    wall = {'quick': 80, 'thorough': 1200}
    real = ['euphonic/sampling.py', 'euphonic/powder.py', 'euphonic/cli/powder_map.py', 'euphonic/cli/show_sampling.py', 'force constants, spectra']
    stub = ['the state of numpy\'s global generator is set so that its next 312 doubles are the chosen ones',
            'a recording, failing wrapper around the force constants in powder averages called through the API']
    assumptions = ['crystals of at most 2 atoms', 'powder averages with at most 200 points, samplings with at most 33000', 'at most the first 312 doubles are chosen, later ones follow from the generator']

    def prepare(self, tier):
        boot.import_euphonic('plain')
        import euphonic.powder  # noqa: F401
        from euphonic.cli import powder_map, show_sampling  # noqa: F401
        import matplotlib.pyplot as plt
        fig = plt.figure()
        fig.add_subplot(111, projection='3d')
        fig.canvas.draw()
        plt.close(fig)

    def warm(self, tier):
        self.execute(self.gen_cli(core.rng_for(0, 'warm', 3)), core.Outcome())
        self.execute(self.gen_show(core.rng_for(0, 'warm', 4)), core.Outcome())

    # ------------------------------------------------------------- generation
    def gen_sample(self, r):
        f = r.choice(['golden_square', 'regular_square', 'regular_square', 'golden_sphere', 'sphere_from_square_grid', 'sphere_from_square_grid',
                      'spherical_polar_grid', 'spherical_polar_grid', 'spherical_polar_improved', 'spherical_polar_improved', 'random_sphere', 'random_sphere',
                      'recurrence_sequence'])
        kw = {}
        if f in ('regular_square', 'sphere_from_square_grid', 'spherical_polar_grid'):
            size = [r.choice([1, 2, 3, r.randint(1, 15), r.randint(1, 40)]), r.choice([1, 2, 3, r.randint(1, 15), r.randint(1, 200)])]
            if r.random() < 0.5:
                size.reverse()
        else:
            size = [gen_npts(r)]
        if f == 'random_sphere' and r.random() < 0.1:
            size = [0]
        if f in ('golden_square', 'regular_square'):
            kw['offset'] = r.random() < 0.6
        if f in SPHERE:
            kw['cartesian'] = r.random() < 0.6
        if f not in ('random_sphere', 'recurrence_sequence'):
            kw['jitter'] = r.random() < 0.7
            if not kw['jitter'] and r.random() < 0.5:
                del kw['jitter']            # sampling is deterministic unless jitter is asked for
        if f == 'recurrence_sequence':
            kw['order'] = r.choice([1, 2, 2, 3, 3, 4, 5])
        return dict(kind='sample', f=f, size=size, kw=kw, stream=gen_stream(r), between=gen_stream(r) if r.random() < 0.3 else None)

    def gen_powder(self, r):
        s = r.choice(KINDS)
        n = r.choice([1, 2, 3, 5, 6, 7, 8, 9, 12, 18, 24, 31, 50, 98, 128, 161])
        if s == 'spherical-polar-improved':
            n = max(n, 6)
        born = r.random() < 0.3
        o = F.calc_options(r, born)
        o.pop('insert_gamma', None)
        if r.random() < 0.5:
            o['use_c'], o['n_threads'] = r.random() < 0.6, 1
        return dict(kind='powder', spec=F.fc_spec(r, max_atoms=2, born=born, max_cells=4), sampling=s, npts=n, jitter=r.random() < 0.55, unasked=r.random() < 0.5, opts=o,
                    what=r.choice(['dos', 'dos', 'pdos', 'sf', 'sf']), q=r.choice([r.uniform(0.05, 4), r.uniform(0.05, 4), 1e-6, 1.0, 30.0, 0.0]),
                    qunit=r.choice(list(LUNITS)), cunit=r.choice(list(LUNITS)), funit=r.choice(['meV', 'THz', '1/cm']), bins=r.choice([None, 7, 40]),
                    dw=r.choice(['auto', 'given', 'given', 'only', 'none', 'mismatch']), t=r.choice([0.0, 5.0, 150.0, 300.0]),
                    weighting=r.choice([None, 'coherent', 'incoherent', 'coherent-plus-incoherent']), stream=gen_stream(r),
                    fail=r.choice([None, None, 1, 2]), qint=r.random() < 0.1)

    def gen_cli(self, r):
        s = r.choice(KINDS)
        w = r.choice(['dos', 'dos', 'coherent', 'coherent-dos', 'incoherent-dos'])
        dens = r.random() < 0.5
        return dict(kind='cli', spec=F.fc_spec(r, max_atoms=2, born=r.random() < 0.2, max_cells=3), sampling=s, jitter=r.random() < 0.6, weighting=w,
                    npts=r.choice([6, 7, 9, 13, 32]), density=r.choice([1, 3, 8]) if dens else None, nmin=r.choice([6, 7, 10]), nmax=r.choice([12, 20, 40]),
                    t=r.choice([None, 10.0, 273.0]) if w == 'coherent' else None, lunit=r.choice(['angstrom', 'angstrom', 'bohr', 'nm']),
                    eunit=r.choice(['meV', 'meV', 'THz', '1/cm']),
                    q_min=r.choice([0.0, 0.0, 0.5]), q_max=r.choice([1.2, 2.0, 2.7]), dq=r.choice([0.4, 0.7, 0.9]), ebins=r.choice([5, 12]), pdos=r.random() < 0.2,
                    stream=gen_stream(r), use_c=r.random() < 0.4)

    def gen_show(self, r):
        f = r.choice(['golden-square', 'regular-square', 'recurrence-square', 'golden-sphere', 'sphere-from-square-grid', 'spherical-polar-grid',
                      'spherical-polar-improved', 'random-sphere', 'recurrence-cube'])
        n = gen_npts(r, 700)
        return dict(kind='show', sampling=f, npts=max(n, 6) if f == 'spherical-polar-improved' else n, jitter=r.random() < 0.6, stream=gen_stream(r))

    def generate(self, rng, idx, tier):
        x = rng.random()
        if x < 0.6:
            return self.gen_sample(rng)
        if x < 0.88:
            return self.gen_powder(rng)
        if x < 0.96:
            return self.gen_cli(rng)
        return self.gen_show(rng)

    # -------------------------------------------------------------- execution
    def execute(self, case, out):
        out.extra['case'] = case['kind']
        tags = [case.get('f') or case.get('sampling'), case.get('what') or case.get('weighting'), case.get('jitter', case.get('kw', {}).get('jitter')), case['stream']['kind'], case['kind']]
        out.probe(f'{case["kind"]}:{tags[0]}')
        out.fault('random stream: ' + case['stream']['kind'])
        getattr(self, 'do_' + case['kind'])(case, out)
        out.sigs.add(core_sig(tags + [case.get('kw', {}).get('offset'), case.get('kw', {}).get('cartesian'), case.get('dw')]))

    # ---- sampling generators
    def expected_n(self, f, size):
        return size[0]*size[1] if len(size) == 2 else size[0]

    def points(self, case, stream, between=None, **over):
        from euphonic import sampling
        set_stream(stream)
        g = getattr(sampling, case['f'])(*case['size'], **dict(case['kw'], **over))
        if between is None:
            return np.array([list(map(float, p)) for p in g])
        out = []
        it = iter(g)
        while True:                      # somebody else uses the generator between two points
            try:
                out.append(list(map(float, next(it))))
            except StopIteration:
                return np.array(out)
            set_stream(dict(between, seed=between['seed'] + len(out)))

    def do_sample(self, case, out):
        f, size, kw, st = case['f'], case['size'], case['kw'], case['stream']
        n = self.expected_n(f, size)
        random_used = f == 'random_sphere' or kw.get('jitter')
        if f == 'spherical_polar_improved' and n < 6:
            try:
                self.points(case, st)
            except ValueError:
                return
            raise core.Violation('small-npts', f'{f}({size}) gave points although fewer than 6 are not supported')
        set_stream(st)
        before = rng_state()
        p = self.points(case, st)
        used = rng_state() != before
        out.log(f, size, kw, st['kind'], p.tobytes().hex()[:64])
        self.judge(case, p, n)
        if not random_used and used:
            raise core.Violation('uses-random', f'{f}({size}, {kw}) is deterministic but used random numbers')
        if random_used and not used and n:
            raise core.Violation('no-random', f'{f}({size}, {kw}) did not use the random numbers')
        if not np.array_equal(p, self.points(case, st)):
            raise core.Violation('not-repeatable', f'{f}({size}, {kw}) gave different points for the same random numbers')
        if random_used and n:
            other = self.points(case, dict(kind='seed', seed=st['seed'] + 1))
            self.judge(case, other, n)
            if st['kind'] != 'seed' and np.array_equal(other, p):
                raise core.Violation('random-ignored', f'{f}({size}, {kw}): the points do not depend on the random numbers')
            if f == 'random_sphere' and n >= 200:
                c = other if kw['cartesian'] else to_cart(other)
                m = c.mean(axis=0)*math.sqrt(3*n)
                v = ((c**2).mean(axis=0) - 1/3)*math.sqrt(n)/0.2982
                x = np.array([(c[:, i]*c[:, j]).mean() for i, j in ((0, 1), (0, 2), (1, 2))])*math.sqrt(15*n)
                if max(abs(m).max(), abs(v).max(), abs(x).max()) > 7:
                    raise core.Violation('not-uniform', f'{f}({size}): {n} points are not spread uniformly over the sphere: {m} {v} {x} (standard deviations)')
        if case['between'] is not None:
            q = self.points(case, st, between=case['between'])
            self.judge(case, q, n)
            out.fault('random numbers used by others between points')
            if not random_used and not np.array_equal(p, q):
                raise core.Violation('uses-random', f'{f}({size}, {kw}): another user of the random-number generator changed deterministic points')
        if kw.get('jitter'):
            base = self.points(case, st, jitter=False)
            self.judge_jitter(case, base, p)
        if 'cartesian' in kw:
            o = self.points(case, st, cartesian=not kw['cartesian'])
            c, s = (p, o) if kw['cartesian'] else (o, p)
            if n and np.abs(c - to_cart(s)).max() > 1e-12:
                raise core.Violation('cartesian', f'{f}({size}, {kw}): Cartesian and spherical coordinates disagree')

    def judge(self, case, p, n):
        f, kw = case['f'], case['kw']
        what = f'{f}({case["size"]}, {kw})'
        if len(p) != n:
            raise core.Violation('count', f'{what} gave {len(p)} points, not {n}')
        if not n:
            return
        if not np.all(np.isfinite(p)):
            raise core.Violation('not-finite', f'{what}: point {int(np.argwhere(~np.isfinite(p))[0][0])} is {p[np.argwhere(~np.isfinite(p))[0][0]]}')
        if f in SQUARE:
            dim = kw.get('order', 2)
            if p.shape != (n, dim):
                raise core.Violation('shape', f'{what}: shape {p.shape}')
            if p.min() < 0 or p.max() > 1:
                i = int(np.argwhere((p < 0) | (p > 1))[0][0])
                raise core.Violation('outside', f'{what}: point {i} = {p[i].tolist()} lies outside the unit square')
        else:
            if p.shape != (n, 3):
                raise core.Violation('shape', f'{what}: shape {p.shape}')
            if kw['cartesian']:
                d = np.abs(np.linalg.norm(p, axis=1) - 1)
                if d.max() > 1e-12:
                    i = int(np.argmax(d))
                    raise core.Violation('outside', f'{what}: point {i} = {p[i].tolist()} is not on the unit sphere')
            else:
                if np.any(p[:, 0] != 1) or p[:, 2].min() < -1e-9 or p[:, 2].max() > math.pi + 1e-9:
                    raise core.Violation('outside', f'{what}: spherical coordinates with r != 1 or theta outside 0..pi')

    def judge_jitter(self, case, base, p):
        f, size = case['f'], case['size']
        if f not in SQUARE and case['kw']['cartesian']:
            return
        n = len(base)
        if f in ('golden_square', 'golden_sphere'):
            lim = np.full((n, 2), 0.5/math.sqrt(n))
        elif f in ('regular_square', 'sphere_from_square_grid'):
            lim = np.tile([0.5/size[1], 0.5/size[0]], (n, 1))
        elif f == 'spherical_polar_grid':
            lim = np.tile([math.pi/size[0], math.pi/(2*size[1])], (n, 1))
        else:
            rings = np.round(base[:, 2], 9)
            u, inv, counts = np.unique(rings, return_inverse=True, return_counts=True)
            lim = np.stack([math.pi/counts[inv.reshape(-1)], np.full(n, math.pi/(2*len(u)))], axis=1)
        a, b = (base, p) if f in SQUARE else (base[:, 1:], p[:, 1:])
        if f in ('golden_sphere', 'sphere_from_square_grid'):
            a, b = to_square(a), to_square(b)
        d = np.abs(a - b)
        if f in ('golden_square', 'regular_square', 'golden_sphere', 'sphere_from_square_grid'):
            d = np.minimum(d, np.abs(1 - d))
        else:
            d[:, 0] = np.minimum(d[:, 0] % (2*math.pi), (-d[:, 0]) % (2*math.pi))
        if np.any(d > lim + 1e-7):
            i = int(np.argwhere(d > lim + 1e-7)[0][0])
            raise core.Violation('jitter-too-far', f'{f}({size}): jitter moved point {i} by {d[i].tolist()}, more than {lim[i].tolist()}')

    # ---- powder averages
    def sphere(self, kind, npts, jitter):
        from euphonic import sampling as S
        m = int(math.ceil(math.sqrt(npts/2)))
        while 2*(m - 1)**2 >= npts and m > 1:
            m -= 1
        if kind == 'golden':
            g, n = S.golden_sphere(npts, jitter=jitter), npts
        elif kind == 'sphere-projected-grid':
            g, n = S.sphere_from_square_grid(2*m, m, jitter=jitter), 2*m*m
        elif kind == 'spherical-polar-grid':
            g, n = S.spherical_polar_grid(2*m, m, jitter=jitter), 2*m*m
        elif kind == 'spherical-polar-improved':
            g, n = S.spherical_polar_improved(npts, jitter=jitter), npts
        else:
            g, n = S.random_sphere(npts), npts
        return np.array(list(g)), n

    def judge_qpts(self, what, qpts, crystal, q_si, expect, n):
        if qpts.shape != (n, 3):
            raise core.Violation('q-count', f'{what}: {qpts.shape} q-points, expected {n}')
        cell = crystal.cell_vectors.to('m').magnitude
        rec = 2*math.pi*np.linalg.inv(cell).T
        cart = qpts @ rec
        mod = np.linalg.norm(cart, axis=1)
        if not np.all(np.isfinite(qpts)):
            raise core.Violation('q-not-finite', f'{what}: q-points that are not finite')
        tol = 1e-8*max(q_si, 1e-3*np.abs(rec).max()*1e-6)
        if np.abs(mod - q_si).max() > tol:
            i = int(np.argmax(np.abs(mod - q_si)))
            raise core.Violation('q-length', f'{what}: |q| of q-point {i} is {mod[i]*1e-10!r} 1/angstrom, requested {q_si*1e-10!r}')
        if q_si and np.abs(cart/q_si - expect).max() > 1e-7:
            raise core.Violation('q-points', f'{what}: the q-points are not those of the sampling scheme')

    def do_powder(self, case, out):
        from euphonic import powder, ureg, util
        c = case
        fc = F.build_fc(c['spec'])
        fc.crystal.cell_vectors_unit = c['cunit']
        opts = dict(c['opts'])
        q = c['q']
        if c['qint']:
            q = int(max(1, round(q)))
        mod_q = ureg.Quantity(q, '1/' + c['qunit'])
        q_si = q/LUNITS[c['qunit']]
        what = f'{c["what"]} sampled with {c["sampling"]}, npts={c["npts"]}, jitter={c["jitter"]}'
        with contextlib.redirect_stdout(io.StringIO()):
            probe = fc.calculate_qpoint_frequencies(np.array([[0.5, 0.31, 0.17]]), **opts)
        fmax = float(probe.frequencies.to('meV').magnitude.max())
        bins = None
        if c['bins']:
            bins = ureg.Quantity(np.linspace(0.0137, 1.4317, c['bins'] + 1)*fmax, 'meV')
            if c['funit'] == 'THz':
                bins = bins.to('THz')
            elif c['funit'] == '1/cm':
                bins = bins.to('1/cm')
        kw = dict(sampling=c['sampling'], npts=c['npts'], jitter=c['jitter'], energy_bins=bins)
        if not c['jitter'] and c.get('unasked'):
            del kw['jitter']
        dw = temperature = None
        if c['what'] == 'sf':
            grid = util.mp_grid((1, 2, 1))
            t = c['t']
            dwm = fc.calculate_qpoint_phonon_modes(grid, **opts).calculate_debye_waller(ureg.Quantity(t, 'K'))
            mode = c['dw']
            if mode == 'auto':
                temperature = ureg.Quantity(t, 'K')
                kw.update(temperature=temperature, dw_spacing=ureg.Quantity(1.1, '1/angstrom'))
            elif mode == 'given':
                dw = dwm
                kw.update(dw=dw, temperature=ureg.Quantity(t*1000, 'mK'))
            elif mode == 'only':
                dw = dwm
                kw.update(dw=dw, temperature=None)
            elif mode == 'none':
                kw.update(dw=None, temperature=None)
            else:
                kw.update(dw=dwm, temperature=ureg.Quantity(t + 7.0, 'K'))
            f = powder.sample_sphere_structure_factor
            g = F.np_rng('sl', c['spec']['seed'])
            sl = {a: ureg.Quantity(float(g.uniform(2, 9)), 'fm') for a in set(fc.crystal.atom_type)}
            kw['scattering_lengths'] = sl
        elif c['what'] == 'pdos':
            f = powder.sample_sphere_pdos
            kw['weighting'] = c['weighting']
        else:
            f = powder.sample_sphere_dos
        st = c['stream']
        set_stream(st)
        before = rng_state()
        expect, n = self.sphere(c['sampling'], c['npts'], c['jitter'])
        random_used = c['sampling'] == 'random-sphere' or c['jitter']
        if c['fail']:
            px = Proxy(fc, fail_at=c['fail'])
            set_stream(st)
            try:
                gather(lambda: f(px, mod_q, **kw, **opts))
            except Boom:
                out.fault('calculation failed part-way')
            except ValueError:
                if c['dw'] != 'mismatch':
                    raise
        px = Proxy(fc)
        set_stream(st)
        try:
            spec, printed = gather(lambda: f(px, mod_q, **kw, **opts))
        except ValueError:
            if c['what'] == 'sf' and c['dw'] == 'mismatch':
                out.probe('temperature mismatch refused')
                return
            raise
        if c['what'] == 'sf' and c['dw'] == 'mismatch':
            raise core.Violation('dw-mismatch', f'{what}: a Debye-Waller factor for another temperature was accepted')
        if (not random_used) and rng_state() != before:
            raise core.Violation('uses-random', f'{what} is deterministic but used random numbers')
        if not px.calls:
            raise core.Violation('q-count', f'{what}: no calculation was made')
        out.unit('q-points', sum(len(x[1]) for x in px.calls))
        name, qpts, _ = px.calls[-1]
        self.judge_qpts(what, qpts, fc.crystal, q_si, expect, n)
        rounded = n != c['npts']
        if rounded and 'rounding up' in printed and f'rounding up to {n}.' not in printed:
            raise core.Violation('rounding-message', f'{what}: {n} points were used but the message says {printed.strip()!r}')
        # what the average must be, from the recorded q-points
        if c['what'] == 'sf' and c['dw'] == 'auto':
            expect_grid = util.mp_grid(fc.crystal.get_mp_grid_spec(ureg.Quantity(1.1, '1/angstrom')))
            dw = fc.calculate_qpoint_phonon_modes(expect_grid, **opts).calculate_debye_waller(temperature)

        def result(qq, edges):
            if c['what'] == 'dos':
                ph = fc.calculate_qpoint_frequencies(qq, **opts)
                return ph, (ph.calculate_dos(edges) if edges is not None else None)
            ph = fc.calculate_qpoint_phonon_modes(qq, **opts)
            if edges is None:
                return ph, None
            if c['what'] == 'pdos':
                return ph, ph.calculate_pdos(edges, weighting=c['weighting'])
            return ph, ph.calculate_structure_factor(scattering_lengths=sl, dw=dw).calculate_1d_average(edges)
        with contextlib.redirect_stdout(io.StringIO()):
            all_ph, _ = result(qpts, None)
            freqs = all_ph.frequencies.to('meV').magnitude
            x = spec.x_data.to('meV').magnitude
            if bins is None:
                want = np.linspace(0, freqs.max()*1.05, 1001)
            else:
                want = bins.to('meV').magnitude
            if x.shape != want.shape or np.abs(x - want).max() > 1e-9*max(abs(want).max(), 1e-12):
                raise core.Violation('bins', f'{what}: the energy bins of the result are not the {"default" if bins is None else "requested"} ones')
            edges = bins if bins is not None else ureg.Quantity(want, 'meV')
            _, direct = result(qpts, edges)
            singles = [result(qpts[i:i + 1], edges)[1] for i in range(len(qpts))] if len(qpts) <= 40 else []
        got = np.asarray(spec.y_data.to(direct.y_data.units).magnitude)
        ref = np.asarray(direct.y_data.magnitude)
        self.same(what + ': not the result of the calculation at its q-points', 'not-the-calculation', got, ref, freqs, want, len(qpts))
        if singles:
            avg = np.mean([s.y_data.to(direct.y_data.units).magnitude for s in singles], axis=0)
            self.same(what + ': not the average over its q-points', 'not-the-average', got, avg, freqs, want, len(qpts))
        out.log(what, got.sum())
        px2 = Proxy(fc)
        set_stream(st)
        spec2, _ = gather(lambda: f(px2, mod_q, **kw, **opts))
        if not np.array_equal(px2.calls[-1][1], qpts) or not np.array_equal(spec2.y_data.magnitude, spec.y_data.magnitude, equal_nan=True):
            raise core.Violation('not-repeatable', f'{what}: the same random numbers gave a different result')
        if random_used and st['kind'] != 'seed':
            px3 = Proxy(fc)
            set_stream(dict(kind='seed', seed=st['seed'] + 1))
            gather(lambda: f(px3, mod_q, **kw, **opts))
            if q_si and px3.calls[-1][1].shape == qpts.shape and np.array_equal(px3.calls[-1][1], qpts):
                raise core.Violation('random-ignored', f'{what}: the q-points do not depend on the random numbers')

    def same(self, what, kind, a, b, freqs, edges, nq):
        if a.shape != b.shape or not np.array_equal(np.isfinite(a), np.isfinite(b)):
            raise core.Violation(kind, f'{what} (shapes {a.shape}, {b.shape})')
        scale = np.abs(b[np.isfinite(b)]).max(initial=0.0)
        d = np.nan_to_num(np.abs(a - b), nan=0.0, posinf=0.0)
        if d.max(initial=0.0) <= 1e-7*max(scale, 1e-300):
            return
        # a mode right on a bin edge may fall on either side of it
        e = np.abs(freqs.reshape(-1, 1) - edges.reshape(1, -1)).min(axis=0) if len(edges)*freqs.size < 4e7 else np.zeros(len(edges))
        near = e < 1e-6*max(np.abs(edges).max(), 1e-12)
        near[0] = near[0] or edges[0] == 0
        ok = near[:-1] | near[1:]
        d = np.where(np.broadcast_to(ok, d.shape), 0, d)
        if d.max(initial=0.0) > 1e-7*max(scale, 1e-300):
            raise core.Violation(kind, f'{what} (relative difference {d.max()/max(scale, 1e-300):.2e})')

    # ---- euphonic-powder-map
    def do_cli(self, case, out):
        from euphonic import ForceConstants, Spectrum2D, ureg
        from euphonic.cli import powder_map
        import matplotlib.pyplot as plt
        c = case
        d = tempfile.mkdtemp(dir=boot.scratch())
        try:
            fc = F.build_fc(c['spec'])
            src = os.path.join(d, 'fc.json')
            fc.to_json_file(src)
            dst = os.path.join(d, 'out.json')
            lu = 'angstrom' if c['lunit'] == 'angstrom' else c['lunit']
            a = [src, '--sampling', c['sampling'], '--weighting', c['weighting'], '--q-spacing', str(c['dq']), '--q-min', str(c['q_min']), '--q-max', str(c['q_max']),
                 '--ebins', str(c['ebins']), '--length-unit', lu, '--energy-unit', c['eunit'], '--save-json', dst, '-s', os.path.join(d, 'p.png'), '--no-widgets']
            a += ['--use-c', '--n-threads', '1'] if c['use_c'] else ['--disable-c']
            if c['density']:
                a += ['--npts-density', str(c['density']), '--npts-min', str(c['nmin']), '--npts-max', str(c['nmax'])]
            else:
                a += ['--npts', str(c['npts'])]
            if c['jitter']:
                a.append('--jitter')
            if c['t'] is not None:
                a += ['--temperature', str(c['t']), '--grid', '1', '2', '1']
            pdos = None
            if c['pdos'] and c['weighting'] != 'coherent':
                pdos = sorted(set(fc.crystal.atom_type))[0]
                a += ['--pdos', pdos]
            calls = []
            orig = {n: getattr(ForceConstants, n) for n in ('calculate_qpoint_phonon_modes', 'calculate_qpoint_frequencies')}
            depth = [0]

            def wrap(name):
                def w(self, qpts, *ar, **kw):
                    if not depth[0]:
                        calls.append((name, np.array(qpts, dtype=float)))
                    depth[0] += 1
                    try:
                        return orig[name](self, qpts, *ar, **kw)
                    finally:
                        depth[0] -= 1
                return w
            lines = []

            def run():
                del calls[:]
                set_stream(c['stream'])
                with contextlib.redirect_stderr(io.StringIO()):
                    _, txt = gather(lambda: powder_map.main(list(a)))
                lines[:] = txt.splitlines()
                plt.close('all')
                with open(dst) as fh:
                    return fh.read()
            for nme in orig:
                setattr(ForceConstants, nme, wrap(nme))
            try:
                t1 = run()
                first = [x[1] for x in calls]
                t2 = run()
                second = [x[1] for x in calls]
            finally:
                for nme, fn in orig.items():
                    setattr(ForceConstants, nme, fn)
            what = 'euphonic-powder-map ' + ' '.join(a[1:])
            if t1 != t2 or len(first) != len(second) or any(not np.array_equal(x, y) for x, y in zip(first, second)):
                raise core.Violation('not-repeatable', f'{what}: the same random numbers gave a different file')
            data = json.loads(t1)
            spec = Spectrum2D.from_dict(data)
            nsh = int(math.ceil((c['q_max'] - c['q_min'])/c['dq']))
            xs = spec.x_data.to('1/m').magnitude
            edges = np.linspace(c['q_min'], c['q_max'], nsh + 1)/LUNITS[c['lunit']]
            if xs.shape != edges.shape or np.abs(xs - edges).max() > 1e-9*edges.max():
                raise core.Violation('shells', f'{what}: the |q| bin edges are not the requested ones')
            shells = first[-nsh:]
            centres = (edges[1:] + edges[:-1])/2
            set_stream(c['stream'])
            ybins = spec.y_data
            ev = ybins.to('meV').magnitude
            z = spec.z_data
            loaded = ForceConstants.from_json_file(src)
            copts = dict(use_c=c['use_c'])
            if c['use_c']:
                copts['n_threads'] = 1
            dw = None
            if c['t'] is not None:
                from euphonic import util
                dw = loaded.calculate_qpoint_phonon_modes(util.mp_grid((1, 2, 1)), asr=None, **copts).calculate_debye_waller(c['t']*ureg('K'))
            for i in range(nsh):
                q = centres[i]*LUNITS[c['lunit']]
                npts = c['npts']
                if c['density']:
                    raw = c['density']*q**2
                    npts = math.ceil(raw) if abs(raw - round(raw)) > 1e-9 else round(raw)
                    npts = max(c['nmin'], min(c['nmax'], npts))
                expect, n = self.sphere(c['sampling'], npts, c['jitter'])
                self.judge_qpts(f'{what}: shell {i}', shells[i], loaded.crystal, centres[i], expect, n)
                with contextlib.redirect_stdout(io.StringIO()):
                    ph = loaded.calculate_qpoint_phonon_modes(shells[i], **copts)
                    if c['weighting'] == 'coherent':
                        s = ph.calculate_structure_factor(dw=dw).calculate_1d_average(ybins)
                    elif c['weighting'] == 'dos' and pdos is None:
                        s = ph.calculate_dos(ybins)
                    else:
                        wt = None if c['weighting'] == 'dos' else c['weighting'].replace('-dos', '')
                        s = ph.calculate_pdos(ybins, weighting=wt)
                        s = s.select(species=pdos).sum() if pdos else s.sum()
                row = z[i].to(s.y_data.units).magnitude
                self.same(f'{what}: shell {i} is not the average over its q-points', 'not-the-average', row, s.y_data.magnitude,
                          ph.frequencies.to('meV').magnitude, ev, n)
                final = npts
            if not any(ln.strip() == f'Final npts: {final}' for ln in lines) and any('Final npts' in ln for ln in lines):
                raise core.Violation('npts-message', f'{what}: the last shell used {final} points but the tool printed {[x for x in lines if "Final" in x]}')
            out.unit('q-points', sum(len(x) for x in first))
            out.log(c['sampling'], c['weighting'], hash_text(t1))
        finally:
            plt.close('all')
            shutil.rmtree(d, ignore_errors=True)

    # ---- euphonic-show-sampling
    def do_show(self, case, out):
        from euphonic.cli import show_sampling
        import matplotlib.pyplot as plt
        c = case
        d = tempfile.mkdtemp(dir=boot.scratch())
        try:
            plt.close('all')
            a = [str(c['npts']), c['sampling'], '-s', os.path.join(d, 'p.png')] + (['--jitter'] if c['jitter'] else [])
            set_stream(c['stream'])
            _, txt = gather(lambda: show_sampling.main(a))
            what = 'euphonic-show-sampling ' + ' '.join(a[:2] + a[4:])
            n = c['npts']
            if c['sampling'] == 'regular-square':
                n = (math.isqrt(n - 1) + 1)**2
            elif c['sampling'] in ('sphere-from-square-grid', 'spherical-polar-grid'):
                m = 1
                while 2*m*m < n:
                    m += 1
                n = 2*m*m
            if n != c['npts'] and f'rounding up to {n}.' not in txt:
                raise core.Violation('rounding-message', f'{what}: {n} points expected, message {txt.strip()!r}')
            ax = plt.gcf().axes[0]
            sc = ax.collections[0]
            off = sc._offsets3d if hasattr(sc, '_offsets3d') else np.asarray(sc.get_offsets()).T
            p = np.array([np.asarray(v) for v in off]).T
            if len(p) != n:
                raise core.Violation('count', f'{what}: {len(p)} points shown, not {n}')
            if not np.all(np.isfinite(p)):
                raise core.Violation('not-finite', f'{what}: points that are not finite')
            if 'sphere' in c['sampling'] or 'polar' in c['sampling']:
                bad = np.abs(np.linalg.norm(p, axis=1) - 1).max() > 1e-12
            else:
                bad = p.min() < 0 or p.max() > 1
            if bad:
                raise core.Violation('outside', f'{what}: points outside the unit square or off the unit sphere')
            out.log(what, p.sum())
        finally:
            plt.close('all')
            shutil.rmtree(d, ignore_errors=True)

    def shrink(self, case, res):
        c = case
        if c['stream']['kind'] != 'const':
            for v in (0, TOP, 1 << 52):
                yield dict(c, stream=dict(kind='const', value=v, seed=c['stream']['seed']))
        if c.get('between'):
            yield dict(c, between=None)
        if c.get('fail'):
            yield dict(c, fail=None)
        if c.get('jitter'):
            yield dict(c, jitter=False)
        if c['kind'] == 'sample':
            for i, v in enumerate(c['size']):
                for w in (1, 2, 6, v//2, v - 1):
                    if 0 < w < v:
                        yield dict(c, size=c['size'][:i] + [w] + c['size'][i + 1:])
            for k, v in c['kw'].items():
                if v is True:
                    yield dict(c, kw=dict(c['kw'], **{k: False}))
        if c['kind'] == 'powder':
            if c['npts'] > 6:
                yield dict(c, npts=6)
                yield dict(c, npts=c['npts']//2 if c['npts'] > 12 else 6)
            if c['opts']:
                yield dict(c, opts={})
            for k, v in dict(cunit='angstrom', qunit='angstrom', funit='meV', q=1.0, bins=7, spec=dict(c['spec'], sc=F.SC_CHOICES[0])).items():
                if c[k] != v:
                    yield dict(c, **{k: v})
        if c['kind'] == 'cli':
            for k, v in dict(density=None, npts=6, pdos=False, t=None, use_c=False, eunit='meV', lunit='angstrom').items():
                if c[k] != v:
                    yield dict(c, **{k: v})
        if c['kind'] == 'show' and c['npts'] > 6:
            yield dict(c, npts=6)
            yield dict(c, npts=c['npts']//2 if c['npts'] > 12 else 6)


def hash_text(t):
    import hashlib
    return hashlib.sha256(t.encode()).hexdigest()[:16]


def core_sig(tags):
    return '/'.join(map(str, tags))


def to_cart(s):
    return np.stack([np.cos(s[:, 1])*np.sin(s[:, 2]), np.sin(s[:, 1])*np.sin(s[:, 2]), np.cos(s[:, 2])], axis=1)


def to_square(pt):
    return np.stack([(np.cos(pt[:, 1]) + 1)/2, (pt[:, 0]/(2*math.pi)) % 1], axis=1)


CHECK = C14()
