"""C15: batch jobs over q-point lists with workers that crash, restart and repeat, against one-shot calculations."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

import numpy as np

from .. import boot, core, fixtures as F, trace

KB_MEV = 0.08617333262


class Crash(BaseException):
    """the worker's process dies here"""


class At(trace.Points):
    """raise at the n-th line of Euphonic code"""

    def __init__(self, n, exc):
        super().__init__()
        self.n, self.exc, self.fired = n, exc, False

    def hit(self, k, n):
        self.n -= 1
        if self.n == 0:
            self.fired = True
            sys.settrace(None)
            raise self.exc


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


class C15(core.Check):
    id = 'C15'
    technique = ('deterministic simulation of a batch job: a seeded scheduler hands chunks of a q-point list to workers that run real Euphonic code, crash at chosen lines, leave torn '
                 'result files, lose acknowledgements, fail for lack of memory and do other jobs in between; the assembled results are compared with one-shot calculations')
    rule = ('one evaluation = one batch job run to completion; a state is a distinct (split mode, options, fault kinds met, number of chunks); non-trivial = at least two chunks')
    n_runs = {'quick': 1600, 'thorough': 20000}
    wall = {'quick': 80, 'thorough': 1200}
    run_timeout = 120
    real = ['force constants (Python and C paths)', 'QpointPhononModes, QpointFrequencies, StructureFactor, DebyeWaller', 'JSON files on a real scratch directory']
    stub = ['the job scheduler and the workers\' process life: a crash is an exception that nothing catches at a chosen line of Euphonic code, after which the worker\'s objects are dropped',
            'torn files are files cut at a chosen length']
    assumptions = ['crystals of at most 3 atoms, lists of at most 40 q-points (at most 3100 for sums)', 'gamma points with LO-TO splitting are compared when the batch holds both neighbours, since '
                   'their direction comes from the neighbours in the list', 'mode gradients and structure factors of degenerate modes are compared as sums over the degenerate set']

    def prepare(self, tier):
        boot.import_euphonic('plain')

    def warm(self, tier):
        with quiet():
            self.execute(self.generate(core.rng_for(0, 'warm15', 0), 0, 'quick'), core.Outcome())

    # ------------------------------------------------------------- generation
    def generate(self, rng, idx, tier):
        born = rng.random() < 0.55
        spec = F.fc_spec(rng, max_atoms=3, born=born, max_cells=4, p_big=0.04)
        nq = rng.randint(2, (40 if tier == 'thorough' else 18) if spec['n_atoms'] < 4 else 8)
        q = F.qpt_list(rng, nq, p_gamma=rng.choice([0.0, 0.15, 0.3]), p_dup=0.25)
        opts = F.calc_options(rng, born)
        opts.pop('reduce_qpts', None)
        if rng.random() < 0.4:
            opts.pop('insert_gamma', None)
        mode = rng.choice(['scatter', 'segments'])
        if opts.get('insert_gamma'):
            mode = 'segments'
        idxs = list(range(nq))
        chunks = []
        if mode == 'scatter':
            rng.shuffle(idxs)
            while idxs:
                k = rng.choice([1, 1, 2, 3, 5, 8])
                chunks.append(idxs[:k])
                idxs = idxs[k:]
            if rng.random() < 0.3:
                chunks.append([rng.randrange(nq) for _ in range(rng.randint(1, 5))])     # work done twice
        else:
            a = 0
            while a < nq:
                k = rng.choice([1, 2, 3, 5, 8])
                chunks.append(list(range(a, min(a + k, nq))))
                a += k
        w = rng.choice([None, None, 'float', 'int', 'zero', 'spread'])
        ev = []
        for _ in range(rng.randint(0, 12)):
            ev.append(dict(worker=rng.randrange(3), chunk=rng.randrange(1000), fault=rng.choice(['none', 'none', 'crash-compute', 'crash-save', 'torn', 'lost-ack', 'memory', 'other-job', 'restart']),
                           line=rng.choice([rng.randint(1, 40), rng.randint(1, 400), rng.randint(1, 3000)]), frac=rng.random()))
        return dict(spec=spec, q=q, opts=opts, mode=mode, chunks=chunks, weights=w, events=ev, reduce=[rng.random() < 0.5 for _ in chunks], use_c=[rng.choice([None, False, True]) for _ in range(3)],
                    grads=rng.random() < 0.5, freqs_only=rng.random() < 0.2, t=rng.choice([0.0, 10.0, 300.0]), big=rng.choice([None]*5 + [999, 1000, 1001, 1999, 2000, 2003, 3001]),
                    order=rng.randrange(10000), one_reduce=rng.random() < 0.5, wseed=rng.randrange(1000), zero=rng.random() < 0.15)

    # -------------------------------------------------------------- execution
    def calc(self, fc, q, w, case, reduce, use_c):
        kw = dict(case['opts'], reduce_qpts=reduce, use_c=use_c, weights=None if w is None else w.copy())
        if use_c is not False:
            kw['n_threads'] = 1
        with quiet():
            if case['freqs_only']:
                r = fc.calculate_qpoint_frequencies(q, return_mode_gradients=case['grads'], **kw)
            else:
                r = fc.calculate_qpoint_phonon_modes(q, return_mode_gradients=case['grads'], **kw)
        return r if case['grads'] else (r, None)

    def halo(self, case, chunk):
        """the list a worker is given, and which of its entries belong to the chunk"""
        if case['mode'] == 'scatter':
            return list(chunk), list(range(len(chunk)))
        a, b = chunk[0], chunk[-1]
        lo, hi = max(a - 1, 0), min(b + 1, len(case['q']) - 1)
        lst = list(range(lo, hi + 1))
        return lst, [lst.index(i) for i in chunk]

    def out_rows(self, case, qlist, own):
        """rows of the output that belong to the entries `own` of the list, as (entry, row)"""
        ins = bool(case['opts'].get('insert_gamma')) and case['opts'].get('splitting') and case['opts'].get('dipole') and case['spec']['born']
        rows, r = [], 0
        for i in range(len(qlist)):
            n = 2 if ins and self.gamma(qlist[i]) and 0 < i < len(qlist) - 1 else 1
            if i in own:
                rows += [(i, r + k) for k in range(n)]
            r += n
        return rows, r

    @staticmethod
    def gamma(q):
        q = np.asarray(q)
        return bool(np.abs(q - np.rint(q)).sum() < 1e-15)

    def execute(self, case, out):
        from euphonic import ForceConstants, QpointFrequencies, QpointPhononModes
        c = case
        d = tempfile.mkdtemp(dir=boot.scratch())
        try:
            self.run(c, out, d, ForceConstants, QpointFrequencies if c['freqs_only'] else QpointPhononModes)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run(self, c, out, d, ForceConstants, Result):
        q = np.array(c['q'], dtype=float)
        g = F.np_rng('w15', c['wseed'])
        w = None
        if c['weights'] == 'float':
            w = g.uniform(0.1, 3, len(q))
        elif c['weights'] == 'int':
            w = g.integers(1, 9, len(q))
        elif c['weights'] == 'zero':
            w = g.uniform(0.1, 3, len(q))*(g.random(len(q)) < 0.6)
            w[0] = 1.0
        elif c['weights'] == 'spread':              # q-points of very different importance
            w = 10**g.uniform(-6, 1, len(q))
        src = os.path.join(d, 'fc.json')
        F.build_fc(c['spec']).to_json_file(src)
        workers = [None, None, None]
        order = core.rng_for(c['order'], 'sched', 0)
        pending = list(range(len(c['chunks'])))
        order.shuffle(pending)
        done = {}
        met = set()

        def attempt(wk, ci, ev):
            """one worker processing one chunk; returns whether the coordinator hears that it is done"""
            if workers[wk] is None:
                with quiet():
                    workers[wk] = ForceConstants.from_json_file(src)
            fc = workers[wk]
            lst, own = self.halo(c, c['chunks'][ci])
            fault = ev['fault']
            if fault == 'other-job':
                out.fault('another job on the same object')
                met.add(fault)
                o = dict(asr=['realspace', 'reciprocal', None][ev['line'] % 3])
                if c['spec']['born']:
                    o.update(dipole=ev['line'] % 2 == 0, dipole_parameter=0.7)
                with quiet():
                    fc.calculate_qpoint_frequencies(np.array([[0., 0., 0.], [0.3, 0.1, 0.2]]), use_c=False, **o)
            path = os.path.join(d, f'chunk{ci}.json')
            args = (fc, q[lst], None if w is None else w[lst], c, c['reduce'][ci], c['use_c'][wk])
            if fault in ('crash-compute', 'memory'):
                tr = At(ev['line'], Crash() if fault == 'crash-compute' else MemoryError('injected'))
                try:
                    with tr:
                        r = self.calc(*args)
                except Crash:
                    out.fault('crash while computing')
                    met.add(fault)
                    workers[wk] = None
                    return False
                except MemoryError:
                    out.fault('out of memory while computing')
                    met.add(fault)
                    return False          # the worker goes on with the same object
                finally:
                    sys.settrace(None)
            else:
                r = self.calc(*args)
            r, grads = r
            if fault == 'crash-save':
                try:
                    with At(ev['line'] % 60 + 1, Crash()), quiet():
                        r.to_json_file(path)
                except Crash:
                    out.fault('crash while saving')
                    met.add(fault)
                    workers[wk] = None
                    return False
                finally:
                    sys.settrace(None)
            else:
                with quiet():
                    r.to_json_file(path)
            if grads is not None:
                np.save(os.path.join(d, f'grads{ci}.npy'), grads.to('meV*angstrom').magnitude)
            if fault == 'torn':
                n = os.path.getsize(path)
                with open(path, 'r+b') as fh:
                    fh.truncate(int(n*ev['frac']))
                out.fault('torn result file')
                met.add(fault)
                workers[wk] = None
                return False
            if fault == 'lost-ack':
                out.fault('acknowledgement lost')
                met.add(fault)
                return False
            if fault == 'restart':
                out.fault('restart')
                met.add(fault)
                workers[wk] = None
            return True

        def harvest(ci, final):
            """the coordinator looks at what is on disk"""
            path = os.path.join(d, f'chunk{ci}.json')
            if not os.path.exists(path) or (c['grads'] and not os.path.exists(os.path.join(d, f'grads{ci}.npy'))):
                return None
            try:
                return Result.from_json_file(path)
            except Exception:
                if final:
                    raise
                return None
        steps = 0
        for ev in c['events']:
            if not pending:
                break
            k = ev['chunk'] % len(pending)
            ci = pending[k]
            steps += 1
            if attempt(ev['worker'], ci, ev):
                done[ci] = harvest(ci, True)
                pending.remove(ci)
            else:
                order.random()
                got = harvest(ci, False) if order.random() < 0.5 else None
                if got is not None:            # the work was finished although nobody was told
                    done[ci] = got
                    pending.remove(ci)
        for ci in list(pending):               # faults have stopped: everything must finish in one more round
            steps += 1
            if not attempt(order.randrange(3), ci, dict(fault='none', line=0, frac=0)):
                raise core.Violation('no-progress', f'chunk {ci} did not finish without faults')
            done[ci] = harvest(ci, True)
        out.unit('attempts', steps)
        # ---- the one-shot calculation on fresh force constants
        use_c = c['use_c'][0]
        one, one_g = self.calc(F.build_fc(c['spec']), q, w, c, c['one_reduce'], use_c)
        n = len(q)
        rows1, tot = self.out_rows(c, c['q'], list(range(n)))
        if len(one.qpts) != tot or len(one._frequencies if not hasattr(one, 'frequencies') else one.frequencies) != tot:
            raise core.Violation('rows', f'one-shot gave {len(one.qpts)} rows, expected {tot}')
        by_entry = {}
        for e, r in rows1:
            by_entry.setdefault(e, []).append(r)
        splitting = bool(c['opts'].get('splitting') and c['opts'].get('dipole') and c['spec']['born'])
        if w is not None:
            for e, rr in by_entry.items():
                got, want = float(np.asarray(one.weights, dtype=float)[rr].sum()), float(w[e])
                if abs(got - want) > 1e-12*max(abs(want), 1e-300):
                    raise core.Violation('weight-lost', f'one shot: the {len(rr)} row(s) of q-point {e} have weight {got!r} in all, {want!r} was given')
        f1 = one.frequencies.to('meV').magnitude
        e1 = None if c['freqs_only'] else one.eigenvectors
        g1 = None if one_g is None else one_g.to('meV*angstrom').magnitude
        fmax = max(abs(f1).max(), 1.0)
        subs, cover = [], np.zeros(n, dtype=bool)
        for ci, chunk in enumerate(c['chunks']):
            lst, own = self.halo(c, chunk)
            res = done[ci]
            rows, tot = self.out_rows(c, [c['q'][i] for i in lst], own)
            what = f'chunk {ci} ({c["mode"]}, reduce {c["reduce"][ci]})'
            if len(res.qpts) != tot:
                raise core.Violation('rows', f'{what}: {len(res.qpts)} rows, expected {tot}')
            br, ar = [], []
            seen = {}
            for e, r in rows:
                gi = lst[e]
                k = seen.get(e, 0)
                seen[e] = k + 1
                if len(by_entry[gi]) != sum(1 for x, _ in rows if x == e):
                    raise core.Violation('rows', f'{what}: q-point {gi} became a different number of rows than in one shot')
                if splitting and self.gamma(c['q'][gi]) and c['mode'] == 'scatter':
                    continue
                br.append(r)
                ar.append(by_entry[gi][k])
            if not br:
                continue
            cover[[lst[e] for e, _ in rows]] = True
            if not np.array_equal(res.qpts[br], one.qpts[ar]):
                raise core.Violation('qpts', f'{what}: q-points are not in the order given')
            if w is not None and np.abs(np.asarray(res.weights)[br] - np.asarray(one.weights)[ar]).max() > 1e-12*max(w.max(), 1):
                raise core.Violation('weights', f'{what}: weights differ from one shot')
            fb = res.frequencies.to('meV').magnitude[br]
            if c['freqs_only']:
                m = F.cmp_freqs(fb, f1[ar])
            else:
                m = F.cmp_modes(fb, res.eigenvectors[br], f1[ar], e1[ar])
            if m:
                raise core.Violation('differs', f'{what}: {m}')
            if g1 is not None:
                gb = np.load(os.path.join(d, f'grads{ci}.npy'))
                m = F.cmp_grads(gb[br], g1[ar], f1[ar])
                if m:
                    raise core.Violation('gradients', f'{what}: {m}')
            subs.append((res, br, ar))
        out.log(c['mode'], len(c['chunks']), sorted(met), round(float(np.abs(f1).sum()), 6))
        out.sigs.add(f'{c["mode"]}/{sorted(c["opts"].items(), key=str)}/{sorted(met)}/{len(c["chunks"])}')
        out.nontrivial = len(c['chunks']) > 1
        out.probe('splitting gamma compared', int(splitting and c['mode'] == 'segments' and any(self.gamma(x) for x in c['q'])))
        # ---- sums over q-points
        if splitting and c['mode'] == 'scatter' and any(self.gamma(x) for x in c['q']):
            out.probe('sums skipped')
            return
        if not c['freqs_only']:
            self.per_q(c, one, subs, fmax)
        self.sums(c, out, one, subs, fmax)

    # ---- per-q-point results derived from modes
    def sl(self, c, what, unit):
        from euphonic import ureg
        g = F.np_rng(what, c['spec']['seed'])
        return {a: ureg.Quantity(float(g.uniform(1, 9)), unit) for a in ['Si', 'O', 'Na', 'Cl']}

    def slice(self, obj, rows, weights=None):
        w = np.asarray(obj.weights)[rows] if weights is None else weights
        if hasattr(obj, 'eigenvectors'):
            return type(obj)(obj.crystal, obj.qpts[rows].copy(), obj.frequencies[rows].copy(), obj.eigenvectors[rows].copy(), np.array(w, dtype=float))
        return type(obj)(obj.crystal, obj.qpts[rows].copy(), obj.frequencies[rows].copy(), np.array(w, dtype=float))

    def per_q(self, c, one, subs, fmax):
        from euphonic import ureg
        t = ureg.Quantity(c['t'], 'K')
        dw = None
        with np.errstate(all='ignore'):
            if c['t'] >= 10:
                dw = self.slice(one, list(range(len(one.qpts)))).calculate_debye_waller(t)
                if not np.all(np.isfinite(dw.debye_waller.magnitude)):
                    dw = None
            sl = self.sl(c, 'sl15', 'fm')
            s1 = one.calculate_structure_factor(scattering_lengths=sl, dw=dw)
            a = s1.structure_factors.to('mbarn').magnitude
            for res, br, ar in subs:
                b = res.calculate_structure_factor(scattering_lengths=sl, dw=dw).structure_factors.to('mbarn').magnitude[br]
                x, y = self.grouped(one.frequencies.to('meV').magnitude[ar], a[ar], b, fmax)
                if x.size and np.abs(x - y).max() > 1e-6*max(np.abs(x).max(), 1e-6):
                    raise core.Violation('structure-factor', f'structure factors of a batch differ from one shot by {np.abs(x - y).max()/np.abs(x).max():.1e}')

    def grouped(self, f, a, b, fmax):
        """sums over sets of (nearly) degenerate modes, away from zero frequency"""
        xs, ys = [], []
        for i in range(len(f)):
            m = 0
            while m < f.shape[1]:
                k = m + 1
                while k < f.shape[1] and f[i, k] - f[i, k - 1] < 1e-3*fmax:
                    k += 1
                if f[i, m] > 0.05*fmax:
                    xs.append(a[i, m:k].sum())
                    ys.append(b[i, m:k].sum())
                m = k
        return np.array(xs), np.array(ys)

    # ---- weighted sums
    def sums(self, c, out, one, subs, fmax):
        from euphonic import ureg
        # rows of `one` covered by the batches, each exactly once
        parts, taken = [], set()
        for res, br, ar in subs:
            keep = [(b, a) for b, a in zip(br, ar)]
            keep = [(b, a) for i, (b, a) in enumerate(keep) if a not in taken and a not in [x[1] for x in keep[:i]]]
            if not keep:
                continue
            taken.update(a for _, a in keep)
            parts.append((res, [b for b, _ in keep], [a for _, a in keep]))
        if taken != set(range(len(one.qpts))):
            raise core.Violation('coverage', 'the batches do not cover the list')          # pragma: no cover (harness invariant)
        w1 = np.asarray(one.weights, dtype=float)
        f1 = one.frequencies.to('meV').magnitude
        reps = 1
        whole = self.slice(one, list(range(len(one.qpts))))
        if c['big']:
            idx = [i % len(f1) for i in range(c['big'])]
            jitter = F.np_rng('big', c['wseed']).uniform(0.5, 1.5, c['big'])
            whole = self.slice(one, idx, w1[idx]*jitter)
            parts = [(one, idx[i:i + 137], None) for i in range(0, c['big'], 137)]
            wparts = [w1[idx][i:i + 137]*jitter[i:i + 137] for i in range(0, c['big'], 137)]
            subsets = [self.slice(r, rows, ww) for (r, rows, _), ww in zip(parts, wparts)]
            out.probe('long list', 1)
        else:
            subsets = [self.slice(r, br, w1[ar]) for r, br, ar in parts]
        wt = np.array([np.sum(s.weights) for s in subsets])
        use = [i for i in range(len(subsets)) if wt[i] > 0]
        total = wt.sum()
        edges = np.linspace(-0.1137, 1.1491, 14)*fmax
        if np.abs(edges).min() < 1e-3*fmax:
            edges = edges + 3e-3*fmax
        bins = ureg.Quantity(edges, 'meV')
        near = np.abs(f1.reshape(-1, 1) - edges).min() < 1e-7*fmax

        def combine(f, unit):
            vals = [np.asarray(f(subsets[i]).to(unit).magnitude)*wt[i] for i in use]
            return np.sum(vals, axis=0)/total

        def compare(kind, a, b, tol=1e-7, each=False):
            if a.shape != b.shape or not np.all(np.isfinite(a)):
                raise core.Violation('sum-' + kind, f'{kind}: shapes {a.shape} {b.shape} or values that are not finite')
            s = max(np.abs(b).max(), 1e-300)
            if np.any(np.abs(a - b) > tol*(np.abs(b) + 1e-9*s if each else s)):
                raise core.Violation('sum-' + kind, f'{kind} of the whole list ({len(whole.qpts)} q-points) is not the weighted combination of its batches (relative difference {np.abs(a - b).max()/s:.1e})')
        if not near:
            compare('dos', whole.calculate_dos(bins).y_data.to('1/meV').magnitude, combine(lambda s: s.calculate_dos(bins).y_data, '1/meV'), each=True)
            m = whole.calculate_dos_map(bins).z_data.to('1/meV').magnitude if len(whole.qpts) <= 40 and len(whole.qpts) > 1 else None
            if m is not None:
                ww = np.asarray(whole.weights)
                compare('dos map', (m*ww[:, None]).sum(axis=0)/ww.sum(), whole.calculate_dos(bins).y_data.to('1/meV').magnitude)
                out.probe('dos map compared')
        if len(whole.qpts) <= 60:
            widths = F.np_rng('mw15', c['wseed']).uniform(0.02, 0.1, f1.shape)*fmax
            q = ureg.Quantity(widths, 'meV')
            if not c['big']:
                a = whole.calculate_dos(bins, mode_widths=q, adaptive_method='reference').y_data.to('1/meV').magnitude
                vals = [subsets[i].calculate_dos(bins, mode_widths=q[parts[i][2]], adaptive_method='reference').y_data.to('1/meV').magnitude*wt[i] for i in use]
                compare('adaptive dos', a, np.sum(vals, axis=0)/total, 1e-5)
        if c['freqs_only']:
            return
        xs = self.sl(c, 'xs15', 'barn')
        if not near:
            for kw in (dict(), dict(cross_sections=xs)):
                a = whole.calculate_pdos(bins, **kw).y_data
                unit = str(a.units)
                compare('pdos', a.to(unit).magnitude, combine(lambda s: s.calculate_pdos(bins, **kw).y_data, unit))
        fq = whole.frequencies.to('meV').magnitude
        mask_clear = not np.any((np.abs(fq) > 2e-3) & (np.abs(fq) < 5e-2))
        if mask_clear:
            t = ureg.Quantity(c['t'], 'K')
            if c['zero']:                   # acoustic modes at gamma that are exactly zero, as files give them
                z = np.where(np.abs(fq) < 1e-2, 0.0, fq)
                z[0, fq[0] < fq[0, 0] + 2e-2*fmax] = 0.0
                whole = type(whole)(whole.crystal, whole.qpts, ureg.Quantity(z, 'meV'), whole.eigenvectors, np.asarray(whole.weights))
                if not c['big']:
                    done = []
                    for s, (_, _, ar) in zip(subsets, parts):
                        done.append(type(s)(s.crystal, s.qpts, ureg.Quantity(z[ar], 'meV'), s.eigenvectors, np.asarray(s.weights)))
                    subsets = done
                out.probe('modes of exactly zero frequency')
            with np.errstate(all='ignore'):
                a = whole.calculate_debye_waller(t).debye_waller.to('angstrom**2').magnitude
                compare('Debye-Waller', a, self.debye_waller(whole, c['t']), 1e-6)
                if not (c['zero'] and c['big']):
                    compare('Debye-Waller', a, combine(lambda s: s.calculate_debye_waller(t).debye_waller, 'angstrom**2'), 1e-6)
        # averages of structure factors
        if not near and fq.min() > -0.1*fmax:
            with np.errstate(all='ignore'):
                keep = np.abs(f1) > 0.05*fmax
                if keep.all() and not c['big'] and not c['zero']:
                    sl = self.sl(c, 'sl15', 'fm')
                    a = whole.calculate_structure_factor(scattering_lengths=sl).calculate_1d_average(bins, weights=np.asarray(whole.weights)).y_data
                    unit = str(a.units)
                    b = combine(lambda s: s.calculate_structure_factor(scattering_lengths=sl).calculate_1d_average(bins, weights=np.asarray(s.weights)).y_data, unit)
                    compare('powder average', a.to(unit).magnitude, b, 1e-6)
                    out.probe('structure factor average compared')

    def debye_waller(self, m, t):
        """the Debye-Waller exponent from its definition, in angstrom**2, modes below 0.01 meV left out"""
        from .. import units as U
        f = m.frequencies.to('meV').magnitude
        e = m.eigenvectors
        mass = m.crystal.atom_mass.to('amu').magnitude*U.AMU
        w = np.asarray(m.weights, dtype=float)
        coef = np.zeros_like(f)
        ok = f >= 0.01
        en = f[ok]*U.E_CH*1e-3
        coef[ok] = U.HBAR**2/en
        if t > 0:
            coef[ok] /= np.tanh(en/(2*1.380649e-23*t))
        s = np.real(np.einsum('q,qm,qmka,qmkb->kab', w, coef, e, e.conj()))
        return s/(4*mass[:, None, None])/w.sum()*1e20

    def shrink(self, case, res):
        c = case
        for k, v in dict(events=[], big=None, grads=False, freqs_only=False, zero=False, weights=None, use_c=[False]*3).items():
            if c[k] != v:
                yield dict(c, **{k: v})
        for i in range(len(c['events'])):
            yield dict(c, events=c['events'][:i] + c['events'][i + 1:])
        n = len(c['q'])
        if n > 2:
            for m in (2, n//2, n - 1):
                ch = [[i for i in x if i < m] for x in c['chunks']]
                keep = [i for i, x in enumerate(ch) if x]
                if m < n:
                    yield dict(c, q=c['q'][:m], chunks=[ch[i] for i in keep], reduce=[c['reduce'][i] for i in keep])
        for k in list(c['opts']):
            if k in ('asr', 'dipole_parameter', 'insert_gamma') and c['opts'][k] not in (None, 1.0, False):
                yield dict(c, opts={a: b for a, b in c['opts'].items() if a != k})


CHECK = C15()
