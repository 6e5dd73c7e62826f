"""C02: failing allocations and eigensolver calls inside simulated OpenMP schedules."""
import gc
import sys
import tracemalloc

import numpy as np

from .. import boot, core, fixtures as F, omp
from .c01 import C01


ARRAYS = [tracemalloc.DomainFilter(True, np.lib.tracemalloc_domain)]


def live_arrays():
    """number of array data blocks allocated since tracemalloc was started and still held"""
    return len(tracemalloc.take_snapshot().filter_traces(ARRAYS).traces)


class C02(core.Check):
    id = 'C02'
    level = 'exploration'
    technique = 'deterministic simulation with fault injection: failing malloc / zheevd at seeded positions inside seeded OpenMP schedules'
    rule = ('one evaluation = one calculation during which at least one allocation or eigensolver call was made to fail (positions '
            'drawn over the calls a fault-free execution of the same schedule makes), followed by a fault-free one; a state is a '
            'distinct (fault kind, position class, schedule hash); non-trivial = a configured fault really fired')
    n_runs = {'quick': 2000, 'thorough': 20000}
    wall = {'quick': 80, 'thorough': 1200}
    real = C01.real
    stub = C01.stub
    assumptions = ['the allocator fails by returning NULL; LAPACK fails by setting info, leaving outputs unspecified']

    def prepare(self, tier):
        from .. import build
        so = build.build('sim')
        boot.import_euphonic('sim')
        self.sim = omp.Sim(so)

    def warm(self, tier):
        F.build_fc(dict(seed=1, n_atoms=2, sc=F.SC_CHOICES[1], born=True)).calculate_qpoint_phonon_modes(
            np.array([[0., 0, 0]]), use_c=False)

    def generate(self, rng, idx, tier):
        spec = F.fc_spec(rng, born=rng.random() < 0.75)
        n = rng.choice([1, 2, 3, 4, 6, 8])
        q = F.qpt_list(rng, n, p_gamma=rng.choice([0.1, 0.5]))
        if rng.random() < 0.6:
            q[0] = [0., 0., 0.]
        o = F.calc_options(rng, spec['born'])
        calls = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            f = {}
            r = rng.random()
            if r < 0.6:
                f['alloc'] = [round(rng.random(), 4) for _ in range(rng.choice([1, 1, 1, 2, 5]))]
            if r > 0.5:
                f['zheevd'] = [[round(rng.random(), 4), rng.choice([1, 2, 5])] for _ in range(rng.choice([1, 1, 2]))]
            calls.append(f)
        sched = omp.random_sched(rng)
        sched['gap'] = rng.choice([0, 40, 400, 4000])
        return dict(fc=spec, q=q, opts=o, kind=rng.choice(['modes', 'modes', 'grads', 'freqs', 'freqs+grads']),
                    n_threads=rng.choice([1, 2, 3, 4, 8]), sched=sched, calls=calls,
                    lookup=rng.random() < 0.06)

    def execute(self, case, out):
        want = C01.reference(C01, case)
        fc = F.build_fc(case['fc'])
        kw = dict(use_c=True, n_threads=case['n_threads'])
        if case['lookup']:
            self.failed_lookup(case, fc, out)
        # fault-free dry run: how many allocations and solver calls are there to fail
        self.sim.configure(dict(case['sched'], races=False))
        m = C01.compare(C01.call(fc, case['q'], case['kind'], case['opts'], **kw), want)
        st = self.sim.stats()
        if m:
            return out.fail('wrong-result', f'without any fault: {m}')
        n_alloc, n_z = st['allocs'], st['zcalls']
        out.evals = 0
        refs = None
        m = None
        tracemalloc.start()
        try:
            self.calls(case, out, fc, want, kw, n_alloc, n_z, refs)
        finally:
            tracemalloc.stop()
        out.nontrivial = bool(out.faults)
        out.sample = dict(fc=case['fc'], q=len(case['q']), opts=case['opts'], calls=case['calls'], allocs=n_alloc, zheevd=n_z)

    def held(self, case, fl, fc, kw, n0):
        """does every repetition of a call leave arrays behind?"""
        gc.collect()
        if live_arrays() <= n0:
            return 0
        n = [live_arrays()]
        for i in range(4):
            self.sim.configure(dict(case['sched'], races=False), fl)
            try:
                C01.call(fc, case['q'], case['kind'], case['opts'], **kw)
            except Exception:
                pass
            gc.collect()
            n.append(live_arrays())
        return n[-1] - n[0] if all(b > a for a, b in zip(n, n[1:])) else 0

    def calls(self, case, out, fc, want, kw, n_alloc, n_z, refs):
        n_live = live_arrays()
        for k, f in enumerate(case['calls'] + [None]):
            fl = {}
            if f and f.get('alloc'):
                fl['alloc'] = sorted({int(p*n_alloc) for p in f['alloc']})
            if f and f.get('zheevd'):
                fl['zheevd'] = sorted({int(p*n_z): c for p, c in f['zheevd']}.items())
            self.sim.configure(dict(case['sched'], races=False), fl)
            exc = None
            try:
                got = C01.call(fc, case['q'], case['kind'], case['opts'], **kw)
            except Exception as e:
                exc = e
            st = self.sim.stats()
            fired = st['failed_allocs'] + st['zfaults']
            out.log(k, fl, type(exc).__name__, st['allocs'], st['zcalls'], st['hash'], fired)
            out.unit('instrumented_accesses', st['accesses'])
            out.evals += 1
            if st['failed_allocs']:
                out.fault('allocation_failure', st['failed_allocs'])
            if st['zfaults']:
                out.fault('eigensolver_failure', st['zfaults'])
            if exc is None:
                m = C01.compare(got, want)
                if m:
                    what = 'silent-wrong-result' if fired else 'wrong-after-fault'
                    out.fail(what, f'call {k} returned normally although {st["failed_allocs"]} allocations and {st["zfaults"]} '
                             f'eigensolver calls failed ({fl}): {m}' if fired else f'fault-free call {k} after faults: {m}')
                    return
                out.probe('fault_survived_with_correct_result' if fired else 'fault_free_call_correct')
            else:
                if not fired:
                    return out.fail('spurious-error', f'call {k} raised {type(exc).__name__}: {exc} although no fault fired')
                out.probe(f'raised_{type(exc).__name__}')
            if st['live']:
                return out.fail('leak', f'{st["live"]} blocks still allocated after call {k} ({fl})')
            if st['bad_free']:
                return out.fail('bad-free', f'{st["bad_free"]} bad frees in call {k} ({fl})')
            if st['overflow']:
                return out.fail('heap-overflow', f'work buffer overrun in call {k} ({fl})')
            exc = got = None
            r = (sys.getrefcount(fc.crystal), sys.getrefcount(fc.cell_origins), sys.getrefcount(fc.crystal.atom_r))
            if refs is not None and r != refs:
                return out.fail('reference-leak', f'reference counts of crystal, cell_origins, atom_r went from {refs} to {r} over call {k} ({fl})')
            refs = r
            n = live_arrays()
            if n > n_live:
                n = self.held(case, fl, fc, kw, n_live)
                if n:
                    return out.fail('leak', f'{n} more arrays still held after 4 repetitions of call {k} ({fl})')
                n_live = live_arrays()
            if fired:
                out.sigs.add(f'{sorted(fl)}-{st["failed_allocs"]}-{st["zfaults"]}-{st["hash"]:x}')

    def failed_lookup(self, case, fc, out):
        import scipy.linalg.cython_lapack as cl
        api = cl.__pyx_capi__
        saved = api.pop('zheevd')
        self.sim.configure(case['sched'])
        try:
            C01.call(fc, case['q'], case['kind'], case['opts'], use_c=True, n_threads=case['n_threads'])
        except Exception as e:
            out.log('lookup failed', type(e).__name__)
        else:
            out.fail('silent-wrong-result', 'no exception although LAPACK could not be found')
        finally:
            api['zheevd'] = saved
        out.fault('lapack_lookup_failure')

    def shrink(self, case, res):
        for i in range(len(case['calls'])):
            c = case['calls']
            yield dict(case, calls=c[:i] + c[i + 1:])
            for key in list(c[i]):
                d = dict(c[i])
                if len(d) > 1:
                    del d[key]
                    yield dict(case, calls=c[:i] + [d] + c[i + 1:])
                if len(c[i][key]) > 1:
                    for j in range(len(c[i][key])):
                        yield dict(case, calls=c[:i] + [dict(c[i], **{key: c[i][key][:j] + c[i][key][j+1:]})] + c[i + 1:])
        if case['lookup']:
            yield dict(case, lookup=False)
        if case['sched']['gap']:
            yield dict(case, sched=dict(case['sched'], gap=0))
        yield from (c for c in C01.shrink(CHECK01, dict(case, repeat=1, via_env=False), dict(res, extra={})))


CHECK01 = C01()
CHECK = C02()
