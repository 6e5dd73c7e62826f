"""C01: simulated OpenMP schedules of the real extension against the serial pure-Python calculation."""
import numpy as np

from .. import boot, core, fixtures as F, omp


class C01(core.Check):
    id = 'C01'
    technique = 'deterministic simulation: seeded OpenMP thread schedules at memory-access granularity, dirty memory, race detection, vs serial Python oracle'
    rule = ('one evaluation = one phonon calculation of the instrumented extension under one seeded interleaving of its worker '
            'threads; a state is a distinct (workload, schedule-hash) pair; non-trivial = at least two threads ran and at '
            'least one preemptive switch took place, or fresh memory was filled with garbage')
    n_runs = {'quick': 1300, 'thorough': 30000}
    wall = {'quick': 80, 'thorough': 1500}
    real = ['c/*.c (instrumented build)', 'euphonic/force_constants.py', 'LAPACK zheevd (called through a wrapper)', 'numpy']
    stub = ['libgomp (replaced by the simulated runtime)', 'malloc/free inside the extension (wrapped)']
    assumptions = ['code between two instrumented memory accesses is atomic in the simulation (sequential consistency)',
                   'LAPACK itself runs as one step']

    def prepare(self, tier):
        from .. import build
        so = build.build('sim')
        boot.import_euphonic('sim')
        self.sim = omp.Sim(so)

    def warm(self, tier):
        # lazily imported parts, with the seam transparent
        fc = F.build_fc(dict(seed=1, n_atoms=2, sc=F.SC_CHOICES[1], born=True))
        self.sim.configure(dict(seed=1, gap=0))
        fc.calculate_qpoint_phonon_modes(np.array([[0., 0, 0], [.1, .2, .3]]), use_c=True, n_threads=1)
        fc.calculate_qpoint_phonon_modes(np.array([[0., 0, 0]]), use_c=False)

    def generate(self, rng, idx, tier):
        # mostly small; now and then many atoms, many q-points or many threads
        spec = F.fc_spec(rng, p_big=0.04)
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12])
        if rng.random() < (0.15 if tier == 'thorough' else 0.05) and spec['n_atoms'] < 4:
            n = rng.choice([20, 33, 48, 65])
        elif spec['n_atoms'] > 3:
            n = min(n, 5)
        q = F.qpt_list(rng, n, p_gamma=rng.choice([0.1, 0.4, 0.8]), p_near=0.08)
        o = F.calc_options(rng, spec['born'])
        kind = rng.choice(['modes', 'modes', 'modes', 'grads', 'freqs', 'freqs', 'freqs+grads'])
        return dict(fc=spec, q=q, opts=o, kind=kind, n_threads=rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 16, rng.choice([17, 24, 33])]),
                    via_env=rng.random() < 0.3, sched=omp.random_sched(rng), repeat=rng.choice([1, 1, 2]))

    @staticmethod
    def call(fc, q, kind, opts, **kw):
        """returns dict(freqs, evecs, grads) of plain arrays"""
        g = kind in ('grads', 'freqs+grads')
        fn = fc.calculate_qpoint_frequencies if kind.startswith('freqs') else fc.calculate_qpoint_phonon_modes
        r = fn(np.array(q, dtype=float), return_mode_gradients=g, **opts, **kw)
        m, grads = r if g else (r, None)
        return dict(freqs=m.frequencies.to('meV').magnitude, evecs=getattr(m, 'eigenvectors', None),
                    grads=None if grads is None else grads.magnitude, qpts=m.qpts, weights=m.weights)

    @staticmethod
    def compare(got, want):
        if not np.array_equal(got['qpts'], want['qpts']):
            return 'q-points differ'
        if not np.allclose(got['weights'], want['weights']):
            return 'weights differ'
        if got['evecs'] is not None and want['evecs'] is not None:
            m = F.cmp_modes(got['freqs'], got['evecs'], want['freqs'], want['evecs'])
        else:
            m = F.cmp_freqs(got['freqs'], want['freqs'])
        if not m and got['grads'] is not None and want['grads'] is not None:
            m = F.cmp_grads(got['grads'], want['grads'], want['freqs'])
        return m

    def reference(self, case):
        # the oracle: the same request computed serially in pure Python (always with eigenvectors)
        kind = {'freqs': 'modes', 'freqs+grads': 'grads'}.get(case['kind'], case['kind'])
        return self.call(F.build_fc(case['fc']), case['q'], kind, case['opts'], use_c=False)

    def execute(self, case, out):
        import os
        want = self.reference(case)
        fc = F.build_fc(case['fc'])
        sched = case['sched']
        self.sim.configure(sched)
        kw = dict(use_c=True, n_threads=case['n_threads'])
        if case['via_env']:
            os.environ['EUPHONIC_NUM_THREADS'] = str(case['n_threads'])
            kw = dict(use_c=True)
        for k in range(case['repeat']):
            got = self.call(fc, case['q'], case['kind'], case['opts'], **kw)
            st = self.sim.stats()
            m = self.compare(got, want)
            out.log('call', k, st['steps'], st['switches'], st['hash'], np.round(got['freqs'], 6).tolist())
            if m:
                out.fail('wrong-result', f'extension under schedule {st["hash"]:x} with {st["max_team"]} threads, '
                         f'{st["switches"]} switches: {m}')
                break
        st = self.sim.stats()
        if st['races']:
            rs = [self.sim.where(r) for r in self.sim.races()[:4]]
            out.fail('data-race', '; '.join(rs), 'data-race')
        if st['overflow'] or st['live_overflow']:
            out.fail('heap-overflow', 'a work buffer was written outside its bounds')
        if st['bad_free']:
            out.fail('bad-free', 'memory freed twice or never allocated')
        out.extra['schedule'] = self.sim.recorded()[:20000]
        out.unit('instrumented_accesses', st['accesses'])
        out.unit('scheduling_points', st['steps'])
        out.unit('thread_switches', st['switches'])
        if sched['fill'] >= 0:
            out.fault('dirty_fresh_memory', st['allocs'])
        if sched['team_cap'] and st['max_team'] < case['n_threads']:
            out.fault('fewer_threads_than_requested')
        out.fault('preemption', st['switches'])
        n_gamma = sum(1 for q in case['q'] if all(float(x).is_integer() for x in q))
        if n_gamma > 1 and case['opts'].get('splitting') and case['opts'].get('dipole') and st['max_team'] > 1:
            out.probe('several_split_gammas_on_several_threads')
        if st['max_team'] > len(case['q']):
            out.probe('more_threads_than_qpoints')
        out.probe(f'team_{min(st["max_team"], 8)}')
        out.nontrivial = (st['max_team'] > 1 and st['switches'] > st['max_team']) or sched['fill'] >= 0
        out.sigs.add(f'{st["hash"]:x}')
        out.sample = dict(fc=case['fc'], n_q=len(case['q']), opts=case['opts'], kind=case['kind'], team=st['max_team'],
                          switches=st['switches'], accesses=st['accesses'], schedule_head=self.sim.recorded()[:6])

    def shrink(self, case, res):
        s = case['sched']
        lst = s.get('list')
        if lst is None and res['extra'].get('schedule') is not None:
            yield dict(case, sched=dict(s, list=res['extra']['schedule']))
            lst = None
        if case['repeat'] > 1:
            yield dict(case, repeat=1)
        n = len(case['q'])
        for i in range(n):
            if n > 1:
                yield dict(case, q=case['q'][:i] + case['q'][i + 1:])
        if case['n_threads'] > 2:
            yield dict(case, n_threads=2)
        if case['via_env']:
            yield dict(case, via_env=False)
        if s.get('fill', -1) >= 0:
            yield dict(case, sched=dict(s, fill=-1))
        if s.get('team_cap'):
            yield dict(case, sched=dict(s, team_cap=0))
        if case['kind'] != 'freqs':
            yield dict(case, kind='freqs')
        for k in list(case['opts']):
            o = dict(case['opts'])
            del o[k]
            yield dict(case, opts=o)
        if case['fc']['n_atoms'] > 4:
            yield dict(case, fc=dict(case['fc'], n_atoms=3))
        if case['fc']['n_atoms'] > 1:
            yield dict(case, fc=dict(case['fc'], n_atoms=case['fc']['n_atoms'] - 1))
        if case['fc']['sc'] != F.SC_CHOICES[0]:
            yield dict(case, fc=dict(case['fc'], sc=F.SC_CHOICES[0]))
        if lst:
            step = len(lst)//2
            while step >= 1:
                for i in range(0, len(lst), step):
                    yield dict(case, sched=dict(s, list=lst[:i] + lst[i + step:]))
                step //= 2


CHECK = C01()
