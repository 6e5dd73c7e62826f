"""C16: the dipole-parameter optimiser on a simulated machine whose clock and costs the simulator decides."""
import contextlib
import importlib
import io
import math
import os
import random
import re
import shutil
import tempfile
import warnings

import numpy as np

from .. import boot, core, fixtures as F

FUNCS = ['time', 'perf_counter', 'monotonic', 'process_time', 'thread_time']


class Boom(MemoryError):
    pass


class Machine:
    """true time moves with the work done; what the clock shows is another matter"""

    def __init__(self, case):
        c = case['clock']
        self.c, self.now, self.r = c, c['start'], random.Random(f'clock/{c["seed"]}')
        self.n, self.offset, self.last = 0, 0.0, None
        self.readings = []           # (position in the history, value shown)
        self.history = []
        self.cost = case['cost']
        self.jumps = 0
        self.fail_at = case['fail']
        self.depth = 0

    def read(self, *a):
        c = self.c
        self.n += 1
        self.now += c['overhead']
        if c['kind'] == 'steps' and self.r.random() < c['p']:
            self.offset += self.r.choice([-3600.0, -1.0, -0.01, 0.01, 1.0, 7200.0])
            self.jumps += 1
        elif c['kind'] == 'list':
            v = c['values'][(self.n - 1) % len(c['values'])]
            self.readings.append((len(self.history), v))
            self.history.append(('clock', v))
            return v
        t = self.now + self.offset
        if c['kind'] == 'coarse':
            t = math.floor(t/c['tick'])*c['tick']
        elif c['kind'] == 'stalled':
            if self.last is not None and self.r.random() < c['p']:
                t = self.last
                self.jumps += 1
        elif c['kind'] == 'frozen':
            t = c['start']
        self.last = t
        self.readings.append((len(self.history), t))
        self.history.append(('clock', t))
        return t

    def work(self, kind, info, seconds):
        self.now += seconds
        self.history.append((kind, info, seconds))


class C16(core.Check):
    id = 'C16'
    technique = ('deterministic simulation: the process clock is replaced by a simulated one (coarse, stalled, stepping, arbitrary) on a simulated machine with chosen costs; '
                 'the reported times are checked against the recorded history of clock readings and work')
    rule = ('one evaluation = one run of the optimiser; a state is a distinct (clock kind, number of trials, index of the optimum, route, outcome); '
            'non-trivial = at least two trials were timed')
    n_runs = {'quick': 1400, 'thorough': 15000}
    wall = {'quick': 80, 'thorough': 900}
    real = ['euphonic/cli/optimise_dipole_parameter.py', 'argument parsing and loading in euphonic/cli/utils.py', 'force constants']
    stub = ['time.time and the other clocks of the time module', 'the duration of calculations is simulated (the calculations themselves are real)']
    assumptions = ['at most 8 trials and 12 q-points per trial', 'crystals of at most 2 atoms']

    def prepare(self, tier):
        boot.import_euphonic('plain')
        from euphonic.cli import optimise_dipole_parameter  # noqa: F401

    def generate(self, rng, idx, tier):
        kind = rng.choice(['plain', 'coarse', 'coarse', 'stalled', 'frozen', 'steps', 'steps', 'list'])
        clock = dict(kind=kind, seed=rng.randrange(10000), start=rng.choice([0.0, 1.7e9, 1.7e9 + 0.123, 12.5]), overhead=rng.choice([0.0, 1e-7, 1e-3]))
        if kind == 'coarse':
            clock['tick'] = rng.choice([1.0, 0.015625, 1e-3, 60.0])
        if kind in ('stalled', 'steps'):
            clock['p'] = rng.choice([0.1, 0.4, 0.8])
        if kind == 'list':
            clock['values'] = [rng.choice([0.0, 1.0, -5.0, 1e9, rng.uniform(-10, 10)]) for _ in range(rng.randint(1, 9))]
        n = rng.choice([1, 1, 2, 3, 4, 6, 8])
        step = rng.choice([0.25, 0.1, 0.3, 0.5, 0.07])
        lo = rng.choice([0.25, 0.1, 0.5, 0.3])
        rem = rng.choice([0.0, 0.0, 0.0, 0.3, 0.8])
        return dict(clock=clock, lo=lo, step=step, n=n, rem=rem, nq=rng.choice([1, 1, 2, 3, 7, 12]), spec=F.fc_spec(rng, max_atoms=2, born=rng.random() < 0.85, max_cells=3),
                    cost=dict(init=[rng.choice([0.0, 0.5, rng.uniform(0, 3)]) for _ in range(n)], q=[rng.choice([0.01, 0.01, rng.uniform(1e-4, 0.2)]) for _ in range(n)]),
                    route=rng.choice(['function', 'function', 'printing', 'cli']), defaults=rng.random() < 0.06,
                    opts=rng.choice([{}, {}, dict(asr='reciprocal'), dict(asr='realspace')]), use_c=rng.choice([None, True, False]), fail=rng.choice([None]*7 + [rng.randint(1, 5)]))

    # -------------------------------------------------------------- execution
    def grid(self, case):
        if case['defaults']:
            return [0.25*(i + 1) for i in range(6)], 0.25, 1.5, 0.25
        lo, step, n = case['lo'], case['step'], case['n']
        hi = lo + (n - 1)*step + case['rem']*step
        return [lo + i*step for i in range(n)], lo, float(repr(round(hi, 10))), step

    def execute(self, case, out):
        import time
        from euphonic import ForceConstants
        vals, lo, hi, step = self.grid(case)
        if case['defaults']:
            case = dict(case, cost=dict(init=(case['cost']['init']*6)[:6], q=(case['cost']['q']*6)[:6]))
        m = Machine(case)
        d = tempfile.mkdtemp(dir=boot.scratch())
        saved = {k: getattr(time, k) for k in FUNCS + [f + '_ns' for f in FUNCS]}
        methods = {k: getattr(ForceConstants, k) for k in ('calculate_qpoint_phonon_modes', 'calculate_qpoint_frequencies')}
        init = ForceConstants.__dict__.get('_dipole_correction_init')
        txt = ''
        try:
            fc = F.build_fc(case['spec'])
            src = os.path.join(d, 'fc.json')
            fc.to_json_file(src)
            # does a calculation on fresh force constants initialise the Ewald sum through this method?
            seen = []

            def index(p):
                return min(range(len(vals)), key=lambda i: abs(vals[i] - p))

            def wrap(name):
                def w(self, qpts, *a, **kw):
                    if m.depth:
                        return methods[name](self, qpts, *a, **kw)
                    m.depth += 1
                    try:
                        i = index(kw.get('dipole_parameter', 1.0))
                        m.history.append(('begin', name))
                        m.calls = getattr(m, 'calls', 0) + 1
                        if m.fail_at == m.calls:
                            raise Boom('injected: out of memory')
                        r = methods[name](self, qpts, *a, **kw)
                        nq = len(np.unique(np.asarray(qpts) % 1, axis=0)) if kw.get('reduce_qpts', True) else len(qpts)
                        m.work('q', (kw.get('dipole_parameter', 1.0), nq), nq*case['cost']['q'][i])
                        return r
                    finally:
                        m.depth -= 1
                return w

            def wrapped_init(*a, **kw):
                r = raw_init(*a, **kw)
                p = a[-1] if len(a) and isinstance(a[-1], float) else kw.get('dipole_parameter', 1.0)
                seen.append(p)
                if m.depth:
                    m.work('init', p, case['cost']['init'][index(p)])
                return r
            if init is not None:
                raw_init = init.__func__ if isinstance(init, (staticmethod, classmethod)) else init
                setattr(ForceConstants, '_dipole_correction_init', staticmethod(wrapped_init) if isinstance(init, staticmethod) else
                        classmethod(wrapped_init) if isinstance(init, classmethod) else wrapped_init)
            control = ForceConstants.from_json_file(src)
            control.calculate_qpoint_phonon_modes(np.full((1, 3), 0.5), dipole_parameter=vals[0], use_c=False)
            ewald = bool(seen)
            for k in methods:
                setattr(ForceConstants, k, wrap(k))
            for k in FUNCS:
                setattr(time, k, m.read)
                setattr(time, k + '_ns', lambda: int(m.read()*1e9))
            import timeit
            timeit.default_timer = time.perf_counter
            mod = importlib.reload(importlib.import_module('euphonic.cli.optimise_dipole_parameter'))
            res, err = None, None
            copts = dict(case['opts'])
            if case['use_c'] is not None:
                copts['use_c'] = case['use_c']
            if case['use_c'] is not False:
                copts['n_threads'] = 1
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf), warnings.catch_warnings(record=True) as wl:
                    warnings.simplefilter('always')
                    if case['route'] == 'cli':
                        a = [src, '-n', str(case['nq'])]
                        if not case['defaults']:
                            a += ['--min', repr(lo), '--max', repr(hi), '--step', repr(step)]
                        if 'asr' in copts:
                            a += ['--asr', copts['asr']]
                        a += {True: ['--use-c'], False: ['--disable-c'], None: []}[case['use_c']]
                        if 'n_threads' in copts:
                            a += ['--n-threads', '1']
                        mod.main(a)
                    else:
                        kw = dict(copts) if case['defaults'] else dict(copts, dipole_parameter_min=lo, dipole_parameter_max=hi, dipole_parameter_step=step)
                        res = mod.calculate_optimum_dipole_parameter(src, n=case['nq'], print_to_terminal=case['route'] == 'printing', **kw)
            except Exception as e:
                err = e
            txt = buf.getvalue()
        finally:
            for k, v in saved.items():
                setattr(time, k, v)
            for k, v in methods.items():
                setattr(ForceConstants, k, v)
            if init is not None:
                setattr(ForceConstants, '_dipole_correction_init', init)
            shutil.rmtree(d, ignore_errors=True)
        out.fault('clock: ' + case['clock']['kind'])
        out.fault('clock steps and stalls', m.jumps)
        out.unit('simulated seconds', round(abs(m.now - case['clock']['start']), 6))
        out.unit('clock readings', m.n)
        what = f'optimising over {lo}..{hi} step {step}, n={case["nq"]}, clock {case["clock"]["kind"]}'
        calls = sum(1 for h in m.history if h[0] == 'begin')
        if err is not None:
            if isinstance(err, Boom):
                out.fault('calculation failed')
                if 'Suggested' in txt:
                    raise core.Violation('report-after-failure', f'{what}: a calculation failed, yet an optimum was reported')
                out.log('boom', calls)
                return
            raise core.Violation('failed', f'{what}: {type(err).__name__}: {err}')
        if case['fail'] and case['fail'] <= calls:
            raise core.Violation('failure-hidden', f'{what}: a calculation failed with an out-of-memory error and the optimiser carried on')
        if res is not None:
            opt, ti, tq, pars, tis, tqs = res
            pars, tis, tqs = (np.asarray(x, dtype=float) for x in (pars, tis, tqs))
        out.log(what, res if res is None else [list(map(float, np.ravel(x))) for x in res], txt)
        if (not case['spec']['born']) != any('Born' in str(w.message) for w in wl):
            raise core.Violation('warning', f'{what}: warning about missing Born charges expected exactly when there are none')
        # the values tried, from the calculations that were really made
        tried = []
        phases = []            # per trial: history positions of its two calculations
        for i, h in enumerate(m.history):
            if h[0] == 'q':
                p = h[1][0]
                if not tried or tried[-1] != p:
                    tried.append(p)
                    phases.append([])
                phases[-1].append((i, h[1][1]))
        if len(tried) != len(vals) or np.abs(np.array(tried) - np.array(vals)).max() > 1e-9:
            raise core.Violation('range', f'{what}: tried {tried}, expected {vals}')
        if res is not None and (pars.shape != (len(vals),) or np.abs(pars - tried).max() > 1e-12):
            raise core.Violation('range', f'{what}: returned parameters {pars} are not those tried')
        for i, ph in enumerate(phases):
            if len(ph) != 2 or ph[0][1] != 1 or ph[1][1] != case['nq']:
                raise core.Violation('work', f'{what}: trial {tried[i]} calculated {[x[1] for x in ph]} q-points, expected [1, {case["nq"]}]')
        # the clock readings around each calculation
        begins = [i for i, h in enumerate(m.history) if h[0] == 'begin']
        shown = []
        for k, b in enumerate(begins):
            end = next(i for i in range(b, len(m.history)) if m.history[i][0] == 'q')
            prev = next((i for i in range(b - 1, -1, -1) if m.history[i][0] == 'q'), -1)
            nxt = begins[k + 1] if k + 1 < len(begins) else len(m.history)
            before = [m.history[i][1] for i in range(prev + 1, b) if m.history[i][0] == 'clock']
            after = [m.history[i][1] for i in range(end + 1, nxt) if m.history[i][0] == 'clock']
            shown.append({a - x for a in after for x in before})
        if ewald:
            for i in range(len(vals)):
                lo_h = begins[2*i]
                hi_h = begins[2*i + 1]
                stop = begins[2*i + 2] if 2*i + 2 < len(begins) else len(m.history)
                n_in = sum(1 for h in m.history[lo_h:hi_h] if h[0] == 'init')
                n_out = sum(1 for h in m.history[hi_h:stop] if h[0] == 'init')
                if n_in != 1 or n_out:
                    raise core.Violation('initialisation', f'{what}: trial {tried[i]} initialised the Ewald sum {n_in} times in its timed initialisation and {n_out} times in its timed calculation')
        if res is not None:
            for i in range(len(vals)):
                for name, got, possible, div in (('initialisation time', tis[i], shown[2*i], 1), ('time per q-point', tqs[i], shown[2*i + 1], case['nq'])):
                    if not any(abs(got - s/div) <= 1e-12*max(abs(s), 1e-9) + (2e-9 if case['clock']['start'] else 1e-15) for s in possible):
                        raise core.Violation('time', f'{what}: {name} of trial {tried[i]} is {got!r}, the clock showed {sorted(possible)}{"/" + str(div) if div > 1 else ""}')
            k = [i for i in range(len(vals)) if pars[i] == opt]
            if not k or tqs[k[0]] != tqs.min() or ti != tis[k[0]] or tq != tqs[k[0]]:
                raise core.Violation('optimum', f'{what}: reported {float(opt)} ({float(ti)}, {float(tq)}), measured per q-point {tqs.tolist()} and initialisation {tis.tolist()}')
            out.sigs.add(f'{case["clock"]["kind"]}/{len(vals)}/{k[0]}/{case["route"]}')
        if case['route'] != 'function':
            self.judge_text(what, txt, vals, case, shown, res)
            out.sigs.add(f'{case["clock"]["kind"]}/{len(vals)}/text/{case["route"]}')
        elif txt:
            raise core.Violation('print', f'{what}: printed although not asked to: {txt[:80]!r}')
        out.nontrivial = len(vals) > 1
        out.probe('route ' + case['route'])
        out.probe('Ewald initialisation observed', int(ewald))

    def judge_text(self, what, txt, vals, case, shown, res):
        num = r'([- ]?[0-9.]+(?:e[+-]?\d+)?)'
        heads = re.findall(r'Results for dipole_parameter\s+' + num, txt)
        inits = re.findall(r'Initialisation Time\s*:\s*' + num + ' s', txt)
        qs = re.findall(r'Time/qpt\s*:\s*' + num + ' ms', txt)
        sug = re.findall(r'Suggested optimum dipole_parameter is\s+' + num, txt)
        if not (len(heads) == len(vals) and len(inits) == len(qs) == len(vals) + 1 and len(sug) == 1):
            raise core.Violation('text', f'{what}: printed results of {len(heads)} trials, {len(inits)} and {len(qs)} times and {len(sug)} suggestions for {len(vals)} values')
        for i, v in enumerate(vals):
            if abs(float(heads[i]) - v) > 0.00501:
                raise core.Violation('text', f'{what}: result {i} printed for {heads[i]}, not {v}')
            for name, t, pos, f in (('initialisation time', inits[i], shown[2*i], 1.0), ('time per q-point', qs[i], shown[2*i + 1], 1000/case['nq'])):
                if not any(abs(float(t) - s*f) <= 0.00501 + 1e-6*abs(s*f) for s in pos):
                    raise core.Violation('text', f'{what}: printed {name} {t} for {v}, the clock showed {sorted(s*f for s in pos)}')
        k = [i for i, v in enumerate(vals) if abs(float(sug[0]) - v) <= 0.00501]
        best = min(float(x) for x in qs[:-1])
        if not any(float(qs[i]) == best and inits[i] == inits[-1] and qs[i] == qs[-1] for i in k):
            raise core.Violation('text', f'{what}: suggested {sug[0]} with {inits[-1]} s and {qs[-1]} ms; printed trials {heads} {inits[:-1]} {qs[:-1]}')

    def shrink(self, case, res):
        c = case
        if c['n'] > 1:
            for n in (1, 2, c['n'] - 1):
                if n < c['n']:
                    yield dict(c, n=n)
        for k, v in dict(nq=1, opts={}, use_c=False, route='function', rem=0.0, fail=None, defaults=False, lo=0.25, step=0.25).items():
            if c[k] != v:
                yield dict(c, **{k: v})
        if c['clock']['kind'] != 'plain':
            yield dict(c, clock=dict(c['clock'], kind='plain'))


CHECK = C16()
