"""C13: histories of spectrum collections against a plain list of spectra kept in SI."""
import copy
import warnings

import numpy as np

from .. import boot, core, trace, units as U, world as W

FAM = {
    'A': dict(x=U.ENERGY, d={'1/meV': 1/(U.E_CH*1e-3), '1/hartree': 1/U.HARTREE, '1/eV': 1/U.E_CH}, dims=1),
    'B': dict(x=U.RLENGTH, d=U.ENERGY, dims=1),
    'D': dict(x=U.RLENGTH, y=U.ENERGY, d={k: v for k, v in U.AREA_E.items()}, dims=2),
}
START = {'A': dict(x='meV', d='1/meV'), 'B': dict(x='1/angstrom', d='meV'), 'D': dict(x='1/angstrom', y='meV', d='mbarn/meV')}
SCALE = {'A': dict(x=40.0, d=0.1), 'B': dict(x=2.0, d=30.0), 'D': dict(x=3.0, y=40.0, d=5.0)}
META = {'species': ['Na', 'Cl', 'H'], 'weight': ['coherent', 'incoherent'], 'index': [1, 2, 3], 'run': ['a', 'b'], 'label': ['p', 'q', 'r']}
TICKS = [None, None, [(0, 'G')], [(0, 'G'), (1, 'X')]]
RTOL = 3e-7


class Model:
    """what a member should be: axes and data in SI, one metadata dictionary per spectrum"""

    def __init__(self, fam, coll, axes, units, lines, ticks):
        self.fam, self.coll, self.axes, self.units, self.lines, self.ticks = fam, coll, axes, units, lines, ticks

    def copy(self):
        return Model(self.fam, self.coll, dict(self.axes), dict(self.units), [(d.copy(), dict(m)) for d, m in self.lines], copy.copy(self.ticks))

    def kind(self):
        return f'{self.fam}{"c" if self.coll else ""}'


def axis_names(fam):
    return ['x', 'y'] if fam == 'D' else ['x']


def data_name(fam):
    return 'z_data' if fam == 'D' else 'y_data'


def common(metas):
    return {k: v for k, v in metas[0].items() if all(k in m and m[k] == v for m in metas)}


def combined(metas):
    c = common(metas)
    rest = [{k: v for k, v in m.items() if k not in c} for m in metas]
    return dict(c, line_data=rest) if any(rest) else c


class Stop(Exception):
    pass


class At(trace.Points):
    def __init__(self, n, exc):
        super().__init__()
        self.n, self.exc, self.fired = n, exc, False

    def hit(self, k, n):
        self.n -= 1
        if self.n == 0:
            self.fired = True
            import sys
            sys.settrace(None)
            raise self.exc


class C13(core.Check):
    id = 'C13'
    technique = ('deterministic simulation: seeded histories of collection operations, some refused and some interrupted by an injected exception, '
                 'against a reference model that is a plain list of spectra in SI units')
    rule = ('one evaluation = one operation followed by a comparison of its result and its operands with the model and of all other members with their '
            'earlier state; a state is a distinct (operation, kind, outcome); non-trivial = at least three operations succeeded')
    n_runs = {'quick': 1200, 'thorough': 20000}
    wall = {'quick': 80, 'thorough': 1200}
    real = ['euphonic/spectra.py', 'euphonic/broadening.py', 'euphonic/io.py (dictionaries)', 'pint']
    stub = ['none: the faults are refused operations and exceptions injected at lines of Euphonic code']
    assumptions = ['collections of at most 12 spectra, at most 9 points per axis', 'metadata values are strings and integers',
                   'a key appears at the top level of the metadata or in line_data, not in both', 'units that are linear in the stored unit']

    def prepare(self, tier):
        boot.import_euphonic('plain')

    # ------------------------------------------------------------- generation
    def gen_axes(self, rng, fam):
        r = {}
        for a in axis_names(fam):
            n = rng.choice([1, 1, 2, 3, 4, 5, 7])
            even = rng.random() < 0.6
            pts = [i/n for i in range(n + 1)] if even else sorted(round(rng.random() + i*0.3, 4) for i in range(n + 1))
            r[a] = [p*SCALE[fam][a] + 0.1 for p in pts]
        return r

    def gen_new(self, rng, fam, axes):
        coll = rng.random() < 0.6
        n = rng.choice([1, 2, 3, 4, 5]) if coll else 1
        top = {k: rng.choice(v) for k, v in META.items() if rng.random() < 0.3}
        lines = [{k: rng.choice(v) for k, v in META.items() if k not in top and rng.random() < 0.4} for _ in range(n)]
        return dict(op='new', fam=fam, coll=coll, n=n, axes={a: (v if rng.random() < 0.85 else [p*1.05 for p in v]) for a, v in axes.items()},
                    edges={a: rng.random() < 0.4 for a in axes}, ticks=rng.choice(TICKS), top=top, lines=lines, seed=rng.randrange(10000),
                    short=rng.random() < 0.06, units={k: rng.choice(list(FAM[fam][k])) if rng.random() < 0.3 else u for k, u in START[fam].items()})

    def generate(self, rng, idx, tier):
        fam = rng.choice('AABDD')
        axes = self.gen_axes(rng, fam)
        proto = self.gen_new(rng, fam, axes)
        ops = []
        for i in range(rng.choice([2, 3, 3])):
            o = self.gen_new(rng, fam, axes)
            if rng.random() < 0.85:
                o.update(axes=proto['axes'], edges=proto['edges'], units=proto['units'], ticks=proto['ticks'], short=False)
            if i == 0:
                o.update(coll=True, n=len(o['lines']))
            ops.append(o)
        names = ['item'] * 4 + ['slice'] * 3 + ['seq'] * 3 + ['add'] * 4 + ['sum'] * 3 + ['group'] * 4 + ['select'] * 4 + ['mul'] * 2 + ['imul'] * 3 \
            + ['unit'] * 4 + ['match'] * 4 + ['bad_unit'] + ['meta'] * 4 + ['from_spectra'] * 4 + ['copy', 'dict', 'iterate', 'bins', 'assign', 'bad_assign', 'ticks', 'split'] \
            + ['broaden'] * 2 + ['new'] * 2
        for _ in range(rng.randint(6, 40 if tier == 'thorough' else 22)):
            op = rng.choice(names)
            if op == 'new':
                o = self.gen_new(rng, fam, axes)
                if rng.random() < 0.7:
                    o.update(axes=proto['axes'], edges=proto['edges'], units=proto['units'], ticks=proto['ticks'], short=False)
                    if rng.random() < 0.2:
                        o['edges'] = {a: not e for a, e in proto['edges'].items()}
            else:
                o = dict(op=op, t=rng.randrange(1000), u=[rng.randrange(1000) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                         r=[round(rng.random(), 6) for _ in range(6)])
                if rng.random() < 0.12 and op != 'match':
                    o['fault'] = dict(n=rng.choice([1, 3, 10, 30, 60, 100, 200, rng.randint(1, 400)]), exc=rng.choice(['MemoryError', 'KeyboardInterrupt']))
                if op == 'unit' and rng.random() < 0.4:
                    # the same change on several members
                    ops += [dict(o, t=o['t'] + j) for j in range(1, 5)]
            ops.append(o)
        return dict(ops=ops)

    # -------------------------------------------------------------- execution
    def make(self, o):
        from euphonic import ureg
        from euphonic.spectra import Spectrum1D, Spectrum1DCollection, Spectrum2D, Spectrum2DCollection
        fam = o['fam']
        g = np.random.Generator(np.random.PCG64(o['seed']))
        axes, args, shape = {}, [], []
        for a in axis_names(fam):
            v = np.array(o['axes'][a])
            n = len(v) - 1 if o['edges'][a] else len(v)
            if o['short'] and not o['edges'][a]:
                v, n = v[:-1], n - 1
            tab = FAM[fam][a]
            axes[a] = v*tab[START[fam][a]]
            args.append(ureg.Quantity(axes[a]/tab[o['units'][a]], o['units'][a]))
            shape.append(n)
        tab = FAM[fam]['d']
        lines = [(np.round(g.uniform(-1, 2, shape), 3)*SCALE[fam]['d']*tab[START[fam]['d']], dict(o['top'], **m)) for m in o['lines'][:o['n']]]
        if not o['coll']:
            lines = lines[:1]
        u = o['units']['d']
        dat = np.array([d for d, _ in lines])/tab[u]
        if o['coll']:
            meta = dict(o['top'])
            if any(o['lines'][:o['n']]):
                meta['line_data'] = copy.deepcopy(o['lines'][:o['n']])
            cls = Spectrum2DCollection if fam == 'D' else Spectrum1DCollection
        else:
            meta, dat = dict(lines[0][1]), dat[0]
            cls = Spectrum2D if fam == 'D' else Spectrum1D
        obj = cls(*args, ureg.Quantity(dat, u), x_tick_labels=copy.deepcopy(o['ticks']), metadata=meta)
        return obj, Model(fam, o['coll'], axes, dict(o['units']), lines, copy.deepcopy(o['ticks']))

    def verify(self, obj, m, what, rng_i=0, exact_meta=False):
        from euphonic.spectra import Spectrum1D, Spectrum1DCollection, Spectrum2D, Spectrum2DCollection
        want = {('D', True): Spectrum2DCollection, ('D', False): Spectrum2D}.get((m.fam, m.coll), Spectrum1DCollection if m.coll else Spectrum1D)
        if type(obj) is not want:
            return f'is a {type(obj).__name__}, not a {want.__name__}'
        if m.coll and len(obj) != len(m.lines):
            return f'contains {len(obj)} spectra, not {len(m.lines)}'
        e = self.verify_data(obj, m, np.array([d for d, _ in m.lines]) if m.coll else m.lines[0][0])
        if e:
            return e
        metas = [x for _, x in m.lines]
        got = list(obj.iter_metadata()) if m.coll else [obj.metadata]
        if got != metas:
            return f'metadata of the spectra is {got}, not {metas}'
        if exact_meta and m.coll and obj.metadata != combined(metas):
            return f'metadata is {obj.metadata}, not {combined(metas)}'
        if m.coll:
            i = rng_i % len(m.lines)
            s = obj[i]
            if s.metadata != metas[i]:
                return f'metadata of spectrum {i} taken from it is {s.metadata}, not {metas[i]}'
            e = self.verify_data(s, m, m.lines[i][0])
            if e:
                return f'spectrum {i} taken from it: {e}'
        return None

    def verify_data(self, obj, m, data):
        from euphonic import ureg
        tabs = FAM[m.fam]
        for a in axis_names(m.fam) + ['d']:
            name = data_name(m.fam) if a == 'd' else f'{a}_data'
            q = getattr(obj, name)
            if ureg.Quantity(1, q.units) != ureg.Quantity(1, m.units[a]):
                return f'{name} is in {q.units}, not in {m.units[a]}'
            want = (data if a == 'd' else m.axes[a])/tabs[a][m.units[a]]
            got = np.array(q.magnitude, dtype=float)
            # sums of spectra may cancel
            tiny = 1e-9*SCALE[m.fam][a]*tabs[a][START[m.fam][a]]/tabs[a][m.units[a]]
            if got.shape == np.shape(want) and np.allclose(got, want, rtol=RTOL, atol=tiny):
                continue
            e = W.diff(got, np.array(want), RTOL)
            if e:
                return f'{name} in {q.units}{e}'
        if (obj.x_tick_labels or None) != (m.ticks or None):
            return f'tick labels are {obj.x_tick_labels}, not {m.ticks}'
        return None

    @staticmethod
    def same_axes(a, b):
        """(axes are the same, what may be refused is the same)"""
        ok = True
        for k in a.axes:
            if len(a.axes[k]) != len(b.axes[k]) or not np.allclose(a.axes[k], b.axes[k], rtol=1e-4, atol=0):
                ok = False
        if a.lines[0][0].shape != b.lines[0][0].shape:
            ok = False
        return ok, ok and a.units == b.units and (a.ticks or None) == (b.ticks or None) and a.ticks == b.ticks

    def execute(self, case, out):
        warnings.simplefilter('ignore')
        self.out = out
        members = []                      # [object, model]
        out.evals = 0
        good = 0
        for i, o in enumerate(case['ops']):
            out.evals += 1
            if o['op'] == 'new':
                members.append(list(self.make(o)))
                e = self.verify(*members[-1], 'new', o['seed'])
                if e:
                    out.fail('wrong', f'step {i} new {o}: {e}', 'wrong-new')
                    return
                continue
            if not members:
                continue
            before = [W.snap(x) for x, _ in members]
            need_coll = o['op'] in ('item', 'slice', 'seq', 'sum', 'group', 'select', 'iterate')
            cand = [k for k, (_, m) in enumerate(members) if m.coll or not need_coll]
            if o['op'] == 'broaden':
                cand = [k for k in cand if members[k][1].fam != 'D']
            if o['op'] == 'add':
                cand = [k for k in cand if members[k][1].coll or members[k][1].fam != 'D']
            if not cand:
                continue
            k = cand[o['t'] % len(cand)]
            plan = self.plan(o, k, members)
            if plan is None:
                continue
            desc, call, expect, mode, inplace = plan
            what = f'step {i} {desc} on {type(members[k][0]).__name__} {k}'
            fault = None
            old = members[k][1]
            if inplace:
                target_new = expect
            try:
                if 'fault' in o:
                    fault = At(o['fault']['n'], {'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt}[o['fault']['exc']]('injected'))
                    with fault:
                        got = call()
                else:
                    got = call()
                err = None
            except (Exception, KeyboardInterrupt) as e:
                got, err = None, e
            finally:
                import sys
                sys.settrace(None)
            fired = fault is not None and fault.fired
            if fired:
                out.fault(o['fault']['exc'])
            out.log(f'{what} -> {"fault" if fired else type(err).__name__ if err else type(got).__name__}')
            out.sigs.add(f'{desc.split()[0]}:{old.kind()}:{"fault" if fired else type(err).__name__ if err else "ok"}')
            if fired and err is None:
                out.fail('swallowed', f'{what}: an injected {o["fault"]["exc"]} was swallowed', f'swallowed-{o["op"]}')
                return
            touched = set()
            if err is None and mode == 'fail':
                out.fail('not-refused', f'{what}: should have been refused, gave {W._s(W.snap(got))}', f'not-refused-{o["op"]}')
                return
            if err is not None and not fired and mode == 'ok':
                out.fail('refused', f'{what}: failed with {type(err).__name__}: {err}', f'refused-{o["op"]}')
                return
            if err is not None and not fired:
                out.fault('refused operation')
            if inplace:
                if err is None:
                    members[k][1] = target_new
                    touched.add(k)
                elif fired:
                    # either all or nothing
                    touched.add(k)
                    mid = old.copy()
                    mid.units = dict(target_new.units)      # the display unit may be the new one already
                    for q in (mid, target_new):
                        if self.verify(members[k][0], members[k][1], what) is not None:
                            members[k][1] = q
                if k in touched:
                    e = self.verify(members[k][0], members[k][1], what, o['t'])
                    if e:
                        out.fail('wrong', f'{what}: {"interrupted: " if fired else ""}the spectrum {e}', f'wrong-{o["op"]}')
                        return
            for j, (x, m) in enumerate(members):
                if j in touched:
                    continue
                e = W.diff(W.snap(x), before[j])
                if e:
                    out.fail('changed', f'{what}: {"failed but " if err else ""}changed member {j} ({type(x).__name__}){e}', f'changed-{o["op"]}')
                    return
            if err is None and not inplace:
                good += 1
                if callable(expect):
                    e = expect(got)
                    if e:
                        out.fail('wrong', f'{what}: {e}', f'wrong-{o["op"]}')
                        return
                else:
                    gl, el = (got, expect) if isinstance(expect, list) else ([got], [expect])
                    if len(gl) != len(el):
                        out.fail('wrong', f'{what}: gave {len(gl)} spectra, not {len(el)}', f'wrong-{o["op"]}')
                        return
                    for x, m in zip(gl, el):
                        e = self.verify(x, m, what, o['t'], exact_meta=o['op'] in ('from_spectra', 'add', 'group', 'slice', 'seq', 'select'))
                        if e:
                            out.fail('wrong', f'{what}: the result {e}', f'wrong-{o["op"]}')
                            return
                        members.append([x, m])
                del members[:-14]
        for j, (x, m) in enumerate(members):
            e = self.verify(x, m, 'end', j)
            if e:
                out.fail('wrong', f'at the end: member {j} ({type(x).__name__}) {e}', 'wrong-end')
                return
        out.nontrivial = good >= 3
        out.sample = case['ops'][:6]

    # --------------------------------------------------------------- the plan
    def plan(self, o, k, members):
        """(description, call, expected result model(s) or a function checking the result, 'ok' | 'fail' | 'may', in place?)"""
        from euphonic import ureg
        obj, m = members[k]
        r = o['r']
        n = len(m.lines)
        op = o['op']
        fam = m.fam

        def pick(seq, x):
            return seq[int(x*len(seq)) % len(seq)]

        def sub(idx):
            q = m.copy()
            q.lines = [(m.lines[i][0].copy(), dict(m.lines[i][1])) for i in idx]
            return q

        def single(data, meta):
            q = m.copy()
            q.coll, q.lines = False, [(data, meta)]
            return q

        def lines_sum(idx):
            return sum(m.lines[i][0] for i in idx), common([m.lines[i][1] for i in idx])

        if op == 'item':
            i = int(r[0]*(2*n + 4)) - n - 2
            i = np.int64(i) if r[1] < 0.2 else i
            if -n <= i < n:
                return f'item {i}', lambda: obj[i], single(m.lines[i][0].copy(), dict(m.lines[i][1])), 'ok', False
            return f'item {i}', lambda: obj[i], None, 'fail', False
        if op == 'slice':
            a, b = [None if x < 0.25 else int(x*(2*n + 1)) - n for x in r[:2]]
            c = pick([None, None, 1, 2, -1], r[2])
            s = slice(a, b, c)
            idx = list(range(n))[s]
            mode = 'fail' if not idx else 'may' if b is not None and b >= n else 'ok'
            return f'slice {s}', lambda: obj[s], sub(idx) if idx else None, 'may' if not idx else mode, False
        if op == 'seq':
            idx = [int(x*n*1.0001 if x < 0.97 else n) for x in r[:1 + int(r[5]*5)]]
            idx = [min(i, n - 1) if r[4] < 0.85 else i for i in idx]
            if r[3] < 0.2:
                idx = [i - n for i in idx]
            if r[3] > 0.95:
                return f'seq {idx} as floats', lambda: obj[[float(i) for i in idx]], None, 'fail', False
            arg = np.array(idx) if r[2] < 0.4 else list(idx)
            bad = any(not -n <= i < n for i in idx)
            return f'seq {arg!r}', lambda: obj[arg], None if bad else sub(idx), 'fail' if bad else 'ok', False
        if op == 'sum':
            return 'sum', lambda: obj.sum(), single(*lines_sum(range(n))), 'ok', False
        if op == 'group':
            keys = [x for x, y in zip(META, r) if y < 0.35] or ['species']
            groups = {}
            for i, (_, meta) in enumerate(m.lines):
                groups.setdefault(tuple(meta.get(x) for x in keys), []).append(i)
            q = m.copy()
            q.lines = [lines_sum(g) for g in groups.values()]
            return f'group_by {keys}', lambda: obj.group_by(*keys), q, 'ok', False
        if op == 'select':
            want = {}
            for x, y in zip(META, r):
                if y < 0.4:
                    v = META[x][int(y*2.5*len(META[x])) % len(META[x])]
                    want[x] = v if y < 0.2 else [v, META[x][0]] if v != META[x][0] else [v]
            want = want or {'species': ['Na', 'Cl']}
            if r[5] > 0.95:
                want = {'no such key': 'a'}
            combos = [{}]
            for key, v in want.items():
                combos = [dict(c, **{key: y}) for c in combos for y in (v if isinstance(v, list) else [v])]
            idx = [i for c in combos for i in range(n) if all(key in m.lines[i][1] and m.lines[i][1][key] == y for key, y in c.items())]
            return f'select {want}', lambda: obj.select(**want), sub(idx) if idx else None, 'ok' if idx else 'fail', False
        if op in ('add', 'from_spectra'):
            if op == 'add':
                pool = [j for j, (_, q) in enumerate(members) if q.coll == m.coll]
                if r[3] < 0.6:
                    pool = [j for j in pool if self.same_axes(m, members[j][1])[1]]
                others = [pool[(o['u'] or [0])[0] % len(pool)]]
            else:
                pool = list(range(len(members)))
                if r[3] < 0.7:
                    pool = [j for j in pool if self.same_axes(m, members[j][1])[1] and (r[4] < 0.4 or not members[j][1].coll)] or pool
                others = [pool[x % len(pool)] for x in o['u']]
            parts = [(obj, m)] + [members[j] for j in others]
            if op == 'from_spectra':
                # single spectra, or the spectra of a collection
                sp, mm = [], []
                for x, q in parts:
                    if q.coll and r[0] < 0.9:
                        sp += list(x)
                        for d, meta in q.lines:
                            z = q.copy()
                            z.coll, z.lines = False, [(d.copy(), dict(meta))]
                            mm.append(z)
                    else:
                        sp.append(x)
                        mm.append(q)
                if r[1] < 0.05:
                    sp, mm = [], []
                from euphonic.spectra import Spectrum1DCollection, Spectrum2DCollection
                cls = Spectrum2DCollection if fam == 'D' else Spectrum1DCollection
                arg = tuple(sp) if r[2] < 0.3 else sp
                call = lambda: cls.from_spectra(arg)                                     # noqa: E731
                if not mm or any(q.coll for q in mm):
                    return f'from_spectra of {len(mm)} spectra{" and collections" if mm else ""}', call, None, 'fail', False
            else:
                other = parts[1][0]
                call = lambda: obj + other                                               # noqa: E731
                mm = [q for _, q in parts]
            ok = [self.same_axes(mm[0], q) for q in mm[1:]]
            mode = 'fail' if not all(a for a, _ in ok) else 'ok' if all(b for _, b in ok) else 'may'
            res = None
            if mode != 'fail':
                res = m.copy()
                res.ticks = mm[0].ticks
                if op == 'add' and not m.coll:
                    res.lines = [(sum(q.lines[0][0] for q in mm), common([q.lines[0][1] for q in mm]))]
                else:
                    res.coll = True
                    res.lines = [(d.copy(), dict(meta)) for q in mm for d, meta in q.lines]
                if len(res.lines) > 12:
                    return None
            return f'{op} with members {others} ({mode})', call, res, mode, False
        if op in ('mul', 'imul'):
            f = pick([2, 0.5, -1, 3.25, 0], r[0])
            q = m.copy()
            q.lines = [(d*f, meta) for d, meta in q.lines]
            if op == 'mul':
                return f'mul by {f}', lambda: obj*f, q, 'ok', False

            def imul():
                x = obj
                x *= f
                if x is not obj:
                    raise AssertionError('in-place scaling gave another object')
            return f'imul by {f}', imul, q, 'ok', True
        if op in ('unit', 'bad_unit'):
            a = pick(list(m.units), r[0])
            name = (data_name(fam) if a == 'd' else f'{a}_data') + '_unit'
            u = pick(list(FAM[fam][a]), r[1]) if op == 'unit' else pick(['kelvin', 'kg', 'volt', 'mole/kg**2'], r[1])
            q = m.copy()
            if op == 'unit':
                q.units[a] = u
                if r[3] < 0.3:
                    u = str(ureg.Unit(u))
            return f'{op} {name}={u}', lambda: setattr(obj, name, u), q, 'ok' if op == 'unit' else 'fail', True
        if op == 'match':
            # show this member in the units of another one
            q = m.copy()
            q.units = dict(members[(o['u'] or [0])[0] % len(members)][1].units)

            def match():
                for a, u in q.units.items():
                    setattr(obj, (data_name(fam) if a == 'd' else f'{a}_data') + '_unit', str(ureg.Unit(u)) if r[1] < 0.5 else u)
            return f'match units {q.units}', match, q, 'ok', True
        if op in ('assign', 'bad_assign'):
            a = pick(list(m.units), r[0])
            name = data_name(fam) if a == 'd' else f'{a}_data'
            if op == 'bad_assign':
                v = pick([ureg.Quantity(np.ones(3), 'kelvin'), np.ones(3), None, [1, 2]], r[1])
                return f'bad_assign {name}={v!r}', lambda: setattr(obj, name, v), m.copy(), 'fail', True
            u = pick(list(FAM[fam][a]), r[1])
            q = m.copy()
            q.units[a] = u
            if a == 'd':
                q.lines = [(d*1.5, meta) for d, meta in q.lines]
                v = np.array([d for d, _ in q.lines]) if m.coll else q.lines[0][0]
            else:
                v = q.axes[a] = q.axes[a]*1.25
            v = ureg.Quantity(v/FAM[fam][a][u], u)
            return f'assign {name} in {u}', lambda: setattr(obj, name, v), q, 'ok', True
        if op == 'meta':
            if m.coll:
                top = [x for x in obj.metadata if x != 'line_data']
                choice = pick(['set', 'set', 'del', 'line', 'lines', 'drop'], r[0])
            else:
                top = list(obj.metadata)
                choice = pick(['set', 'set', 'del'], r[0])
            q = m.copy()
            if choice == 'set':
                free = [x for x in META if not any(x in line for line in (obj.metadata.get('line_data', []) if m.coll else []))] + ['new']
                key = pick(free, r[1])
                v = pick(META.get(key, ['new']), r[2])
                for _, meta in q.lines:
                    meta[key] = v
                return f'meta {key}={v}', lambda: obj.metadata.__setitem__(key, v), q, 'ok', True
            if choice == 'del' and top:
                key = pick(top, r[1])
                for _, meta in q.lines:
                    meta.pop(key)
                return f'meta delete {key}', lambda: obj.metadata.__delitem__(key), q, 'ok', True
            if choice == 'line' and 'line_data' in obj.metadata:
                i = int(r[1]*n)
                free = [x for x in META if x not in top]
                if free:
                    key = pick(free, r[2])
                    v = pick(META[key], r[3])
                    q.lines[i][1][key] = v
                    return f'meta line {i} {key}={v}', lambda: obj.metadata['line_data'][i].__setitem__(key, v), q, 'ok', True
            if choice == 'lines':
                free = [x for x in META if x not in top]
                if free:
                    key = pick(free, r[2])
                    new = [{key: META[key][(i + int(r[3]*7)) % len(META[key])]} for i in range(n)]
                    q.lines = [(d, dict({x: meta[x] for x in top}, **new[i])) for i, (d, meta) in enumerate(q.lines)]
                    return f'meta line_data={new}', lambda: obj.metadata.__setitem__('line_data', copy.deepcopy(new)), q, 'ok', True
            if choice == 'drop' and 'line_data' in obj.metadata:
                q.lines = [(d, {x: meta[x] for x in top}) for d, meta in q.lines]
                return 'meta delete line_data', lambda: obj.metadata.__delitem__('line_data'), q, 'ok', True
            return None
        if op == 'copy':
            return 'copy', (lambda: obj.copy()) if r[0] < 0.6 else (lambda: copy.deepcopy(obj)), m.copy(), 'ok', False
        if op == 'dict':
            return 'dict', lambda: type(obj).from_dict(obj.to_dict()), m.copy(), 'ok', False
        if op == 'iterate':
            res = [single(d.copy(), dict(meta)) for d, meta in m.lines]
            if r[0] < 0.5:
                return 'iterate', lambda: list(obj), res, 'ok', False
            return 'iterate reversed', lambda: list(reversed(obj)), res[::-1], 'ok', False
        if op == 'ticks':
            t = pick(TICKS + ['bad', [('a', 0)], [0]], r[0])
            q = m.copy()
            if t not in TICKS:
                return f'ticks {t!r}', lambda: setattr(obj, 'x_tick_labels', t), q, 'fail', True
            q.ticks = copy.deepcopy(t)
            return f'ticks {t!r}', lambda: setattr(obj, 'x_tick_labels', copy.deepcopy(t)), q, 'ok', True
        if op == 'bins':
            return self.plan_bins(obj, m, r)
        if op == 'split':
            nx = m.lines[0][0].shape[0]
            if len(m.axes['x']) != nx or nx < 2:
                return None
            at = sorted({1 + int(x*(nx - 1)) for x in r[:1 + int(r[5]*3)]})
            rng_ = list(zip([0] + at, at + [nx]))
            res = []
            for a, b in rng_:
                q = m.copy()
                q.axes['x'] = m.axes['x'][a:b].copy()
                q.lines = [(d[a:b].copy(), dict(meta)) for d, meta in m.lines]
                q.ticks = None if m.ticks is None else [(i - a, t) for i, t in m.ticks if a <= i < b]
                res.append(q)
            return f'split {at}', lambda: obj.split(indices=at), res, 'ok', False
        if op == 'broaden':
            return self.plan_broaden(obj, m, r)
        raise KeyError(op)

    def plan_bins(self, obj, m, r):
        axes = axis_names(m.fam)
        a = axes[int(r[0]*len(axes))]
        fn = ['get_bin_edges', 'get_bin_centres', 'get_bin_widths'][int(r[1]*3)]
        args = (a,) if m.fam == 'D' and (a == 'y' or r[2] < 0.5) else ()
        v = m.axes[a]
        edges = len(v) == m.lines[0][0].shape[axes.index(a)] + 1
        e = v if edges else np.concatenate([v[:1], (v[1:] + v[:-1])/2, v[-1:]])
        c = v if not edges else (v[1:] + v[:-1])/2
        want = {'get_bin_edges': e, 'get_bin_centres': c, 'get_bin_widths': np.diff(e)}[fn]/FAM[m.fam][a][m.units[a]]

        def check(got):
            if not hasattr(got, 'units') or str(got.units) != str(getattr(obj, f'{a}_data').units):
                return f'{fn}{args} gave {got!r}'
            x = W.diff(np.array(got.magnitude, dtype=float), want, RTOL)
            return f'{fn}{args}{x}' if x else None
        return f'bins {fn}{args}', lambda: getattr(obj, fn)(*args), check, 'ok', False

    def plan_broaden(self, obj, m, r):
        from euphonic import ureg
        from euphonic.spectra import Spectrum1D
        tabs = FAM[m.fam]
        xu = m.units['x']
        x = m.axes['x']/tabs['x'][xu]
        step = abs(float(np.mean(np.diff(x))))
        kw = dict(shape='gauss' if r[0] < 0.6 else 'lorentz')
        if r[2] < 0.5:
            kw['method'] = 'convolve'
        if r[1] < 0.7:
            w = ureg.Quantity(step*(0.5 + 2*r[3]), xu)
            w = w.to(W.other_unit(w, r[2]*7 % 1))
            name = f'width in {w.units}'
        else:
            wu = W.other_unit(ureg.Quantity(1., xu), r[2]*7 % 1)

            def w(e):
                return (e*0.05 + ureg.Quantity(step*(1 + r[3]), xu)).to(wu)
            kw['width_lower_limit'] = ureg.Quantity(step, xu)
            name = f'function giving {wu}'
        res, bad = m.copy(), None
        for i, (d, meta) in enumerate(m.lines):
            s = Spectrum1D(ureg.Quantity(x, xu), ureg.Quantity(d/tabs['d'][m.units['d']], m.units['d']))
            try:
                with np.errstate(all='ignore'):
                    y = s.broaden(w, **kw).y_data.magnitude*tabs['d'][m.units['d']]
                res.lines[i] = (np.array(y), dict(meta))
            except Exception as e:
                bad = e
        if any(not np.isfinite(d).all() for d, _ in res.lines):
            return None
        if bad is not None:
            return f'broaden {name} {kw} (refused)', lambda: obj.broaden(w, **kw), None, 'fail', False
        return f'broaden {name} {kw}', lambda: obj.broaden(w, **kw), res, 'ok', False

    def shrink(self, case, res):
        ops = case['ops']
        n = len(ops)
        k = max(n//2, 1)
        while k >= 1:
            for i in range(0, n, k):
                if n - len(ops[i:i + k]) > 0:
                    yield dict(ops=ops[:i] + ops[i + k:])
            k //= 2
        for i, o in enumerate(ops):
            if 'fault' in o:
                yield dict(ops=ops[:i] + [{a: b for a, b in o.items() if a != 'fault'}] + ops[i + 1:])


CHECK = C13()
