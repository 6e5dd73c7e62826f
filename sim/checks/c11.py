"""C11: histories of unit changes and (failing) assignments against a reference model in SI units."""
import copy
import warnings

import numpy as np

from .. import boot, core, fixtures as F, units as U, world as W

NAMES = list(U.QUANT)
CALCS = ['qpm.sf', 'qpm.dw', 'qpf.dos', 'qpm.pdos', 'qpf.dos_map', 'qpm.dispersion', 'sf.sqw', 'sf.average', 's1.broaden', 's1c.broaden',
         's2.broaden', 'spec.sum', 'spec.add', 'spec.item', 'spec.mul', 'spec.copy', 'spec.split', 'any.to_dict', 'any.dict_roundtrip',
         'crystal.geometry', 'spec.bins', 'fc.modes', 'fc.freqs', 'qpm.to_qpf', 'sf.to_qpf', 'io.json', 'powder.sf', 'powder.dos', 'crystal.symmetry', 's2.kinematic', 'spec.group',
         'spec.select', 'spec.from_spectra', 'fc.brille', 'fc.brille']


def crystals(objs):
    return {n: objs[n].crystal for n in ('fc', 'qpm', 'qpf', 'sf', 'sfn', 'dw')}


TABLE = U.QUANT


def target(objs, name):
    if name.startswith('crystal:'):
        return objs[name[8:]].crystal
    return objs[name]


def table(name):
    return TABLE['crystal' if name.startswith('crystal:') else name]


def current(obj, attr):
    q = getattr(obj, attr)
    return None if q is None else (np.array(q.magnitude, dtype=float), str(q.units))


class C11(core.Check):
    id = 'C11'
    technique = ('deterministic simulation: seeded histories of unit changes, assignments, failing assignments and calculations on live objects, '
                 'against a reference model that keeps every quantity in SI with its own conversion factors')
    rule = ('one evaluation = one step of a history followed by a comparison of every touched quantity with the model; a state is a distinct '
            '(class, attribute, operation, unit, outcome); non-trivial = at least one unit change or assignment happened before')
    n_runs = {'quick': 1000, 'thorough': 12000}
    wall = {'quick': 80, 'thorough': 1200}
    real = ['all Euphonic object classes, euphonic/validate.py, pint']
    stub = ['the grids of the brille library (sim/fakegrid.py)', 'the faults are failing operations inside the history']
    assumptions = ['histories of at most 40 steps on crystals of at most 2 atoms', 'array shapes of assigned data are kept']

    def prepare(self, tier):
        boot.import_euphonic('plain')

    def warm(self, tier):
        W.build(W.gen_spec(core.rng_for(0, 'warm', 0)))

    def generate(self, rng, idx, tier):
        global TABLE
        spec = W.gen_spec(rng)
        TABLE = U.quant(spec.get('bunit', spec['funit']))
        names = NAMES + ['crystal:fc', 'crystal:qpm', 'crystal:sf', 'crystal:dw']
        focus = rng.sample(names, rng.choice([1, 2, 3]))
        calcs = CALCS
        if rng.random() < 0.5:                       # few calculations, changes only to what they use
            calcs = rng.sample(CALCS, rng.choice([1, 1, 2]))
            used = {n for c in calcs for n in W.OPS[c]['uses']}
            for _ in range(8):
                o = W.gen_op(rng, spec, names=calcs)
                if o.get('which', o.get('obj')) in used:
                    used = {o.get('which', o.get('obj'))}
                    break
            focus = [n for n in names if n in used or n.startswith('crystal:') and n[8:] in used] or focus
        ops = []
        for _ in range(rng.randint(6, 40 if tier == 'thorough' else 24)):
            name = rng.choice(focus if rng.random() < 0.8 else names)
            attr = rng.choice(list(table(name)))
            units = U.choices(attr, table(name)[attr])
            r = rng.random()
            if r < 0.26:
                ops.append(dict(op='unit', obj=name, attr=attr, unit=rng.choice(units)))
                if name in ('s1', 's1b') and rng.random() < 0.6:
                    ops.append(dict(ops[-1], obj='s1b' if name == 's1' else 's1'))
            elif r < 0.40:
                ops.append(dict(op='bad_unit', obj=name, attr=attr, unit=rng.choice(U.BAD + [None, 3, 'Unit'])))
            elif r < 0.60:
                ops.append(dict(op='assign', obj=name, attr=attr, unit=rng.choice(units), seed=rng.randrange(1000),
                                how=rng.choice(['new', 'new', 'own', 'imul', 'int', 'near', 'near'])))
            elif r < 0.74:
                ops.append(dict(op='bad_assign', obj=name, attr=attr, unit=rng.choice(U.BAD[:-1] + ['#array', '#none', '#list', '#float'])))
            elif r < 0.78:
                ops.append(dict(op='scale', obj=rng.choice(['s1', 's1c', 's2', 's1b']), f=rng.choice([2, 0.5, -1])))
            else:
                ops.append(dict(op='calc', calc=W.gen_op(rng, spec, names=calcs)))
        return dict(spec=spec, ops=ops)

    # ------------------------------------------------------------------
    def execute(self, case, out):
        warnings.simplefilter('ignore')
        from euphonic import ureg
        global TABLE
        spec = case['spec']
        TABLE = U.quant(spec.get('bunit', spec['funit']))
        objs = W.build(spec)
        ref = copy.deepcopy(objs)                    # same physical data, display units never touched
        truth, unit = {}, {}
        keys = [(n, a) for n in NAMES for a in TABLE[n]]
        for c in crystals(objs):
            keys += [(f'crystal:{c}', a) for a in TABLE['crystal']]
        for k in keys:
            o = target(objs, k[0])
            cur = current(o, k[1])
            if cur is not None:
                base = self.base_unit(k)
                q = ureg.Quantity(*cur)
                truth[k] = U.to_si(np.array(q.to(base, 'reciprocal_spectroscopy').magnitude, dtype=float), base, table(k[0])[k[1]])
                unit[k] = cur[1]
        out.evals = 0
        for i, op in enumerate(case['ops']):
            out.evals += 1
            what = f'step {i} {op}'
            out.log(what)
            before = {n: W.snap(objs[n]) for n in NAMES}
            if op['op'] in ('unit', 'bad_unit', 'assign', 'bad_assign'):
                k = (op['obj'], op['attr'])
                if k not in truth:
                    continue
                touched = self.mutate(op, k, objs, ref, truth, unit, out, what)
                if touched is None:
                    return
                ok = touched
            elif op['op'] == 'scale':
                attr = 'z_data' if op['obj'] == 's2' else 'y_data'
                objs[op['obj']] *= op['f']
                ref[op['obj']] *= op['f']
                truth[(op['obj'], attr)] = truth[(op['obj'], attr)]*op['f']
                k, ok = (op['obj'], attr), True
            else:
                k, ok = None, False
                if not self.calc(op['calc'], objs, ref, out, what, truth):
                    return
            # every other object is untouched, bit for bit
            for n in NAMES:
                if k is not None and ok and (n == k[0] or k[0] == f'crystal:{n}'):
                    continue
                m = W.diff(W.snap(objs[n]), before[n])
                if m:
                    out.fail('changed', f'{what}: {"failed but " if k is not None and not ok else ""}changed {n}: {m}',
                             f'changed-{op["op"]}')
                    return
            if k is not None and ok:
                for kk in [x for x in keys if x in truth and (x[0] == k[0])]:
                    if not self.verify(kk, objs, truth, unit, out, what):
                        return
        for k in truth:
            if not self.verify(k, objs, truth, unit, out, 'at the end'):
                return
        out.nontrivial = any(o['op'] != 'calc' for o in case['ops'])
        out.sample = dict(spec=spec, ops=case['ops'][:6])

    @staticmethod
    def base_unit(k):
        return next(iter(table(k[0])[k[1]]))

    def read(self, k, objs, out, what):
        from euphonic import ureg
        o = target(objs, k[0])
        try:
            q = getattr(o, k[1])
            base = self.base_unit(k)
            with np.errstate(all='ignore'):
                si = U.to_si(np.array(q.to(base, 'reciprocal_spectroscopy').magnitude, dtype=float), base, table(k[0])[k[1]])
            return q, si
        except Exception as e:
            out.fail('unreadable', f'{what}: {k} can no longer be read: {type(e).__name__}: {e}', f'unreadable-{k[1]}')
            return None, None

    def verify(self, k, objs, truth, unit, out, what):
        q, si = self.read(k, objs, out, what)
        if q is None:
            return False
        t = truth[k]
        u = unit[k]
        name = getattr(target(objs, k[0]), k[1] + '_unit')
        lin = u in table(k[0])[k[1]]
        if str(q.units) != str(q._REGISTRY.Unit(u)):
            out.fail('wrong-unit', f'{what}: {k} is shown in {q.units}, display unit {name!r}, expected {u}', f'unit-{k[1]}')
            return False
        if lin or u == 'degC':
            # the number itself, by our own conversion factors
            want = U.from_si(t, u, table(k[0])[k[1]])
            got = np.array(q.magnitude, dtype=float)
        else:
            want, got = t, si
        tol = 1e-7*np.abs(want[np.isfinite(want)]).max(initial=0.0) if want.ndim else abs(float(want))*1e-7 + 1e-7
        with np.errstate(all='ignore'):
            good = (np.shape(got) == np.shape(want)) and np.allclose(got, want, rtol=1e-7, atol=tol*1e-3 if want.ndim else tol, equal_nan=True)
        if not good and not (lin or u == 'degC') and np.shape(got) == np.shape(want):
            with np.errstate(all='ignore'):
                good = np.all(np.isclose(got, want, rtol=1e-7, atol=0) | ~np.isfinite(got) | (np.abs(want) <= tol))
        if not good:
            out.fail('wrong-value', f'{what}: {k} in {u} reads {np.ravel(got)[:4]} but should be {np.ravel(want)[:4]}', f'value-{k[1]}')
        return good

    def mutate(self, op, k, objs, ref, truth, unit, out, what):
        """True: accepted, False: refused, None: violation"""
        from euphonic import ureg
        o = target(objs, k[0])
        tab = table(k[0])[k[1]]
        q0 = getattr(o, k[1])
        if op['op'] in ('unit', 'bad_unit'):
            u = op['unit']
            val = ureg.Unit(self.base_unit(k)) if u == 'Unit' else u
            if u in tab or u == 'degC' and k[1] == 'temperature' or u == 'Unit':
                u = self.base_unit(k) if u == 'Unit' else u
                must = op['unit'] != 'Unit'
            else:
                must = False
            try:
                setattr(o, k[1] + '_unit', val)
            except Exception as e:
                out.fault('refused_unit_change')
                out.sigs.add(f'{k[0]}:{k[1]}:unit:{op["unit"]}:{type(e).__name__}')
                if must:
                    out.fail('refused-valid', f'{what}: {type(e).__name__}: {e}', f'refused-{k[1]}')
                    return None
                return False
            out.sigs.add(f'{k[0]}:{k[1]}:unit:{op["unit"]}:ok')
            if u not in tab and u != 'degC':
                # accepted although unusual: it has to be readable and mean the same
                q, si = self.read(k, objs, out, what)
                if q is None:
                    return None
                out.probe('unusual unit accepted')
                unit[k] = str(q.units)
                if not self.verify(k, objs, truth, unit, out, what):
                    return None
                u = self.base_unit(k)
                setattr(o, k[1] + '_unit', u)
            unit[k] = u
            return True
        # ---- assignments
        u = op['unit']
        if u.startswith('#'):
            val = {'#array': np.array(q0.magnitude), '#none': None, '#list': [1., 2.], '#float': 3.0}[u]
            must, si = False, None
        else:
            g = F.np_rng('assign', op.get('seed', 0))
            t = truth[k]
            f = g.uniform(0.5, 1.5, np.shape(t)) if k[1] not in ('x_data', 'dielectric', 'born') else float(g.uniform(0.5, 1.5))
            how = op.get('how', 'new')
            if how == 'near':                        # hardly different from the present value
                f = np.where(g.uniform(size=np.shape(t)) < 0.4, 1 + 4e-6, 1.) if np.ndim(t) and k[1] not in ('x_data', 'dielectric', 'born') else 1 + 4e-6
            si = t*f
            good = u in tab or u == 'degC' and k[1] == 'temperature'
            if good:
                mag = U.from_si(si, u, tab)
            else:
                mag = np.ones_like(np.asarray(si))
            if how == 'own':                         # the value the object itself reports
                si, mag, u = t, np.array(q0.magnitude), unit[k]
                good = True
                val = q0
            elif how == 'imul' and u != 'degC' and unit[k] != 'degC':
                val = q0*2
                si, u, good = t*2, unit[k], True
            else:
                if how == 'int' and good and u != 'degC':
                    mag = np.rint(np.asarray(mag)).astype(np.int64)
                    si = U.to_si(mag.astype(float), u, tab)
                try:
                    val = ureg.Quantity(mag if np.ndim(mag) else float(mag), u)
                except Exception:
                    return False
            must = good
            if not np.all(np.isfinite(si)) and how == 'int':
                return False
        try:
            setattr(o, k[1], val)
        except Exception as e:
            out.fault('refused_assignment')
            out.sigs.add(f'{k[0]}:{k[1]}:assign:{op["unit"]}:{type(e).__name__}')
            if must:
                out.fail('refused-valid', f'{what}: {type(e).__name__}: {e}', f'refused-assign-{k[1]}')
                return None
            return False
        out.sigs.add(f'{k[0]}:{k[1]}:assign:{op["unit"]}:{op.get("how")}:ok')
        if not must:
            if u.startswith('#'):
                out.fail('accepted-nonsense', f'{what}: a value that is no quantity was accepted', f'nonsense-{k[1]}')
                return None
            try:
                si = U.to_si(np.array(ureg.Quantity(mag, u).to(self.base_unit(k), 'reciprocal_spectroscopy').magnitude, dtype=float), self.base_unit(k), tab)
            except Exception:
                out.fail('accepted-nonsense', f'{what}: a quantity in {u} was accepted', f'nonsense-{k[1]}')
                return None
            out.probe('unusual unit accepted')
            truth[k], unit[k] = np.asarray(si, dtype=float), str(ureg.Unit(u))
            if not self.verify(k, objs, truth, unit, out, what):
                return None
            u = self.base_unit(k)
            setattr(o, k[1] + '_unit', u)
        truth[k], unit[k] = np.asarray(si, dtype=float), u
        # same physical data for the reference object, in its own units
        r = target(ref, k[0])
        ru = getattr(r, k[1]).units
        setattr(r, k[1], ureg.Quantity(U.from_si(np.asarray(si), self.base_unit(k), tab), self.base_unit(k)).to(ru, 'reciprocal_spectroscopy'))
        return True

    # ------------------------------------------------------------------
    def calc(self, c, objs, ref, out, what, truth):
        uses = [n for n in W.OPS[c['op']]['uses'] if n in objs]
        def run(o):
            with np.errstate(all='ignore'):
                try:
                    return W.run_op(o, c), None
                except Exception as e:
                    return None, e
        want, e0 = run(ref)
        got, e1 = run(objs)
        out.sigs.add(f'calc:{c["op"]}:{type(e1).__name__}')
        if e0 is not None:
            if e1 is None:
                out.fail('calc-accepted', f'{what}: refused in the original units ({type(e0).__name__}: {e0}) but accepted after unit changes only', f'calc-accepted-{c["op"]}')
                return False
            return True                              # not possible with this data at all
        if c['op'] == 'crystal.geometry' and e1 is None:
            got.pop(3), want.pop(3)                  # a bare spglib cell is in display units by definition
        if isinstance(e1, AssertionError) and c['op'] in ('spec.add', 'spec.from_spectra'):
            return True                              # refusing to combine different display units is fine
        if e1 is not None:
            out.fail('calc-fails', f'{what}: fails after unit changes only: {type(e1).__name__}: {e1}', f'calc-{c["op"]}')
            return False
        m = self.phys_diff(got, want)
        if m:
            out.fail('calc-differs', f'{what}: result differs physically from that in the original units: {m}', f'calc-{c["op"]}')
            return False
        return True

    def phys_diff(self, a, b, path=''):
        """compare results with quantities converted to the reference's units"""
        if hasattr(b, 'units'):
            try:
                x = np.asarray(a.to(b.units, 'reciprocal_spectroscopy').magnitude)
            except Exception:
                if a.check(b.dimensionality):
                    return f'{path}: {a.units} against {b.units}'
                return None
            y = np.asarray(b.magnitude)
            if x.shape != y.shape:
                return f'{path}: shape {x.shape} != {y.shape}'
            fin = np.isfinite(y)
            sc = np.abs(y[fin]).max(initial=0.0) if y.ndim else abs(float(y))
            if not np.allclose(x, y, rtol=1e-6, atol=1e-6*sc + 1e-30, equal_nan=True):
                i = np.unravel_index(np.nanargmax(np.abs(np.where(np.isfinite(x - y), x - y, 0))), y.shape) if y.ndim else ()
                return f'{path}: {x[i]} != {y[i]} {b.units}'
            return None
        if isinstance(b, dict):
            from euphonic import ureg
            keys = {k for k in b if k + '_unit' in b}
            if set(a) != set(b):
                return f'{path}: keys'
            for k in b:
                if k == 'frequencies':
                    # zero modes are square roots of rounding errors
                    x, y = (U.to_si(np.array(ureg.Quantity(d[k], d[k + '_unit']).to('meV').magnitude), 'meV', dict(meV=1.0)) for d in (a, b))
                    ok = x.shape == y.shape and np.allclose(np.sign(x)*x**2, np.sign(y)*y**2, rtol=1e-6, atol=1e-6*np.nanmax(y**2, initial=0.0) + 1e-6,
                                                            equal_nan=True)
                    m = None if ok else f'{path}.frequencies: {np.ravel(x)[:6]} != {np.ravel(y)[:6]} meV'
                elif k in keys:
                    m = self.phys_diff(ureg.Quantity(a[k], a[k + '_unit']), ureg.Quantity(b[k], b[k + '_unit']), f'{path}.{k}')
                elif k.endswith('_unit') or k == 'eigenvectors':
                    m = None
                else:
                    m = self.phys_diff(a[k], b[k], f'{path}.{k}')
                if m:
                    return m
            return None
        if isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return f'{path}: length {len(a)} != {len(b)}'
            for i, (x, y) in enumerate(zip(a, b)):
                m = self.phys_diff(x, y, f'{path}[{i}]')
                if m:
                    return m
            return None
        if hasattr(b, 'to_dict'):
            return self.phys_diff(a.to_dict(), b.to_dict(), f'{path}{type(b).__name__}')
        if isinstance(b, np.ndarray) and b.dtype.kind in 'fc' or isinstance(b, float):
            y = np.asarray(b)
            return None if np.allclose(a, y, rtol=1e-6, atol=1e-6*np.abs(y).max(initial=0.0) if y.ndim else 1e-12, equal_nan=True) else f'{path}: {a} != {b}'
        if isinstance(b, np.ndarray):
            return None if np.array_equal(a, b) else f'{path}: arrays differ'
        return None if a == b else f'{path}: {a!r} != {b!r}'

    def shrink(self, case, res):
        ops = case['ops']
        for n in (len(ops)//2, len(ops)//4, 3, 1):
            if 0 < n < len(ops):
                for i in range(0, len(ops), n):
                    yield dict(case, ops=ops[:i] + ops[i + n:])


CHECK = C11()
