"""C09: JSON save/restore histories on a simulated disk with write faults, crashes and torn or unreadable files."""
import contextlib
import copy
import errno
import io
import json
import os
import shutil
import warnings

import numpy as np

from .. import boot, core, simfs, units as U, world as W

NAMES = ['crystal', 'fc', 'qpm', 'qpf', 'sf', 'sfn', 'dw', 's1', 's1c', 'disp', 's2', 's2c']
DERIVE = ['qpm.sf', 'qpm.dw', 'qpf.dos', 'qpm.pdos', 'qpf.dos_map', 'qpm.dispersion', 'qpm.to_qpf', 'sf.sqw', 'sf.average', 'sf.to_qpf',
          's1.broaden', 's1c.broaden', 's2.broaden', 's2.kinematic', 'spec.split', 'spec.copy', 'spec.mul', 'spec.add', 'spec.sum', 'spec.group',
          'spec.select', 'spec.item', 'spec.from_spectra', 'fc.modes', 'fc.freqs', 'powder.sf', 'powder.dos']
USE = {'Crystal': ['crystal.geometry', 'crystal.symmetry'], 'ForceConstants': ['fc.freqs', 'fc.modes'], 'QpointPhononModes': ['qpm.sf', 'qpm.dw', 'qpm.pdos', 'qpm.dispersion'],
       'QpointFrequencies': ['qpf.dos', 'qpf.dos_map'], 'StructureFactor': ['sf.sqw', 'sf.average'], 'DebyeWaller': [],
       'Spectrum1D': ['s1.broaden', 'spec.mul', 'spec.split', 'spec.bins'], 'Spectrum1DCollection': ['s1c.broaden', 'spec.group', 'spec.sum', 'spec.item', 'spec.select'],
       'Spectrum2D': ['s2.broaden', 'spec.split', 'spec.bins'], 'Spectrum2DCollection': ['spec.sum', 'spec.item', 'spec.group']}
SLOT = {'Crystal': 'crystal', 'ForceConstants': 'fc', 'QpointPhononModes': 'qpm', 'QpointFrequencies': 'qpf', 'StructureFactor': 'sf', 'DebyeWaller': 'dw',
        'Spectrum1D': 's1', 'Spectrum1DCollection': 's1c', 'Spectrum2D': 's2', 'Spectrum2DCollection': 's2c'}
WHICH = {'Spectrum1D': 's1', 'Spectrum1DCollection': 's1c', 'Spectrum2D': 's2', 'Spectrum2DCollection': 's2c', 'StructureFactor': 'sf'}
RTOL = 2e-11


def _class(o):
    return type(o).__name__


class C09(core.Check):
    id = 'C09'
    technique = ('deterministic simulation of storage: seeded histories of operations, saves and restores on a simulated disk with full disks, '
                 'write/open/close errors, short and torn writes, crashes at a chosen byte, truncation and read errors')
    rule = ('one evaluation = one save or restore in a history; a state is a distinct (class, save outcome, fault kind, load outcome); '
            'non-trivial = a fault took effect or the object had been changed before saving')
    n_runs = {'quick': 2200, 'thorough': 12000}
    wall = {'quick': 80, 'thorough': 1200}
    run_timeout = 90
    real = ['euphonic/io.py, all to_dict/from_dict/JSON methods, json, Python text and buffered I/O']
    stub = ['the raw file below them (write results, errors, capacity, process death)']
    assumptions = ['a dead process leaves exactly the bytes the simulated device had accepted; no reordering of accepted bytes is simulated']

    def prepare(self, tier):
        simfs.install()
        boot.import_euphonic(None)

    def warm(self, tier):
        W.build(W.gen_spec(core.rng_for(0, 'warm', 0)))

    # ------------------------------------------------------------------ cases
    def gen_fault(self, rng):
        r = rng.random()
        if r < 0.45:
            return None
        k = rng.choice(['space', 'space', 'crash', 'crash', 'eio', 'eio', 'close', 'open', 'short'])
        d = dict(kind=k)
        if k in ('space', 'crash'):
            d['frac'] = rng.choice([0.0, rng.random(), rng.random(), 0.999, 1.0])
        if k in ('space', 'crash', 'eio', 'short'):
            d['bufsize'] = rng.choice([64, 512, 8192, 8192])
        if k == 'eio':
            d['nth'] = rng.choice([1, 1, 2, 3, rng.randrange(1, 40)])
        if k == 'short':
            d['seed'] = rng.randrange(1 << 30)
        return d

    def generate(self, rng, idx, tier):
        spec = W.gen_spec(rng)
        tab = U.quant(spec.get('bunit', spec['funit']))
        ops = []
        focus = rng.sample(NAMES, rng.choice([1, 2, 3]))
        for _ in range(rng.randint(4, 24 if tier == 'thorough' else 14)):
            r = rng.random()
            name = rng.choice(focus if rng.random() < 0.8 else NAMES)
            if r < 0.2:
                attr = rng.choice(list(tab[name]))
                ops.append(dict(op='unit', obj=name, attr=attr, unit=rng.choice(U.choices(attr, tab[name][attr]))))
            elif r < 0.34:
                ops.append(dict(op='derive', calc=W.gen_op(rng, spec, names=DERIVE)))
            elif r < 0.42:
                ops.append(dict(op='meta', obj=rng.choice(['s1', 's1c', 's2', 's2c', 'disp']), key=rng.choice(['label', 'species', 'x-y', 'é', 'n']),
                                val=rng.choice(['a', 'Ω "q"\n', 3, -1, 0, '', 1.5])))
            elif r < 0.49:
                ops.append(dict(op='layout', obj=name, how=rng.choice(['F', 'strided', 'f4', 'int', 'c8'])))
                if rng.random() < 0.7:
                    ops.append(dict(op='save', obj=ops[-1]['obj'], slot='a', fault=None, cycles=1))
            elif r < 0.52:
                ops.append(dict(op='special', obj=rng.choice(['sf', 's1', 's2', 'qpf']), val=rng.choice(['nan', 'inf', 'tiny', 'huge', 'negzero'])))
            elif r < 0.55:
                ops.append(dict(op='dict', obj=name, n=rng.choice([1, 3])))
            elif r < 0.82:
                ops.append(dict(op='save', obj=name, slot=rng.choice(['a', 'b', 'b', 'c']), fault=self.gen_fault(rng), cycles=rng.choice([1, 1, 4])))
            else:
                ops.append(dict(op='damage', slot=rng.choice(['a', 'b', 'c']), kind=rng.choice(['cut', 'cut', 'cut', 'eio', 'open', 'short', 'missing', 'zero', 'none']),
                                frac=rng.choice([0, rng.random(), rng.random(), 0.99, 0.999, 1.0]), nth=rng.choice([1, 2, 5]),
                                off=rng.choice([0, 1, 1, 2, 3, 10])))
        ops.append(dict(op='save', obj=rng.choice(focus), slot='a', fault=None, cycles=1, use=rng.randrange(100)))
        return dict(spec=spec, ops=ops)

    # -------------------------------------------------------------- execution
    def execute(self, case, out):
        warnings.simplefilter('ignore')
        spec = case['spec']
        objs = W.build(spec)
        top = os.path.join(boot.scratch(), f'run-{os.getpid()}')
        os.makedirs(top)
        slots = {}              # slot -> list of acceptable (class, snapshot); None: nothing was ever there
        out.evals = 0
        out.nontrivial = False
        try:
            for i, op in enumerate(case['ops']):
                what = f'step {i} {op}'
                out.log(what)
                if not getattr(self, 'do_' + op['op'])(op, objs, spec, slots, top, out, what):
                    return
        finally:
            shutil.rmtree(top, ignore_errors=True)
        out.sample = dict(spec=spec, ops=case['ops'][:6])

    def do_unit(self, op, objs, spec, slots, top, out, what):
        o = objs[op['obj']]
        if getattr(o, op['attr']) is not None:
            setattr(o, op['attr'] + '_unit', op['unit'])
            out.nontrivial = True
        return True

    def do_derive(self, op, objs, spec, slots, top, out, what):
        try:
            with np.errstate(all='ignore'):
                r = W.run_op(objs, op['calc'])
        except Exception:
            return True
        for x in (r if isinstance(r, (list, tuple)) else [r]):
            if hasattr(x, 'to_json_file') and SLOT.get(_class(x)):
                objs['derived'] = x
                if not self.roundtrip_dict(x, 1, out, what):
                    return False
                return self.save(x, 'd', None, 1, None, spec, slots, top, out, what)
        return True

    def do_meta(self, op, objs, spec, slots, top, out, what):
        o = objs[op['obj']]
        ld = o.metadata.get('line_data')
        if any(op['key'] in l for l in ld or []):
            ld[0][op['key']] = op['val']
        else:
            o.metadata[op['key']] = op['val']
        return True

    def do_special(self, op, objs, spec, slots, top, out, what):
        o = objs[op['obj']]
        attr = {'sf': 'structure_factors', 's1': 'y_data', 's2': 'z_data', 'qpf': 'frequencies'}[op['obj']]
        q = getattr(o, attr)
        m = np.array(q.magnitude, dtype=float)
        m.flat[m.size//2] = dict(nan=np.nan, inf=np.inf, tiny=5e-300, huge=1e300, negzero=-0.0)[op['val']]
        if op['val'] in ('tiny', 'huge') and op['obj'] in ('s2', 's1') or op['val'] in ('nan', 'inf', 'negzero'):
            setattr(o, attr, q.__class__(m, q.units))
        return True

    def do_layout(self, op, objs, spec, slots, top, out, what):
        """the same object rebuilt by its constructor from arrays laid out differently"""
        o = objs[op['obj']]

        def conv(v):
            if hasattr(v, 'units'):
                return v.__class__(conv(v.magnitude), v.units)
            if isinstance(v, np.ndarray) and v.ndim:
                if op['how'] == 'F':
                    return np.asfortranarray(v)
                if op['how'] == 'strided':
                    w = np.zeros(v.shape[:-1] + (2*v.shape[-1],), v.dtype)
                    w[..., ::2] = v
                    return w[..., ::2]
                if op['how'] == 'f4' and v.dtype.kind == 'f':
                    return v.astype(np.float32).astype(np.float64)[::-1][::-1] if op['obj'] != 'qpm' else v
                if op['how'] == 'c8' and v.dtype.kind == 'c':
                    return v.astype(np.complex64)
            return v
        d = {k: v for k, v in o.__dict__.items()}
        import inspect
        names = [p for p in inspect.signature(type(o).__init__).parameters if p != 'self']
        if op['how'] == 'int' and op['obj'] in ('s1', 's2'):
            kw = {n: getattr(o, n) for n in names}
            kw['x_data'] = kw['x_data'].__class__(np.arange(len(kw['x_data'])), kw['x_data'].units)
        else:
            kw = {n: conv(getattr(o, n)) for n in names}
        del d
        objs[op['obj']] = type(o)(**kw)
        out.nontrivial = True
        return True

    def roundtrip_dict(self, o, n, out, what):
        want = W.snap(o)
        x = o
        for _ in range(n):
            x = type(o).from_dict(x.to_dict())
        m = W.diff(W.snap(x), want, RTOL)
        if m:
            out.fail('dict-differs', f'{what}: {_class(o)} restored from its dictionary differs: {m}', f'dict-{_class(o)}')
            return False
        m = W.diff(W.snap(o), want)
        if m:
            out.fail('saving-changes', f'{what}: to_dict changed the {_class(o)}: {m}', f'changed-{_class(o)}')
            return False
        return True

    def do_dict(self, op, objs, spec, slots, top, out, what):
        return self.roundtrip_dict(objs[op['obj']], op['n'], out, what)

    def do_save(self, op, objs, spec, slots, top, out, what):
        return self.save(objs[op['obj']], op['slot'], op['fault'], op['cycles'], op.get('use'), spec, slots, top, out, what, objs)

    def plan(self, fault, name, size):
        if fault is None:
            return {}
        k = fault['kind']
        plan = {'*bufsize': fault.get('bufsize', 8192)}
        if k == 'space':
            plan['*space'] = int(size*fault['frac'])
        elif k == 'crash':
            plan['*crash'] = max(1, int(size*fault['frac']))
        elif k == 'eio':
            plan[name] = [dict(kind='eio_write', mode='w', nth=fault['nth'])]
        elif k == 'close':
            plan[name] = [dict(kind='close_error', mode='w')]
        elif k == 'open':
            plan[name] = [dict(kind='open_error', mode='w', errno=errno.EROFS)]
        elif k == 'short':
            plan['*short'] = fault['seed']
        return plan

    def save(self, o, slot, fault, cycles, use, spec, slots, top, out, what, objs=None):
        out.evals += 1
        cls = _class(o)
        want = W.snap(o)
        path = os.path.join(top, f'{slot}.json')
        before = os.path.exists(path)
        size = 0
        if fault is not None and fault['kind'] in ('space', 'crash'):
            # length of a complete file, from a trial save of a copy
            trial = os.path.join(top, 'trial')
            with contextlib.redirect_stdout(io.StringIO()):
                copy.deepcopy(o).to_json_file(trial)
            size = os.path.getsize(trial)
            os.remove(trial)
        said = io.StringIO()
        fs = simfs.SimFS(top, self.plan(fault, f'{slot}.json', size), out)
        err = None
        with fs, contextlib.redirect_stdout(said):
            try:
                o.to_json_file(path)
            except (Exception, simfs.SimCrash) as e:
                err = e
        m = W.diff(W.snap(o), want)
        if m:
            out.fail('saving-changes', f'{what}: saving changed the {cls}: {m}', f'changed-{cls}')
            return False
        hard = [f for f in fs.fired if f not in ('short_write', 'torn_write')]
        out.nontrivial = out.nontrivial or bool(hard)
        out.sigs.add(f'{cls}:save:{fault and fault["kind"]}:{type(err).__name__}:{"over" if before else "new"}')
        old = slots.get(slot, [None])
        if err is not None:
            if not hard and not (fault and fault['kind'] == 'space'):
                out.fail('save-fails', f'{what}: saving a {cls} fails without a fault: {type(err).__name__}: {err}', f'save-{cls}')
                return False
            if said.getvalue().strip():
                out.fail('false-success', f'{what}: the save failed ({type(err).__name__}) but said {said.getvalue()!r}', 'false-success')
                return False
            slots[slot] = old + [(cls, want)]
            return self.load(slot, slots, {}, top, out, what + f' -> {type(err).__name__}', may_fail=True)
        if 'close_error' in fs.fired or 'write_error' in fs.fired or 'open_error' in fs.fired or 'disk_full' in fs.fired:
            out.fail('error-lost', f'{what}: the device reported {fs.fired} but to_json_file returned normally', f'error-lost-{fault["kind"]}')
            return False
        slots[slot] = [(cls, want)]
        obj = self.load(slot, slots, {}, top, out, what, may_fail=False)
        if not obj:
            return False
        for _ in range(cycles - 1):
            with contextlib.redirect_stdout(io.StringIO()):
                obj.to_json_file(path)
            obj = self.load(slot, slots, {}, top, out, what + ' (repeated)', may_fail=False)
            if not obj:
                return False
        if use is not None and objs is not None:
            return self.behave(o, obj, objs, use, out, what)
        return True

    def behave(self, o, restored, objs, use, out, what):
        """both versions give the same result in a calculation"""
        cls = _class(o)
        if not USE[cls]:
            return True
        c = dict(op=USE[cls][use % len(USE[cls])], which=WHICH.get(cls), bose=True, T=None, w=False, func=False, shape='gauss', w_=1, axis='xy',
                 method='convolve', f=2, at=[1], keys=['group', 'species'], item=0, widths=False, dw=True, ref=False, sym=False, weighting='coherent', xs=True,
                 opts=dict(asr='reciprocal'), use_c=False, q=[[0.1, 0.2, -0.3]])
        if c['op'].endswith('broaden'):
            c['w'] = 3.0
        if c['op'] == 'qpm.dw':
            c['T'] = 50.0
        res = []
        for x in (o, restored):
            try:
                with np.errstate(all='ignore'):
                    res.append(W.snap(W.run_op(dict(objs, **{SLOT[cls]: x}), c)))
            except Exception as e:
                res.append(('E', type(e).__name__))
        m = W.result_diff(res[1], res[0], 1e-7)
        out.sigs.add(f'{cls}:use:{c["op"]}')
        if m:
            out.fail('behaves-differently', f'{what}: {c["op"]} on the restored {cls} differs: {m}', f'behaves-{cls}')
            return False
        return True

    def load(self, slot, slots, plan, top, out, what, may_fail):
        """the restored object (or True), False after a violation"""
        import euphonic
        from euphonic.spectra import Spectrum2DCollection
        path = os.path.join(top, f'{slot}.json')
        cands = [c for c in slots.get(slot, [None]) if c]
        res = True
        classes = sorted({c[0] for c in cands})
        if len(classes) > 1:
            # several saves went to this file: if it is well formed, it says whose data it holds
            try:
                with open(path) as f:
                    classes = [json.load(f)['__euphonic_class__']]
            except (OSError, ValueError, KeyError, TypeError):
                pass
        for cls in classes:
            T = Spectrum2DCollection if cls == 'Spectrum2DCollection' else getattr(euphonic, cls)
            fs = simfs.SimFS(top, copy.deepcopy(plan), out)
            try:
                with fs, contextlib.redirect_stdout(io.StringIO()):
                    obj = T.from_json_file(path)
            except (Exception, simfs.SimHang) as e:
                out.sigs.add(f'{cls}:load:{sorted(plan)}:{type(e).__name__}')
                if isinstance(e, simfs.SimHang):
                    out.fail('hang', f'{what}: {e}')
                    return False
                if not may_fail:
                    out.fail('load-fails', f'{what}: restoring a {cls} fails: {type(e).__name__}: {e}', f'load-{cls}')
                    return False
                continue
            got = W.snap(obj)
            ms = [W.diff(got, w, RTOL) for c, w in cands if c == cls]
            out.sigs.add(f'{cls}:load:{sorted(plan)}:ok')
            if all(ms):
                # a file of another class read as this one is not what was saved here either
                out.fail('load-differs', f'{what}: the restored {cls} differs from what was saved: {ms[-1]}', f'load-{cls}')
                return False
            res = obj
        return res

    def do_damage(self, op, objs, spec, slots, top, out, what):
        slot = op['slot']
        path = os.path.join(top, f'{slot}.json')
        if not os.path.exists(path) or not any(slots.get(slot, [])):
            return True
        out.evals += 1
        size = os.path.getsize(path)
        name = f'{slot}.json'
        k = op['kind']
        plan = {}
        data = open(path, 'rb').read()
        changed = True
        if k == 'cut':
            at = max(0, size - op['off']) if op['frac'] == 1.0 else int(size*op['frac'])
            with open(path, 'wb') as f:
                f.write(data[:at])
            out.fault('cut')
        elif k == 'zero':
            at = int(size*op['frac'])
            with open(path, 'wb') as f:
                f.write(data[:at] + bytes(size - at))
            out.fault('zero_tail')
            changed = True
        elif k == 'missing':
            os.remove(path)
            out.fault('missing')
        elif k == 'eio':
            plan = {name: [dict(kind='eio_read', nth=op['nth'])], '*bufsize': 512}
        elif k == 'open':
            plan = {name: [dict(kind='open_error', nth=1)]}
        elif k == 'short':
            plan = {'*short': op['nth']}
        if k not in ('none', 'short'):
            out.nontrivial = True
        complete = len([c for c in slots[slot] if c]) == 1 and len(slots[slot]) == 1
        ok = self.load(slot, slots, plan, top, out, what, may_fail=k not in ('short', 'none') or not complete)
        with open(path, 'wb') as f:
            f.write(data)
        return bool(ok)

    def shrink(self, case, res):
        ops = case['ops']
        for n in (len(ops)//2, len(ops)//4, 1):
            if 0 < n < len(ops):
                for i in range(0, len(ops), n):
                    yield dict(case, ops=ops[:i] + ops[i + n:])
        for i, o in enumerate(ops):
            if o.get('fault'):
                yield dict(case, ops=ops[:i] + [dict(o, fault=None)] + ops[i + 1:])


CHECK = C09()
