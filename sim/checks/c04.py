"""C04: calls stopped part-way by KeyboardInterrupt / MemoryError at a seeded line of Euphonic's code."""
import copy
import os
import warnings

import numpy as np

from .. import boot, core, fixtures as F, trace, world as W

EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}


class FakeThreads:
    """thread pools whose limits exist only here: what threadpoolctl reads and sets"""

    def __init__(self):
        self.n = {}

    def install(self):
        import threadpoolctl
        fake = self

        def get(self):
            return fake.n.setdefault(self.filepath, 5)

        def put(self, n):
            fake.n[self.filepath] = n
        for name in dir(threadpoolctl):
            c = getattr(threadpoolctl, name)
            if isinstance(c, type) and issubclass(c, threadpoolctl.LibController) and c is not threadpoolctl.LibController:
                c.get_num_threads = get
                c.set_num_threads = put

    def state(self):
        return {k: v for k, v in self.n.items() if v != 5}


THREADS = FakeThreads()


def settings():
    import matplotlib
    from euphonic import ureg
    st = np.random.get_state()
    reg = ureg.get() if hasattr(ureg, 'get') else ureg
    return dict(filters=list(warnings.filters), show=warnings.showwarning, err=tuple(sorted(np.geterr().items())),
                random=(st[0], st[1].tobytes(), st[2:]), env=dict(os.environ), cwd=os.getcwd(),
                contexts=tuple(sorted(map(str, getattr(reg, '_active_ctx', {}) and [c.name for c in reg._active_ctx.contexts] or []))),
                threads=THREADS.state(), rc=dict(matplotlib.rcParams), printoptions=tuple(sorted((k, str(v)) for k, v in np.get_printoptions().items())))


def settings_diff(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                d = [x for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x)]
                return f'{k}: {d[:4]} changed ({ {x: (a[k].get(x), b[k].get(x)) for x in d[:3]} })'
            return f'{k} changed: {str(a[k])[:300]} -> {str(b[k])[:300]}'
    return None


class C04(core.Check):
    id = 'C04'
    technique = ('deterministic simulation: asynchronous exceptions injected at seeded line/return points of the real code during calls on a '
                 'world of shared objects, then state, settings and repeat results compared with an undisturbed world')
    rule = ('one evaluation = one call stopped by an injected exception followed by the comparisons; a state is a distinct '
            '(operation, source line, event) at which a call was stopped; non-trivial = the exception fired')
    n_runs = {'quick': 600, 'thorough': 30000}
    wall = {'quick': 80, 'thorough': 1500}
    real = ['all of euphonic except the CLI and file readers', 'C extension (plain build, one thread)', 'numpy, scipy, pint, matplotlib, spglib']
    stub = ['thread-pool sizes seen and set by threadpoolctl', 'delivery of the exception (sys.settrace)']
    assumptions = ['the exception is delivered at line boundaries and returns of euphonic code, not inside numpy or C code, and not on '
                   'with-statement headers or in finally blocks', 'reorder_frequencies and in-place operators are not calculations']

    def prepare(self, tier):
        boot.import_euphonic('plain')
        import euphonic.powder, euphonic.sampling, euphonic.plot    # noqa: F401,E401
        THREADS.install()

    def warm(self, tier):
        import random
        for s in range(3):
            rng = random.Random(s)
            spec = W.gen_spec(rng, born=bool(s % 2))
            o = W.build(spec)
            for k in W.OPS:
                W.run_op(o, W.gen_op(rng, spec, names=[k]))

    def generate(self, rng, idx, tier):
        spec = W.gen_spec(rng)
        pool = [k for k in W.OPS if W.OPS[k]['group'] != 'io']
        r = rng.random()
        if r < 0.35:
            ops = [W.gen_op(rng, spec, names=['fc.modes', 'fc.freqs', 'fc.grads']) for _ in range(2)]
        else:
            names = [rng.choice(pool)]
            uses = set(W.OPS[names[0]]['uses'])
            names += [rng.choice([k for k in pool if uses & set(W.OPS[k]['uses'])])]
            ops = [W.gen_op(rng, spec, names=[k]) for k in names]
        stops = [dict(op=rng.choice([0, 1, 1]), u=rng.random(), occ=rng.choice(['first', 'first', 'last', rng.random()]),
                      exc=rng.choice(list(EXC)), repeat=rng.random() < 0.6, hot=rng.random() < 0.5) for _ in range(rng.choice([3, 4, 5, 6]))]
        return dict(world=spec, ops=ops, warm=rng.random() < 0.5, stops=stops)

    def execute(self, case, out):
        proto = W.build(case['world'])
        ops = case['ops']
        names = sorted(set(n for p in ops for n in W.OPS[p['op']]['uses']))
        proto = {k: proto[k] for k in names}
        for fc in [proto.get('fc')]:
            pass
        before = {k: W.snap(v) for k, v in proto.items()}
        base = settings()
        want, sites, hot = [], [], []
        for p in ops:
            o = copy.deepcopy(proto)
            want.append(W.snap(W.run_op(o, p)))
            o = copy.deepcopy(proto)
            with trace.Points() as t:
                W.run_op(o, p)
            sites.append(sorted(t.counts.items()))
            o = copy.deepcopy(proto)
            with trace.Watch(o, THREADS.state) as t:
                W.run_op(o, p)
            hot.append(t.temporary)
        d = settings_diff(base, settings())
        if d:
            out.fail('settings', f'an undisturbed call to {[p["op"] for p in ops]} changed process settings: {d}')
            return
        objs = copy.deepcopy(proto)
        out.evals = 0
        if case['warm']:
            W.run_op(objs, ops[0])

        def check(where):
            d = settings_diff(base, settings())
            if d:
                out.fail('settings', f'process settings after {where}: {d}')
                return False
            for k, v in objs.items():
                d = W.diff(W.snap(v), before[k])
                if d:
                    out.fail('data-changed', f'{k} after {where}: {d}')
                    return False
            return True

        def repeat(i, where):
            try:
                got = W.snap(W.run_op(objs, ops[i]))
            except BaseException as e:
                out.fail('repeat-fails', f'undisturbed {ops[i]["op"]} after {where}: {type(e).__name__}: {e}')
                return False
            d = W.result_diff(got, want[i])
            if d:
                out.fail('repeat-differs', f'undisturbed {ops[i]} after {where}: {d}')
                return False
            return True

        for s in case['stops']:
            i = s['op']
            if not sites[i]:
                continue
            (site, n) = sites[i][int(s['u']*len(sites[i]))]
            occ = 1 if s['occ'] == 'first' else n if s['occ'] == 'last' else 1 + int(s['occ']*n)
            if s.get('hot') and hot[i]:
                # something is temporarily changed here: it must be put back
                site, occ = hot[i][int(s['u']*len(hot[i]))]
                out.probe('stopped_with_temporary_state')
            exc = EXC[s['exc']]('injected')
            where = f'{ops[i]["op"]} stopped by {s["exc"]} at {site[0]}:{site[1]} ({site[2]}, occurrence {occ})'
            try:
                with trace.Inject(site, occ, exc) as t:
                    res = W.run_op(objs, ops[i])
            except BaseException as e:
                if not t.fired:
                    raise
                out.log(where, '->', type(e).__name__)
                out.fault(s['exc'])
                out.evals += 1
                out.sigs.add(f'{ops[i]["op"]}@{site[0]}:{site[1]}:{site[2]}')
            else:
                out.log(where, '-> returned', t.fired)
                out.probe('fault_absorbed' if t.fired else 'site_not_reached')
                d = W.result_diff(W.snap(res), want[i])
                if d:
                    out.fail('wrong-result', f'{where}: the call returned normally, with {d}' if t.fired else
                             f'undisturbed repeat of {ops[i]} returned {d}')
                    return
                if t.fired:
                    out.evals += 1
                    out.fault(s['exc'])
                    out.sigs.add(f'{ops[i]["op"]}@{site[0]}:{site[1]}:{site[2]}')
            if not check(where):
                return
            if s['repeat'] and not (repeat(i, where) and check('the repeat after ' + where)):
                return
        for i in range(len(ops)):
            if not repeat(i, 'the stopped calls'):
                return
        check('everything')
        out.nontrivial = bool(out.faults)
        out.sample = dict(ops=ops, stops=case['stops'], sites=[len(x) for x in sites])

    def shrink(self, case, res):
        st = case['stops']
        for i in range(len(st)):
            yield dict(case, stops=st[:i] + st[i + 1:])
        if case['warm']:
            yield dict(case, warm=False)
        for i, s in enumerate(st):
            for kw in (dict(repeat=False), dict(occ='first'), dict(exc='MemoryError')):
                yield dict(case, stops=st[:i] + [dict(s, **kw)] + st[i + 1:])
        for j in (0, 1):
            if not any(s['op'] == j for s in st):
                p = case['ops'][1 - j]
                yield dict(case, ops=[p, p])


CHECK = C04()
