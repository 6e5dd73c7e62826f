"""C05: caller threads interleaved at line/bytecode granularity by a seeded scheduler on shared objects."""
import copy
import random

from .. import boot, core, sched, trace, world as W

POOL = None


class C05(core.Check):
    id = 'C05'
    technique = ('deterministic simulation: real caller threads under a seeded cooperative scheduler with pre-emption at every line or '
                 'bytecode of euphonic, each result compared with the same call made alone')
    rule = ('one evaluation = one call made concurrently with others and compared with its solo result; a state is a distinct '
            '(source line, thread switched to) pre-emption; non-trivial = at least one pre-emption inside a call')
    n_runs = {'quick': 800, 'thorough': 20000}
    wall = {'quick': 80, 'thorough': 1500}
    real = ['all of euphonic except the CLI and file readers', 'C extension (plain build, one worker thread, atomic: it holds the GIL)',
            'numpy, scipy, pint, spglib']
    stub = ['thread scheduling (one thread runs at a time, switched at euphonic lines or bytecodes)', 'threading.Lock / RLock']
    assumptions = ['pre-emption inside numpy, scipy, pint and C code is not explored', 'plotting is excluded (pyplot is not thread-safe)']

    def prepare(self, tier):
        sched.install()
        boot.import_euphonic('plain')
        import euphonic.powder, euphonic.sampling    # noqa: F401,E401

    def warm(self, tier):
        for s in range(3):
            rng = random.Random(s)
            spec = W.gen_spec(rng, born=bool(s % 2))
            o = W.build(spec)
            for k in W.OPS:
                if W.OPS[k]['group'] in ('calc', 'powder'):
                    W.run_op(o, W.gen_op(rng, spec, names=[k]))

    def generate(self, rng, idx, tier):
        spec = W.gen_spec(rng, born=rng.random() < 0.7)
        n = rng.choice([2, 2, 2, 3, 4])
        pool = [k for k in W.OPS if W.OPS[k]['group'] in ('calc', 'powder')]
        theme = rng.random()
        if theme < 0.5:
            names = ['fc.modes', 'fc.freqs', 'fc.grads']
            if rng.random() < 0.2:
                names += ['powder.sf', 'powder.dos', 'any.to_dict']
        else:
            k = rng.choice(pool)
            names = [x for x in pool if set(W.OPS[x]['uses']) & set(W.OPS[k]['uses'])]
        threads = [[W.gen_op(rng, spec, names=names) for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]
        r = rng.random()
        if r < 0.15:        # the same call from every thread
            threads = [copy.deepcopy(threads[0][:1]) for _ in range(n)]
        elif r < 0.5:       # the same call with one argument changed
            p = threads[0][0]
            threads = [[p]] + [[W.neighbour_op(rng, spec, p)] for _ in range(n - 1)]
        elif r < 0.65:      # the same operation with other arguments
            k = threads[0][0]['op']
            threads = [[W.gen_op(rng, spec, names=[k])] for _ in range(n)]
        grain = rng.choice(['line', 'line', 'opcode'])
        kind = rng.choice(['random', 'bursts', 'points', 'points', 'guided', 'guided', 'guided', 'guided'])
        if kind == 'guided':
            grain = 'line'
        pol = dict(kind=kind, first=rng.randrange(n))
        if kind == 'random':
            pol['rate'] = rng.choice([0.5, 0.1, 0.02])
        elif kind == 'points':
            pol['span'] = rng.choice([200, 1000, 4000])*(4 if grain == 'opcode' else 1)
            pol['at'] = [rng.random() for _ in range(rng.choice([1, 2, 3, 6]))]
        elif kind == 'guided':
            # one or a few chosen pauses, or each possible one with a given probability
            pol['rate'] = rng.choice([None, None, 0.3, 0.6])
            pol['at'] = [[rng.choice([pol['first'], rng.randrange(n)]), rng.random(), rng.choice([0, 0, 0, 1, 2, 5, 20])]
                         for _ in range(rng.choice([1, 1, 2, 3, 6]))]
        return dict(world=spec, threads=threads, grain=grain, policy=pol, seed=rng.randrange(1 << 30),
                    warm=W.gen_op(rng, spec, names=names) if rng.random() < 0.5 else None)

    def execute(self, case, out):
        proto = W.build(case['world'])
        allops = [p for t in case['threads'] for p in t]
        names = sorted(set(n for p in allops + ([case['warm']] if case['warm'] else []) for n in W.OPS[p['op']]['uses']))
        proto = {k: proto[k] for k in names}
        before = {k: W.snap(v) for k, v in proto.items()}
        want = [[W.snap(W.run_op(copy.deepcopy(proto), p)) for p in t] for t in case['threads']]
        objs = copy.deepcopy(proto)
        if case['warm']:
            W.run_op(objs, case['warm'])
        got = [[] for _ in case['threads']]

        def body(i):
            def f():
                for p in case['threads'][i]:
                    got[i].append(W.run_op(objs, p))
            return f
        pol = case['policy']
        if pol['kind'] == 'guided':
            # switch soon after a caller has changed something that others can see
            targets = []
            pick = random.Random(case['seed'])
            seen = {}
            for i in range(len(case['threads'])) if pol['rate'] else sorted(set(a[0] for a in pol['at'])):
                o = copy.deepcopy(objs)
                for p in case['threads'][i]:
                    with trace.Watch(o) as t:
                        W.run_op(o, p)
                    lines = [(k, m, sorted(cs - {'filters', 'err', 'random'})) for k, m, cs in t.lines]
                    seen[i] = [x for x in lines if x[2]]
                    if seen[i]:
                        break
            if pol['rate']:
                targets = [[i, k[0], k[1], m, pick.choice([0, 0, 1, 2])] for i in seen for k, m, _ in seen[i] if pick.random() < pol['rate']]
            else:
                for i, u, d in pol['at']:
                    parts = sorted(set(c for x in seen[i] for c in x[2]))
                    if parts:
                        u *= len(parts)
                        at = [(k, m) for k, m, cs in seen[i] if parts[int(u)] in cs]
                        (f, l, _), m = at[int(u % 1*len(at))]
                        targets.append([i, f, l, m, d])
            out.probe('switch_after_shared_write' if targets else 'no_shared_write')
            pol = dict(pol, targets=targets)
            if not targets:
                pol = dict(kind='bursts', first=pol['first'])
        s = sched.Scheduler(case['seed'], pol, case['grain'])
        res = s.run([body(i) for i in range(len(case['threads']))])
        out.extra['trace'] = s.trace[:4000]
        out.log('points', s.points, 'switches', s.switches, hash(tuple(s.trace)))
        out.fault('preemption', s.switches)
        out.unit('points', s.points)
        out.sigs = s.sites
        out.evals = len(allops)
        out.nontrivial = s.switches > 0
        out.sample = dict(threads=[[p['op'] for p in t] for t in case['threads']], policy=case['policy'], grain=case['grain'],
                          switches=s.trace[:20])
        if s.failed:
            out.fail(s.failed, f'callers {case["threads"]} ended in a {s.failed} after {s.points} steps')
            return
        for i, (r, t) in enumerate(zip(res, case['threads'])):
            if r[0] != 'ok':
                out.fail('call-raised', f'thread {i} running {t}: {r[1][0]}: {r[1][1]}\n{r[1][2]}')
                return
            for p, g, w in zip(t, got[i], want[i]):
                sg = W.snap(g)
                d = W.result_diff(sg, w)
                if d:
                    out.fail('wrong-result', f'thread {i}, {p}: differs from the same call made alone: {d}')
                    return
        for k, v in objs.items():
            d = W.diff(W.snap(v), before[k])
            if d:
                out.fail('data-changed', f'shared {k} changed: {d}')
                return
        # nothing wrong is left behind for later callers
        for t, ws in zip(case['threads'], want):
            for p, w in zip(t, ws):
                d = W.result_diff(W.snap(W.run_op(objs, p)), w)
                if d:
                    out.fail('later-call-wrong', f'{p} after the concurrent calls: {d}')
                    return

    def shrink(self, case, res):
        th = case['threads']
        for i in range(len(th)):
            if len(th) > 2:
                yield dict(case, threads=th[:i] + th[i + 1:])
            for j in range(len(th[i])):
                if len(th[i]) > 1:
                    yield dict(case, threads=th[:i] + [th[i][:j] + th[i][j + 1:]] + th[i + 1:])
        if case['warm']:
            yield dict(case, warm=None)
        if case['grain'] == 'opcode':
            yield dict(case, grain='line')
        if case['policy']['kind'] != 'explicit':
            tr = res['extra'].get('trace') or []
            if 0 < len(tr) < 4000:
                yield dict(case, policy=dict(kind='explicit', first=tr[0][1], switches=tr[1:]))
        else:
            sw = case['policy']['switches']
            n = len(sw)
            size = max(n//2, 1)
            while size >= 1:
                for a in range(0, n, size):
                    yield dict(case, policy=dict(case['policy'], switches=sw[:a] + sw[a + size:]))
                if size == 1:
                    break
                size //= 2


CHECK = C05()
