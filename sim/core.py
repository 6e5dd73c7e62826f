"""Simulation driver: seeded runs in forked children, confirmation, minimisation, replay, evidence.

Every run is a pure function of its case (a JSON value) and the code under test; the case is a pure
function of (VERIF_SEED, property, run index).  Each run executes in its own forked child, so crashes,
hangs and leaked global state stay inside it.
"""
import hashlib
import json
import os
import pathlib
import random
import selectors
import signal
import sys
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPLAYS = VERIF/'replays'
EVIDENCE = VERIF/'evidence'
KNOWN = VERIF/'known_findings.json'


class Violation(Exception):
    """kind: violation class kept fixed while minimising; key: the specific call site / input."""

    def __init__(self, kind, msg, key=None):
        super().__init__(msg)
        self.kind, self.msg, self.key = kind, msg, key or kind


class Outcome:
    def __init__(self):
        self.violations = []        # list of dict(kind, msg, key)
        self.faults = {}            # fault kind -> times fired
        self.probes = {}            # reach probes
        self.units = {}             # additive measures (steps, sim seconds, ...)
        self.sigs = set()           # distinct-state signatures
        self.nontrivial = True
        self.evals = 1
        self.sample = None
        self.extra = {}
        self._h = hashlib.sha256()
        self.log_tail = []

    def log(self, *a):
        s = ' '.join(str(x) for x in a)
        self._h.update(s.encode() + b'\n')
        self.log_tail.append(s)
        if len(self.log_tail) > 60:
            del self.log_tail[0]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def unit(self, kind, n=1):
        self.units[kind] = self.units.get(kind, 0) + n

    def fail(self, kind, msg, key=None):
        self.violations.append(dict(kind=kind, msg=str(msg)[:3000], key=key or kind))
        self.log('VIOLATION', kind)

    def to_json(self):
        return dict(violations=self.violations, faults=self.faults, probes=self.probes, units=self.units,
                    sigs=sorted(self.sigs), nontrivial=self.nontrivial, evals=self.evals, sample=self.sample,
                    extra=self.extra, digest=self._h.hexdigest()[:16], tail=self.log_tail[-25:])


class Check:
    id = None
    level = 'exploration'
    technique = 'deterministic simulation'
    rule = ''
    n_runs = {'quick': 100, 'thorough': 2000}
    wall = {'quick': 60, 'thorough': 1500}       # stop starting new runs after this
    run_timeout = 60
    crash_is_violation = True
    real = []
    stub = []
    assumptions = []

    def prepare(self, tier):
        pass

    def warm(self, tier):
        """library calls that make later runs faster; tried in a child first, as the code under test may fail or crash"""

    def generate(self, rng, idx, tier):
        raise NotImplementedError

    def execute(self, case, out):
        raise NotImplementedError

    def shrink(self, case, outcome):
        """yield simpler cases; outcome is the to_json() of the current failing run"""
        return iter(())

    def explain(self, case, outcome):
        return ''


def rng_for(seed, prop, idx):
    return random.Random(f'{seed}/{prop}/{idx}')


# ------------------------------------------------------------------ children
def _child(check, case, wfd):
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        out = Outcome()
        res = None
        try:
            check.execute(case, out)
            res = out.to_json()
        except Violation as v:
            out.fail(v.kind, v.msg, v.key)
            res = out.to_json()
        except BaseException as e:
            txt = traceback.format_exc()[-6000:]
            from .boot import REPO
            if any(f.filename.startswith(os.path.join(REPO, 'euphonic') + os.sep)
                   for f in traceback.extract_tb(e.__traceback__)):
                # the library raised where the workload allows no exception
                out.fail('unexpected-exception', f'{type(e).__name__}: {e}\n{txt[-1500:]}', f'unexpected-{type(e).__name__}')
                res = out.to_json()
            else:
                res = out.to_json()
                res['harness_error'] = txt
        data = json.dumps(res).encode()
        while data:
            n = os.write(wfd, data[:1 << 16])
            data = data[n:]
    except BaseException:
        traceback.print_exc()
        os._exit(99)
    os._exit(0)


def _quiet_fds(fd):
    os.dup2(fd, 1)
    os.dup2(fd, 2)


class Pool:
    """Runs cases in forked children, at most `width` at a time; yields (tag, result) as they end."""

    def __init__(self, check, width, timeout):
        self.check, self.width, self.timeout = check, width, timeout
        self.sel = selectors.DefaultSelector()
        self.live = {}
        self.devnull = os.open(os.devnull, os.O_WRONLY)

    def start(self, tag, case):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            if not os.environ.get('VERIF_DEBUG'):
                _quiet_fds(self.devnull)
            _child(self.check, case, w)
        os.close(w)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        self.live[r] = [tag, pid, time.monotonic(), []]
        self.sel.register(r, selectors.EVENT_READ)

    def _finish(self, r, timed_out=False):
        tag, pid, t0, buf = self.live.pop(r)
        self.sel.unregister(r)
        os.close(r)
        if timed_out:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        _, status = os.waitpid(pid, 0)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        dt = time.monotonic() - t0
        if timed_out:
            return tag, dict(died='hang', wall=dt)
        try:
            res = json.loads(b''.join(buf))
        except ValueError:
            if os.WIFSIGNALED(status):
                why = 'signal ' + signal.Signals(os.WTERMSIG(status)).name
            else:
                why = f'exit status {os.WEXITSTATUS(status)}'
            return tag, dict(died=why, wall=dt)
        res['wall'] = dt
        return tag, res

    def poll(self):
        """wait for at least one completion"""
        done = []
        while self.live and not done:
            now = time.monotonic()
            nearest = min(v[2] for v in self.live.values()) + self.timeout - now
            for key, _ in self.sel.select(max(0.0, min(nearest, 5.0))):
                r = key.fd
                data = os.read(r, 1 << 16)
                if data:
                    self.live[r][3].append(data)
                else:
                    done.append(self._finish(r))
            now = time.monotonic()
            for r in [r for r, v in self.live.items() if now - v[2] > self.timeout]:
                done.append(self._finish(r, timed_out=True))
        return done

    def kill_all(self):
        for r in list(self.live):
            self._finish(r, timed_out=True)


def normalise(check, res):
    """turn process death into a violation dict"""
    if res.get('died'):
        kind = 'hang' if res['died'] == 'hang' else 'process-death'
        if res['died'] == 'exit status 86':
            kind = 'deadlock'
        base = Outcome().to_json()
        base['violations'] = [dict(kind=kind, key=kind, msg=f'the process running this case died: {res["died"]}')]
        base['wall'] = res['wall']
        return base
    return res


def run_one(check, case, timeout=None):
    p = Pool(check, 1, timeout or check.run_timeout)
    p.start(0, case)
    while True:
        d = p.poll()
        if d:
            return normalise(check, d[0][1])


def minimise(check, case, res, kind, budget_s, width):
    """greedy delta debugging over check.shrink, same violation kind; candidates tried in parallel waves"""
    t_end = time.monotonic() + budget_s
    tried = 0
    seen = {json.dumps(case, sort_keys=True)}
    improved = True
    while improved and time.monotonic() < t_end:
        improved = False
        it = check.shrink(case, res)
        while time.monotonic() < t_end:
            wave = []
            for c in it:
                k = json.dumps(c, sort_keys=True)
                if k in seen:
                    continue
                seen.add(k)
                wave.append(c)
                if len(wave) >= width:
                    break
            if not wave:
                break
            pool = Pool(check, width, check.run_timeout)
            for i, c in enumerate(wave):
                pool.start(i, c)
            got = {}
            while len(got) < len(wave):
                for tag, r in pool.poll():
                    got[tag] = normalise(check, r)
            tried += len(wave)
            hit = None
            for i in range(len(wave)):
                r = got[i]
                if not r.get('harness_error') and any(v['kind'] == kind for v in r['violations']):
                    hit = i
                    break
            if hit is not None:
                case, res = wave[hit], got[hit]
                improved = True
                break
    return case, res, tried


# ------------------------------------------------------------ known findings
def load_known(prop):
    if not KNOWN.exists():
        return []
    return [k for k in json.loads(KNOWN.read_text())['findings'] if k['property'] == prop]


def is_known(known, v):
    return any(k.get('status') == 'known' and k['kind'] == v['kind'] and k['key'] == v['key'] for k in known)


def warm_up(check, tier, timeout=60):
    if type(check).warm is Check.warm:
        return
    sys.stdout.flush()
    sys.stderr.flush()
    null = os.open(os.devnull, os.O_WRONLY)
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            _quiet_fds(null)
            signal.alarm(timeout)
            check.warm(tier)
            code = 0
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if status == 0:
        saved = os.dup(1), os.dup(2)
        try:
            _quiet_fds(null)
            check.warm(tier)
        except BaseException:
            pass
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os.dup2(saved[0], 1)
            os.dup2(saved[1], 2)
            os.close(saved[0])
            os.close(saved[1])
    else:
        print('note: warm-up failed; the runs start cold', flush=True)
    os.close(null)


# ----------------------------------------------------------------------- main
def main(check, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--digests', help='write the event-log digest of every run to this file')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--list', action='store_true', help='list all violating kinds instead of stopping')
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.monotonic()
    print(f'check {check.id} tier={a.tier} seed={a.seed} jobs={a.jobs}', flush=True)
    check.prepare(a.tier)
    warm_up(check, a.tier)
    t_prep = time.monotonic() - t0

    if a.replay:
        rep = json.loads(pathlib.Path(a.replay).read_text())
        res = run_one(check, rep['case'])
        if res.get('harness_error'):
            print(res['harness_error'])
            return 2
        for v in res['violations']:
            print(f"  [{v['kind']}] {v['msg']}")
        hit = [v for v in res['violations'] if v['kind'] == rep['kind']]
        print('digest', res['digest'], 'recorded', rep.get('digest'))
        if hit:
            print(f'VIOLATION property={check.id} replay={a.replay}')
            return 1
        print('not reproduced')
        return 0

    known = load_known(check.id)
    n = a.runs or check.n_runs[a.tier]
    cap = a.wall or check.wall[a.tier]
    agg = dict(evals=0, runs=0, nontrivial=0, faults={}, probes={}, units={}, sigs=set(), samples=[], run_wall=0.0)
    digests, bad, errors, known_hits = {}, None, [], {}
    kinds = {}
    pool = Pool(check, a.jobs, check.run_timeout)
    idx = a.first
    last = a.first + n
    repeat = list(range(a.first, a.first + min(n, 8)))      # determinism sample: executed twice
    det_mismatch = []
    second = {}

    def case_of(i):
        return check.generate(rng_for(a.seed, check.id, i), i, a.tier)

    queue_second = list(repeat)
    while True:
        while len(pool.live) < a.jobs and bad is None:
            if idx < last and time.monotonic() - t0 < cap:
                pool.start(('run', idx), case_of(idx))
                idx += 1
            elif queue_second and idx > queue_second[0]:
                i = queue_second.pop(0)
                pool.start(('again', i), case_of(i))
            else:
                break
        if not pool.live:
            break
        for (what, i), res in pool.poll():
            res = normalise(check, res)
            if res.get('harness_error'):
                errors.append((i, res['harness_error']))
                continue
            if what == 'again':
                second[i] = res['digest']
                continue
            digests[i] = res['digest']
            agg['runs'] += 1
            agg['evals'] += res['evals']
            agg['run_wall'] += res['wall']
            for k in ('faults', 'probes', 'units'):
                for kk, vv in res[k].items():
                    agg[k][kk] = agg[k].get(kk, 0) + vv
            agg['sigs'].update(res['sigs'])
            if res['nontrivial']:
                agg['nontrivial'] += 1
            if res['sample'] is not None and len(agg['samples']) < 3:
                agg['samples'].append(res['sample'])
            fresh = [v for v in res['violations'] if not is_known(known, v)]
            for v in res['violations']:
                if is_known(known, v):
                    known_hits[v['key']] = known_hits.get(v['key'], 0) + 1
            if fresh:
                for v in fresh:
                    kinds.setdefault((v['kind'], v['key']), []).append((i, v['msg']))
                if a.list:
                    continue
                if bad is None or i < bad[0]:
                    bad = (i, res, fresh)
        if bad is not None and not a.list:
            pool.kill_all()
            break
    for i, d in second.items():
        if i in digests and digests[i] != d:
            det_mismatch.append(i)

    rc = 0
    if a.list:
        for (k, key), items in sorted(kinds.items()):
            print(f'  {len(items):5d} x {k} [{key}] e.g. run {items[0][0]}: {items[0][1][:1800]}')
    if bad is not None:
        i, res, fresh = bad
        kind = fresh[0]['kind']
        case = case_of(i)
        print(f'run {i}: [{kind}] {fresh[0]["msg"][:1500]}', flush=True)
        again = run_one(check, case)
        confirmed = not again.get('harness_error') and any(v['kind'] == kind for v in again['violations'])
        if not confirmed and kind == 'hang':
            print('hang not confirmed on re-execution (slow machine?); ignored', flush=True)
        else:
            budget = 60 if a.tier == 'quick' else 300
            mcase, mres, tried = minimise(check, case, res, kind, budget, a.jobs)
            REPLAYS.mkdir(exist_ok=True)
            path = REPLAYS/f'{check.id}-{a.seed}-{i}.json'
            path.write_text(json.dumps(dict(
                property=check.id, seed=a.seed, run=i, tier=a.tier, kind=kind, case=mcase, digest=mres['digest'],
                violations=mres['violations'], original_case=case, minimise_tried=tried, log_tail=mres['tail'],
                reproduced_in_fresh_process=confirmed), indent=1))
            print(f'minimised in {tried} tries: {json.dumps(mcase)[:1500]}')
            for v in mres['violations'][:4]:
                print(f"  [{v['kind']}] {v['msg'][:800]}")
            x = check.explain(mcase, mres)
            if x:
                print(x)
            print(f'VIOLATION property={check.id} replay={path}', flush=True)
            rc = 1
    elif kinds:
        rc = 1

    # listed findings: shown while they still fail
    for k in known:
        if k.get('status') != 'known' or rc:
            continue
        r = run_one(check, k['case'])
        if any(is_known([k], v) for v in r.get('violations', [])):
            print(f"KNOWN-FINDING: property={check.id} {k['what']}")

    if errors:
        print(f'{len(errors)} harness errors, first (run {errors[0][0]}):\n{errors[0][1]}', flush=True)
        if rc == 0:
            rc = 2
    if agg['runs'] == 0 and rc == 0:
        print('nothing was executed')
        rc = 2
    wall = time.monotonic() - t0
    if det_mismatch:
        print(f'note: runs {det_mismatch} were not bit-for-bit repeatable')
    if not a.no_evidence:
        loop = max(wall - t_prep, 1e-9)
        ev = dict(property=check.id, tier=a.tier, seed=a.seed, level=check.level, wall_s=round(wall, 2),
                  violations=1 if rc == 1 else 0, assumptions=check.assumptions,
                  coverage=dict(
                      evaluations=agg['evals'], distinct_nontrivial=len(agg['sigs']), rule=check.rule,
                      samples=agg['samples'] or ['(no sample recorded)'],
                      simulated_runs=agg['runs'], nontrivial_runs=agg['nontrivial'],
                      runs_per_hour=round(agg['runs']/loop*3600), seeds_per_hour=round(agg['runs']/loop*3600),
                      simulated_time=agg['units'], faults_injected=agg['faults'], reach_probes=agg['probes'],
                      distinct_states=len(agg['sigs']), runs_requested=n, stopped_by_wall=bool(idx < last and bad is None),
                      determinism=dict(executed_twice=len(second), mismatches=len(det_mismatch)),
                      known_findings_hit=known_hits, components_real=check.real, components_stub=check.stub))
        EVIDENCE.mkdir(exist_ok=True)
        (EVIDENCE/f'{check.id}.json').write_text(json.dumps(ev, indent=1))
    if a.digests:
        pathlib.Path(a.digests).write_text(json.dumps(dict(sorted(digests.items()))))
    print(f'{check.id}: runs={agg["runs"]} evals={agg["evals"]} states={len(agg["sigs"])} faults={agg["faults"]} '
          f'probes={agg["probes"]} wall={wall:.1f}s (prep {t_prep:.1f}s) rc={rc}', flush=True)
    return rc
