"""Seeded cooperative scheduler for real Python threads running Euphonic code.

Exactly one simulated thread runs at a time; at every line (or bytecode) of Euphonic's own code it may be made to
hand over to another one, as the seeded policy decides.  Locks created through threading.Lock / RLock after
install() are cooperative, so that code that protects itself with locks makes progress and deadlocks are found.
"""
import _thread
import os
import random
import sys
import threading

from . import trace

_real_lock = threading.Lock
_real_rlock = threading.RLock
CURRENT = None      # the active scheduler


class Deadlock(Exception):
    pass


class Killed(BaseException):
    pass


class SimLock:
    """Lock/RLock that yields to the active scheduler when contended"""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._count = 0
        self._real = _thread.allocate_lock() if not reentrant else _real_rlock()

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        me = _thread.get_ident()
        if s is None or me not in s.by_ident:
            return self._real.acquire(blocking, timeout)
        if self._re and self._owner == me:
            self._count += 1
            return True
        s.point(lock=True)
        while self._owner is not None:
            if not blocking or timeout >= 0:
                return False        # a timed wait is taken to time out
            s.block(self)
        self._owner, self._count = me, 1
        return True

    def release(self):
        s = CURRENT
        me = _thread.get_ident()
        if s is None or me not in s.by_ident:
            self._real.release()
            return
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            s.wake(self)
            s.point(lock=True)

    def locked(self):
        return self._owner is not None or (not self._re and self._real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # what threading.Condition looks for
    def _is_owned(self):
        return self._owner == _thread.get_ident() or (self._owner is None and self._re and self._real._is_owned())

    def _at_fork_reinit(self):
        pass

    def __reduce__(self):
        raise TypeError('cannot pickle lock objects')


def install():
    threading.Lock = lambda: SimLock(False)
    threading.RLock = lambda: SimLock(True)


class Scheduler:
    def __init__(self, seed, policy, grain='line', max_points=2_000_000):
        self.rng = random.Random(f'sched/{seed}')
        self.policy = policy
        self.grain = grain
        self.by_ident = {}
        self.gates = []
        self.state = []             # 'ready' | 'blocked' | 'done'
        self.waiting = {}
        self.cur = None
        self.points = 0
        self.switches = 0
        self.trace = []             # (point number, to thread)
        self.max_points = max_points
        self.sites = set()
        self.failed = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self._next_switch()

    def _next_switch(self):
        p = self.policy
        if p['kind'] == 'explicit':
            self.explicit = {int(a): int(b) for a, b in p['switches']}
        elif p['kind'] == 'random':
            self.left = 1 + int(self.rng.expovariate(p['rate']))
        elif p['kind'] == 'bursts':
            self.left = self.rng.choice([1, 1, 2, 5, 50, 400])
        elif p['kind'] == 'guided':     # (thread, file, line, occurrence, points to go on after it)
            self.targets = {(t, (f, l), n): d for t, f, l, n, d in p['targets']}
            self.seen, self.pending = {}, {}
        else:       # 'points': few change points at chosen positions
            self.change = sorted(set(int(u*p['span']) for u in p['at']))

    # ---- called by simulated threads
    def me(self):
        return self.by_ident[_thread.get_ident()]

    def point(self, site=None, lock=False):
        if self.failed:
            raise Killed()
        self.points += 1
        if self.points > self.max_points:
            self.failed = 'livelock'
            raise Killed()
        k = self.policy['kind']
        if k == 'explicit':
            to = self.explicit.get(self.points)
            if to is not None and to != self.cur and self.state[to] == 'ready':
                self._switch(to, site)
            return
        if k == 'points':
            if self.points not in self._change_set:
                return
        elif k == 'guided':
            if lock:
                return
            me = self.cur
            n = self.seen[me, site] = self.seen.get((me, site), 0) + 1
            d = self.targets.get((me, site, n))
            if d is not None:
                self.pending[me] = d
            d = self.pending.get(me)
            if d is None:
                return
            self.pending[me] = d - 1 if d else None
            if d:
                return
        else:
            self.left -= 1
            if self.left > 0:
                return
            self._next_switch()
        ready = [i for i, s in enumerate(self.state) if s == 'ready' and i != self.cur]
        if ready:
            self._switch(self.rng.choice(ready), site)

    def _switch(self, to, site):
        me = self.cur
        self.switches += 1
        self.trace.append((self.points, to))
        if site:
            self.sites.add(f'{site[0]}:{site[1]}>{to}')
        self.cur = to
        self.gates[to].release()
        self.gates[me].acquire()
        if self.failed:
            raise Killed()

    def block(self, lock):
        me = self.cur
        self.state[me] = 'blocked'
        self.waiting[me] = lock
        self._leave(me)
        self.gates[me].acquire()
        if self.failed:
            raise Killed()

    def wake(self, lock):
        for i, l in list(self.waiting.items()):
            if l is lock:
                del self.waiting[i]
                self.state[i] = 'ready'

    def _leave(self, me):
        """hand over without being runnable any more"""
        ready = [i for i, s in enumerate(self.state) if s == 'ready']
        if ready:
            to = ready[self.rng.randrange(len(ready))] if self.policy['kind'] != 'explicit' else self._explicit_next(ready)
            self.cur = to
            self.trace.append((self.points, to))
            self.gates[to].release()
        elif any(s == 'blocked' for s in self.state):
            self.failed = 'deadlock'
            for i, s in enumerate(self.state):
                if s == 'blocked':
                    self.gates[i].release()
            self.main.release()
        else:
            self.main.release()

    def _explicit_next(self, ready):
        to = self.explicit.get(self.points)
        return to if to in ready else ready[0]

    # ---- thread bodies
    def _local(self, frame, event, arg):
        if event == ('opcode' if self.grain == 'opcode' else 'line'):
            self.point((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        return self._local

    def _global(self, frame, event, arg):
        if event == 'call' and trace.is_point_frame(frame):
            if self.grain == 'opcode':
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self._local
        return None

    def _body(self, i, fn, results):
        self.gates[i].acquire()
        self.by_ident[_thread.get_ident()] = i
        try:
            sys.settrace(self._global)
            try:
                results[i] = ('ok', fn())
            finally:
                sys.settrace(None)
        except Killed:
            results[i] = ('killed', None)
        except BaseException as e:
            import traceback
            results[i] = ('raised', (type(e).__name__, str(e), traceback.format_exc()[-1500:]))
        self.state[i] = 'done'
        if not self.failed:
            self._leave(i)
        elif self.failed == 'livelock' and not self._told:
            self._told = True
            for j, s in enumerate(self.state):
                if s != 'done':
                    self.gates[j].release()
            self.main.release()

    def run(self, fns):
        global CURRENT
        self._told = False
        if self.policy['kind'] == 'points':
            self._change_set = set(self.change)
        results = [None]*len(fns)
        self.state = ['ready']*len(fns)
        for _ in fns:
            g = _thread.allocate_lock()
            g.acquire()
            self.gates.append(g)
        CURRENT = self
        try:
            for i, f in enumerate(fns):
                _thread.start_new_thread(self._body, (i, f, results))
            first = self.policy.get('first', 0) % len(fns)
            self.cur = first
            self.trace.append((0, first))
            self.gates[first].release()
            self.main.acquire()
        finally:
            CURRENT = None
        return results
