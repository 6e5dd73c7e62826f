"""Fault injection at the lines of Euphonic's own Python code: a trace function that counts and raises.

Only lines of files under <repo>/euphonic are points; module bodies, `with` statement headers (where no Python
code can be safe against an asynchronous exception), `try:` headers and `finally` bodies are not.
"""
import ast
import os
import sys
import warnings
import zlib

from .boot import REPO

ROOT = os.path.join(os.path.realpath(REPO), 'euphonic') + os.sep
_skip = {}


def skip_lines(fn):
    got = _skip.get(fn)
    if got is None:
        got = set()
        with open(fn) as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                got.update(range(n.lineno, n.body[0].lineno))
                got.update(x for i in n.items for x in range(i.context_expr.lineno, i.context_expr.end_lineno + 1))
            elif isinstance(n, ast.Try):
                got.add(n.lineno)
                if n.finalbody:
                    got.update(range(n.finalbody[0].lineno, n.finalbody[-1].end_lineno + 1))
        _skip[fn] = got
    return got


_file_ok = {}


def is_point_frame(frame):
    fn = frame.f_code.co_filename
    ok = _file_ok.get(fn)
    if ok is None:
        ok = _file_ok[fn] = os.path.realpath(fn).startswith(ROOT)
    return ok and frame.f_code.co_name != '<module>'


class Points:
    """the points of interest passed during a call: {(file, line, event): count} in first-seen order"""

    def __init__(self):
        self.counts = {}
        self.order = 0

    def _local(self, frame, event, arg):
        if event in ('line', 'return'):
            fn = frame.f_code.co_filename
            ln = frame.f_lineno
            if ln not in skip_lines(fn):
                k = (os.path.basename(fn), ln, event)
                self.counts[k] = self.counts.get(k, 0) + 1
                self.hit(k, self.counts[k])
        return self._local

    def _global(self, frame, event, arg):
        if event == 'call' and is_point_frame(frame):
            return self._local
        return None

    def hit(self, k, n):
        pass

    def __enter__(self):
        self.counts = {}
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class Inject(Points):
    def __init__(self, site, occurrence, exc):
        super().__init__()
        self.site, self.occurrence, self.exc, self.fired = tuple(site), occurrence, exc, False

    def hit(self, k, n):
        if k == self.site and n == self.occurrence and not self.fired:
            self.fired = True
            sys.settrace(None)
            raise self.exc


# ---------------------------------------------------------------- guidance
def _crc(v):
    if v.dtype == object or v.nbytes > 65536:
        return 0
    return zlib.crc32(v if v.flags.c_contiguous else v.tobytes())


class Fingerprint:
    """cheap identities of the current values of the attributes of objects, of Euphonic's module globals and of process settings"""

    def __init__(self, objs):
        import numpy as np
        self.np = np
        self.objs = objs
        self.keep = {}          # what has been seen stays alive, so that its id stays its own
        self.mods = [vars(m) for n, m in sorted(sys.modules.items()) if m is not None and (n == 'euphonic' or n.startswith('euphonic.'))]
        self.boxes = [v for d in self.mods for v in d.values() if isinstance(v, (dict, list, set)) and len(v) < 1000]

    def value(self, v):
        i = id(v)
        self.keep[i] = v
        if isinstance(v, self.np.ndarray):
            return (i, _crc(v))
        if isinstance(v, (dict, list, set)):
            return (i, len(v))
        if hasattr(v, '_magnitude'):
            self.keep[id(v._units)] = v._units
            return (i, self.value(v._magnitude), id(v._units))
        return i

    def obj(self, name, o, out, depth):
        d = getattr(o, '__dict__', None)
        if d is None or hasattr(o, '_magnitude') or depth > 1:
            out[name] = self.value(o)
            return
        for k, v in list(d.items()):
            out[f'{name}.{k}'] = self.value(v)
            if type(v).__module__.startswith('euphonic') and hasattr(v, '__dict__'):
                self.obj(f'{name}.{k}', v, out, depth + 1)

    def __call__(self):
        st = self.np.random.get_state(legacy=False)['state']
        out = {'modules': tuple([tuple(map(id, d.values())) for d in self.mods]), 'boxes': tuple(map(len, self.boxes)),
               'random': (st['pos'], int(st['key'][0]), int(st['key'][-1])),
               'filters': (id(warnings.filters), tuple(map(id, warnings.filters))), 'err': tuple(self.np.geterr().values())}
        for name, o in self.objs.items():
            self.obj(name, o, out, 0)
        return out


class Watch(Points):
    """an undisturbed call: the points at which some part of the given objects, of Euphonic's modules or of the process
    settings has just changed (.writes, and .lines for the first line reached after each), or has a value it has neither
    before nor after the call (.temporary)"""

    def __init__(self, objs, extra=None, max_points=6000):
        super().__init__()
        self.objs, self.extra, self.max_points = objs, extra, max_points

    def _now(self):
        f = self._fp()
        if self.extra:
            f['extra'] = self.extra()
        return f

    def __enter__(self):
        self._fp = Fingerprint(self.objs)
        self._first = self._prev = self._now()
        self._log = []
        return super().__enter__()

    def hit(self, k, n):
        if n > 40 or len(self._log) > self.max_points:
            return
        f = self._now()
        self._log.append((k, n, None if f == self._prev else f))
        self._prev = f

    def __exit__(self, *a):
        super().__exit__(*a)
        last = self._now()
        self.writes, self.temporary, self.lines = [], [], []
        cur, fresh = self._first, set()
        for k, n, f in self._log:
            if f is not None:
                self.writes.append((k, n, {c for c in set(f) | set(cur) if f.get(c) != cur.get(c)}))
                fresh |= self.writes[-1][2]
                cur = f
                temp = any(v != self._first.get(c) and v != last.get(c) for c, v in f.items()) or any(c not in f for c in self._first)
            elif cur is self._first:
                temp = False
            if temp:
                self.temporary.append((k, n))
            if fresh and k[2] == 'line':
                self.lines.append((k, n, fresh))
                fresh = set()
        self._log = self._fp = None
        return False
