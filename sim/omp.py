"""Python side of the simulated OpenMP runtime (rt/simrt.c)."""
import ctypes
import random

STATS = ['steps', 'accesses', 'regions', 'switches', 'allocs', 'frees', 'failed_allocs', 'zcalls', 'zfaults',
         'bad_free', 'overflow', 'max_team', 'live', 'races', 'hash', 'n_rec']
u64 = ctypes.c_uint64


class Sim:
    def __init__(self, so):
        self.lib = ctypes.CDLL(str(so))
        self.lib.sim_self.restype = ctypes.c_void_p
        self.lib.sim_config.argtypes = [ctypes.c_int, u64, u64, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int]
        self.lib.sim_set_real_zheevd.argtypes = [ctypes.c_void_p]
        self.lib.sim_set_base.argtypes = [ctypes.c_void_p]
        self.so = str(so)
        self._install_zheevd()
        self.base = 0
        for line in open('/proc/self/maps'):
            if self.so in line:
                self.base = int(line.split('-')[0], 16)
                break

    def _install_zheevd(self):
        """put our wrapper behind scipy's zheevd capsule, which the extension looks up"""
        import scipy.linalg.cython_lapack as cl
        api = ctypes.pythonapi
        api.PyCapsule_GetName.restype = ctypes.c_char_p
        api.PyCapsule_GetName.argtypes = [ctypes.py_object]
        api.PyCapsule_GetPointer.restype = ctypes.c_void_p
        api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
        api.PyCapsule_New.restype = ctypes.py_object
        api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        cap = cl.__pyx_capi__['zheevd']
        name = api.PyCapsule_GetName(cap)
        self.lib.sim_set_real_zheevd(api.PyCapsule_GetPointer(cap, name))
        self._name = ctypes.create_string_buffer(name)
        wrapper = ctypes.cast(self.lib.sim_zheevd, ctypes.c_void_p).value
        cl.__pyx_capi__['zheevd'] = api.PyCapsule_New(wrapper, ctypes.cast(self._name, ctypes.c_char_p), None)

    def configure(self, sched, faults=None):
        """sched: dict(seed, gap, max_switches, team_cap, fill, races[, list])"""
        L = self.lib
        L.sim_reset()
        L.sim_set_base(self.base)
        L.sim_config(1, sched['seed'], sched['gap'], sched.get('max_switches', 4000), sched.get('team_cap', 0),
                     sched.get('fill', -1), 1 if sched.get('races', True) else 0)
        if sched.get('list') is not None:
            lst = sched['list']
            n = len(lst)
            L.sim_schedule(n, (u64*n)(*[s for s, _ in lst]), (ctypes.c_int*n)(*[t for _, t in lst]))
        f = faults or {}
        if f.get('alloc'):
            n = len(f['alloc'])
            L.sim_fail_alloc(n, (u64*n)(*f['alloc']))
        if f.get('zheevd'):
            n = len(f['zheevd'])
            L.sim_fail_zheevd(n, (u64*n)(*[i for i, _ in f['zheevd']]), (ctypes.c_int*n)(*[c for _, c in f['zheevd']]))

    def stats(self):
        o = (u64*16)()
        self.lib.sim_stats(o)
        d = dict(zip(STATS, list(o)))
        d['live_overflow'] = self.lib.sim_live_overflow()
        return d

    def recorded(self):
        n = self.stats()['n_rec']
        st, ti = (u64*max(n, 1))(), (ctypes.c_int*max(n, 1))()
        self.lib.sim_record(st, ti)
        return [[st[i], ti[i]] for i in range(n)]

    def races(self):
        out = []
        buf = ctypes.create_string_buffer(256)
        i = 0
        while self.lib.sim_race(i, buf, 256):
            out.append(buf.value.decode())
            i += 1
        return out

    def where(self, race):
        """source lines of a race report, for people"""
        import re
        import subprocess
        pcs = re.findall(r'\+0x([0-9a-f]+)', race)
        r = subprocess.run(['addr2line', '-e', self.so, *['0x' + p for p in pcs]], capture_output=True, text=True)
        return race + ' :: ' + ' / '.join(r.stdout.split())


def random_sched(rng: random.Random, max_team=6):
    return dict(seed=rng.getrandbits(63), gap=rng.choice([0, 5, 25, 150, 1000, 6000]),
                max_switches=rng.choice([8, 100, 3000]), team_cap=rng.choice([0, 0, 0, 1, 2, 3]),
                fill=rng.choice([-1, 0, 255, 255, 127, 0x55]), races=True)
