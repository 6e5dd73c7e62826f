"""Simulated storage: every open() below a scratch root goes through a raw file that counts, shortens, fails or tears
the reads and writes; the bytes live in the real scratch file, so whatever bypasses the seam still sees the same content."""
import builtins
import errno
import io
import os

_real = dict(builtins_open=builtins.open, io_open=io.open)
ACTIVE = None           # the SimFS in force


class SimHang(BaseException):
    """the simulated storage was asked for data far more often than any terminating reader would"""


class SimCrash(BaseException):
    """the process dies at this point; nothing it does afterwards reaches the storage"""


class SimFS:
    def __init__(self, root, plan=None, out=None):
        self.root = os.path.realpath(root) + os.sep
        self.plan = plan or {}          # basename -> list of fault dicts
        self.out = out
        self.opens = {}                 # basename -> number of opens
        self.n_reads = self.n_writes = self.n_empty = 0
        self.bytes_read = self.bytes_written = 0
        self.short = self.plan.get('*short')
        self.limit = self.plan.get('*budget', 200000)
        self.space = self.plan.get('*space')      # bytes left on the device
        self.crash_at = self.plan.get('*crash')   # bytes after which the process dies
        self.rng = None
        if self.short is not None:
            import random
            self.rng = random.Random(self.short)
        self.dead = False
        self.fired = []
        self.log = []

    def fire(self, kind):
        self.fired.append(kind)
        if self.out is not None:
            self.out.fault(kind)

    def faults(self, path, mode):
        return [f for f in self.plan.get(os.path.basename(path), []) if f.get('mode', 'r') == mode]

    def __enter__(self):
        global ACTIVE
        ACTIVE = self
        return self

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = None


class Raw(io.RawIOBase):
    def __init__(self, fs, path, mode, name):
        super().__init__()
        self.fs, self.path, self.name, self.mode = fs, path, name, mode
        b = os.path.basename(path)
        fs.opens[b] = fs.opens.get(b, 0) + 1
        self.nth = fs.opens[b]
        w = any(c in mode for c in 'wax+')
        self._w, self._r = w, 'r' in mode or '+' in mode
        kind = 'w' if w else 'r'
        self.faults = fs.faults(path, kind)
        for f in self.faults:
            if f['kind'] == 'open_error' and f.get('nth', 1) <= self.nth:
                fs.fire('open_error')
                raise OSError(f.get('errno', errno.EIO), os.strerror(f.get('errno', errno.EIO)), path)
            if f['kind'] == 'vanish' and f.get('nth', 2) <= self.nth:
                fs.fire('vanish')
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            if f['kind'] == 'torn_between_opens' and f.get('nth', 2) <= self.nth and not f.get('done'):
                f['done'] = True
                fs.fire('torn_between_opens')
                os.truncate(path, f['size'])
        flags = os.O_RDWR if '+' in mode else os.O_WRONLY if w else os.O_RDONLY
        if 'w' in mode:
            flags |= os.O_CREAT | os.O_TRUNC
        if 'x' in mode:
            flags |= os.O_CREAT | os.O_EXCL
        if 'a' in mode:
            flags |= os.O_CREAT | os.O_APPEND
        if w and fs.dead:
            raise SimCrash()
        self.fd = os.open(path, flags | os.O_CLOEXEC, 0o666)
        self.nread = self.nwrite = 0
        fs.log.append(('open', b, mode))

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def seek(self, off, whence=0):
        return os.lseek(self.fd, off, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        size = self.tell() if size is None else size
        os.ftruncate(self.fd, size)
        return size

    def readinto(self, b):
        fs = self.fs
        fs.n_reads += 1
        self.nread += 1
        if fs.n_reads > fs.limit:
            raise SimHang(f'{fs.n_reads} reads, {fs.n_empty} of them at the end of the file')
        want = len(b)
        pos = self.tell()
        for f in self.faults:
            if f['kind'] == 'eio_at' and pos + want > f['at'] >= pos:
                if f['at'] > pos:
                    want = f['at'] - pos
                else:
                    fs.fire('read_error')
                    raise OSError(errno.EIO, os.strerror(errno.EIO))
            if f['kind'] == 'eio_read' and self.nread == f['nth'] and f.get('open', 1) <= self.nth:
                fs.fire('read_error')
                raise OSError(errno.EIO, os.strerror(errno.EIO))
        if fs.rng is not None and want > 1 and fs.rng.random() < 0.7:
            want = min(want, fs.rng.choice([1, 2, 3, 5, 7, 17, 64, 511, 1000]))
            fs.fire('short_read')
        data = os.read(self.fd, want)
        if not data:
            fs.n_empty += 1
        fs.bytes_read += len(data)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        fs = self.fs
        data = bytes(b)
        if fs.dead:
            raise SimCrash()
        fs.n_writes += 1
        self.nwrite += 1
        for f in self.faults:
            if f['kind'] == 'eio_write' and self.nwrite >= f['nth']:
                fs.fire('write_error')
                raise OSError(f.get('errno', errno.EIO), os.strerror(f.get('errno', errno.EIO)))
            if f['kind'] == 'interrupt' and self.nwrite == f['nth']:
                fs.fire('interrupt')
                raise KeyboardInterrupt
        if fs.crash_at is not None and fs.bytes_written + len(data) >= fs.crash_at:
            os.write(self.fd, data[:max(fs.crash_at - fs.bytes_written, 0)])
            fs.dead = True
            fs.fire('crash')
            raise SimCrash()
        if fs.space is not None and fs.bytes_written + len(data) > fs.space:
            n = fs.space - fs.bytes_written
            if n > 0:
                os.write(self.fd, data[:n])
                fs.bytes_written += n
                fs.fire('torn_write')
                return n
            fs.fire('disk_full')
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        if fs.rng is not None and len(data) > 1 and fs.rng.random() < 0.5:
            data = data[:fs.rng.randrange(1, len(data))]
            fs.fire('short_write')
        n = os.write(self.fd, data)
        fs.bytes_written += n
        return n

    def close(self):
        if not self.closed:
            super().close()
            os.close(self.fd)
            if self._w:
                for f in self.faults:
                    if f['kind'] == 'close_error' and not self.fs.dead:
                        self.fs.fire('close_error')
                        raise OSError(errno.EIO, os.strerror(errno.EIO))


def _under(fs, path):
    try:
        p = os.path.realpath(os.fspath(path))
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p if p.startswith(fs.root) else None


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = ACTIVE
    p = _under(fs, file) if fs is not None and not isinstance(file, int) else None
    if p is None or opener is not None:
        return _real['io_open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if 'b' in mode and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    raw = Raw(fs, p, mode.replace('b', '').replace('t', ''), file)
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else fs.plan.get('*bufsize', io.DEFAULT_BUFFER_SIZE)
    try:
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        elif raw.writable():
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if 'b' in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


def _fromfile(file, dtype=float, count=-1, sep='', offset=0, *, like=None):
    import numpy as np
    raw = getattr(file, 'raw', None)
    if isinstance(raw, Raw) and sep == '':
        if offset:
            file.seek(offset, 1)
        dt = np.dtype(dtype)
        data = file.read(-1 if count < 0 else count*dt.itemsize)
        n = len(data)//dt.itemsize
        return np.frombuffer(data[:n*dt.itemsize], dtype=dt).copy()
    if ACTIVE is not None and isinstance(file, (str, os.PathLike)) and _under(ACTIVE, file) and sep == '':
        with sim_open(file, 'rb') as f:
            return _fromfile(f, dtype, count, sep, offset)
    return _real['fromfile'](file, dtype, count, sep, offset)


def install():
    """once, before euphonic is imported"""
    import numpy as np
    if 'fromfile' in _real:
        return
    _real['fromfile'] = np.fromfile
    np.fromfile = _fromfile
    builtins.open = sim_open
    io.open = sim_open
    try:
        from numpy.lib import _datasource
        _datasource._file_openers._load()
        _datasource._file_openers._file_openers[None] = sim_open
    except (ImportError, AttributeError, KeyError):
        pass
    try:
        import h5py
    except ImportError:
        return
    real = h5py.File
    _real['h5py'] = real

    class File(real):
        def __init__(self, name, mode='r', *a, **kw):
            if ACTIVE is not None and isinstance(name, (str, os.PathLike)) and _under(ACTIVE, name) and mode == 'r' and not a and not kw:
                if not os.path.exists(name):
                    raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), str(name))
                f = sim_open(name, 'rb')
                super().__init__(f, 'r')
                self._sim_name = os.fspath(name)
                return
            super().__init__(name, mode, *a, **kw)

        @property
        def filename(self):
            return getattr(self, '_sim_name', None) or super().filename
    File.__name__ = 'File'
    h5py.File = File
