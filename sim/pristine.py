"""Reference results from a process in which nothing was calculated before (so process-wide caches are empty)."""
import os
import pickle
import struct


def _read(fd, n):
    buf = b''
    while len(buf) < n:
        b = os.read(fd, n - len(buf))
        if not b:
            raise EOFError('reference process ended')
        buf += b
    return buf


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('<q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack('<q', _read(fd, 8))[0]))


class Pristine:
    """a server forked at construction; every request is answered by a fork of its own of that server"""

    def __init__(self, fn):
        self.r, cw = os.pipe()
        cr, self.w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.r)
                os.close(self.w)
                while True:
                    try:
                        args = _recv(cr)
                    except EOFError:
                        break
                    pid = os.fork()
                    if pid == 0:
                        try:
                            _send(cw, (True, fn(*args)))
                        except Exception as e:      # noqa: BLE001
                            _send(cw, (False, repr(e)))
                        finally:
                            os._exit(0)
                    _, status = os.waitpid(pid, 0)
                    if status != 0:
                        _send(cw, (False, f'reference process died: {status}'))
            finally:
                os._exit(0)
        os.close(cr)
        os.close(cw)

    def __call__(self, *args):
        _send(self.w, args)
        ok, res = _recv(self.r)
        if not ok:
            raise RuntimeError(res)
        return res

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)
