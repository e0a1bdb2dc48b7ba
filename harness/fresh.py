"""Answers of pristine library instances: a zygote process that has loaded the library but never used it forks a child per
question; the child creates one codec, makes one call and answers."""
import os
import pickle
import struct

from common import call, answer


def _read(fd, n):
    b = b''
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            raise EOFError
        b += x
    return b


def _get(fd):
    return pickle.loads(_read(fd, struct.unpack('<Q', _read(fd, 8))[0]))


def _put(fd, o):
    b = pickle.dumps(o)
    b = struct.pack('<Q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


class Zygote:
    def __init__(self, jadn):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1), os.close(r2)
            try:
                while True:
                    q = _get(r1)
                    pid = os.fork()
                    if pid == 0:
                        try:
                            s, conf, rec, string, op, n, v = q
                            c = call(lambda: jadn.codec.Codec(s, verbose_rec=rec, verbose_str=string, **({'config': conf} if conf else {})))
                            a = answer(call(getattr(c[1], 'encode' if op == 'enc' else 'decode'), n, v)) if c[0] == 'ok' else ['err']
                            _put(w2, a)
                        finally:
                            os._exit(0)
                    os.waitpid(pid, 0)
            except BaseException:
                os._exit(0)
        os.close(r1), os.close(w2)
        self.w, self.r = w1, r2

    def ask(self, s, conf, rec, string, op, n, v):
        _put(self.w, (s, conf, rec, string, op, n, v))
        return _get(self.r)

    def close(self):
        os.close(self.w), os.close(self.r)
        os.waitpid(self.pid, 0)
