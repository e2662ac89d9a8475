"""A process that has imported the library and never called it answers questions: every question in a fork of its own."""
import os
import pickle
import signal
import struct


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def take(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out
    return pickle.loads(take(struct.unpack("<Q", take(8))[0]))


class Zygote:
    """answer(*question), evaluated in a process in which nothing else has been evaluated"""

    def __init__(self, answer):
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                while True:
                    try:
                        q = _recv(a)
                    except EOFError:
                        break
                    child = os.fork()
                    if child == 0:
                        try:
                            signal.alarm(30)
                            res = ("ok", answer(*q))
                        except BaseException as ex:
                            res = ("raised", repr(ex))
                        _send(b, res)
                        os._exit(0)
                    if os.waitpid(child, 0)[1] != 0:
                        _send(b, ("raised", "no answer"))
            finally:
                os._exit(0)
        os.close(a)
        os.close(b)

    def ask(self, *q):
        """("ok", answer) or ("raised", message)"""
        _send(self.w, q)
        return _recv(self.r)

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)
