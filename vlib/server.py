"""A second interpreter that runs calls in another execution mode (compiled instead of interpreted).

Client side: Server(env).call("vlib.sim:simulate", args...) -> ("ok", result) or ("error", type name, message).
"""

import importlib
import os
import pickle
import select
import struct
import subprocess
import sys
import traceback


class ServerDied(Exception):
    pass


class ServerTimeout(Exception):
    pass


class Server:
    def __init__(self, **env):
        e = dict(os.environ)
        e.pop("NUMBA_DISABLE_JIT", None)
        e.update({k: str(v) for k, v in env.items()})
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.p = subprocess.Popen([sys.executable, "-B", "-m", "vlib.server"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e, cwd=root)

    def _read(self, n, timeout):
        buf = b""
        fd = self.p.stdout.fileno()
        while len(buf) < n:
            r, _, _ = select.select([fd], [], [], timeout)
            if not r:
                raise ServerTimeout("no answer within %s s" % timeout)
            b = os.read(fd, n - len(buf))
            if not b:
                self.p.wait()
                raise ServerDied(str(self.p.returncode))
            buf += b
        return buf

    def call(self, name, *args, timeout=280, **kw):
        data = pickle.dumps((name, args, kw))
        try:
            self.p.stdin.write(struct.pack("<Q", len(data)) + data)
            self.p.stdin.flush()
        except BrokenPipeError:
            self.p.wait()
            raise ServerDied(str(self.p.returncode)) from None
        n = struct.unpack("<Q", self._read(8, timeout))[0]
        return pickle.loads(self._read(n, timeout))

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()


def serve():
    out = os.dup(1)
    os.dup2(2, 1)
    inp = sys.stdin.buffer
    while True:
        head = inp.read(8)
        if len(head) < 8:
            return
        name, args, kw = pickle.loads(inp.read(struct.unpack("<Q", head)[0]))
        try:
            mod, fn = name.split(":")
            f = importlib.import_module(mod)
            for part in fn.split("."):
                f = getattr(f, part)
            res = ("ok", f(*args, **kw))
        except Exception as ex:
            res = ("error", type(ex).__name__, str(ex)[:500] + "\n" + traceback.format_exc()[-1500:])
        data = pickle.dumps(res)
        data = struct.pack("<Q", len(data)) + data
        while data:
            data = data[os.write(out, data):]


if __name__ == "__main__":
    serve()
