"""Evaluates calls of pbt.calls with the compiler disabled (interpreted kernels): the reference for
the memory-safety checks.  Reads JSON lines [name, n, seed, edge]; answers with pickled frames."""
import os
import pickle
import struct
import sys
import warnings

from . import env

env.setup_path()
warnings.simplefilter("ignore")


def answer(out, obj):
    b = pickle.dumps(obj)
    out.write(struct.pack("<q", len(b)) + b)
    out.flush()


def main():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    import json

    import numba.cpython.unsafe.tuple as nt
    import numpy as np

    nt.tuple_setitem = lambda t, i, v: t[:i] + (v,) + t[i + 1:]  # an intrinsic without Python counterpart
    from . import calls

    np.seterr(all="ignore")
    for line in sys.stdin:
        name, n, seed, edge = json.loads(line)
        try:
            f, args, kw, _ = calls.build(name, n, seed, edge)
            calls.seed_all(seed)
            res = ("ok", f(*args, **kw))
        except Exception as e:  # noqa: BLE001
            res = ("error", f"{type(e).__name__}: {e}"[:300])
        answer(out, res)


class Client:
    def __init__(self):
        self.p = None

    def start(self):
        import subprocess

        e = dict(os.environ, NUMBA_DISABLE_JIT="1")
        e.pop("NUMBA_BOUNDSCHECK", None)
        e.pop("GLIBC_TUNABLES", None)
        self.p = subprocess.Popen([sys.executable, "-m", "pbt.pureserver"], cwd=env.VERIF, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, *case):
        """("ok", result), ("error", message) or ("died", "")"""
        import json

        if self.p is None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(case) + "\n").encode())
            self.p.stdin.flush()
            head = self.p.stdout.read(8)
            (k,) = struct.unpack("<q", head)
            return pickle.loads(self.p.stdout.read(k))
        except (OSError, struct.error, EOFError):
            self.p.kill()
            self.p = None
            return ("died", "")


if __name__ == "__main__":
    main()
