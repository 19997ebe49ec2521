"""Evaluates calls in freshly forked processes that have imported the package but never called it.

Usage: pristine.py ROOT VERIF [MODE]; MODE no-cv2 / broken-cv2 makes importing OpenCV fail.
Requests and replies are length-prefixed pickles on stdin/stdout.
"""
import os
import pickle
import struct
import subprocess
import sys


class Server:
    """Client side."""

    def __init__(self, root, verif, mode="plain", first="pybsm"):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = "12345"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), root, verif, mode, first], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        self.hello = self._read()

    def _read(self):
        h = self.p.stdout.read(8)
        if len(h) < 8:
            raise RuntimeError("helper process ended with %s" % self.p.wait())
        return pickle.loads(self.p.stdout.read(struct.unpack("<Q", h)[0]))

    def ask(self, mod, name, args, seed=None):
        b = pickle.dumps((mod, name, args, seed), protocol=5)
        self.p.stdin.write(struct.pack("<Q", len(b)) + b)
        self.p.stdin.flush()
        return self._read()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def _send(out, x):
    b = pickle.dumps(x, protocol=5)
    out.write(struct.pack("<Q", len(b)) + b)
    out.flush()


def main():
    root, verif, mode, first = sys.argv[1:5]
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    inp = sys.stdin.buffer
    sys.path.insert(0, verif)
    sys.path.insert(0, root)
    if mode == "no-cv2":
        sys.modules["cv2"] = None
    elif mode == "broken-cv2":
        import importlib.abc

        class Block(importlib.abc.MetaPathFinder):
            def find_spec(self, name, path=None, target=None):
                if name.split(".")[0] == "cv2":
                    raise ImportError("libGL.so.1: cannot open shared object file: No such file or directory")
                return None

        sys.meta_path.insert(0, Block())
    import importlib
    import traceback
    import warnings

    warnings.simplefilter("ignore")
    try:
        importlib.import_module(first)
        for m in ("pybsm", "pybsm.otf", "pybsm.radiance", "pybsm.metrics", "pybsm.simulation", "pybsm.geospatial", "pybsm.noise", "pybsm.utils"):
            importlib.import_module(m)
        from vlib import battery, core
        import numpy as np
    except Exception:
        _send(out, {"error": traceback.format_exc()})
        return
    _send(out, {"cv2": sys.modules.get("cv2") is not None, "file": sys.modules["pybsm"].__file__})
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        mod, name, args, seed = pickle.loads(inp.read(struct.unpack("<Q", h)[0]))
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                before = core.digest(args)
                np.random.seed(987)
                st = np.random.get_state()[1].tobytes()
                try:
                    r = ("ok", battery.resolve(mod, name)(*args))
                except Exception as e:
                    r = ("raise", type(e).__name__, str(e), isinstance(e, ImportError), [t for t in traceback.format_exc().splitlines()[-6:]])
                meta = {"args_same": core.digest(args) == before, "random_same": np.random.get_state()[1].tobytes() == st}
                _send(out, (r, meta))
                code = 0
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            _send(out, (("dead", "the process making the call ended with status %d" % st), {"args_same": True, "random_same": True}))


if __name__ == "__main__":
    main()
