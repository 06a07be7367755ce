"""Keeps one process per circumstance (environment) and asks all of them to do
the same work."""
import atexit
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
from . import boot

_procs = {}


class Slow(Exception):
    pass


def child(mode, env):
    key = (os.getpid(), mode)
    p = _procs.get(key)
    if p is None or p.poll() is not None:
        e = dict(os.environ)
        e.update(env)
        e["VERIF_HASHSEED"] = e.get("PYTHONHASHSEED", "0")
        here = tempfile.mkdtemp(prefix="fleet")
        p = subprocess.Popen(
            [sys.executable, os.path.join(boot.VERIF, "vlib", "digestd.py")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=e, cwd=here, text=True,
            bufsize=1)
        p.scratch = here
        _procs[key] = p
    return p


def ask(modes, request, timeout=60.):
    """{mode: answer}; the children work at the same time."""
    ps = {m: child(m, env) for m, env in modes.items()}
    try:
        for m, p in ps.items():
            r = request[m] if m in request else request[None]
            p.stdin.write(json.dumps(r) + "\n")
            p.stdin.flush()
        out = {}
        for m, p in ps.items():
            ready, _, _ = select.select([p.stdout], [], [], timeout)
            if not ready:
                raise Slow(m)
            line = p.stdout.readline()
            if not line:
                raise Slow(m + " ended")
            out[m] = json.loads(line)
        return out
    except BaseException:
        stop()
        raise


def stop():
    for k in [k for k in _procs if k[0] == os.getpid()]:
        p = _procs.pop(k)
        try:
            p.kill()
            p.wait()
            shutil.rmtree(p.scratch)
        except Exception:
            pass


atexit.register(stop)
