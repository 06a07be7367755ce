"""Case runner: forks workers, watches them, collects what the monitors saw,
writes the evidence file and decides the exit code.

A property module provides
    ID, TITLE, RULE            strings
    cases(tier, rng)           iterator over JSON-serialisable case dicts
    run(case, obs)             drives the real code for one case; reports to obs
    warm                       optional list of cases run once before forking
    BUDGET                     optional {"quick": s, "thorough": s}
    CASE_TIMEOUT               optional seconds
    ASSUMPTIONS                optional list of strings
Verdicts are three-valued: a case ends as held / violated / inconclusive."""
import collections
import gc
import hashlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback
import io
import contextlib

import numpy as np

from . import boot

EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(
    boot.VERIF, "evidence")
KNOWN = os.path.join(boot.VERIF, "known_findings.json")
NWORK = int(os.environ.get("VERIF_WORKERS", "8"))


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """The case cannot be decided (too large, not applicable)."""


class Obs:
    """What the monitors of one case observed."""

    def __init__(self):
        self.counts = collections.Counter()
        self.fps = set()          # fingerprints of distinct non-trivial things
        self.violations = []      # (mech, what)
        self.samples = []
        self.notes = collections.Counter()

    def saw(self, what, n=1):
        self.counts[what] += int(n)

    def distinct(self, *key):
        self.fps.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def note(self, s):
        self.notes[s] += 1

    def bad(self, mech, what):
        self.violations.append((str(mech), str(what)[:1500]))

    def check(self, cond, mech, what, count=None):
        self.counts[count or mech] += 1
        if not cond:
            self.bad(mech, what() if callable(what) else what)
        return bool(cond)


def library_frames(tb):
    root = os.path.realpath(os.path.join(boot.REPO, "inflation")) + os.sep
    out = []
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(root):
            out.append(f)
    return out


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        yield


def run_case(mod, case, timeout):
    """Run one case in this process; returns a plain dict."""
    obs = Obs()
    status = "ok"
    t0 = time.time()

    def alarm(*a):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        try:
            with quiet():
                mod.run(case, obs)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except CaseTimeout:
        status = "timeout"
    except Skip as e:
        status = "skip"
        obs.note("skip: " + str(e)[:100])
    except MemoryError:
        status = "memory"
    except Exception as e:
        lib = library_frames(e.__traceback__)
        last = traceback.extract_tb(e.__traceback__)[-1]
        txt = "".join(traceback.format_exception(e))[-1800:]
        if lib:
            f = lib[-1]
            obs.bad(f"exception:{type(e).__name__}:{f.name}",
                    f"{type(e).__name__}: {e} (in {f.name})\n{txt}")
        else:
            status = "harness"
            obs.note(f"harness {type(e).__name__}: {str(e)[:120]} at "
                     f"{os.path.basename(last.filename)}:{last.lineno}")
    finally:
        signal.signal(signal.SIGALRM, old)
    return dict(status=status, counts=dict(obs.counts), fps=obs.fps,
                violations=obs.violations, samples=obs.samples,
                notes=dict(obs.notes), wall=time.time() - t0)


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    def rd(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out
    n, = struct.unpack("<Q", rd(8))
    return pickle.loads(rd(n))


class Worker:
    def __init__(self, mod, timeout):
        self.mod, self.timeout = mod, timeout
        self.spawn()

    def spawn(self):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b)
                os.close(c)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                while True:
                    try:
                        i, case = _recv(a)
                    except EOFError:
                        break
                    _send(d, (i, run_case(self.mod, case, self.timeout)))
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c
        self.busy = None

    def give(self, i, case):
        self.busy = (i, case, time.time())
        _send(self.w, (i, case))

    def close(self, kill=False):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        if kill:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def pool_run(mod, cases, timeout, deadline, nwork, sink):
    it = enumerate(cases)
    workers = [Worker(mod, timeout) for _ in range(nwork)]
    done = False
    n = 0
    try:
        while True:
            for w in workers:
                if w.busy is None and not done:
                    if time.time() > deadline:
                        done = True
                        break
                    try:
                        i, c = next(it)
                    except StopIteration:
                        done = True
                        break
                    w.give(i, c)
                    n += 1
            busy = [w for w in workers if w.busy is not None]
            if not busy:
                break
            rl, _, _ = select.select([w.r for w in busy], [], [], 1.0)
            for w in busy:
                if w.r in rl:
                    try:
                        i, res = _recv(w.r)
                        sink(w.busy[1], res)
                        w.busy = None
                    except EOFError:
                        st = os.waitpid(w.pid, 0)[1]
                        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
                        sink(w.busy[1], dict(status=f"died:{sig}", counts={},
                                             fps=set(), violations=[],
                                             samples=[], notes={}, wall=0.))
                        for fd in (w.w, w.r):
                            os.close(fd)
                        w.spawn()
                elif time.time() - w.busy[2] > timeout * 2 + 30:
                    case = w.busy[1]
                    w.close(kill=True)
                    sink(case, dict(status="timeout", counts={}, fps=set(),
                                    violations=[], samples=[], notes={},
                                    wall=time.time() - w.busy[2]))
                    w.spawn()
    finally:
        for w in workers:
            w.close(kill=True)
    return n


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def main(mod, tier, seed, replay=None, budget=None):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    known = [k for k in load_known()["findings"] if k["property"] == mod.ID]
    timeout = getattr(mod, "CASE_TIMEOUT", {"quick": 60, "thorough": 150})[tier]
    if replay:
        with open(replay) as f:
            rp = json.load(f)
        res = run_case(mod, rp["case"], 600)
        print(json.dumps({k: v for k, v in res.items() if k != "fps"},
                         indent=1, default=str))
        for mech, what in res["violations"]:
            print(f"VIOLATION property={mod.ID} replay={replay}")
            print("  mechanism:", mech)
        return 1 if res["violations"] else 0

    budgets = getattr(mod, "BUDGET", {"quick": 100, "thorough": 560})
    limit = budget or budgets[tier]
    rng = np.random.default_rng([seed, int(hashlib.md5(
        mod.ID.encode()).hexdigest()[:8], 16)])
    tot = collections.Counter()
    stat = collections.Counter()
    notes = collections.Counter()
    fps, samples = set(), []
    viols = collections.OrderedDict()

    def sink(case, res):
        stat[res["status"]] += 1
        tot.update(res["counts"])
        notes.update(res["notes"])
        fps.update(res["fps"])
        for s in res["samples"]:
            if len(samples) < 6:
                samples.append({"case": case, "observed": s})
        for mech, what in res["violations"]:
            if mech not in viols:
                viols[mech] = [0, case, what]
            viols[mech][0] += 1
        if res["status"] not in ("ok", "skip"):
            notes[f"inconclusive case ({res['status']}): "
                  + json.dumps(case)[:300]] += 1

    # JIT and caches are warmed before forking (results are not reported)
    for c in getattr(mod, "warm", []):
        run_case(mod, c, 300)
    gc.collect()
    gc.freeze()     # the library collects garbage at every step
    # on a slow machine warming up does not eat the time of the cases
    limit = max(limit, time.time() - t0 + limit / 2)
    if os.environ.get("VERIF_SERIAL"):
        n = 0
        for c in mod.cases(tier, rng):
            if time.time() - t0 > limit:
                break
            sink(c, run_case(mod, c, timeout))
            n += 1
    else:
        n = pool_run(mod, mod.cases(tier, rng), timeout, t0 + limit, NWORK,
                     sink)

    code = 0
    known_hit, new = [], []
    for mech, (cnt, case, what) in viols.items():
        kf = next((k for k in known if k["mech"] == mech), None)
        if kf:
            known_hit.append((kf, cnt))
        else:
            new.append((mech, cnt, case, what))
    for kf, cnt in known_hit:
        print(f"KNOWN-FINDING: property={mod.ID} {kf['what']}")
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for mech, cnt, case, what in new[:12]:
        h = hashlib.md5((mod.ID + mech).encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{mod.ID}_{h}.json")
        with open(path, "w") as f:
            json.dump({"property": mod.ID, "mech": mech, "case": case,
                       "what": what, "seed": seed, "tier": tier}, f, indent=1)
        print(f"VIOLATION property={mod.ID} replay={path}")
        print(f"  mechanism: {mech} ({cnt} cases)")
        print("  " + what.replace("\n", "\n  ")[:1200])
        code = 1
    ev = dict(property=mod.ID, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=n, distinct_nontrivial=len(fps), rule=mod.RULE,
                  samples=samples,
                  monitor_observations=dict(tot),
                  case_status=dict(stat),
                  notes={k: v for k, v in notes.most_common(30)}),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(EVID, mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if code == 0 and (not fps or sum(tot.values()) == 0):
        print(f"INCONCLUSIVE property={mod.ID}: the deciding monitor was "
              "never reached")
        code = 2
    print(f"{mod.ID} {tier} seed={seed}: {n} cases {dict(stat)}, "
          f"{len(fps)} distinct non-trivial, "
          f"{sum(tot.values())} monitor observations, "
          f"{len(new)} violations, {time.time() - t0:.1f}s")
    for k, v in sorted(notes.most_common(),
                       key=lambda kv: not kv[0].startswith(("harness",
                                                            "timeout")))[:6]:
        print(f"  note x{v}: {k[:220]}")
    return code
