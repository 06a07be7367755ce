"""M01: the compiled kernels are safe and mean what their source says."""
import json
import os
from .. import gen, fleet, boot
from ..runner import Skip
from ..sdpobs import pick_columns
from .d01 import WARM1, WARM2
from .i01 import wide

ID = "M01"
RULE = ("a case is a piece of work (problem, relaxation or LP, values, "
        "programme) done by three processes: compiled kernels, compiled "
        "kernels with bounds checking of every array access, and the same "
        "kernels interpreted by Python without numba (which checks bounds and "
        "reports overflows); all must give the same texts and none may report "
        "an access out of bounds or an overflow; distinct = distinct pieces of work compared")
BUDGET = {"quick": 70, "thorough": 500}
CASE_TIMEOUT = {"quick": 100, "thorough": 180}
ASSUMPTIONS = ["the library has no other native code of its own"]


def cases(tier, rng):
    for k in range(400 if tier == "quick" else 4000):
        r = rng.random()
        if r < .25:
            sp = gen.any_spec(rng, max_ops=20, maxlevel=3)
        else:
            sp = gen.any_spec(rng, max_ops=14)
        if rng.random() < .7:
            c = {"spec": sp.d, "what": "sdp",
                 "cols": pick_columns(rng, sp, 24)}
        else:
            c = {"spec": sp.d, "what": "lp", "nonfanout": True}
        c.update(sup=bool(rng.random() < .1), seed=int(rng.integers(2 ** 31)),
                 kernels=bool(rng.random() < .5))
        yield {"work": c}
        if k % 6 == 2:
            # labels and numbers of operators beyond one byte
            sp = wide(rng)
            if sp.n_ops() < 700:
                yield {"work": {"spec": sp.d, "what": "problem",
                                "kernels": True,
                                "seed": int(rng.integers(2 ** 31))}}


def env(**kw):
    e = {"VERIF_NUMBA_CACHE": os.environ["NUMBA_CACHE_DIR"],
         "TMPDIR": boot.SCRATCH}
    e.update(kw)
    return e


def modes():
    return {"compiled": env(),
            "bounds checked": env(
                NUMBA_BOUNDSCHECK="1", VERIF_NUMBA_CACHE=os.path.join(
                    boot.SCRATCH, "numba_bounds")),
            "without numba": env(VERIF_NONUMBA="1")}


def run(case, obs):
    try:
        ans = fleet.ask(modes(), {None: {"case": case["work"]}}, 90)
    except fleet.Slow as e:
        raise Skip(f"slow ({str(e)[:20]})")
    ref = ans["compiled"]
    if "skip" in ref:
        raise Skip(ref["skip"])
    for m, a in ans.items():
        if a.get("error") == "IndexError" and a.get("where"):
            obs.bad("out-of-bounds:" + a["where"], f"{m}: {a}")
        for x in a.get("overflows", []):
            obs.bad("overflow", f"{m}: {x}")
        obs.saw("kernel executions watched for bounds and overflows: " + m)
    for m, a in ans.items():
        if m == "compiled":
            continue
        obs.saw("pieces of work: " + m)
        if ("error" in a) != ("error" in ref) or "skip" in a:
            obs.bad("outcome:" + m, f"{m}: {json.dumps(a)[:500]} but compiled:"
                    f" {json.dumps(ref)[:300]}")
            continue
        if "error" in a:
            obs.check(a["error"] == ref["error"], "error:" + m,
                      f"{a} {ref}", "errors compared")
            continue
        for k in sorted(set(a["out"]) | set(ref["out"])):
            obs.saw("texts compared")
            if a["out"].get(k) != ref["out"].get(k):
                obs.bad(f"{m}:{k}", f"{k} ({m}): "
                        f"{str(a['out'].get(k))[:500]} but compiled: "
                        f"{str(ref['out'].get(k))[:500]}")
                break
    if "out" in ref:
        obs.distinct(json.dumps(case, sort_keys=True))
        obs.sample(sorted(ref["out"]))


warm = [{"work": dict(WARM1, files=False, kernels=True)}, {"work": dict(WARM2, files=False)}]
