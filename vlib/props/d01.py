"""D01: results depend on the arguments only; arguments stay as they were."""
import json
import os
from .. import gen, fleet, boot, digest
from ..spec import Spec
from ..runner import Skip
from ..sdpobs import pick_columns

ID = "D01"
RULE = ("a case is a piece of work (problem, relaxation, values, bounds, "
        "constraints, objective, files, solution) done in separate processes "
        "with different hash seeds, after other work, verbosely, and by a "
        "caller that reuses its own containers; everything visible must be "
        "the same text and every argument must stay as it was; distinct = "
        "distinct pieces of work whose texts were compared")
BUDGET = {"quick": 60, "thorough": 500}
CASE_TIMEOUT = {"quick": 90, "thorough": 150}
WARM1 = {"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"], "A": ["C"]},
                      outcomes=[2, 2, 2], settings=[1, 2, 1], levels=[2, 1],
                      classical=["s"]), "what": "sdp", "cols": "npa1",
         "seed": 3, "files": True}
WARM2 = {"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"]},
                      outcomes=[2, 2, 2], settings=[1, 1, 1], levels=[2, 1],
                      classical="all"), "what": "lp", "seed": 1,
         "files": True}
warm = []


def one(rng):
    sup = bool(rng.random() < .12)
    sp = gen.any_spec(rng, max_ops=18)
    if rng.random() < .6:
        c = {"spec": sp.d, "what": "sdp", "cols": pick_columns(rng, sp, 30)}
    else:
        c = {"spec": sp.d, "what": "lp", "nonfanout": bool(rng.random() < .7)}
    if rng.random() < .3:
        c["again"] = "lp" if sp.n_ops() < 14 and rng.random() < .6 else "sdp"
    c.update(sup=sup, seed=int(rng.integers(2 ** 31)),
             files=bool(rng.random() < .5))
    return c


def cases(tier, rng):
    prev = WARM1
    for k in range(500 if tier == "quick" else 5000):
        c = one(rng)
        yield {"work": c, "before": prev, "solve": bool(rng.random() < .3)}
        prev = c


def env(**kw):
    e = {"VERIF_NUMBA_CACHE": os.environ["NUMBA_CACHE_DIR"],
         "TMPDIR": boot.SCRATCH}
    e.update(kw)
    return e


def run(case, obs):
    modes = {"seed 0": env(PYTHONHASHSEED="0"),
             "seed 1": env(PYTHONHASHSEED="1"),
             "seed 4242": env(PYTHONHASHSEED="4242")}
    w, solve = case["work"], case["solve"]
    req = {None: {"case": w, "kw": {"solve": solve}},
           "seed 4242": {"case": w, "before": [case["before"], w],
                         "kw": {"solve": solve}}}
    if case["work"]["seed"] % 3 == 0:
        req["seed 1"] = {"case": w, "kw": {"solve": solve, "verbose": 2}}
    try:
        ans = fleet.ask(modes, req, 60)
    except fleet.Slow as e:
        raise Skip(f"slow ({str(e)[:20]})")
    if w.get("again"):
        # another object of the same problem makes no difference
        try:
            a = fleet.ask({"seed 0": modes["seed 0"]}, {None: {
                "case": dict(w, again=None), "kw": {"solve": solve}}}, 60)
            ans["no other object"] = a["seed 0"]
        except fleet.Slow as e:
            raise Skip(f"slow ({str(e)[:20]})")
    ref = ans["seed 0"]
    # the arguments, in this process
    wa = digest.Watch()
    try:
        mine = digest.short(digest.work(w, watch=wa, solve=solve))
    except (Skip, AssertionError):
        mine = None
    for c in wa.changed:
        obs.bad("argument-changed:" + c.split(":")[0], c)
    obs.saw("arguments watched", 1 + len(wa.changed))
    if "skip" in ref:
        raise Skip(ref["skip"])
    obs.saw("pieces of work")
    todo = list(ans.items())
    if mine is not None:
        todo.append(("another process", {"out": mine}))
        try:
            vand = digest.short(digest.work(w, watch=digest.Watch(),
                                            solve=solve, vandal=True))
            todo.append(("containers reused", {"out": vand}))
        except Skip:
            pass
    for m, a in todo:
        if m == "seed 0":
            continue
        obs.saw("circumstances compared")
        if ("error" in a) != ("error" in ref) or "skip" in a:
            obs.bad("outcome:" + m, f"{m}: {json.dumps(a)[:400]} but "
                    f"{json.dumps(ref)[:400]}")
            continue
        if "error" in a:
            obs.check((a["error"], a["where"]) == (ref["error"],
                                                   ref["where"]),
                      "error:" + m, f"{a} {ref}", "errors compared")
            continue
        for k in sorted(set(a["out"]) | set(ref["out"])):
            x, y = a["out"].get(k), ref["out"].get(k)
            obs.saw("texts compared")
            if not digest.near(k, x, y):
                obs.bad(f"{m}:{k}", f"{k} ({m}): {str(x)[:500]} but "
                        f"{str(y)[:500]}")
                break
    if "out" in ref:
        for k, v in ref["out"].items():
            if k.startswith("problem changed"):
                obs.bad("problem-changed", f"{k}: {v[:300]}")
        obs.distinct(json.dumps(w, sort_keys=True))
        obs.sample(sorted(ref["out"]))
    else:
        obs.note("error in all circumstances: " + ref["error"] + " "
                 + ref["message"][:80])


warm = [{"work": WARM1, "before": WARM2, "solve": True},
        {"work": WARM2, "before": WARM1, "solve": True}]
