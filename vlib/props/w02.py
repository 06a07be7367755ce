"""W02: an exported linear programme is the programme of the object."""
import os
import tempfile
import numpy as np
from .. import gen, files
from ..boot import SCRATCH
from ..spec import Spec
from ..runner import Skip
from ..lpobs import RefLP
from .h01 import Recorder, Net, step, values, lincomb
from .s03 import distribution

ID = "W02"
RULE = ("a case is (scenario, random values, bounds, constraints, objective "
        "and options of an LP), or a random programme given to the writers "
        "directly; the files written in each format are read by independent "
        "readers and by MOSEK's, and the optimum and status of what they "
        "describe is compared with that of the programme that the object "
        "hands to the solver; distinct = distinct programmes with a finite "
        "optimum")
BUDGET = {"quick": 60, "thorough": 500}
warm = [{"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"]},
                      outcomes=[2, 2, 2], settings=[1, 1, 1], levels=[2, 1],
                      classical="all"), "seed": 1},
        {"raw": 3}]


def cases(tier, rng):
    n = 500 if tier == "quick" else 6000
    for k in range(n):
        if k % 3 == 2:
            yield {"raw": int(rng.integers(2 ** 31))}
            continue
        sp = gen.any_spec(rng, max_ops=18, classical=[None, "all", "none"]
                          [int(rng.integers(3))])
        yield {"spec": sp.d, "seed": int(rng.integers(2 ** 31))}


def reference(args, nonneg):
    """Optimum of the programme described by solver arguments (maximised)."""
    names = [str(x) for x in args["variables"]]
    for k in ("objective", "known_vars", "lower_bounds", "upper_bounds"):
        names += [x for x in args.get(k) or {} if x not in names]
    V = {x: i for i, x in enumerate(dict.fromkeys(names))}
    n = len(V)

    def row(d):
        r = np.zeros(n)
        for k, c in d.items():
            r[V[k]] += float(c)
        return r
    lb = np.full(n, 0. if nonneg else -np.inf)
    ub = np.full(n, np.inf)
    for x, b in (args.get("lower_bounds") or {}).items():
        lb[V[x]] = float(b)
    for x, b in (args.get("upper_bounds") or {}).items():
        ub[V[x]] = float(b)
    E = [row(d) for d in args.get("equalities") or []]
    e = [0.] * len(E)
    for x, (c, y) in (args.get("semiknown_vars") or {}).items():
        E.append(row({x: 1., y: -float(c)}))
        e.append(0.)
    for x, v in args["known_vars"].items():
        E.append(row({x: 1.}))
        e.append(float(v))
        # the bounds of a known variable cannot be violated by its value
        if lb[V[x]] > v + 1e-9 or ub[V[x]] < v - 1e-9:
            if x not in (args.get("lower_bounds") or {}) \
                    and x not in (args.get("upper_bounds") or {}):
                lb[V[x]] = -np.inf          # only the default sign
            else:
                raise Skip("bounds of known variables")
    A = [-row(d) for d in args.get("inequalities") or []]
    return files.solve_lp(row(args.get("objective") or {}), 0., True, E, e, A,
                          [0.] * len(A), lb, ub)


def scratch():
    return tempfile.mkdtemp(prefix="w02.dir_", dir=SCRATCH)


def compare(obs, path, ref, what, mosek=True):
    fmt = path.rsplit(".", 1)[-1]
    if not os.path.exists(path):
        obs.bad("missing-file", f"{what}: {os.path.basename(path)} not "
                "written")
        return
    text = open(path).read()
    got = {}
    try:
        P = (files.read_lp if fmt == "lp" else files.read_mps)(text)
        got["reader"] = P.solve()
    except files.Malformed as e:
        obs.bad("malformed-" + fmt, f"{what}: {e}")
    if mosek:
        import mosek as mk
        try:
            Q = files.read_with_mosek(path)
            if fmt == "lp" and "reader" in got and P.c0 < 0:
                # (MOSEK 11.2 drops the sign of a negative constant)
                obs.note("negative constant in an LP file")
                if abs(Q.c0 + P.c0) < 1e-9:
                    Q.c0 = P.c0
            got["MOSEK"] = Q.solve()
        except (mk.Error, mk.MosekException) as e:
            obs.bad("rejected-" + fmt, f"{what}: MOSEK cannot read the file: "
                    f"{str(e)[:200]}")
    for who, (st, val) in got.items():
        if "other" in (st, ref[0]):
            obs.note("undecided by the LP solver")
            continue
        obs.check(st == ref[0], "status-" + fmt,
                  f"{what}: the {fmt} file read by {who} is {st}, the "
                  f"programme is {ref[0]}", "files read")
        if st == ref[0] == "optimal":
            obs.check(abs(val - ref[1]) <= 2e-6 * (1 + abs(ref[1])),
                      "optimum-" + fmt,
                      f"{what}: optimum {val} in the {fmt} file read by {who}"
                      f", {ref[1]} in the programme", "optima compared")


def run(case, obs):
    d = scratch()
    try:
        (raw if "raw" in case else through)(case, obs, d)
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)


def through(case, obs, d):
    from inflation import InflationLP
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    if sum(int(np.prod(range(1, n + 1))) for n in sp.levels) > 30:
        raise Skip("symmetry group too large")
    RefLP(sp, 600)
    nonneg = bool(rng.random() < .7)
    lp = InflationLP(sp.problem(), nonfanout=True, verbose=0,
                     default_non_negative=nonneg)
    net, ops = Net(), []
    P0 = distribution(sp, rng, "model")
    r = rng.random()
    if r < .6:
        lp.set_distribution(P0, use_lpi_constraints=bool(rng.random() < .3),
                            shared_randomness=bool(rng.random() < .2))
    for _ in range(int(rng.integers(1, 5))):
        try:
            step(lp, net, sp, "lp", False, rng, ops)
        except AssertionError as e:
            if "contradicts" in str(e):
                raise Skip("values contradict bounds")
            raise
        if ops[-1].startswith(("dist", "vals", "update")) \
                and rng.random() < .6:
            lp.set_distribution(P0)     # keep a realisable specification
    for k in range(3):
        if k or rng.random() < .7:
            lp.set_objective(lincomb(lp, "lp", rng),
                             "max" if rng.random() < .5 else "min")
        with Recorder("lp") as rec:
            lp.solve()
        args = lp._prepare_solver_arguments(separate_bounds=True)
        ref = reference(args, nonneg)
        obs.saw("programmes: " + ref[0])
        for fmt in ("lp", "mps"):
            path = os.path.join(d, f"p{k}.{fmt}")
            lp.write_to_file(path)
            compare(obs, path, ref, f"{ops} nonneg={nonneg}")
            os.path.exists(path) and os.remove(path)
        if k == 0:
            path = os.path.join(d, "noext")
            lp.write_to_file(path)
            compare(obs, path + ".lp", ref, "file name without extension")
        if ref[0] == "optimal":
            obs.distinct(sp.key(), tuple(ops), round(ref[1], 6))
    obs.sample({"operations": ops, "default_non_negative": nonneg,
                "status": ref[0]})


def raw(case, obs, d):
    """Random programmes given to the writers."""
    from inflation.lp import writer_utils as w
    rng = np.random.default_rng(case["raw"])
    n = int(rng.integers(2, 9))
    names = [f"P[A={i}]" for i in range(n)]
    x0 = np.round(rng.random(n), 3)
    x0[rng.random(n) < .15] = 0.
    dec = int(rng.choice([1, 3, 8]))
    coef = lambda: float(np.round(rng.normal() * 10. ** rng.integers(-2, 2),
                                  dec)) or 1.

    def comb(slack):
        idx = rng.permutation(n)[:int(rng.integers(1, min(n, 4) + 1))]
        dd = {names[i]: coef() for i in idx}
        s = sum(c * x0[int(k[4:-1])] for k, c in dd.items())
        c = -s + (slack if slack else 0.)
        if c or rng.random() < .3:
            dd["1"] = c
        return dd
    args = {"variables": names + ["1"], "known_vars": {"1": 1.},
            "semiknown_vars": {},
            "equalities": [comb(0.) for _ in range(int(rng.integers(0, n)))],
            "inequalities": [comb(float(rng.random()) + 1e-3) for _ in
                             range(int(rng.integers(0, n)))]}
    for i in rng.permutation(n)[:int(rng.integers(0, 3))]:
        args["known_vars"][names[i]] = float(x0[i])
    free = [i for i in range(n) if names[i] not in args["known_vars"]]
    if len(free) > 2 and rng.random() < .4 and x0[free[1]] > .05:
        args["semiknown_vars"][names[free[0]]] = (
            float(x0[free[0]] / x0[free[1]]), names[free[1]])
    ob = {names[i]: coef() for i in rng.permutation(n)[
        :int(rng.integers(0, n))]}
    if rng.random() < .5:
        ob["1"] = coef()
    if ob or rng.random() < .5:
        args["objective"] = ob
    r = rng.random()
    if r < .8:
        args["lower_bounds"] = {names[i]: float(np.round(
            x0[i] - rng.random() * rng.choice([0., .8, .8]), 3)) for i in rng.permutation(free)[
                :int(rng.integers(0, 4))]}
        args["upper_bounds"] = {names[i]: float(np.round(
            x0[i] + rng.random() * rng.choice([0., .8]), 3)) for i in rng.permutation(free)[
                :int(rng.integers(0, 6))]}
    if rng.random() < .15:          # something that cannot be satisfied
        k = int(rng.integers(3))
        if k == 0:
            args["equalities"].append({"1": .5})
        elif k == 1:
            args["inequalities"].append({"1": -.5})
        else:
            args["equalities"].append(dict(comb(0.), **{"1": 77.}))
    ref = reference(args, True)
    before = repr(args)
    for fmt, f in (("lp", w.write_to_lp), ("mps", w.write_to_mps)):
        path = os.path.join(d, "q." + fmt)
        f(args, path)
        compare(obs, path, ref, "writer called directly")
    if rng.random() < .2:
        path = os.path.join(d, "conv.mps")
        w.lp_to_mps(args, path)
        if (args.get("objective") or {}) and files.read_with_mosek(
                path).c0 == 0.:      # (see the sign of constants above)
            compare(obs, path, ref, "conversion through MOSEK")
    obs.check(repr(args) == before, "arguments-changed",
              "the writers changed their arguments", "arguments unchanged")
    obs.saw("programmes: " + ref[0])
    if ref[0] == "optimal":
        obs.distinct(before)
