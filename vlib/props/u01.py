"""U01: possibilistic problems depend on the support only, and are decided."""
import numpy as np
from .. import gen
from ..spec import Spec
from ..runner import Skip
from ..sdpobs import make_sdp, pick_columns, realisations
from ..lpobs import RefLP, make_lp, lp_factors
from ..solveobs import RefSDP
from . import l03
from .s03 import Reference

ID = "U01"
RULE = ("a case is (random scenario, support: of an explicit model, or "
        "arbitrary; complete or with undefined events); the constraints on "
        "every moment, the rescaled moments of explicit models, and the "
        "verdict are compared with references; distinct = distinct "
        "(scenario, programme, support, verdict)")
BUDGET = {"quick": 60, "thorough": 500}
warm = [{"what": w, "spec": dict(
    dag={"r": ["A", "B"], "s": ["B", "C"]}, outcomes=[2, 2, 2],
    settings=[1, 2, 1], levels=[2, 1], classical=["s"]), "seed": 1,
    "cols": "local1", "src": "random"} for w in ("sdp", "lp")]


def cases(tier, rng):
    n = 800 if tier == "quick" else 9000
    for k in range(n):
        lp = bool(rng.random() < .5)
        sp = gen.any_spec(rng, max_ops=14 if rng.random() < .8 else 22,
                          classical=[None, "all", "none"][int(
                              rng.integers(3))])
        yield {"what": "lp" if lp else "sdp", "spec": sp.d,
               "cols": None if lp else pick_columns(rng, sp, 24),
               "src": ["model", "model", "random", "quantum"][int(
                   rng.integers(4))], "seed": int(rng.integers(2 ** 31))}


def pattern(sp, rng):
    """A support that no model needs to have."""
    P = np.zeros(sp.shape)
    n = sp.nparties
    for x in np.ndindex(*sp.settings):
        while True:
            m = rng.random(sp.outcomes) < rng.choice([.3, .6, .9])
            if m.any():
                break
        P[(slice(None),) * n + x] = m
    return P


def run(case, obs):
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    if sum(int(np.prod(range(1, n + 1))) for n in sp.levels) > 30:
        raise Skip("symmetry group too large")
    lp = case["what"] == "lp"
    model = None
    if case["src"] == "random":
        P = pattern(sp, rng)
    else:
        rs = realisations(sp, rng, n_cl=int(case["src"] == "model"),
                          n_q=int(case["src"] == "quantum"), ncols=30)
        if not rs:
            raise Skip("no model")
        model = rs[0]
        P = np.array(model.distribution(), float)
        P[np.abs(P) < 1e-9] = 0.
        if P[P > 0].min() < 1e-4:
            raise Skip("tiny probabilities")
    support = P > 0
    # the size of the values does not matter
    V = np.where(support, 10. ** rng.uniform(-4, 3, size=P.shape), 0.)
    if rng.random() < .4:
        V = support.astype(float)
    mask = None
    if rng.random() < .4:
        mask = rng.random(P.shape) < rng.choice([.1, .5, .8])
        V[mask] = np.nan
    keep = V.copy()
    ref = Reference(sp, V)
    if lp:
        RefLP(sp, 1500)
        prog = make_lp(sp, supports_problem=True)
        if len(prog.monomials) > 500:
            raise Skip("too many variables")
        mons = list(prog.monomials)
    else:
        prog = make_sdp(sp, case["cols"], max_cols=16, supports_problem=True)
        mons = list(prog.moments)
        if len(mons) > 200:
            raise Skip("too many variables")
    if rng.random() < .3:       # an earlier support must not matter
        prog.set_distribution(pattern(sp, rng))
        if rng.random() < .5:
            prog.solve()
    prog.set_distribution(V)
    obs.check(np.array_equal(V, keep, equal_nan=True), "argument-changed",
              "set_distribution changed the array", "supports")
    known, low, up = (dict(prog.known_moments), dict(prog.moment_lowerbounds),
                      dict(prog.moment_upperbounds))
    zero, pos = [], []
    tag = f"{case['what']} {case['src']} {case['cols']}"
    for m in mons:
        if m.is_zero:
            zero.append(m)
            continue
        v, u = ref.moment(lp_factors(m))
        isn = any(np.isnan(x) for x in v)
        if u or isn:
            obs.check(m not in known and not low.get(m, 0.) > 0, "undecided",
                      lambda: f"{tag}: {m.name} is not determined by the "
                      f"support, but {known.get(m)} {low.get(m)}",
                      "events outside / inside / undetermined")
        elif any(x == 0 for x in v):
            zero.append(m)
            obs.check(m in known and known[m] == 0, "outside", lambda:
                      f"{tag}: {m.name} is outside of the support, but known "
                      f"{known.get(m)}, lower bound {low.get(m)}",
                      "events outside / inside / undetermined")
        else:
            pos.append(m)
            obs.check(m not in known and low.get(m) == 1., "inside", lambda:
                      f"{tag}: {m.name} is in the support, but known "
                      f"{known.get(m)}, lower bound {low.get(m)}",
                      "events outside / inside / undetermined")
    obs.check(not up and not prog.semiknown_moments, "extra-constraints",
              lambda: f"{tag}: upper bounds {up}, proportional moments "
              f"{prog.semiknown_moments}")
    if lp:
        R = l03.Prog(mons)
        for mat, lst in ((prog.minimal_sparse_equalities, R.eq),
                         (prog.minimal_sparse_inequalities, R.ineq)):
            if mat.shape[0] and mat.nnz:
                for r in np.asarray(mat.toarray(), float):
                    lst.append((r, 0.))
        R.lb[:] = 0.
    else:
        R = RefSDP(np.asarray(prog.momentmatrix), prog.compmoment_from_idx,
                   {m: 0. for m in zero}, {})
        for e in prog.minimal_equalities:
            R.add("eq", e)
        for m in prog.nonnegative_moments:
            R.add("ineq", {m: 1.})
    if model is not None:
        # the rescaled moments of the model
        val = {m: 1. if m.is_one else model.moment(m) for m in mons}
        eps = min([abs(val[m]) for m in pos] + [1.])
        if eps < 1e-6:
            raise Skip("tiny moments")
        bad = [m.name for m in zero if abs(val[m]) > 1e-7]
        obs.check(not bad, "model-outside", lambda: f"{tag}: {bad} do not "
                  "vanish in a model with that support", "model moments")
        x = {m: v / eps for m, v in val.items()}
        bad = [m.name for m in mons if m in low
               and x[m] < low[m] - 1e-6 / eps]
        obs.check(not bad, "model-bounds", lambda: f"{tag}: lower bounds of "
                  f"{bad} exclude a model with that support", "model moments")
    compatible = model is not None
    prog.solve(solve_dual=bool(rng.random() < .5))
    st = prog.status
    if lp:
        for m in zero:
            R.known[m] = 0.
        for m in pos:
            R.lb[R.pos[m]] = 1.
        want, _, _ = R.solve(np.zeros(R.n))
        if want not in ("optimal", "infeasible"):
            raise Skip("reference " + want)
        obs.check(bool(prog.success) == (want == "optimal"), "verdict",
                  lambda: f"{tag}: status {st}, reference {want}", "verdicts")
        feas = want == "optimal"
    else:
        one = prog.One
        for m in pos:
            R.add("ineq", {m: 1., "t": -1.})
        R.known[one] = 1.
        R.vars.pop(one, None)
        R2 = RefSDP(np.asarray(prog.momentmatrix), prog.compmoment_from_idx,
                    {**{m: 0. for m in zero}, one: 1.}, {})
        for e in prog.minimal_equalities:
            R2.add("eq", e)
        for m in prog.nonnegative_moments:
            R2.add("ineq", {m: 1.})
        for m in pos:
            R2.add("ineq", {m: 1., "t": -1.})
        R2.add("ineq", {"t": 1.})
        r = R2.solve({"t": 1.})
        if r["status"] == "optimal":
            feas = (True if r["value"] > 1e-3 else
                    False if r["value"] < 1e-6 else None)
        else:
            feas = False if r["status"] == "pinf" else None
        if st not in ("feasible", "infeasible"):
            obs.note("library status " + str(st))
            feas = None
        if feas is True:
            obs.check(st == "feasible", "verdict", lambda: f"{tag}: status "
                      f"{st}, but all events in the support can have "
                      f"probability {r['value']}", "verdicts")
        elif feas is False and st == "feasible":
            x = prog.solution_object["x"]
            big = max([abs(v) for v in x.values()] + [1.])
            if big < 1e4:
                obs.bad("verdict", f"{tag}: status {st}, but the support is "
                        f"impossible ({r})")
            else:
                obs.note("nearly feasible")
        elif feas is False:
            obs.saw("verdicts")
    if compatible:
        obs.check(feas is not False and (prog.success or feas is None),
                  "excludes-model", lambda: f"{tag}: status {st} for the "
                  "support of an explicit model", "verdicts of models")
    obs.distinct(sp.key(), case["what"], support.tobytes(),
                 None if mask is None else mask.tobytes(), st)
    obs.saw("infeasible supports", feas is False)
    obs.sample({"what": case["what"], "inside": len(pos), "outside":
                len(zero), "status": str(st)})
