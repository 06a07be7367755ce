"""S05: the SDP that is solved is the SDP that the user specified."""
import numpy as np
from .. import gen
from ..spec import Spec
from ..runner import Skip
from ..sdpobs import make_sdp, pick_columns
from ..solveobs import RefSDP
from .s03 import distribution

ID = "S05"
RULE = ("a case is (random scenario, small generating set, values, bounds, "
        "extra constraints, objective) built through the public interface "
        "with random key styles; the programme is solved by the library in "
        "primal and dual form and compared with an independently assembled "
        "and solved programme; distinct = distinct (scenario, generating set, "
        "configuration) whose outcome is decided with a margin")
BUDGET = {"quick": 100, "thorough": 700}
ASSUMPTIONS = ["the interior-point engine vlib/conic.py replaces MOSEK's "
               "optimiser (no licence offline); the modelling layer (MOSEK "
               "Fusion) is the real one"]
warm = [{"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"]},
                      outcomes=[2, 2, 2], settings=[1, 1, 1], levels=[1, 2],
                      classical=[]), "cols": [[], [0], [1], [2]],
         "seed": 5, "val": "dist"}]


def cases(tier, rng):
    n = 700 if tier == "quick" else 7000
    for k in range(n):
        if k % 4 == 1:
            yield {"raw": int(rng.integers(2 ** 31))}
            continue
        if k % 25 == 7:
            # semiknown moments whose unknown part is given as a whole
            lev = 3 if rng.random() < .7 else 2
            yield {"spec": dict(dag={"r": ["A", "B"]}, outcomes=[2, 2],
                                settings=[[2, 1], [1, 2], [2, 2]][
                                    int(rng.integers(3))], levels=[lev],
                                classical="all" if rng.random() < .5 else []),
                   "cols": [[[], [0], [0, 0]], [[], [0], [1], [1, 1]]][
                       int(rng.integers(2))],
                   "seed": int(rng.integers(2 ** 31)), "val": "nested",
                   "maxn": 20}
            continue
        sp = gen.any_spec(rng, max_ops=20 if rng.random() < .8 else 28)
        yield {"spec": sp.d, "cols": pick_columns(rng, sp, 24),
               "seed": int(rng.integers(2 ** 31)),
               "val": ["none", "dist", "dist", "lpi", "partial", "partiallpi",
                       "shared"][int(rng.integers(7))],
               "maxn": 20 if tier == "quick" or rng.random() < .7 else 30}


def key_for(rng, m, sdp):
    """One of the ways to refer to a moment."""
    k = int(rng.integers(5))
    if m.is_one:
        return [1, "1", m, m, m.name][k]
    if m.is_zero:
        return m
    if k == 0:
        return m.name
    if k == 1:
        return m.symbol
    if k == 2 and len(m.factors) == 1:
        return m.factors[0]
    if k == 3 and len(m.factors) == 1:
        return np.asarray(m.factors[0].as_2d_array).tolist()
    return m


def set_some_values(sdp, sp, rng, kind):
    """Returns a description; values are read from the tables afterwards."""
    if kind in ("dist", "lpi", "shared"):
        P = distribution(sp, rng, "model" if rng.random() < .7 else "shared")
        u = np.full(P.shape, 1. / np.prod(sp.outcomes))
        v = float(rng.choice([0., .1, .3, .6]))
        P = (1 - v) * P + v * u
        sdp.set_distribution(P, use_lpi_constraints=kind == "lpi",
                             shared_randomness=kind == "shared")
        return P
    if kind == "nested":
        ms = [m for m in sdp.moments if len(m.factors) >= 3]
        if not ms:
            return
        m = ms[int(rng.integers(len(ms)))]
        fs = list(m.factors)
        f = fs[int(rng.integers(len(fs)))]
        rest = list(fs)
        rest.remove(f)
        u = sdp._monomial_from_atoms(rest)
        if u not in sdp.moments or f in rest:
            return
        sdp.set_values({f: float(np.round(.2 + .5 * rng.random(), 3)),
                        u: float(np.round(.3 * rng.random(), 3))},
                       use_lpi_constraints=True)
        return
    if kind.startswith("partial"):
        ms = [m for m in sdp.moments if not (m.is_one or m.is_zero)]
        if not ms:
            return
        k = int(rng.integers(1, min(4, len(ms)) + 1))
        vals = {}
        for i in rng.permutation(len(ms))[:k]:
            m = ms[int(i)]
            nf = sum(len(f.as_lexmon) for f in m.factors)
            key = key_for(rng, m, sdp)
            vals[m if isinstance(key, list) else key] = float(np.round(
                rng.random() * .6 ** nf, 3))
        sdp.set_values(vals, use_lpi_constraints=kind.endswith("lpi"),
                       only_specified_values=bool(rng.random() < .3))


def lincomb(rng, pool, x0val, sdp):
    """A random combination as (moment dict, library dict or expression)."""
    k = int(rng.integers(1, 5))
    ms = [pool[int(i)] for i in rng.permutation(len(pool))[:k]]
    d = {m: float(np.round(rng.normal(), 2)) or 1. for m in ms}
    if rng.random() < .03:      # just a number
        d = {}
    if not d or rng.random() < .4:
        d[sdp.One] = d.get(sdp.One, 0.) + float(np.round(rng.normal(), 2))
    return d


def as_input(rng, d, sdp, allow_expr=True):
    r = rng.random()
    if allow_expr and r < (.8 if set(d) <= {sdp.One} else .25):
        e = 0
        for m, v in d.items():
            e = e + v * (1 if m.is_one else m.symbol)
        import sympy
        return sympy.sympify(e)
    out = {}
    for m, v in d.items():
        k = key_for(rng, m, sdp)
        if isinstance(k, list):
            k = m
        if rng.random() < .25 and not m.is_one:
            # the same moment twice, under two of its names: terms add up
            names = [m, m.name] + ([m.symbol] if allow_expr else [])
            k1, k2 = (names[int(i)]
                      for i in rng.permutation(len(names))[:2])
            part = float(np.round(rng.normal(), 2))
            out[k1] = v - part
            out[k2] = part
            continue
        out[k] = v
    return out


def run(case, obs):
    if "raw" in case:
        return raw(case, obs)
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    if sum(int(np.prod(range(1, n + 1))) for n in sp.levels) > 30:
        raise Skip("symmetry group too large")
    sdp = make_sdp(sp, case["cols"], max_cols=case.get("maxn", 20))
    try:
        set_some_values(sdp, sp, rng, case["val"])
    except AssertionError as e:
        if "contradicts" in str(e):
            raise Skip("values contradict bounds")
        raise
    known, semi = dict(sdp.known_moments), dict(sdp.semiknown_moments)
    mm = np.asarray(sdp.momentmatrix)
    if mm.shape[0] > 0 and len(np.unique(mm)) > 220:
        raise Skip("too many variables")
    mons = dict(sdp.compmoment_from_idx)
    nonneg = list(sdp.nonnegative_moments)

    def ref():
        R = RefSDP(mm, mons, known, semi)
        for eq in sdp.minimal_equalities:
            R.add("eq", eq)
        return R
    R0 = ref()
    low = {m: 0. for m in nonneg}
    for m, b in low.items():
        R0.add("ineq", {m: 1.})
    s0 = R0.solve()
    if s0["status"] != "optimal":
        raise Skip("first solve " + s0["status"])
    x0 = s0["x"]

    def val(d):
        c, e = R0.expr(d)
        return c + sum(v * (x0[R0.vars[m]] if m in R0.vars else 0.)
                       for m, v in e.items())
    pool = [m for m in mons.values() if not m.is_zero]
    # --- user bounds, extra constraints, objective -------------------------
    up = {}
    cfg = []
    unknown = [m for m in pool if m not in known and not m.is_one]
    if unknown and rng.random() < .4:
        for typ in ("up", "lo"):
            if rng.random() < .6:
                k = int(rng.integers(1, min(3, len(unknown)) + 1))
                b = {}
                for i in rng.permutation(len(unknown))[:k]:
                    m = unknown[int(i)]
                    slack = float(rng.choice([.3, .05, 0.02, -.05],
                                             p=[.4, .3, .2, .1]))
                    b[m] = val({m: 1.}) + (slack if typ == "up" else -slack)
                inp = {}
                for m, v in b.items():
                    kk = key_for(rng, m, sdp)
                    inp[m if isinstance(kk, list) else kk] = v
                sdp.set_bounds(inp, typ)
                (up if typ == "up" else low).update(b)
                cfg.append(typ)
    ex = {"eq": [], "ineq": []}
    for typ in ("eq", "ineq"):
        if rng.random() < .4:
            inps = []
            for _ in range(int(rng.integers(1, 3))):
                d = lincomb(rng, pool, x0, sdp)
                if semi and rng.random() < .5:  # with its unknown part
                    x = list(semi)[int(rng.integers(len(semi)))]
                    for m in (x, semi[x][1]):
                        d[m] = float(np.round(rng.normal(), 2)) or 1.
                sl = 0. if typ == "eq" and rng.random() < .8 else \
                    float(rng.choice([.1, .01, -.02]))
                d[sdp.One] = d.get(sdp.One, 0.) - val(d) + sl
                ex[typ].append(d)
                inps.append(as_input(rng, d, sdp))
            (sdp.set_extra_equalities if typ == "eq"
             else sdp.set_extra_inequalities)(inps)
            cfg.append("extra" + typ)
    objective, direction = None, "max"
    if rng.random() < .65:
        objective = lincomb(rng, pool, x0, sdp)
        if ex["ineq"] and rng.random() < .5:
            # pushing against one of the constraints
            objective = dict(ex["ineq"][int(rng.integers(len(ex["ineq"])))])
        direction = "max" if rng.random() < .5 else "min"
        sdp.set_objective(as_input(rng, objective, sdp), direction)
        cfg.append(direction)
    R = ref()
    for m, b in low.items():
        R.add("ineq", {m: 1., sdp.One: -b})
    for m, b in up.items():
        R.add("ineq", {m: -1., sdp.One: b})
    for typ in ex:
        for d in ex[typ]:
            R.add(typ, d)
    sl = R.solve()
    if sl["status"] not in ("optimal", "pinf"):
        raise Skip("lambda solve " + sl["status"])
    lam = sl.get("value", -np.inf)
    trivial = objective is None or not any(
        True for m in R.expr(objective)[1])
    sgn = 1. if direction == "max" else -1.
    so = None
    if lam > 1e-3:
        o = objective or {}
        so = R.solve({m: sgn * v for m, v in o.items()})
    decided = False
    for dual in (True, False):
        for proc in (True, False):
            if not proc and not semi:
                continue
            feas = objective is None and bool(rng.random() < .5)
            kw = {}
            if not proc:
                kw["solver_arguments"] = {"process_constraints": False}
            sdp.solve(feas_as_optim=feas, solve_dual=dual, **kw)
            so_ = sdp.solution_object
            tag = f"dual={dual} proc={proc} feas={feas} cfg={cfg}"
            obs.saw("library solves")
            if sdp.status not in ("feasible", "infeasible"):
                obs.note(f"library status {sdp.status}: "
                         f"{so_.get('error', '')[:80]}")
                if "Unexpected error" in str(so_.get("error", "")):
                    obs.bad("solver-crash", f"{tag}: {so_['error']}")
                if sdp.status == "unbounded" and lam > 1e-3:
                    obs.check(feas is False and so["status"] == "dinf" or not (
                        feas or so["status"] == "optimal"
                        and abs(so["value"]) < 1e3), "not-unbounded",
                        lambda: f"{tag}: optimum {so.get('value')}, library "
                        "unbounded", "verdicts")
                continue
            if feas:
                if lam == -np.inf:
                    obs.check(sdp.status == "infeasible", "feas-infeasible",
                              f"{tag}: linear constraints contradictory, "
                              f"reported {sdp.status}", "verdicts")
                elif abs(lam) > 1e-4 or sdp.status == "feasible":
                    obs.check(sdp.status == "feasible" and abs(
                        sdp.objective_value - lam) < 1e-5,
                        "feas-optim-value",
                        lambda: f"{tag}: max min eigenvalue {lam}, library "
                        f"{sdp.objective_value}", "verdicts")
                    decided = True
            elif lam < -1e-3:
                obs.check(sdp.status == "infeasible", "should-be-infeasible",
                          lambda: f"{tag}: lambda*={lam}, library "
                          f"{sdp.status} {sdp.objective_value}", "verdicts")
                decided = True
            elif lam > 1e-3:
                if so and so["status"] == "dinf":
                    obs.bad("unbounded", f"{tag}: lambda*={lam}, the "
                            f"objective is unbounded; library {sdp.status} "
                            f"{sdp.objective_value}")
                if not (so and so["status"] == "optimal"):
                    obs.note("reference objective " + str(so and
                                                         so["status"]))
                    continue
                if sdp.status == "infeasible":
                    obs.bad("should-be-feasible",
                            f"{tag}: lambda*={lam}")
                    continue
                t = sgn * so["value"]
                obs.check(abs(sdp.objective_value - t)
                          < 1e-4 * (1 + abs(t)), "objective-value",
                          lambda: f"{tag}: expected {t}, library "
                          f"{sdp.objective_value}; objective "
                          f"{[(m.name, v) for m, v in (objective or {}).items()]}",
                          "verdicts")
                decided = True
            if sdp.status == "feasible":
                obs.check(abs(so_["primal_value"] - so_["dual_value"])
                          < 1e-4 * (1 + abs(so_["primal_value"])),
                          "duality-gap", f"{tag} {so_['primal_value']} "
                          f"{so_['dual_value']}", "solutions")
                check_solution(R, sdp, so_, tag, feas, obs)
    if decided:
        obs.distinct(sp.key(), str(case["cols"]), case["val"], tuple(cfg))
    obs.sample({"columns": len(mm), "variables": len(R.vars), "cfg": cfg,
                "lambda": lam if np.isfinite(lam) else None,
                "known": len(known), "semiknown": len(semi)})


def raw(case, obs):
    """A random programme given directly to the solving function."""
    import copy
    from scipy.sparse import lil_array
    from inflation.sdp.sdp_utils import solveSDP_MosekFUSION
    rng = np.random.default_rng(case["raw"])
    n = int(rng.integers(1, 6))
    nv = int(rng.integers(1, 9))
    names = ["1"] + [f"v{i}" for i in range(1, nv + 1)]
    mask = rng.random() < .85
    if not mask:
        n = 1
    mm = np.zeros((n, n), dtype=int)
    if mask:
        top = int(rng.integers(1, nv + 1))
        for i in range(n):
            for j in range(i, n):
                mm[i, j] = mm[j, i] = int(rng.integers(0, top + 1))
            if rng.random() < .5:
                mm[i, i] = 0
    mons = dict(enumerate(names))
    a = {}
    if mask:
        a["mask_matrices"] = {}
        for k in np.unique(mm):
            a["mask_matrices"][names[k]] = lil_array((mm == k).astype(float))
    x0 = np.round(rng.normal(size=nv + 1) * .6, 2)
    x0[0] = 1.
    at = dict(zip(names, x0))
    nn = bool(rng.random() < .25)
    if nn:
        x0 = np.abs(x0)
        at = dict(zip(names, x0))
    kn = {"1": 1.}
    for m in names[1:]:
        if rng.random() < .25:
            kn[m] = float(at[m])
    semi = {}
    if nv > 1 and rng.random() < .4:
        free = [m for m in names[1:] if m not in kn]
        while len(free) > 1 and (not semi or rng.random() < .3):
            i = int(rng.integers(len(free)))
            x = free.pop(i)
            u = free[int(rng.integers(len(free)))]
            if any(x == w for _, w in semi.values()):
                continue
            c = float(np.round(at[x] / at[u], 2)) if at[u] else .4
            if nn:
                c = abs(c) + .01
            semi[x] = (c, u)
            if u in free and rng.random() < .5:
                break
    if semi:
        a["semiknown_vars"] = semi
        for x, (c, u) in semi.items():
            at[x] = c * at[u]
    a["known_vars"] = kn

    def vec():
        d = {}
        for i in rng.permutation(nv + 1)[:int(rng.integers(1, 5))]:
            d[names[int(i)]] = float(np.round(rng.normal(), 2)) or 1.
        if semi and rng.random() < .5:      # a moment and its unknown part
            x = list(semi)[int(rng.integers(len(semi)))]
            for m in (x, semi[x][1]):
                d[m] = float(np.round(rng.normal(), 2)) or 1.
        return d
    for typ in ("equalities", "inequalities"):
        if rng.random() < .45:
            a[typ] = []
            for _ in range(int(rng.integers(1, 4))):
                d = vec()
                v = sum(c * at[m] for m, c in d.items())
                sl = 0. if typ[0] == "e" else float(
                    rng.choice([0., .2, 1., -.1], p=[.3, .3, .35, .05]))
                d["1"] = d.get("1", 0.) - v + sl
                a[typ].append(d)
    if rng.random() < .65:
        a["objective"] = vec()
        if a.get("inequalities") and rng.random() < .5:
            # pushing against one of the constraints
            d = a["inequalities"][int(rng.integers(len(a["inequalities"])))]
            a["objective"] = {m: -v for m, v in d.items()}

    def ref():
        R = RefSDP(mm, mons, kn, semi)
        for t, l in (("equalities", "eq"), ("inequalities", "ineq")):
            for d in a.get(t, ()):
                R.add(l, d)
        if nn:
            for m in list(R.vars):
                R.add("ineq", {m: 1.})
        for m in a.get("objective", ()):
            for v in R.expr({m: 1.})[1]:
                if v not in R.vars:
                    R.var(v)
                    if nn:
                        R.add("ineq", {v: 1.})
        return R
    R = ref()
    sl = R.solve()
    if sl["status"] == "other" or (not mask and not R.vars):
        raise Skip("nothing to decide")
    lam = sl.get("value")
    if sl["status"] == "pinf":
        lam = -np.inf
    decided = False
    for dual in (True, False):
        for proc in (True, False):
            if not proc and not semi:
                continue
            if semi and not proc and nn:
                continue
            feas = mask and bool(rng.random() < .35) and not nn
            b = copy.deepcopy(a)
            so_ = solveSDP_MosekFUSION(
                **b, solve_dual=dual, feas_as_optim=feas,
                process_constraints=proc, default_non_negative=nn)
            obs.saw("direct solves")
            tag = f"dual={dual} proc={proc} feas={feas} nn={nn} {mm.tolist()}"\
                f" { {k: v for k, v in a.items() if k != 'mask_matrices'} }"
            st = so_["status"]
            if st not in ("feasible", "infeasible"):
                obs.note(f"library status {st}: {so_.get('error', '')[:80]}")
                if "Unexpected error" in str(so_.get("error", "")):
                    obs.bad("raw-solver-crash", f"{tag}: {so_['error']}")
                if st == "unbounded" and lam is not None and lam > 1e-3:
                    so = R.solve(a.get("objective", {}))
                    obs.check(not feas and not (
                        so["status"] == "optimal" and abs(so["value"]) < 1e3),
                        "raw-not-unbounded",
                        lambda: f"{tag}: optimum {so.get('value')}, library "
                        "unbounded", "direct verdicts")
                continue
            if lam is None:
                continue
            if feas:
                if lam == -np.inf:
                    obs.check(st == "infeasible", "raw-feas-infeasible", tag,
                              "direct verdicts")
                else:
                    obs.check(st == "feasible" and abs(so_["primal_value"]
                                                       - lam) < 1e-5,
                              "raw-feas-value",
                              lambda: f"{tag}: {lam}, library {st} "
                              f"{so_['primal_value']}", "direct verdicts")
                    decided = True
            elif lam < -1e-3:
                obs.check(st == "infeasible", "raw-infeasible",
                          lambda: f"{tag}: lambda {lam}, library "
                          f"{so_['primal_value']}", "direct verdicts")
                decided = True
            elif lam > 1e-3:
                so = R.solve(a.get("objective", {}))
                if so["status"] == "dinf":
                    obs.bad("raw-unbounded", f"{tag}: lambda {lam}, the "
                            f"objective is unbounded; library {st} "
                            f"{so_['primal_value']}")
                if so["status"] != "optimal" or abs(so["value"]) > 1e3:
                    continue
                if not obs.check(st == "feasible", "raw-feasible",
                                 f"{tag}: lambda {lam}", "direct verdicts"):
                    continue
                obs.check(abs(so_["primal_value"] - so["value"])
                          < 1e-4 * (1 + abs(so["value"])), "raw-value",
                          lambda: f"{tag}: {so_['primal_value']}, expected "
                          f"{so['value']}", "direct verdicts")
                decided = True
            if st == "feasible" and mask and (feas or (
                    lam > 1e-3 and abs(so_["primal_value"]) < 1e3)):
                check_solution(R, None, so_, tag, feas, obs)
    if decided:
        obs.distinct("raw", n, tuple(sorted(a)), nn, mask, len(semi))


def check_solution(R, sdp, so_, tag, feas, obs):
    xs = so_["x"]
    x = np.zeros(len(R.vars))
    for m, i in R.vars.items():
        m = getattr(m, "name", m)
        if m not in xs:
            obs.bad("missing-variable", f"{tag}: {m} not in solution")
            return
        x[i] = xs[m]
    lam = so_["primal_value"] if feas else 0.
    v = R.violation(x, lam)
    obs.check(max(v.values()) < 1e-5, "solution-violates",
              lambda: f"{tag}: returned values violate the constraints {v}",
              "solutions")
    F = np.asarray(so_["F"])
    if hasattr(so_["F"], "toarray"):
        F = so_["F"].toarray()
    G = R.gamma(x) - lam * np.eye(R.n)
    obs.check(F.shape == G.shape and np.max(np.abs(F - G)) < 1e-5,
              "moment-matrix",
              lambda: f"{tag}: the returned matrix differs from the moment "
              f"matrix at the returned values by {np.max(np.abs(F - G))}",
              "solutions")
    Z = np.asarray(so_["Z"])
    z = np.linalg.eigvalsh((Z + Z.T) / 2)
    obs.check(z[0] > -1e-5 * max(1., z[-1]), "dual-psd",
              f"{tag}: dual matrix has eigenvalue {z[0]}", "solutions")
