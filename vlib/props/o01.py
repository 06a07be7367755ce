"""O01: optimising a parameter gives the largest feasible value."""
import numpy as np
from .. import gen
from ..spec import Spec
from ..runner import Skip
from ..sdpobs import make_sdp, pick_columns
from ..solveobs import RefSDP
from ..lpobs import RefLP, make_lp
from .s03 import distribution
from .c01 import hostile, plain

ID = "O01"
RULE = ("a case is (scenario, relaxation or linear programme, one-parameter "
        "family of values, interval, method, precision, form of the values); "
        "an independent programme decides feasibility on both sides of the "
        "returned parameter, and the returned certificate is evaluated along "
        "the family; distinct = distinct (scenario, family, method, options) "
        "whose critical parameter is decided with a margin")
BUDGET = {"quick": 80, "thorough": 600}
ASSUMPTIONS = ["MOSEK's optimiser is replaced (no licence offline)"]
warm = [{"kind": "sdp", "spec": dict(dag={"r": ["A", "B"]}, outcomes=[2, 2],
                                     settings=[2, 2], levels=[1]),
         "cols": "npa1", "seed": 1, "method": "dual"},
        {"kind": "lp", "spec": dict(dag={"r": ["A", "B"]}, outcomes=[2, 2],
                                    settings=[2, 2], levels=[1],
                                    classical="all"),
         "seed": 2, "method": "bisection"}]
FAM = ["bell", "bell", "bell", "bell3", "bilocal", "triangle", "tripartite2",
       "instr", "collider", "sequential", "nil1", "oneside"]


def cases(tier, rng):
    n = 600 if tier == "quick" else 8000
    for k in range(n):
        fam = None if rng.random() < .25 else FAM
        c = {"kind": "lp" if k % 2 else "sdp",
             "method": "dual" if rng.random() < .65 else "bisection",
             "seed": int(rng.integers(2 ** 31))}
        if k % 2:
            sp = gen.random_spec(rng, max_ops=20, families=fam,
                                 classical=[None, "all", "none"]
                                 [int(rng.integers(3))])
        else:
            sp = gen.random_spec(rng, max_ops=16, families=fam)
            c["cols"] = pick_columns(rng, sp, 20)
        c["spec"] = sp.d
        yield c


def box(sp, rng):
    """Strongly correlated values (as in a Popescu-Rohrlich box), or others."""
    n = sp.nparties
    if rng.random() < .6 and sp.is_network:
        P = np.zeros(sp.shape)
        f = rng.integers(0, 4, size=tuple(sp.settings))
        for x in np.ndindex(*sp.settings):
            for a in np.ndindex(*sp.outcomes):
                if sum(a) % 2 == f[x] % 2:
                    P[a + x] = 1.
        P /= P.sum(axis=tuple(range(n)), keepdims=True)
        # marginals do not depend on other settings only for some cardinals
        if all(o % 2 == 0 for o in sp.outcomes):
            return P
    return hostile(sp, rng)


def number(e, v, lam):
    return float(e.subs(lam, v)) if hasattr(e, "subs") else float(e)


def run(case, obs):
    import sympy
    from inflation import max_within_feasible
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    if sum(int(np.prod(range(1, n + 1))) for n in sp.levels) > 30:
        raise Skip("symmetry group too large")
    sdp = case["kind"] == "sdp"
    if sdp:
        def make():
            return make_sdp(sp, case["cols"], max_cols=18)
    else:
        RefLP(sp, 1200)

        def make():
            return make_lp(sp, include_all_outcomes=case["seed"] % 5 == 0)
    prog, twin = make(), make()
    if sdp:
        mm = np.asarray(twin.momentmatrix)
        if len(np.unique(mm)) > 120:
            raise Skip("too many variables")
    elif len(prog.monomials) > 300:
        raise Skip("too many variables")
    # --- the family --------------------------------------------------------
    lam = sympy.Symbol(["v", "lambda", "t"][int(rng.integers(3))])
    lo, hi = [(0., 1.), (-1., 2.), (.25, .75), (2., 6.)][
        int(rng.choice(4, p=[.55, .15, .15, .15]))]
    power = int(rng.choice([1, 2, 3], p=[.7, .2, .1]))
    u = np.full(sp.shape, 1. / np.prod(sp.outcomes))
    P0 = u if rng.random() < .5 else .3 * u + .7 * distribution(
        sp, rng, "model")
    P1 = box(sp, rng)
    t = ((lam - sympy.Float(lo)) / sympy.Float(hi - lo)) ** power
    sym = np.empty(sp.shape, dtype=object)
    for i in np.ndindex(*sp.shape):
        sym[i] = float(P0[i]) + t * float(P1[i] - P0[i])
    dist = lambda v: P0 + ((v - lo) / (hi - lo)) ** power * (P1 - P0)
    twin.set_distribution(sym)
    full = {m: e for m, e in twin.known_moments.items()}
    form = ["full", "atoms", "names"][int(rng.integers(3))]
    if form == "full":
        given = dict(full)
    else:
        given = {(m if form == "atoms" else m.name): e
                 for m, e in full.items()
                 if len(m.factors) == 1 and not m.is_one and not m.is_zero}
        if rng.random() < .4 and len(given) > 1:    # some of them only
            ks = list(given)
            keep = rng.permutation(len(ks))[:int(rng.integers(
                1, len(ks) + 1))]
            given = {ks[int(i)]: given[ks[int(i)]] for i in sorted(keep)}
            form += " some"
    if not any(getattr(e, "free_symbols", None) for e in given.values()):
        raise Skip("nothing depends on the parameter")
    kw = {"precision": float(rng.choice([1e-2, 1e-3, 1e-4]))}
    if (lo, hi) != (0., 1.) or rng.random() < .3:
        kw["bounds"] = [np.array([lo, hi]), [lo, hi], (lo, hi)][
            int(rng.integers(3))]
    if rng.random() < .3:
        kw["solve_dual"] = bool(rng.random() < .5)
    if rng.random() < .25:
        kw["only_specified_values"] = True
    if rng.random() < .25 and case["method"] == "bisection":
        kw["use_lpi_constraints"] = True
    vals = {k: kw[k] for k in ("only_specified_values",
                               "use_lpi_constraints") if k in kw}
    up = {}
    if sdp and rng.random() < .25:
        pool = [m for m in prog.moments if not (m.is_one or m.is_zero)
                and not m.is_knowable]
        if pool:
            m = pool[int(rng.integers(len(pool)))]
            up[m.name] = float(rng.choice([.3, .15]))
            prog.set_bounds(dict(up), "up")
    # --- the independent programme ----------------------------------------
    memo = {}

    def at(v):
        twin.set_values({k: number(e, v, lam) for k, e in given.items()},
                        **vals)
        return dict(twin.known_moments), dict(twin.semiknown_moments)

    def margin(v):
        v = float(v)
        if v not in memo:
            known, semi = at(v)
            if sdp:
                R = RefSDP(mm, dict(twin.compmoment_from_idx), known, semi)
                for e in twin.minimal_equalities:
                    R.add("eq", e)
                for m in twin.nonnegative_moments:
                    R.add("ineq", {m: 1.})
                for m in twin.moments:
                    if m.name in up:
                        R.add("ineq", {m: -1., twin.One: up[m.name]})
                s = R.solve()
                if s["status"] != "optimal":
                    raise Skip("reference " + s["status"])
                memo[v] = s["value"]
            else:
                R = plain(twin, {})
                R.known = {m: float(x) for m, x in known.items()}
                for m, (c, s) in semi.items():
                    r = np.zeros(R.n)
                    r[R.pos[m]] += 1.
                    r[R.pos[s]] -= float(c)
                    R.eq.append((r, 0.))
                st, val, _ = R.solve(np.zeros(R.n), "known")
                if st != "optimal":
                    raise Skip("reference " + st)
                memo[v] = val
        return memo[v]
    scale = hi - lo
    grid = np.linspace(lo, hi, 7)
    try:
        g = [margin(v) for v in grid]
    except AssertionError as e:
        if "contradicts" in str(e):
            raise Skip("values contradict bounds")
        raise
    good = 1e-3 if sdp else -1e-9
    state = [1 if x > good else -1 if x < -1e-3 else 0 for x in g]
    monotone = state == sorted(state, reverse=True)
    tag = (f"{case['method']} {kw} t^{power} in {(lo, hi)} values {form} "
           f"bounds {up} margins {np.round(g, 4).tolist()}")
    cert = bool(rng.random() < .6)
    try:
        got = max_within_feasible(prog, dict(given), case["method"],
                                  return_last_certificate=cert, **kw)
        err = None
    except AssertionError as e:
        if "contradicts" in str(e):
            raise Skip("values contradict bounds")
        got, err = None, str(e)
    obs.saw("optimisations")
    if not monotone:
        raise Skip("feasible set not an interval")
    if any(x == 0 for x in (state[0], state[-1])):
        raise Skip("no margin at the ends of the interval")
    if state[0] < 0 or state[-1] > 0:
        obs.check(err is not None, "no-crossing",
                  f"{tag}: returned {got} although the family is "
                  f"{'never' if state[0] < 0 else 'always'} feasible",
                  "families without a critical parameter")
        obs.distinct(sp.key(), case["method"], case.get("cols"), form,
                     str(kw), "none")
        return
    if not obs.check(err is None, "refused",
                     f"{tag}: {err}", "families with a critical parameter"):
        return
    c = None
    if cert:
        got, c = got
    v = float(got)
    d = max(5 * kw["precision"], 1e-3 * scale)
    tol = 2e-5
    if not obs.check(lo - 1e-9 <= v <= hi + 1e-9, "outside",
                     f"{tag}: {v}", "critical parameters"):
        return
    below, above = margin(max(lo, v - d)), margin(min(hi, v + d))
    obs.check(below > -tol, "too-large",
              lambda: f"{tag}: returned {v}, but the margin at {v - d} is "
              f"{below}", "critical parameters")
    if v + d < hi:
        obs.check(above < (-1e-8 if not sdp else 1e-6), "too-small",
                  lambda: f"{tag}: returned {v}, but the margin at {v + d} is "
                  f"{above}", "critical parameters")
    if c is not None and "use_lpi_constraints" not in kw:
        n = len(c)

        def surface(x):
            known, _ = at(x)
            byname = {m.name: y for m, y in known.items()}
            byname["1"] = 1.
            return sum(a * byname["1" if m.is_one else m.name]
                       for m, a in c.items())
        size = sum(abs(a) for a in c.values())
        eps = 1e-3 * n + 1e-6 * size
        for x, s in zip(grid, g):
            if s > good and x < v - d:
                obs.check(surface(x) > -eps, "surface-excludes-feasible",
                          lambda: f"{tag}: critical {v}, surface "
                          f"{surface(x)} at the feasible {x}: {c}",
                          "surfaces")
        if n and power == 1:
            a, b = surface(max(lo, v - d)), surface(min(hi, v + d))
            obs.check(a > -eps and b < eps, "surface-root",
                      lambda: f"{tag}: critical {v}, surface {a} before and "
                      f"{b} after: {c}", "surfaces")
    obs.distinct(sp.key(), case["method"], str(case.get("cols")), form,
                 str(kw), power)
    obs.sample({"tag": tag, "critical": v, "below": below, "above": above})
