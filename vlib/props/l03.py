"""L03: the LP that is solved is the LP that the user specified."""
import numpy as np
from scipy.optimize import linprog
from .. import gen
from ..spec import Spec
from ..runner import Skip
from ..lpobs import RefLP, make_lp
from .s03 import distribution

ID = "L03"
RULE = ("a case is (random scenario, values, bounds, extra constraints, "
        "objective) specified through the public interface with random key "
        "styles; the programme is solved by the library (primal, dual, "
        "dictionary and matrix arguments, relaxed variants) and compared with "
        "an independently assembled programme; distinct = distinct (scenario, "
        "configuration) whose outcome is decided with a margin")
BUDGET = {"quick": 100, "thorough": 700}
ASSUMPTIONS = ["HiGHS replaces MOSEK's LP optimiser (no licence offline), in "
               "the library through a stand-in of Task.optimize and in the "
               "reference directly"]
warm = [{"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"]},
                      outcomes=[2, 2, 2], settings=[1, 1, 1], levels=[2, 1],
                      classical="all"), "val": "dist", "seed": 1}]


def cases(tier, rng):
    n = 900 if tier == "quick" else 9000
    for k in range(n):
        if k % 3 == 2:
            yield {"raw": int(rng.integers(2 ** 31))}
            continue
        sp = gen.any_spec(rng, max_ops=24, classical=[None, "all", "none"]
                          [int(rng.integers(3))])
        yield {"spec": sp.d, "seed": int(rng.integers(2 ** 31)),
               "allout": bool(rng.random() < .25),
               "nonneg": bool(rng.random() < .8),
               "val": ["none", "dist", "dist", "lpi", "partial", "partiallpi",
                       "shared"][int(rng.integers(7))]}


class Prog:
    """A linear programme over named variables, kept as dense rows."""

    def __init__(self, mons):
        self.mons = list(mons)
        self.pos = {m: i for i, m in enumerate(self.mons)}
        self.n = len(self.mons)
        self.eq, self.ineq = [], []      # rows . x + const (==, >=) 0
        self.lb = np.full(self.n, -np.inf)
        self.ub = np.full(self.n, np.inf)
        self.known = {}

    def row(self, d):
        r = np.zeros(self.n)
        for m, v in d.items():
            r[self.pos[m]] += v
        return r

    def solve(self, c, mode=None):
        """max c.x; mode 'known' / 'ineq' / 'both': relaxed feasibility."""
        A_eq = [r for r, _ in self.eq]
        b_eq = [-k for _, k in self.eq]
        A_in = [r for r, _ in self.ineq]
        b_in = [-k for _, k in self.ineq]
        lb, ub = self.lb.copy(), self.ub.copy()
        if mode:
            z = np.zeros(len(A_eq))
            A_eq = [np.append(r, 0.) for r in A_eq]
            s = 1. if mode in ("ineq", "both") else 0.
            A_in = [np.append(r, s) for r in A_in]
            for m, v in self.known.items():
                e = np.zeros(self.n + 1)
                e[self.pos[m]] = 1.
                if mode == "ineq":
                    A_eq.append(e)
                    b_eq.append(v)
                else:
                    e[-1] = 1.
                    A_in.append(e)
                    b_in.append(v)
                    f = -e
                    f[-1] = 1.
                    A_in.append(f)
                    b_in.append(-v)
            c = np.zeros(self.n + 1)
            c[-1] = -1.
            lb, ub = np.append(lb, -np.inf), np.append(ub, np.inf)
        else:
            for m, v in self.known.items():
                e = np.zeros(self.n)
                e[self.pos[m]] = 1.
                A_eq.append(e)
                b_eq.append(v)
        r = linprog(-np.asarray(c), A_ub=-np.array(A_in) if A_in else None,
                    b_ub=-np.array(b_in) if A_in else None,
                    A_eq=np.array(A_eq) if A_eq else None,
                    b_eq=np.array(b_eq) if A_eq else None,
                    bounds=np.column_stack([lb, ub]), method="highs")
        return {0: "optimal", 2: "infeasible", 3: "unbounded"}.get(
            r.status, "other"), (-r.fun if r.status == 0 else None), r.x

    def violation(self, x):
        v = 0.
        for r, k in self.eq:
            v = max(v, abs(r @ x + k))
        for r, k in self.ineq:
            v = max(v, -(r @ x + k))
        v = max(v, np.max(self.lb - x), np.max(x - self.ub))
        for m, t in self.known.items():
            v = max(v, abs(x[self.pos[m]] - t))
        return v


def key_for(rng, m):
    k = int(rng.integers(4))
    if m.is_one:
        return [1, "1", m, m][k]
    if m.is_zero:
        return m
    if k == 0:
        return m.name
    if k == 1:
        return m.symbol
    if k == 2 and len(m.factors) == 1:
        return m.factors[0]
    return m


def as_input(rng, d):
    if rng.random() < (.8 if all(m.is_one for m in d) else .25):
        import sympy
        e = 0
        for m, v in d.items():
            e = e + v * (1 if m.is_one else m.symbol)
        return sympy.sympify(e)
    out = {}

    def add(key, v):
        out[key] = out.get(key, 0.) + v
    for m, v in d.items():
        if rng.random() < .15 and not m.is_zero:    # mentioned twice
            t = float(np.round(v + rng.normal(), 2)) or .5
            add(m.name, t)
            add(m.symbol if rng.random() < .5 and not m.is_one else m, v - t)
        else:
            add(key_for(rng, m), v)
    return out


def set_some_values(lp, sp, rng, kind):
    if kind in ("dist", "lpi", "shared"):
        P = distribution(sp, rng, "model" if rng.random() < .6 else "shared")
        u = np.full(P.shape, 1. / np.prod(sp.outcomes))
        v = float(rng.choice([0., .1, .3, .6]))
        P = (1 - v) * P + v * u
        lp.set_distribution(P, use_lpi_constraints=kind == "lpi",
                            shared_randomness=kind == "shared")
    elif kind.startswith("partial"):
        ms = [m for m in lp.monomials if not (m.is_one or m.is_zero)]
        if not ms:
            return
        k = int(rng.integers(1, min(4, len(ms)) + 1))
        vals = {}
        for i in rng.permutation(len(ms))[:k]:
            m = ms[int(i)]
            nf = sum(len(f.as_lexmon) for f in m.factors)
            vals[key_for(rng, m)] = float(np.round(rng.random() * .6 ** nf,
                                                   3))
        lp.set_values(vals, use_lpi_constraints=kind.endswith("lpi"),
                      only_specified_values=bool(rng.random() < .3))


def configure(lp, sp, rng, case, max_vars=600):
    """Random values, bounds, constraints and objective.  Returns the
    reference programme, the objective (maximised form, direction) and the
    configuration labels."""
    if len(lp.monomials) > max_vars:
        raise Skip("too many variables")
    set_some_values(lp, sp, rng, case["val"])
    R = Prog(lp.monomials)
    for mat, lst in ((lp.minimal_sparse_equalities, R.eq),
                     (lp.minimal_sparse_inequalities, R.ineq)):
        if mat.shape[0] and mat.nnz:
            for r in np.asarray(mat.toarray(), float):
                lst.append((r, 0.))
    R.known = {m: float(v) for m, v in lp.known_moments.items()}
    for m, (c, u) in lp.semiknown_moments.items():
        R.eq.append((R.row({m: 1.}) - float(c) * R.row({u: 1.}), 0.))
    if case.get("nonneg", True):
        R.lb[:] = 0.
    st, _, x0 = R.solve(np.zeros(R.n))
    if st != "optimal":
        x0 = np.zeros(R.n)
        for m, v in R.known.items():
            x0[R.pos[m]] = v
    pool = [m for m in R.mons if not m.is_zero]
    unknown = [m for m in pool if m not in R.known and not m.is_one]
    cfg = []
    if unknown and rng.random() < .4:
        for typ in ("up", "lo"):
            if rng.random() < .6:
                b = {}
                k = int(rng.integers(1, min(3, len(unknown)) + 1))
                for i in rng.permutation(len(unknown))[:k]:
                    m = unknown[int(i)]
                    slack = float(rng.choice([.3, .05, .01, -.05],
                                             p=[.4, .3, .2, .1]))
                    b[m] = float(np.round(x0[R.pos[m]] + (
                        slack if typ == "up" else -slack), 4))
                lp.set_bounds({key_for(rng, m): v for m, v in b.items()}, typ)
                for m, v in b.items():
                    # a bound given by the user replaces the default
                    (R.ub if typ == "up" else R.lb)[R.pos[m]] = v
                cfg.append(typ)
    for typ in ("eq", "ineq"):
        if rng.random() < .4:
            inps = []
            for _ in range(int(rng.integers(1, 3))):
                d = lincomb(rng, pool, lp)
                sl = 0. if typ == "eq" and rng.random() < .8 else \
                    float(rng.choice([.1, .01, -.02]))
                v = float(R.row(d) @ x0)
                d[lp.One] = d.get(lp.One, 0.) - v + sl
                (R.eq if typ == "eq" else R.ineq).append((R.row(d), 0.))
                inps.append(as_input(rng, d))
            (lp.set_extra_equalities if typ == "eq"
             else lp.set_extra_inequalities)(inps)
            cfg.append("extra" + typ)
    objective, direction = None, "max"
    if rng.random() < .65:
        objective = lincomb(rng, pool, lp)
        direction = "max" if rng.random() < .5 else "min"
        lp.set_objective(as_input(rng, objective), direction)
        cfg.append(direction)
    return R, objective, direction, cfg


def lincomb(rng, pool, lp):
    k = int(rng.integers(1, 5))
    ms = [pool[int(i)] for i in rng.permutation(len(pool))[:k]]
    d = {m: float(np.round(rng.normal(), 2)) or 1. for m in ms}
    if rng.random() < .03:      # just a number
        d = {}
    if not d or rng.random() < .4:
        d[lp.One] = d.get(lp.One, 0.) + float(np.round(rng.normal(), 2))
    return d


def margin(R):
    """Signed distance to (in)feasibility: the smallest uniform relaxation of
    all equalities and inequalities."""
    A, b = [], []
    for r, k in R.eq:
        A += [np.append(r, 1.), np.append(-r, 1.)]
        b += [-k, k]
    for r, k in R.ineq:
        A.append(np.append(r, 1.))
        b.append(-k)
    lb, ub = R.lb.copy(), R.ub.copy()
    for m, v in R.known.items():
        e = np.zeros(R.n + 1)
        e[R.pos[m]] = 1.
        e[-1] = 1.
        A.append(e)
        b.append(v)
        f = -e
        f[-1] = 1.
        A.append(f)
        b.append(-v)
    for i in range(R.n):
        for bd, s in ((lb[i], 1.), (ub[i], -1.)):
            if np.isfinite(bd):
                e = np.zeros(R.n + 1)
                e[i] = s
                e[-1] = 1.
                A.append(e)
                b.append(s * bd)
    c = np.zeros(R.n + 1)
    c[-1] = 1.
    r = linprog(c, A_ub=-np.array(A), b_ub=-np.array(b),
                bounds=[(None, None)] * R.n + [(0, None)], method="highs")
    return r.fun if r.status == 0 else None


def raw(case, obs):
    """A random programme given directly to the solving function, with any
    of the optional arguments left out."""
    from inflation.lp.lp_utils import solveLP
    from scipy.sparse import coo_array
    rng = np.random.default_rng(case["raw"])
    n = int(rng.integers(1, 9))
    names = [("1" if rng.random() < .3 and i == 0 else f"v{i}")
             for i in range(n)]
    R = Prog(names)
    ones = names[0] == "1"
    nn = bool(rng.random() < .5)
    integer = rng.random() < .5
    x0 = np.round(rng.normal(size=n), 2)
    if integer:
        x0 = np.round(x0 * 2) / 2
    if nn:
        x0 = np.abs(x0)
        R.lb[:] = 0.
    if ones:
        x0[0] = 1.
    a = {}

    def vec(k=None):
        k = k or int(rng.integers(1, min(n, 4) + 1))
        d = {}
        for i in rng.permutation(n)[:k]:
            v = float(rng.integers(-3, 4)) if integer else float(
                np.round(rng.normal(), 2))
            d[names[int(i)]] = v or 1.
        return d
    consist = rng.random() < .8
    noise = lambda: 0. if consist else float(rng.choice([0., .1, -.3]))
    for typ in ("equalities", "inequalities"):
        if rng.random() < .6:
            rows = []
            for _ in range(int(rng.integers(1, 4))):
                d = vec()
                if ones:
                    d["1"] = 0.
                    v = float(R.row(d) @ x0) + noise() - (
                        0. if typ == "equalities" else
                        float(rng.choice([0., .5, 2.])))
                    d["1"] = -v
                rows.append(d)
                (R.eq if typ[0] == "e" else R.ineq).append((R.row(d), 0.))
            a[typ] = rows
    kn = {}
    if ones:
        kn["1"] = 1.
    for i in range(n):
        if i or not ones:
            if rng.random() < .25:
                kn[names[i]] = float(x0[i]) + noise()
                if nn and rng.random() < .9:
                    kn[names[i]] = abs(kn[names[i]])
    if kn:
        a["known_vars"] = kn
        R.known = dict(kn)
    if n > 2 and rng.random() < .3:
        sk = {}
        for _ in range(int(rng.integers(1, 3))):
            i, j = (int(t) for t in rng.permutation(np.arange(1, n))[:2])
            c = float(np.round(x0[i] / x0[j], 2)) if x0[j] else .5
            sk[names[i]] = (c, names[j])
        for m, (c, u) in sk.items():
            R.eq.append((R.row({m: 1.}) - c * R.row({u: 1.}), 0.))
        a["semiknown_vars"] = sk
    for typ, s in (("lower_bounds", -1.), ("upper_bounds", 1.)):
        if rng.random() < .45:
            b = {}
            for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]:
                v = float(np.round(x0[i] + s * float(
                    rng.choice([0., .1, 1., 3.])) + noise(), 3))
                if nn and s < 0:
                    v = max(v, 0.)
                b[names[int(i)]] = v
            a[typ] = b
            for m, v in b.items():
                (R.lb if s < 0 else R.ub)[R.pos[m]] = v
    c = np.zeros(n)
    if rng.random() < .75:
        a["objective"] = vec()
        c = R.row(a["objective"])
    if not set(a) - {"objective"}:
        raise Skip("nothing to solve")
    mode, kw = None, {}
    if rng.random() < .35:
        mode, kw = [("ineq", dict(relax_inequalities=True)),
                    ("known", dict(relax_known_vars=True)),
                    ("both", dict(relax_known_vars=True,
                                  relax_inequalities=True))][
            int(rng.integers(3))]
        if nn:
            # the relaxed programmes have no default bounds
            for i in range(n):
                if names[i] not in a.get("lower_bounds", {}):
                    R.lb[i] = -np.inf
    elif kn and any(R.known[m] < R.lb[R.pos[m]] for m in kn):
        obs.saw("known value out of the default bounds")
    st, val, x = R.solve(c, mode)
    if st == "other":
        raise Skip("reference solver gave up")
    mg = margin(R) if mode is None else 0.

    def sparse(v):
        if isinstance(v, dict):
            k = list(v)
            rng.shuffle(k)
            return coo_array(([v[m] for m in k],
                              (np.zeros(len(k), dtype=int),
                               [R.pos[m] for m in k])), shape=(1, n))
        return coo_array((np.concatenate([list(d.values()) for d in v]),
                          (np.repeat(np.arange(len(v)), [len(d) for d in v]),
                           [R.pos[m] for d in v for m in d])),
                         shape=(len(v), n))
    used = set(a.get("semiknown_vars", ()))
    for d in [a.get(k, {}) for k in ("objective", "known_vars",
                                     "lower_bounds", "upper_bounds")] \
            + a.get("equalities", []) + a.get("inequalities", []):
        used |= set(d)
    used |= {u for _, u in a.get("semiknown_vars", {}).values()}
    dec = False
    for form in ("dict", "dictvar", "sparse", "mixed"):
        if form == "sparse" and "semiknown_vars" in a:
            continue
        b = {}
        for k, v in a.items():
            if k == "semiknown_vars" or form in ("dict", "dictvar"):
                b[k] = v
            elif form == "sparse" or rng.random() < .5:
                b[k] = sparse(v)
            else:
                b[k] = v
        if form != "dict":
            b["variables"] = list(names)
        for dual in (True, False):
            tag = f"{form} dual={dual} nn={nn} {kw} {a}"
            import copy
            so = solveLP(**copy.deepcopy(b), solve_dual=dual,
                         default_non_negative=nn, **kw)
            obs.saw("direct solves")
            ok = so["success"]
            if st == "optimal" and mg is not None and mg < 1e-9:
                dec = True
                if not obs.check(ok, "raw-should-be-solved",
                                 lambda: f"{tag}: {so['status']}, expected "
                                 f"{val}", "direct verdicts"):
                    continue
                obs.check(abs(so["primal_value"] - val)
                          < 1e-6 * (1 + abs(val)), "raw-value",
                          lambda: f"{tag}: {so['primal_value']}, expected "
                          f"{val}", "direct verdicts")
                if mode:
                    continue
                xs = so["x"]
                obs.check(set(xs) == (used if form == "dict"
                                      else set(names)), "raw-variables",
                          f"{tag}: {list(xs)}", "direct verdicts")
                xv = np.array([xs.get(m, x0[R.pos[m]]) for m in names])
                obs.check(R.violation(xv) < 1e-6, "raw-solution",
                          lambda: f"{tag}: {xs} violates the programme by "
                          f"{R.violation(xv)}", "direct verdicts")
            elif st == "infeasible" and mg is not None and mg > 1e-5:
                dec = True
                obs.check(not ok, "raw-infeasible",
                          lambda: f"{tag}: {so['primal_value']}",
                          "direct verdicts")
            elif st == "unbounded":
                dec = True
                obs.check(not ok, "raw-unbounded",
                          lambda: f"{tag}: {so['primal_value']}",
                          "direct verdicts")
    if dec:
        obs.distinct("raw", n, tuple(sorted(a)), nn, mode, st)


def run(case, obs):
    if "raw" in case:
        return raw(case, obs)
    from inflation.lp.lp_utils import solveLP
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    if sum(int(np.prod(range(1, n + 1))) for n in sp.levels) > 30:
        raise Skip("symmetry group too large")
    RefLP(sp, 2500)
    lp = make_lp(sp, include_all_outcomes=case.get("allout", False),
                 default_non_negative=case.get("nonneg", True))
    R, objective, direction, cfg = configure(lp, sp, rng, case)
    sgn = 1. if direction == "max" else -1.
    c = np.zeros(R.n)
    for m, v in (objective or {}).items():
        c[R.pos[m]] += sgn * v
    st, val, x = R.solve(c)
    if st == "other":
        raise Skip("reference solver gave up")
    mg = margin(R)
    decided = False
    args_m = lambda: lp._prepare_solver_matrices()
    ways = []
    for dual in (True, False):
        ways.append((f"solve dual={dual}", dual, None))
    ways.append(("dict arguments", bool(rng.integers(2)), "dict"))
    ways.append(("dict arguments, bounds as inequalities",
                 bool(rng.integers(2)), "dictb"))
    ways.append(("matrices, bounds as inequalities",
                 bool(rng.integers(2)), "matb"))
    nn = case.get("nonneg", True)
    for name, dual, how in ways:
        if how in ("dictb", "matb") and nn and np.any(
                R.lb[np.isfinite(R.lb)] < 0):
            continue      # the default bound also applies there
        tag = f"{name} dual={dual} cfg={cfg} val={case['val']}"
        if how is None:
            lp.solve(solve_dual=dual)
            so = lp.solution_object
            ok, got = lp.success, lp.objective_value
            obs.check(lp.status == so["status"] and
                      bool(ok) == bool(so["success"]), "status-attributes",
                      tag, "library solves")
        else:
            if how == "dict":
                a = lp._prepare_solver_arguments()
            elif how == "dictb":
                a = lp._prepare_solver_arguments(separate_bounds=False)
            else:
                a = lp._prepare_solver_matrices(separate_bounds=False)
            so = solveLP(**a, solve_dual=dual, default_non_negative=nn)
            ok = so["success"]
            got = so["primal_value"] * sgn if ok else so["status"]
        obs.saw("library solves")
        if st == "optimal" and mg is not None and mg < 1e-9:
            if obs.check(ok, "should-be-solved",
                         lambda: f"{tag}: reference optimum {sgn * val}, "
                         f"library status {so['status']}", "verdicts"):
                t = sgn * val
                obs.check(abs(got - t) < 1e-6 * (1 + abs(t)),
                          "objective-value",
                          lambda: f"{tag}: expected {t}, library {got}",
                          "verdicts")
                obs.check(abs(so["primal_value"] - so["dual_value"])
                          < 1e-6 * (1 + abs(so["primal_value"])),
                          "duality-gap", tag, "solutions")
                xs = so["x"]
                miss = [m.name for m in R.mons if m.name not in xs]
                if not obs.check(not miss, "missing-variable",
                                 f"{tag}: {miss[:3]}", "solutions"):
                    continue
                xv = np.array([xs[m.name] for m in R.mons])
                obs.check(R.violation(xv) < 1e-6, "solution-violates",
                          lambda: f"{tag}: violation {R.violation(xv)}",
                          "solutions")
                obs.check(abs(c @ xv - val) < 1e-5 * (1 + abs(val)),
                          "solution-not-optimal",
                          lambda: f"{tag}: objective at the returned values "
                          f"{c @ xv}, optimum {val}", "solutions")
            decided = True
        elif st == "infeasible" and mg is not None and mg > 1e-5:
            obs.check(not ok, "should-be-infeasible",
                      lambda: f"{tag}: margin {mg}, library {got}",
                      "verdicts")
            decided = True
        elif st == "unbounded":
            obs.check(not ok, "should-be-unbounded", f"{tag}: {got}",
                      "verdicts")
            decided = True
    # feasibility as optimisation: the default bounds are not imposed
    lbd, ubd = R.lb.copy(), R.ub.copy()
    R.lb[:] = -np.inf
    for m, b in lp.moment_lowerbounds.items():
        R.lb[R.pos[m]] = b
    for mode, kw in (("ineq", dict(relax_inequalities=True)),
                     ("ineq", dict(feas_as_optim=True)),
                     ("known", dict(relax_known_vars=True)),
                     ("both", dict(relax_known_vars=True,
                                   relax_inequalities=True))):
        if rng.random() < .4:
            continue
        dual = bool(rng.integers(2))
        tag = f"{kw} dual={dual} cfg={cfg} val={case['val']}"
        if objective is not None and len(lp.objective) > 0:
            R.lb, lb_save = lbd.copy(), R.lb.copy()
            if st == "optimal" and mg is not None and mg < 1e-9:
                lp.solve(solve_dual=dual, **kw)
                t = sgn * val
                obs.check(lp.success and abs(lp.objective_value - t)
                          < 1e-6 * (1 + abs(t)), "objective-ignored",
                          lambda: f"{tag}: with an objective the relaxation "
                          f"must be ignored; expected {t}, got "
                          f"{lp.objective_value}", "relaxed verdicts")
            R.lb = lb_save
            continue
        s2, v2, _ = R.solve(c, mode)
        lp.solve(solve_dual=dual, **kw)
        obs.saw("library solves")
        if s2 == "optimal":
            obs.check(lp.success and abs(lp.objective_value - v2)
                      < 1e-6 * (1 + abs(v2)), "relaxed-value",
                      lambda: f"{tag}: expected {v2}, library "
                      f"{lp.objective_value}", "relaxed verdicts")
        elif s2 in ("infeasible", "unbounded"):
            obs.check(not lp.success, "relaxed-status",
                      f"{tag}: {s2}, library {lp.objective_value}",
                      "relaxed verdicts")
    # the default bounds overridden when solving
    if rng.random() < .5 and (nn or not np.any(R.lb[np.isfinite(R.lb)] < 0)):
        if not nn:
            R.lb[~np.isfinite(R.lb)] = 0.
        s3, v3, _ = R.solve(c)
        m3 = margin(R)
        kw = dict(default_non_negative=not nn, verbose=0,
                  feas_as_optim=False, solve_dual=bool(rng.integers(2)))
        tag = f"{kw} cfg={cfg} val={case['val']}"
        lp.solve(**kw)
        obs.saw("library solves")
        if s3 == "optimal" and m3 is not None and m3 < 1e-9:
            t = sgn * v3
            obs.check(lp.success and abs(lp.objective_value - t)
                      < 1e-6 * (1 + abs(t)), "overridden-value",
                      lambda: f"{tag}: expected {t}, library "
                      f"{lp.objective_value}", "verdicts")
        elif s3 == "unbounded" or (s3 == "infeasible" and m3 is not None
                                   and m3 > 1e-5):
            obs.check(not lp.success, "overridden-status",
                      f"{tag}: {s3}, library {lp.objective_value}",
                      "verdicts")
    if decided:
        obs.distinct(sp.key(), case["val"], tuple(cfg), case.get("allout"),
                     nn)
    obs.sample({"variables": R.n, "equalities": len(R.eq),
                "inequalities": len(R.ineq), "cfg": cfg, "status": st,
                "value": val})
