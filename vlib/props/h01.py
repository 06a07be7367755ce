"""H01: the programme that is solved depends on the current specification, not
on the history of the object."""
import copy
import importlib
import numpy as np
from .. import gen
from ..spec import Spec
from ..runner import Skip
from ..sdpobs import make_sdp, pick_columns
from ..lpobs import RefLP, make_lp
from .s03 import distribution

ID = "H01"
RULE = ("a case is (scenario, SDP generating sets or LP, random sequence of "
        "assignments, bounds, constraints, objectives, solves, resets and "
        "relaxations, interleaved with another relaxation of the same "
        "problem); at checkpoints the complete programme handed to the solver "
        "is compared with the one of a fresh object given only the net "
        "specification; distinct = distinct (scenario, sequence of kinds of "
        "operations) with >= 3 operations")
BUDGET = {"quick": 80, "thorough": 600}
warm = [{"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"], "A": ["C"]},
                      outcomes=[2, 2, 2], settings=[1, 2, 1], levels=[2, 1],
                      classical=["s"]), "what": "sdp",
         "cols": ["npa2", "npa1"], "seed": 3, "nops": 8},
        {"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"]},
                      outcomes=[2, 2, 2], settings=[1, 1, 1], levels=[2, 1],
                      classical="all"), "what": "lp", "seed": 1, "nops": 8}]


def cases(tier, rng):
    n = 420 if tier == "quick" else 6000
    for k in range(n):
        sup = bool(rng.random() < .12)
        nops = int(rng.integers(3, 10 if tier == "quick" else 16))
        if rng.random() < .6:
            sp = gen.any_spec(rng, max_ops=20)
            yield {"spec": sp.d, "what": "sdp", "sup": sup, "nops": nops,
                   "cols": [pick_columns(rng, sp, 40) for _ in range(2)],
                   "seed": int(rng.integers(2 ** 31))}
        else:
            sp = gen.any_spec(rng, max_ops=20, classical=[None, "all", "none"]
                              [int(rng.integers(3))])
            yield {"spec": sp.d, "what": "lp", "sup": sup, "nops": nops,
                   "seed": int(rng.integers(2 ** 31))}


class Recorder:
    """Stands for the solving function: keeps what it is given."""

    def __init__(self, what):
        self.what = what
        self.mod = importlib.import_module(
            "inflation.sdp.InflationSDP" if what == "sdp"
            else "inflation.lp.InflationLP")
        self.name = "solveSDP_MosekFUSION" if what == "sdp" else "solveLP"

    def __enter__(self):
        self.orig = getattr(self.mod, self.name)
        setattr(self.mod, self.name, self.fake)
        return self

    def __exit__(self, *a):
        setattr(self.mod, self.name, self.orig)

    def fake(self, **args):
        self.args = {k: copy.deepcopy(v) for k, v in args.items()}
        return {"status": "feasible" if self.what == "sdp" else "optimal",
                "success": True, "primal_value": 0.125, "dual_value": 0.125,
                "F": None, "Z": None, "dual_certificate": {}, "x": {}}


def rows(v, names):
    """Rows of a constraint argument as dictionaries by name."""
    if v is None:
        return []
    if isinstance(v, dict):
        return [{k: float(c) for k, c in v.items()}]
    if isinstance(v, list):
        return [{k: float(c) for k, c in d.items()} for d in v]
    v = v.tocoo()
    out = [{} for _ in range(v.shape[0])]
    r = v.row if hasattr(v, "row") else np.zeros(v.nnz, int)
    for i, j, c in zip(r, v.col, v.data):
        out[int(i)][str(names[j])] = out[int(i)].get(str(names[j]), 0.) \
            + float(c)
    return out


def programme(args, what):
    """Canonical form of the programme."""
    names = list(args["variables"]) if args.get("variables") is not None else []
    names = [str(x) for x in names]
    one = lambda k: (rows(args.get(k), names) or [{}])[0]
    known = {k: float(v) for k, v in (args["known_vars"] if isinstance(
        args["known_vars"], dict) else one("known_vars")).items()}
    known.pop("constant_term", None)
    known["#"] = 1.
    semi = {k: (float(c), x) for k, (c, x) in
            (args.get("semiknown_vars") or {}).items()}

    def sub(d):
        out = {}
        for k, c in d.items():
            k = "#" if k == "constant_term" else k
            f = float(c)
            for _ in range(6):
                if k in known:
                    k, f = "#", f * known[k]
                    break
                elif k in semi:
                    k, f = semi[k][1], f * semi[k][0]
                else:
                    break
            out[k] = out.get(k, 0.) + f
        return {k: c for k, c in out.items() if abs(c) > 1e-10}
    fr = lambda d: tuple(sorted((k, round(c, 7) + 0.) for k, c in d.items()))
    prog = {"known": fr(known), "objective": fr(sub(one("objective"))),
            "semi": tuple(sorted((k, round(c, 7), x)
                                 for k, (c, x) in semi.items()))}
    eqs = set()
    for d in rows(args.get("equalities"), names):
        d = sub(d)
        if d and set(d) != {"#"}:
            k = sorted(k for k in d if k != "#")[0]
            eqs.add(fr({m: c / d[k] for m, c in d.items()}))
        elif d and abs(d["#"]) > 1e-6:
            eqs.add(fr(d))
    prog["equalities"] = frozenset(eqs)
    ine = set()
    for d in rows(args.get("inequalities"), names):
        d = sub(d)
        if set(d) <= {"#"}:
            if d.get("#", 0.) > -1e-6:
                continue
        ine.add(fr(d))
    prog["inequalities"] = frozenset(ine)
    if what == "lp":
        for k in ("lower_bounds", "upper_bounds"):
            # (a bound of a known variable is either satisfied or not)
            b = one(k)
            s = 1. if k[0] == "l" else -1.
            prog[k] = fr({m: v for m, v in b.items() if m not in known
                          or s * (known[m] - v) < -1e-6})
        prog["nonneg"] = bool(args.get("default_non_negative"))
    else:
        prog["masks"] = tuple(sorted(
            (k, tuple(sorted(zip(*[x.tolist() for x in m.nonzero()]))))
            for k, m in args["mask_matrices"].items()
            if k != "constant_term"))
    return prog


def capture(obj, what, **kw):
    with Recorder(what) as r:
        obj.solve(**kw)
    return programme(r.args, what)


def difference(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, (tuple, frozenset)):
                out.append(f"{k}: only here {sorted(set(x) - set(y))[:4]}, "
                           f"only in the fresh one "
                           f"{sorted(set(y) - set(x))[:4]}")
            else:
                out.append(f"{k}: {x} != {y}")
    return "; ".join(out)[:900]


class Net:
    """Net specification."""

    def __init__(self):
        self.values, self.up, self.lo = [], None, None
        self.eq = self.ineq = None
        self.obj = None

    def clear_values(self):
        self.values, self.eq, self.ineq = [], None, None

    def apply(self, obj):
        if self.lo is not None:
            obj.set_bounds(dict(self.lo), "lo")
        if self.up is not None:
            obj.set_bounds(dict(self.up), "up")
        for how, arg, kw in self.values:
            getattr(obj, how)(arg, **kw)
        if self.ineq is not None:
            obj.set_extra_inequalities([dict(d) for d in self.ineq])
        if self.eq is not None:
            obj.set_extra_equalities([dict(d) for d in self.eq])
        if self.obj is not None:
            obj.set_objective(dict(self.obj[0]), self.obj[1])


def names_of(obj, what):
    ms = list(obj.moments if what == "sdp" else obj.monomials)
    return [m for m in ms if not (m.is_one or m.is_zero)]


def values(obj, what, rng):
    """Values for a few moments, by name."""
    ms = names_of(obj, what)
    out = {}
    for i in rng.permutation(len(ms))[:int(rng.integers(1, 5))]:
        m = ms[int(i)]
        nf = sum(len(f.as_lexmon) for f in m.factors)
        out[m.name] = float(np.round(rng.random() * .6 ** nf, 3)) \
            if rng.random() < .85 else 0.
    return out


def lincomb(obj, what, rng):
    ms = names_of(obj, what)
    d = {}
    for i in rng.permutation(len(ms))[:int(rng.integers(1, 5))]:
        d[ms[int(i)].name] = float(np.round(rng.normal(), 2)) or 1.
    if rng.random() < .5:
        d["1"] = float(np.round(rng.normal(), 2)) or .5
    return d


def step(obj, net, sp, what, sup, rng, ops):
    """One random operation on the object and the net specification."""
    allow = ["dist", "dist", "vals", "update", "none", "bounds", "bounds",
             "extra", "extra", "objective", "objective", "solve", "reset",
             "reset"]
    if sup:
        allow = ["dist", "dist", "dist", "none", "solve", "resetv", "extra"]
    k = allow[int(rng.integers(len(allow)))]
    if not names_of(obj, what) and k in ("vals", "update", "bounds", "extra",
                                         "objective"):
        k = "dist"
    changed = True
    if k == "dist":
        P = distribution(sp, rng, ["model", "shared", "zeros"][
            int(rng.integers(3))])
        kw = {"use_lpi_constraints": bool(rng.random() < .3),
              "shared_randomness": bool(rng.random() < .15)}
        if sup:
            P = (P > rng.choice([.05, 1e-9, .2])).astype(float)
            kw = {}
        obj.set_distribution(P.copy(), **kw)
        net.clear_values()
        net.values = [("set_distribution", P, kw)]
        k += "lpi" if kw.get("use_lpi_constraints") else ""
    elif k in ("vals", "update"):
        v = values(obj, what, rng)
        kw = {"use_lpi_constraints": bool(rng.random() < .3),
              "only_specified_values": bool(rng.random() < .3)}
        if k == "vals":
            obj.set_values(dict(v), **kw)
            net.clear_values()
            net.values = [("set_values", v, kw)]
        else:
            obj.update_values(dict(v), **kw)
            net.values = net.values + [("update_values", v, kw)]
    elif k == "none":
        (obj.set_distribution if rng.random() < .5 else obj.set_values)(None)
        net.clear_values()
    elif k == "bounds":
        ms = names_of(obj, what)
        t = "up" if rng.random() < .5 else "lo"
        b = {}
        for i in rng.permutation(len(ms))[:int(rng.integers(1, 4))]:
            b[ms[int(i)].name] = (float(np.round(1 + .3 * rng.random(), 2))
                                  if t == "up" else
                                  -float(np.round(.3 * rng.random(), 2)))
        obj.set_bounds(dict(b), t)
        setattr(net, t, b)
        k += t
    elif k == "extra":
        t = "eq" if rng.random() < .5 else "ineq"
        f = obj.set_extra_equalities if t == "eq" \
            else obj.set_extra_inequalities
        if rng.random() < .2:
            f(None if rng.random() < .5 else [])
            setattr(net, t, None)
        else:
            e = [lincomb(obj, what, rng)
                 for _ in range(int(rng.integers(1, 3)))]
            f([dict(d) for d in e])
            setattr(net, t, e)
        k += t
    elif k == "objective":
        if rng.random() < .2:
            obj.set_objective(None)
            net.obj = None
        else:
            d = lincomb(obj, what, rng)
            t = "max" if rng.random() < .5 else "min"
            obj.set_objective(dict(d), t)
            net.obj = (d, t)
            k += t
    elif k == "solve":
        with Recorder(what):
            obj.solve(solve_dual=bool(rng.random() < .5))
        changed = False
    else:
        w = "values" if k == "resetv" else ["values", "bounds", "lowerbounds",
                                            "upperbounds", "objective",
                                            "all"][int(rng.integers(6))]
        if w != "values" and rng.random() < .2:
            w = [w, "objective"]
        obj.reset(w)
        for x in ([w] if isinstance(w, str) else w):
            if x in ("values", "all"):
                net.clear_values()
            if x in ("bounds", "lowerbounds", "all"):
                net.lo = None
            if x in ("bounds", "upperbounds", "all"):
                net.up = None
            if x in ("objective", "all"):
                net.obj = None
        if k == "resetv":
            obj.set_values(None)
        k = "reset " + str(w)
    ops.append(k)
    return changed


def run(case, obs):
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    what, sup = case["what"], case.get("sup", False)
    if sum(int(np.prod(range(1, n + 1))) for n in sp.levels) > 30:
        raise Skip("symmetry group too large")
    if what == "sdp":
        def fresh(prob, c):
            from inflation import InflationSDP
            s = InflationSDP(prob, verbose=0, supports_problem=sup)
            s.generate_relaxation(c)
            return s
        cols = case["cols"]
        for c in cols:
            make_sdp(sp, c, max_cols=70, supports_problem=sup)
    else:
        RefLP(sp, 1500)

        def fresh(prob, c):
            from inflation import InflationLP
            return InflationLP(prob, nonfanout=True, verbose=0,
                               supports_problem=sup)
        cols = [None, None]
    prob = sp.problem()
    cur = cols[0]
    obj = fresh(prob, cur)
    other = fresh(prob, cols[1])
    net, onet, ops, oops = Net(), Net(), [], []
    checks = 0
    for k in range(case["nops"]):
        if what == "sdp" and rng.random() < .08:
            cur = cols[int(rng.integers(2))]
            obj.generate_relaxation(cur)
            net = Net()
            ops.append("regenerate")
        try:
            with Recorder(what):
                if rng.random() < .3:
                    obj.solve()
            changed = step(obj, net, sp, what, sup, rng, ops)
            if changed:
                obs.check(obj.status == "Not yet solved" and not hasattr(
                    obj, "objective_value"), "stale-result",
                    f"after {ops} the object still presents the result of "
                    "an earlier solve", "stale results")
            if rng.random() < .3:
                step(other, onet, sp, what, sup, rng, oops)
        except AssertionError as e:
            if "contradicts" in str(e):
                raise Skip("values contradict bounds")
            raise
        if rng.random() < .35 or k == case["nops"] - 1:
            for o, n, c, log in ((obj, net, cur, ops),
                                 (other, onet, cols[1], oops)):
                if o is other and rng.random() < .6:
                    continue
                new = fresh(sp.problem(), c)
                n.apply(new)
                got, exp = capture(o, what), capture(new, what)
                obs.check(got == exp, "history",
                          lambda: f"after {log}: {difference(got, exp)}",
                          "programmes compared")
                obs.check(o.maximize == new.maximize, "direction",
                          f"after {log}", "programmes compared")
                if what == "lp":
                    a = o._prepare_solver_arguments(
                        separate_bounds=bool(rng.random() < .5))
                    b = new._prepare_solver_arguments(
                        separate_bounds="lower_bounds" in a)
                    got, exp = programme(a, what), programme(b, what)
                    obs.check(got == exp, "history-by-name",
                              lambda: f"after {log}: {difference(got, exp)}",
                              "programmes compared")
                checks += 1
    if len(ops) >= 3 and checks:
        obs.distinct(sp.key(), str(case.get("cols")), tuple(ops))
    obs.sample({"operations": ops, "other object": oops})
