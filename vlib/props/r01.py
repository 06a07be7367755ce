"""R01: relabelling a scenario relabels what is concluded, nothing else."""
import numpy as np
from .. import gen
from ..spec import Spec
from ..runner import Skip
from ..refalg import Algebra
from ..sdpobs import make_sdp, pick_columns
from ..lpobs import RefLP, make_lp
from .s03 import distribution
from .c01 import hostile

ID = "R01"
RULE = ("a case is (scenario, relabelling of its nodes, their order, settings "
        "and outcomes, relaxation, values, bounds, objective); moments, "
        "nonnegative, known and proportional ones, verdict and optimum of "
        "both versions are compared through the relabelling; distinct = "
        "distinct (scenario, relaxation, kind of relabelling, values) with a "
        "decided comparison")
BUDGET = {"quick": 60, "thorough": 500}
ASSUMPTIONS = ["MOSEK's optimiser is replaced (no licence offline)"]
warm = [{"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"], "A": ["C"]},
                      outcomes=[2, 2, 2], settings=[1, 2, 1], levels=[2, 1],
                      classical=["s"]), "what": "sdp", "cols": "npa1",
         "seed": 3, "val": "dist"},
        {"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"]},
                      outcomes=[2, 2, 2], settings=[1, 1, 1], levels=[2, 1],
                      classical="all"), "what": "lp", "seed": 1,
         "val": "lpi"}]


def cases(tier, rng):
    n = 600 if tier == "quick" else 8000
    for k in range(n):
        c = {"seed": int(rng.integers(2 ** 31)),
             "val": ["none", "dist", "dist", "lpi", "hostile", "some",
                     "somelpi", "sup"][int(rng.integers(8))]}
        if rng.random() < .5:
            sp = gen.any_spec(rng, max_ops=24, classical=[None, "all", "none"]
                              [int(rng.integers(3))])
            if k % 10 == 0:
                sp = gen.multi_parent_spec(rng, 24) or sp
            c.update(what="lp", allout=bool(rng.random() < .2))
        else:
            sp = gen.any_spec(rng, max_ops=24)
            c.update(what="sdp", cols=pick_columns(
                rng, sp, 22 if rng.random() < .6 else 60))
        c["spec"] = sp.d
        yield c


class Relabel:
    def __init__(self, sp, rng, fix_last):
        self.sp = sp
        n = sp.nparties
        self.kinds = []
        ren = {p: p for p in sp.names}
        r = rng.random()
        if r < .35:
            ren = dict(zip(sp.names, [str(x) for x in
                                      rng.permutation(sp.names)]))
        elif r < .75:
            ren = dict(zip(sp.names, [str(x) for x in rng.permutation(
                ["A", "B", "C", "D", "E", "Alice", "Bob", "Zed", "X1", "Q",
                 "P2"] if rng.random() < .7 else
                ["A", "AB", "ABC", "B", "BA", "b", "a1", "C1"])[:n]]))
        if any(k != v for k, v in ren.items()):
            self.kinds.append("names")
        hid = sp.sources + sp.latents
        rh = {h: h for h in hid}
        if rng.random() < .6:
            rh = dict(zip(hid, [str(x) for x in rng.permutation(
                [hid, ["h%d" % i for i in range(len(hid))],
                 ["s", "s1", "s10", "ss", "s2", "ts", "s3"][:len(hid)]]
                [int(rng.integers(3))])]))
            self.kinds.append("hidden")
        f = lambda x: ren.get(x) or rh[x]
        items = [(f(k), [f(c) for c in v]) for k, v in sp.dag.items()]
        if rng.random() < .6:
            items = [items[i] for i in rng.permutation(len(items))]
            items = [(k, [v[i] for i in rng.permutation(len(v))])
                     for k, v in items]
            self.kinds.append("graph")
        dag = dict(items)
        order = [str(x) for x in rng.permutation([ren[p] for p in sp.names])]
        if rng.random() < .4:
            order = sorted(ren.values())
            given = None
        else:
            given = order
        self.pi = [order.index(ren[p]) for p in sp.names]
        if self.pi != list(range(n)):
            self.kinds.append("order")
        self.sigma, self.tau = [], []
        so, sx = rng.random() < .6, rng.random() < .6
        for p in range(n):
            s, o = sp.settings[p], sp.outcomes[p]
            self.sigma.append(rng.permutation(s) if sx else np.arange(s))
            t = np.arange(o)
            if so:
                if fix_last and not sp.has_children[p]:
                    t[:-1] = rng.permutation(o - 1)
                else:
                    t = rng.permutation(o)
            self.tau.append(t)
        if any(np.any(np.diff(x) != 1) for x in self.sigma):
            self.kinds.append("settings")
        if any(np.any(np.diff(x) != 1) for x in self.tau):
            self.kinds.append("outcomes")
        new = lambda v: [v[self.pi.index(q)] for q in range(n)]
        src = [k for k in dag if k in [rh[s] for s in sp.sources]]
        self.si = [src.index(rh[s]) for s in sp.sources]
        lv = [0] * len(src)
        for i, j in enumerate(self.si):
            lv[j] = sp.levels[i]
        d = dict(dag=dag, outcomes=new(sp.outcomes), settings=new(sp.settings),
                 levels=lv, nil=[rh[x] for x in sp.nil],
                 cil=[rh[x] for x in sp.cil])
        cl = sp.d.get("classical", [])
        d["classical"] = "all" if cl == "all" else [rh[c] for c in cl]
        if given:
            d["order"] = given
        self.to = Spec(d)
        if self.to.sources != src or self.to.names != order:
            raise RuntimeError("relabelling")

    def row(self, r):
        sp, to = self.sp, self.to
        p = r[0] - 1
        q = self.pi[p]
        priv, par = sp.decode_setting(p, r[-2])
        out = {self.pi[j]: int(self.tau[j][a])
               for j, a in zip(sp.obs_parents[p], par)}
        x = np.ravel_multi_index(
            (int(self.sigma[p][priv]),) + tuple(
                out[j] for j in to.obs_parents[q]), to.setting_shape[q])
        cp = [0] * sp.nsources
        for i, j in enumerate(self.si):
            cp[j] = r[1 + i]
        return (q + 1,) + tuple(cp) + (int(x), int(self.tau[p][r[-1]]))

    def word(self, w):
        return tuple(self.row(r) for r in w)

    def table(self, P):
        n = self.sp.nparties
        Q = np.empty(self.to.shape, dtype=P.dtype)
        for k in np.ndindex(*P.shape):
            j = [0] * (2 * n)
            for p in range(n):
                j[self.pi[p]] = self.tau[p][k[p]]
                j[n + self.pi[p]] = self.sigma[p][k[n + p]]
            Q[tuple(int(v) for v in j)] = P[k]
        return Q

    def columns(self, cols):
        if isinstance(cols, str):
            for h in ("local", "physical"):
                t = cols[len(h):]
                if cols.startswith(h) and len(t) > 1:
                    s = [""] * len(t)
                    for p, ch in enumerate(t):
                        s[self.pi[p]] = ch
                    return h + "".join(s)
            return cols
        # products of operators that do not commute are taken in this order
        return [[self.pi[p] for p in b] for b in cols]


def factors(m):
    return [tuple(tuple(int(v) for v in r) for r in np.asarray(f.as_2d_array))
            for f in m.factors if len(f.as_lexmon)]


def key_of(m, alg, through, sdp):
    """Canonical key (in the relabelled scenario) of a moment."""
    if m.is_zero:
        return "zero"
    k = []
    for rev in (False, True) if sdp else (False,):
        k.append(tuple(sorted(
            alg.atom_key(alg.normal(through(tuple(reversed(w)) if rev
                                            else w)))
            for w in factors(m))))
    return min(k)


def run(case, obs):
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    if sum(int(np.prod(range(1, n + 1))) for n in sp.levels) > 30:
        raise Skip("symmetry group too large")
    if len(sp.nil) > 1:
        raise Skip("several nonclassical latents: commutation is only "
                   "conservative")
    sdp = case["what"] == "sdp"
    R = Relabel(sp, rng, sdp or not case.get("allout"))
    if not R.kinds:
        raise Skip("nothing relabelled")
    sup = case["val"] == "sup"
    if sdp:
        cols2 = R.columns(case["cols"])
        if sp.nil and "order" in R.kinds and isinstance(case["cols"], str) \
                and not case["cols"].startswith("physical"):
            # the levels are defined as products in the order of the parties,
            # and the operators of several parties need not commute
            raise Skip("the level depends on the order of the parties")
        one = make_sdp(sp, case["cols"], max_cols=60, supports_problem=sup)
        two = make_sdp(R.to, cols2, max_cols=10 ** 6, supports_problem=sup)
        m1, m2 = list(one.moments), list(two.moments)
        solve = len(one.momentmatrix) <= 20 and len(m1) <= 150
        obs.check(len(one.momentmatrix) == len(two.momentmatrix), "columns",
                  lambda: f"{case['cols']}: {len(one.momentmatrix)} -> "
                  f"{len(two.momentmatrix)} as {R.to}", "relaxations")
    else:
        RefLP(sp, 1500)
        kw = dict(include_all_outcomes=case.get("allout", False),
                  supports_problem=sup)
        one, two = make_lp(sp, **kw), make_lp(R.to, **kw)
        m1, m2 = list(one.monomials), list(two.monomials)
        solve = len(m1) <= 700
    alg = Algebra(R.to)
    same = lambda w: w
    key1 = lambda m: key_of(m, alg, R.word, sdp)
    key2 = lambda m: key_of(m, alg, same, sdp)
    k1 = {key1(m): m for m in m1}
    k2 = {key2(m): m for m in m2}
    tag = f"{case['what']} {case.get('cols')} {R.kinds} as {R.to}"
    k1.pop("zero", None), k2.pop("zero", None)
    diff = set(k1) ^ set(k2)
    if not obs.check(not diff, "moments",
                     lambda: f"{tag}: {len(diff)} of {len(k1)}, e.g. "
                     f"{sorted(diff)[0]}", "relaxations"):
        return
    by2 = k2
    pair = {m: by2[k] for k, m in k1.items()}
    if sdp:
        ints = lambda o, m: (m in o.moment_lowerbounds, m.is_knowable)
    else:
        ints = lambda o, m: (m.is_knowable,)
    bad = [(a.name, b.name) for a, b in pair.items()
           if ints(one, a) != ints(two, b)]
    obs.check(not bad, "kinds", lambda: f"{tag}: {bad[:3]}", "relaxations")
    # --- values ------------------------------------------------------------
    val = case["val"]
    try:
        if val in ("dist", "lpi", "hostile", "sup"):
            P = (hostile(sp, rng) if val == "hostile" or sup
                 and rng.random() < .5 else distribution(sp, rng, "model"))
            v = float(rng.choice([0., .2, .5]))
            P = (1 - v) * P + v / np.prod(sp.outcomes)
            if sup:
                P = np.where(P > 1e-3, P, 0.)
                P = P / P.sum(axis=tuple(range(sp.nparties)), keepdims=True)
            if max(sp.settings) == 1 and rng.random() < .2:
                # some entries are not known
                P = np.where(rng.random(size=P.shape) < .3, np.nan, P)
            kw = dict(use_lpi_constraints=val == "lpi")
            one.set_distribution(P, **kw)
            two.set_distribution(R.table(P), **kw)
        elif val.startswith("some"):
            pool = [m for m in pair if not m.is_one]
            d = {}
            if not pool:
                raise Skip("no moments")
            for i in rng.permutation(len(pool))[:int(rng.integers(1, 4))]:
                m = pool[int(i)]
                nf = sum(len(w) for w in factors(m))
                d[m] = float(np.round(rng.random() * .6 ** nf, 3))
            kw = dict(use_lpi_constraints=val == "somelpi",
                      only_specified_values=bool(rng.random() < .3))
            one.set_values({m.name: v for m, v in d.items()}, **kw)
            two.set_values({pair[m].name: v for m, v in d.items()}, **kw)
    except AssertionError as e:
        if "contradicts" in str(e):
            raise Skip("values contradict bounds")
        raise
    ka, kb = ({k(m): float(v) for m, v in o.known_moments.items()
               if not (m.is_zero or m.is_one)}
              for o, k in ((one, key1), (two, key2)))
    bad = [m for m in set(ka) | set(kb) if (m in ka) != (m in kb)
           or abs(ka[m] - kb[m]) > 1e-9]
    obs.check(not bad, "known", lambda: f"{tag} {val}: {bad[:3]}",
              "values compared")
    sa, sb = ({k(m): (float(c), k(u))
               for m, (c, u) in o.semiknown_moments.items()}
              for o, k in ((one, key1), (two, key2)))
    bad = [m for m in set(sa) | set(sb)
           if m not in sa or m not in sb or sa[m][1] != sb[m][1]
           or abs(sa[m][0] - sb[m][0]) > 1e-9]
    if not val.startswith("some"):
        obs.check(not bad, "semiknown", lambda: f"{tag} {val}: {bad[:3]}",
                  "values compared")
    obs.distinct(sp.key(), case["what"], str(case.get("cols")), str(R.kinds),
                 val)
    if not solve:
        obs.saw("compared without solving")
        return
    # --- bounds, objective, solution ---------------------------------------
    pool = [m for m in pair if not m.is_one]
    free = [m for m in pool if m not in one.known_moments]
    if free and rng.random() < .3:
        for typ in ("up", "lo"):
            b = {}
            for i in rng.permutation(len(free))[:int(rng.integers(0, 3))]:
                b[free[int(i)]] = float(rng.choice(
                    [.4, .2, .1] if typ == "up" else [.01, .05]))
            if b:
                one.set_bounds({m.name: v for m, v in b.items()}, typ)
                two.set_bounds({pair[m].name: v for m, v in b.items()}, typ)
    dual = bool(rng.integers(2))
    kw = dict(solve_dual=dual)

    def status(o):
        if sdp:
            return o.status
        return "solved" if o.success else "not solved"
    if sup or rng.random() < .7:
        one.solve(feas_as_optim=sdp, **kw)
        two.solve(feas_as_optim=sdp, **kw)
        obs.saw("pairs of solves")
        s = (status(one), status(two))
        if not sdp:
            obs.check(s[0] == s[1], "verdict", f"{tag} {val}: {s}",
                      "verdicts compared")
        elif set(s) <= {"feasible", "infeasible"}:
            x, y = one.objective_value, two.objective_value
            ok = s[0] == s[1] and (s[0] != "feasible" or
                                   abs(x - y) < 2e-5 * (1 + abs(x)))
            obs.check(ok, "verdict", lambda: f"{tag} {val}: {s} {x} {y}",
                      "verdicts compared")
            if not (s[0] == "feasible" and x > 1e-3):
                return
        else:
            obs.note("library status " + str(s))
            return
    elif sdp:
        one.solve(feas_as_optim=True)
        if not (one.status == "feasible" and one.objective_value > 1e-3):
            return
    if sup or not pool:
        return
    d = {pool[int(i)]: float(np.round(rng.normal(), 2)) or 1.
         for i in rng.permutation(len(pool))[:int(rng.integers(1, 7))]}
    direction = "max" if rng.random() < .5 else "min"
    one.set_objective({m.name: v for m, v in d.items()}, direction)
    two.set_objective({pair[m].name: v for m, v in d.items()}, direction)
    one.solve(**kw)
    two.solve(**kw)
    obs.saw("pairs of solves")
    s = (status(one), status(two))
    tag = f"{tag} {val} {direction} {[(m.name, v) for m, v in d.items()]}"
    if sdp and not set(s) <= {"feasible"}:
        obs.note("library status " + str(s))
        return
    obs.check(s[0] == s[1], "verdict", f"{tag}: {s}", "verdicts compared")
    if s[0] == s[1] and one.success:
        x, y = one.objective_value, two.objective_value
        obs.check(abs(x - y) < (1e-4 if sdp else 1e-6) * (1 + abs(x)),
                  "optimum", lambda: f"{tag}: {x} and {y}",
                  "optima compared")
        obs.sample({"tag": tag[:300], "optimum": x, "relabelled": y})
