"""T01: with one common source the bounds are the known exact ones."""
import itertools
import numpy as np
from scipy.optimize import linprog
from ..spec import Spec
from ..runner import Skip
from ..sdpobs import make_sdp
from ..lpobs import RefLP, make_lp
from ..conic import conelp, svec_idx
from . import l03, s05

ID = "T01"
RULE = ("a case is (scenario whose observed nodes share one source, kind of "
        "source, relaxation that is exact there, values, constraints and "
        "objective over observable probabilities); optimum and verdict are "
        "compared with the optimum over deterministic strategies (classical), "
        "over no-signalling behaviours (linear programme, nonclassical), over "
        "Gram matrices (correlations of two binary parties), or lie between "
        "the first two (semidefinite relaxation, nonclassical); distinct = "
        "distinct (scenario, relaxation, kinds of constraints) decided")
BUDGET = {"quick": 60, "thorough": 500}
ASSUMPTIONS = ["MOSEK's optimiser is replaced (no licence offline)"]
_b = dict(dag={"r": ["A", "B"]}, outcomes=[2, 2], settings=[2, 2], levels=[1])
warm = [{"spec": dict(_b, classical="all"), "what": "lp", "seed": 1},
        {"spec": _b, "what": "lp", "seed": 2},
        {"spec": dict(_b, classical="all"), "what": "sdp", "seed": 1},
        {"spec": _b, "what": "xor", "seed": 1},
        {"spec": _b, "what": "between", "seed": 1}]


def common_spec(rng, nmax=4, max_strat=700, max_ops=22, two=False):
    """All observed nodes share the source `u`; others are redundant."""
    for _ in range(300):
        n = 2 if two else int(rng.choice([1, 2, 3, 4], p=[.1, .5, .3, .1]))
        if n > nmax:
            continue
        names = [["A", "B", "C", "D"], ["Eve", "Bob", "A", "X1"]][
            int(rng.random() < .25)][:n]
        dag = {"u": [names[i] for i in rng.permutation(n)]}
        levels = {"u": 1 if rng.random() < .8 else 2}
        if not two and rng.random() < .3:
            k = int(rng.integers(1, n + 1))
            dag["w"] = [names[i] for i in sorted(rng.permutation(n)[:k])]
            levels["w"] = 1 if rng.random() < .7 else 2
        if not two and n > 1 and rng.random() < .35:
            perm = [names[i] for i in rng.permutation(n)]
            for i in range(n):
                ch = [perm[j] for j in range(i + 1, n) if rng.random() < .5]
                if ch:
                    dag[perm[i]] = ch
        keys = [list(dag)[i] for i in rng.permutation(len(dag))]
        dag = {k: dag[k] for k in keys}
        o = [2 if two else int(x) for x in rng.choice(
            [1, 2, 3, 4], p=[.04, .6, .26, .1], size=n)]
        s = [int(x) for x in rng.choice([1, 2, 3], p=[.4, .4, .2], size=n)]
        d = dict(dag=dag, outcomes=o, settings=s,
                 levels=[levels[k] for k in dag if k in levels])
        if rng.random() < .4:
            d["order"] = [names[i] for i in rng.permutation(n)]
        sp = Spec(dict(d, classical="all"))
        strat = np.prod([float(a) ** b for a, b in
                         zip(sp.outcomes, sp.eff_settings)])
        if sp.n_ops() <= max_ops and strat <= max_strat:
            return d
    raise RuntimeError("no scenario found")


def cases(tier, rng):
    n = 700 if tier == "quick" else 9000
    for k in range(n):
        what = ["lp", "lp", "lp", "sdp", "xor", "between"][int(rng.choice(
            6, p=[.3, .2, .15, .15, .1, .1]))]
        seed = int(rng.integers(2 ** 31))
        if what == "xor":
            d = common_spec(rng, two=True)
            d["levels"] = [1]
        elif what == "lp":
            d = common_spec(rng)
            if rng.random() < .5:
                d["classical"] = "all"
        else:
            d = common_spec(rng, max_strat=32 if what == "sdp" else 200,
                            max_ops=14)
            d["levels"] = [1] * len(d["levels"])
            if what == "sdp":
                d["classical"] = "all"
        yield {"spec": d, "what": what, "seed": seed}


class Behaviours:
    """The set of behaviours, as a linear image of q >= 0."""

    def __init__(self, sp, local):
        self.sp = sp
        self.local = local
        self.groups = [(p, x) for p in range(sp.nparties)
                       for x in range(sp.eff_settings[p])]
        gi = {g: i for i, g in enumerate(self.groups)}
        if local:
            self.points = np.array(list(itertools.product(
                *[range(sp.outcomes[p]) for p, _ in self.groups])), int)
            self.n = len(self.points)
            self.gi = gi
            self.A = np.ones((1, self.n))
            self.b = np.ones(1)
            return
        self.index = {}
        for x in itertools.product(*[range(e) for e in sp.eff_settings]):
            for a in itertools.product(*[range(o) for o in sp.outcomes]):
                self.index[x, a] = len(self.index)
        self.n = len(self.index)
        A, b = [], []
        for x in itertools.product(*[range(e) for e in sp.eff_settings]):
            r = np.zeros(self.n)
            for a in itertools.product(*[range(o) for o in sp.outcomes]):
                r[self.index[x, a]] = 1.
            A.append(r)
            b.append(1.)
            for p in range(sp.nparties):
                if x[p] == 0:
                    continue
                y = x[:p] + (0,) + x[p + 1:]
                for a in itertools.product(*[
                        range(o) if q != p else [0]
                        for q, o in enumerate(sp.outcomes)]):
                    r = np.zeros(self.n)
                    for k in range(sp.outcomes[p]):
                        c = a[:p] + (k,) + a[p + 1:]
                        r[self.index[x, c]] += 1.
                        r[self.index[y, c]] -= 1.
                    A.append(r)
                    b.append(0.)
        self.A, self.b = np.array(A), np.array(b)

    def row(self, word):
        """word: set of (party, effective setting, outcome)."""
        if self.local:
            ok = np.ones(self.n, bool)
            for p, x, a in word:
                ok &= self.points[:, self.gi[p, x]] == a
            return ok.astype(float)
        r = np.zeros(self.n)
        at = {p: (x, a) for p, x, a in word}
        x = tuple(at[p][0] if p in at else 0 for p in range(self.sp.nparties))
        for a in itertools.product(*[[at[p][1]] if p in at else range(o)
                                     for p, o in enumerate(
                                         self.sp.outcomes)]):
            r[self.index[x, a]] += 1.
        return r

    def vertex(self, rng):
        if self.local:
            q = np.zeros(self.n)
            q[int(rng.integers(self.n))] = 1.
            return q
        r = linprog(rng.normal(size=self.n), A_eq=self.A, b_eq=self.b,
                    bounds=(0, None), method="highs")
        return r.x


def word_of(sp, mon):
    """(party, setting, outcome) triples of a moment about first copies."""
    if len(mon.factors) != 1 or mon.is_zero or mon.is_one:
        return None
    out = set()
    for r in np.asarray(mon.factors[0].as_2d_array):
        if any(int(v) > 1 for v in r[1:-2]):
            return None
        out.add((int(r[0]) - 1, int(r[-2]), int(r[-1])))
    return frozenset(out)


def observed(sp):
    """Words of the observable joint events, with their place in a table."""
    for a in itertools.product(*[range(o) for o in sp.outcomes]):
        for x in itertools.product(*[range(s) for s in sp.settings]):
            w = set()
            for p in range(sp.nparties):
                e = np.ravel_multi_index(
                    (x[p],) + tuple(a[j] for j in sp.obs_parents[p]),
                    sp.setting_shape[p])
                w.add((p, int(e), a[p]))
            yield a + x, frozenset(w)


class Programme:
    def __init__(self, B):
        self.B = B
        self.eq, self.ineq = [], []

    def solve(self, c):
        B = self.B
        A = list(B.A) + [r for r, _ in self.eq]
        b = list(B.b) + [v for _, v in self.eq]
        r = linprog(-c, A_eq=np.array(A), b_eq=np.array(b),
                    A_ub=-np.array([r for r, _ in self.ineq])
                    if self.ineq else None,
                    b_ub=-np.array([v for _, v in self.ineq])
                    if self.ineq else None, bounds=(0, None), method="highs")
        return ({0: "optimal", 2: "infeasible"}.get(r.status, "other"),
                -r.fun if r.status == 0 else None)

    def margin(self):
        """Smallest violation of the constraints by a behaviour, and the
        largest slack with which some behaviour of full support fulfils
        them."""
        B = self.B
        A, b = [], []
        for r, v in self.eq:
            A += [np.append(r, 1.), np.append(-r, 1.)]
            b += [v, -v]
        for r, v in self.ineq:
            A.append(np.append(r, 1.))
            b.append(v)
        if not A:
            return 0.
        c = np.zeros(B.n + 1)
        c[-1] = 1.
        r = linprog(c, A_ub=-np.array(A), b_ub=-np.array(b),
                    A_eq=np.hstack([B.A, np.zeros((len(B.A), 1))]),
                    b_eq=B.b, bounds=(0, None), method="highs")
        return r.fun if r.status == 0 else None


def run(case, obs):
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    what = case["what"]
    if what == "xor":
        return xor(case, sp, rng, obs)
    if what == "between":
        return between(case, sp, rng, obs)
    local = case["spec"].get("classical") == "all"
    B = Behaviours(sp, local)
    if what == "lp":
        RefLP(sp, 1300)
        obj = make_lp(sp, include_all_outcomes=bool(rng.random() < .2))
        mons = list(obj.monomials)
        M = l03
        as_input = lambda d: l03.as_input(rng, d)
        tol = 1e-6
    else:
        ng = sum(sp.eff_settings)
        obj = make_sdp(sp, f"npa{ng}", max_cols=34)
        mons = list(obj.moments)
        M = s05
        as_input = lambda d: s05.as_input(rng, d, obj)
        tol = 1e-4
    words = {m: word_of(sp, m) for m in mons}
    pool = [m for m in mons if words[m] is not None]
    rows = {m: B.row(words[m]) for m in pool}
    obs.saw("observable moments", len(pool))
    if not pool:
        raise Skip("no observable moments")
    obs.check(all(np.any(rows[m]) for m in pool), "impossible-moment",
              lambda: str([m.name for m in pool if not np.any(rows[m])]),
              "observable moments")
    P = Programme(B)
    cfg = []
    # a point: interior for semidefinite programmes
    q = np.mean([B.vertex(rng) for _ in range(int(rng.integers(1, 6)))], 0)
    mix = .3 if what == "sdp" else float(rng.choice([0., .3]))
    if mix:
        u = np.full(B.n, 1.)
        if not local:
            for (x, a), i in B.index.items():
                u[i] = 1. / np.prod(sp.outcomes)
        else:
            u /= B.n
        q = mix * u + (1 - mix) * q
    kind = ["none", "dist", "some", "lpi", "hostile"][int(rng.choice(
        5, p=[.3, .15, .3, .1, .15]))]
    if kind == "hostile":
        q = q if local else None
    cfg.append(kind)
    if kind in ("dist", "lpi", "hostile"):
        if kind == "hostile":        # more than the source can do
            N = Behaviours(sp, False)
            qn = np.mean([N.vertex(rng) for _ in range(int(rng.choice(
                [1, 1, 2])))], 0)
            val = lambda w: float(N.row(w) @ qn)
        else:
            val = lambda w: float(B.row(w) @ q)
        T = np.zeros(sp.shape)
        for k, w in observed(sp):
            T[k] = val(w)
            P.eq.append((B.row(w), T[k]))
        obj.set_distribution(T, use_lpi_constraints=kind == "lpi")
    elif kind == "some":
        given = {}
        for i in rng.permutation(len(pool))[:int(rng.integers(1, 5))]:
            m = pool[int(i)]
            v = float(rows[m] @ q)
            if rng.random() < .06:
                v = float(np.round(rng.random(), 2))
            given[M.key_for(rng, m) if M is l03 else m.name] = v
            P.eq.append((rows[m], v))
        obj.set_values(given, use_lpi_constraints=bool(rng.random() < .2))
    x0 = {m: float(rows[m] @ q) if q is not None else 0. for m in pool}
    known = set(obj.known_moments)
    if rng.random() < .35:
        free = [m for m in pool if m not in known]
        for typ in ("up", "lo"):
            if not free or rng.random() < .4:
                continue
            b = {}
            for i in rng.permutation(len(free))[:int(rng.integers(1, 4))]:
                m = free[int(i)]
                b[m] = max(0., x0[m] + (1 if typ == "up" else -1) * float(
                    rng.choice([.2, .05, .02, -.03], p=[.4, .3, .2, .1])))
            obj.set_bounds({M.key_for(rng, m) if M is l03 else m.name: v
                            for m, v in b.items()}, typ)
            for m, v in b.items():
                P.ineq.append((rows[m] if typ == "lo" else -rows[m],
                               v if typ == "lo" else -v))
            cfg.append(typ)
    for typ in ("eq", "ineq"):
        if rng.random() < .25:
            d = combination(rng, pool)
            v = sum(c * x0[m] for m, c in d.items())
            s = 0. if typ == "eq" else float(rng.choice([.1, .02, -.03]))
            d2 = dict(d)
            d2[obj.One] = -v + s
            (obj.set_extra_equalities if typ == "eq"
             else obj.set_extra_inequalities)([as_input(d2)])
            (P.eq if typ == "eq" else P.ineq).append(
                (sum(c * rows[m] for m, c in d.items()), v - s))
            cfg.append("extra " + typ)
    objective = combination(rng, pool, 8) if rng.random() < .8 else None
    direction = "max" if rng.random() < .5 else "min"
    c0 = 0.
    if objective is not None:
        d = dict(objective)
        if rng.random() < .3:
            c0 = float(np.round(rng.normal(), 2))
            d[obj.One] = c0
        obj.set_objective(as_input(d), direction)
        cfg.append(direction)
    sgn = 1. if direction == "max" else -1.
    c = sum((v * rows[m] for m, v in (objective or {}).items()),
            np.zeros(B.n))
    st, val = P.solve(sgn * c)
    mg = P.margin()
    if st == "other" or mg is None:
        raise Skip("reference solver gave up")
    src = "classical" if local else "no-signalling"
    for dual in (True, False):
        obj.solve(solve_dual=dual)
        tag = (f"{what} {src} dual={dual} {cfg} objective "
               f"{[(m.name, v) for m, v in (objective or {}).items()]}")
        obs.saw("library solves")
        if st == "optimal" and mg < 1e-9:
            if what == "sdp" and obj.status not in ("feasible", "infeasible"):
                obs.note("library status " + str(obj.status))
                continue
            if not obs.check(obj.success, "should-be-possible",
                             lambda: f"{tag}: attainable, status "
                             f"{obj.status}", "verdicts"):
                return
            if objective is not None:
                t = sgn * val + c0
                obs.check(abs(obj.objective_value - t) < tol * (1 + abs(t)),
                          "not-exact", lambda: f"{tag}: exact {t}, library "
                          f"{obj.objective_value}", "optima")
            obs.distinct(sp.key(), what, str(cfg))
        elif st == "infeasible" and mg > (1e-5 if what == "lp" else 5e-3):
            if what == "sdp" and obj.status not in ("feasible", "infeasible"):
                obs.note("library status " + str(obj.status))
                continue
            obs.check(not obj.success, "should-be-impossible",
                      lambda: f"{tag}: violated by at least {mg}, status "
                      f"{obj.status} {obj.objective_value}", "verdicts")
            obs.distinct(sp.key(), what, str(cfg))
    obs.sample({"what": what, "source": src, "cfg": cfg, "status": st,
                "value": val, "margin": mg})


def combination(rng, pool, most=4):
    k = int(rng.integers(1, most + 1))
    return {pool[int(i)]: float(np.round(rng.normal(), 2)) or 1.
            for i in rng.permutation(len(pool))[:k]}


def xor(case, sp, rng, obs):
    """Correlations of two binary parties: unit vectors, at level one."""
    cols = ["npa1", "npa2", "local1", [[], [0], [1]], [[], [0], [1], [0, 1]]][
        int(rng.integers(5))]
    sdp = make_sdp(sp, cols, max_cols=20)
    nA, nB = sp.settings
    by = {word_of(sp, m): m for m in sdp.moments}
    one = lambda p, x: by[frozenset([(p, x, 0)])]
    two = lambda x, y: by[frozenset([(0, x, 0), (1, y, 0)])]
    C = np.round(rng.normal(size=(nA, nB)), 2)
    if rng.random() < .3:
        C = rng.choice([-1., 1.], size=(nA, nB))
    C[rng.random(size=C.shape) < .15] = 0.
    if not np.any(C):
        C[0, 0] = 1.
    marg = bool(rng.random() < .5)
    fixed = {}
    if marg and rng.random() < .6:
        for _ in range(int(rng.integers(1, 3))):
            fixed[int(rng.integers(nA)), int(rng.integers(nB))] = float(
                np.round(rng.uniform(-.6, .6), 2))
    d = {}

    def add(m, v):
        d[m] = d.get(m, 0.) + v
    for x in range(nA):
        for y in range(nB):
            add(two(x, y), 4 * C[x, y])
            add(one(0, x), -2 * C[x, y])
            add(one(1, y), -2 * C[x, y])
            add(sdp.One, C[x, y])
    if marg:
        v = {one(0, x).name: .5 for x in range(nA)}
        v.update({one(1, y).name: .5 for y in range(nB)})
        for (x, y), e in fixed.items():
            v[two(x, y).name] = (1 + e) / 4
        sdp.set_values(v)
    direction = "max" if rng.random() < .5 else "min"
    sgn = 1. if direction == "max" else -1.
    sdp.set_objective(s05.as_input(rng, {m: v for m, v in d.items() if v},
                                   sdp), direction)
    # max <C, G>, G >= 0, unit diagonal
    n = nA + nB
    iu = np.triu_indices(n)
    off = [(i, j) for i, j in zip(*iu) if i < j]
    pos = {k: i for i, k in enumerate(off)}
    c = np.zeros(len(off))
    for x in range(nA):
        for y in range(nB):
            c[pos[x, nA + y]] = -sgn * C[x, y]
    A = np.zeros((len(fixed), len(off)))
    b = np.zeros(len(fixed))
    for k, ((x, y), e) in enumerate(fixed.items()):
        A[k, pos[x, nA + y]] = 1.
        b[k] = e
    G = np.zeros((len(iu[0]), len(off)))
    h = np.zeros(len(iu[0]))
    for k, (i, j) in enumerate(zip(*svec_idx(n)[0])):
        if i == j:
            h[k] = 1.
        else:
            G[k, pos[i, j]] = -np.sqrt(2.)
    res = conelp(c, A, b, G, h, 0, [n])
    if res["status"] != "optimal":
        raise Skip("reference " + res["status"])
    t = sgn * -float(c @ res["x"])
    for dual in (True, False):
        sdp.solve(solve_dual=dual)
        obs.saw("library solves")
        if sdp.status not in ("feasible", "infeasible"):
            obs.note("library status " + str(sdp.status))
            continue
        obs.check(sdp.success and abs(sdp.objective_value - t)
                  < 1e-4 * (1 + abs(t)), "not-quantum",
                  lambda: f"{cols} dual={dual} {direction} {C.tolist()} "
                  f"uniform={marg} fixed={fixed}: quantum bound {t}, library "
                  f"{sdp.status} {sdp.objective_value}", "quantum optima")
    obs.distinct(sp.key(), str(cols), marg, len(fixed), direction)


def between(case, sp, rng, obs):
    """A quantum source is between a classical one and no-signalling."""
    sdp = make_sdp(sp, "local1", max_cols=20)
    L, N = Behaviours(sp, True), Behaviours(sp, False)
    words = {m: word_of(sp, m) for m in sdp.moments}
    ok = lambda w: w is not None and len({p for p, _, _ in w}) == len(w)
    pool = [m for m in sdp.moments if ok(words[m])]
    if not pool:
        raise Skip("no observable moments")
    objective = combination(rng, pool, 8)
    direction = "max" if rng.random() < .5 else "min"
    sgn = 1. if direction == "max" else -1.
    pl, pn = Programme(L), Programme(N)
    kind = "none"
    if rng.random() < .4:
        kind = "some"
        q = .3 / L.n + .7 * np.mean([L.vertex(rng) for _ in range(4)], 0)
        v = {}
        for i in rng.permutation(len(pool))[:int(rng.integers(1, 4))]:
            m = pool[int(i)]
            v[m.name] = float(L.row(words[m]) @ q)
            pl.eq.append((L.row(words[m]), v[m.name]))
            pn.eq.append((N.row(words[m]), v[m.name]))
        sdp.set_values(v)
    sdp.set_objective(s05.as_input(rng, objective, sdp), direction)
    lo = pl.solve(sgn * sum(v * L.row(words[m])
                            for m, v in objective.items()))
    up = pn.solve(sgn * sum(v * N.row(words[m])
                            for m, v in objective.items()))
    if lo[0] != "optimal" or up[0] != "optimal":
        raise Skip("reference solver gave up")
    for dual in (True, False):
        sdp.solve(solve_dual=dual)
        obs.saw("library solves")
        if sdp.status not in ("feasible", "infeasible"):
            obs.note("library status " + str(sdp.status))
            continue
        tag = (f"dual={dual} {kind} {direction} "
               f"{[(m.name, v) for m, v in objective.items()]}")
        if obs.check(sdp.success, "should-be-possible", tag, "verdicts"):
            g = sgn * sdp.objective_value
            e = 1e-4 * (1 + abs(g))
            obs.check(lo[1] - e < g, "below-classical",
                      lambda: f"{tag}: classical {sgn * lo[1]}, library "
                      f"{sgn * g}", "optima between")
            obs.check(g < up[1] + e, "above-no-signalling",
                      lambda: f"{tag}: no-signalling {sgn * up[1]}, library "
                      f"{sgn * g}", "optima between")
    obs.distinct(sp.key(), "between", kind, direction, len(objective))
