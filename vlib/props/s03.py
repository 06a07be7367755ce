"""S03: which moments are fixed by a distribution, and to which value."""
import numpy as np
from .. import gen
from ..spec import Spec
from ..runner import Skip
from ..refalg import Algebra
from ..sdpobs import make_sdp, pick_columns, columns_rows
from ..lpobs import RefLP, make_lp, lp_factors
from ..models import ClassicalModel

ID = "S03"
RULE = ("a case is (random scenario, SDP generating set or LP, distribution, "
        "assignment mode); every moment of the relaxation is classified and "
        "evaluated independently from the scenario and the probability array, "
        "and the complete tables of known and semiknown moments are compared; "
        "distinct = distinct (scenario, relaxation, mode) with >= 1 knowable "
        "non-trivial moment")
BUDGET = {"quick": 100, "thorough": 600}
warm = [{"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"], "A": ["C"]},
                      outcomes=[2, 2, 2], settings=[1, 2, 1], levels=[2, 1],
                      classical=["s"]), "what": "sdp", "cols": "npa2",
         "dist": "model", "seed": 1},
        {"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"]},
                      outcomes=[2, 2, 2], settings=[1, 1, 1], levels=[2, 1],
                      classical="all"), "what": "lp",
         "dist": "model", "seed": 1}]


def cases(tier, rng):
    n = 900 if tier == "quick" else 8000
    for k in range(n):
        dist = ["model", "shared", "tiny", "zeros", "nan", "support"][
            int(rng.integers(6))]
        if rng.random() < .55:
            sp = gen.any_spec(rng, max_ops=24 if rng.random() < .8 else 40,
                              maxlevel=3 if rng.random() < .1 else 2)
            yield {"spec": sp.d, "what": "sdp",
                   "cols": pick_columns(rng, sp, 70), "dist": dist,
                   "seed": int(rng.integers(2 ** 31))}
        else:
            sp = gen.any_spec(rng, max_ops=24, classical=[None, "all", "none"]
                              [int(rng.integers(3))])
            yield {"spec": sp.d, "what": "lp", "dist": dist,
                   "seed": int(rng.integers(2 ** 31)),
                   "allout": bool(rng.random() < .3)}


def distribution(sp, rng, kind):
    """A probability array p[a.., x..] that respects the observed causal
    order (not necessarily the sources)."""
    if kind == "model":
        return ClassicalModel(sp, rng, card=2).distribution()
    # an extra source shared by all parties; no-signalling but correlated
    d = dict(sp.d)
    d["dag"] = {k: list(v) for k, v in sp.d["dag"].items()}
    d["dag"]["extra0"] = list(sp.names)
    if isinstance(d["levels"], int):
        d["levels"] = [d["levels"]] * sp.nsources
    d["levels"] = list(d["levels"]) + [1]
    d["order"] = list(sp.names)
    m = ClassicalModel(Spec(d), rng, card=[2] * sp.nsources + [4],
                       style="surj")
    if kind == "zeros":
        m.w[-1] = np.array([.5, .5, 0., 0.])
        for s in range(sp.nsources):
            m.w[s] = np.array([1., 0.])
    if kind == "tiny":
        # some of the values are small, but not zero
        for k in range(sp.nsources + 1):
            n = len(m.w[k])
            if rng.random() < .5:
                m.w[k] = np.full(n, 10. ** -rng.uniform(2.5, 4.5))
                m.w[k][rng.integers(n)] += 1. - m.w[k].sum()
    return m.distribution()


class Reference:
    """Knowability and values straight from the scenario."""

    def __init__(self, sp, P):
        self.sp, self.P = sp, P
        self.alg = Algebra(sp)

    def knowable(self, w):
        """Whether an irreducible product is a probability of the original
        scenario."""
        sp = self.sp
        if not all(self.alg.commute(a, b) for a in w for b in w):
            return False
        parties = [r[0] - 1 for r in w]
        if len(set(parties)) < len(parties):
            return False
        for s in range(sp.nsources):
            if len({r[1 + s] for r in w if r[1 + s]}) > 1:
                return False
        out = {r[0] - 1: r[-1] for r in w}
        for r in w:
            p = r[0] - 1
            _, par = sp.decode_setting(p, r[-2])
            for q, a in zip(sp.obs_parents[p], par):
                if out.get(q) != a:
                    return False
        return True

    def value(self, w):
        sp, P = self.sp, self.P
        out = {r[0] - 1: r for r in w}
        ix = []
        for p in range(sp.nparties):
            ix.append(int(out[p][-1]) if p in out else slice(None))
        for p in range(sp.nparties):
            ix.append(sp.decode_setting(p, out[p][-2])[0] if p in out else 0)
        v = P[tuple(ix)]
        return float(np.sum(v))

    def moment(self, factors):
        """(list of factor keys, known values, unknown keys)"""
        vals, unk = [], []
        for w in factors:
            if self.knowable(w):
                vals.append(self.value(w))
            else:
                unk.append(w)
        return vals, unk


def run(case, obs):
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    if sum(int(np.prod(range(1, n + 1))) for n in sp.levels) > 30:
        raise Skip("symmetry group too large")
    if len(sp.nil) > 1 and case["what"] == "sdp":
        pass
    P = distribution(sp, rng, case["dist"])
    if P.shape != sp.shape:
        raise Skip("shape")
    assert np.allclose(P.sum(axis=tuple(range(sp.nparties))), 1)
    nan = case["dist"] == "nan"
    if nan:
        P = P.copy()
        P[rng.random(P.shape) < .25] = np.nan
    if case["dist"] == "support":
        P = (P > 1e-9).astype(float)
    ref = Reference(sp, P)
    alg = ref.alg
    if case["what"] == "sdp":
        obj = make_sdp(sp, case["cols"], max_cols=140)
        moms = list(obj.moments)
    else:
        RefLP(sp, 3000, alg)
        obj = make_lp(sp, include_all_outcomes=case.get("allout", False))
        moms = list(obj.monomials)
    facs = {}
    for m in moms:
        facs[m] = lp_factors(m)
    lim = 600
    if len(moms) > lim:
        moms = [moms[i] for i in rng.permutation(len(moms))[:lim]]
        part = True
    else:
        part = False

    def unknown_key(ws):
        k = tuple(sorted(alg.atom_key(alg.normal(w)) for w in ws))
        k2 = tuple(sorted(alg.atom_key(alg.normal(tuple(reversed(w))))
                          for w in ws))
        return min(k, k2)

    nk = 0
    for m in moms:
        if m.is_zero or m.is_one:
            continue
        v, u = ref.moment(facs[m])
        st = ("Knowable" if not u else "Unknowable" if not v else "Semi")
        obs.check(m.knowability_status == st, "knowability",
                  lambda: f"{m.name} ({facs[m]}) classified "
                  f"{m.knowability_status}, should be {st}", "classified")
        obs.check(bool(m.is_knowable) == (st == "Knowable"), "is-knowable",
                  f"{m.name}", "classified")
        nk += st == "Knowable"
        if st == "Knowable" and not nan:
            t = float(np.prod(v))
            got = float(m.compute_marginal(P))
            obs.check(abs(got - t) < 1e-9, "marginal",
                      lambda: f"compute_marginal of {m.name} gives {got}, "
                      f"expected {t}", "marginals")
    for mode in ("plain", "lpi", "shared"):
        lpi, shared = mode == "lpi", mode == "shared"
        obj.set_distribution(P, use_lpi_constraints=lpi,
                             shared_randomness=shared)
        kn = dict(obj.known_moments)
        sk = dict(obj.semiknown_moments)
        count = 0
        for m in moms:
            if m.is_zero or m.is_one:
                t = 0. if m.is_zero else 1.
                obs.check(m in kn and float(kn[m]) == t, "constant",
                          f"{m.name} should be known to be {t}",
                          "assignments")
                continue
            v, u = ref.moment(facs[m])
            isn = any(np.isnan(x) for x in v)
            if nan and isn:
                # factors without a value count as unknown
                v2, u2 = [], list(u)
                for w in facs[m]:
                    if ref.knowable(w):
                        x = ref.value(w)
                        (u2.append(w) if np.isnan(x) else v2.append(x))
                v, u = v2, u2
            t = None
            semi = None
            if not u:
                if not shared or len(facs[m]) == 1:
                    t = float(np.prod(v))
            elif v and lpi:
                x = float(np.prod(v))
                if 1e-13 < abs(x) < 1e-7:
                    continue    # on the edge of what counts as zero
                if abs(x) < 1e-8:
                    t = 0.
                else:
                    semi = (x, unknown_key(u))
            if t is None:
                obs.check(m not in kn, "spurious-known",
                          lambda: f"[{mode}] {m.name} ({facs[m]}) was given "
                          f"the value {kn[m]}", "assignments")
            else:
                count += 1
                ok = m in kn and abs(float(kn[m]) - t) < 1e-9
                obs.check(ok, "known-value",
                          lambda: f"[{mode}] {m.name} ({facs[m]}) should be "
                          f"{t}, is {kn.get(m, 'unset')}", "assignments")
            if semi is None:
                obs.check(m not in sk, "spurious-semiknown",
                          lambda: f"[{mode}] {m.name}: {sk[m]}",
                          "assignments")
            else:
                count += 1
                ok = m in sk
                if ok:
                    c, um = sk[m]
                    ok = abs(float(c) - semi[0]) < 1e-9 and unknown_key(
                        lp_factors(um)) == semi[1]
                obs.check(ok, "semiknown-value",
                          lambda: f"[{mode}] {m.name} ({facs[m]}) should be "
                          f"{semi}, is {sk.get(m, 'unset')}", "assignments")
        if not part:
            allm = set(moms)
            obs.check(set(kn) <= allm | {obj.One}, "known-outside",
                      lambda: f"known moments outside the relaxation: "
                      f"{list(set(kn) - allm)[:3]}", "assignments")
        if count:
            obs.distinct(sp.key(), case["what"], str(case.get("cols")), mode)
    if not nan:
        partial(sp, alg, ref, obj, moms, facs, rng, obs)
        if int(np.prod(sp.shape)) <= 200 and len(moms) < 120:
            symbolic(sp, ref, obj, moms, facs, P, obs)
    obj.set_distribution(None)
    left = [m for m in obj.known_moments if not (m.is_zero or m.is_one)]
    obs.check(not left and not obj.semiknown_moments, "reset",
              f"values left after set_distribution(None): {left[:3]}",
              "resets")
    obs.sample({"moments": len(moms), "knowable": nk})


def symbolic(sp, ref, obj, moms, facs, P, obs):
    """A distribution given by symbols is propagated symbolically."""
    import sympy
    S = np.empty(sp.shape, dtype=object)
    val = {}
    for ix in np.ndindex(*sp.shape):
        S[ix] = sympy.Symbol("q" + "_".join(map(str, ix)))
        val[S[ix]] = sympy.Float(P[ix])
    obj.set_distribution(S)
    kn = obj.known_moments
    for m in moms[:60]:
        if m.is_zero or m.is_one:
            continue
        v, u = ref.moment(facs[m])
        if u:
            obs.check(m not in kn, "symbolic-spurious", m.name,
                      "symbolic assignments")
            continue
        t = float(np.prod(v))
        e = kn.get(m)
        got = None if e is None else float(sympy.sympify(e).subs(val))
        obs.check(got is not None and abs(got - t) < 1e-7, "symbolic-value",
                  lambda: f"{m.name}: {e} -> {got}, expected {t}",
                  "symbolic assignments")


def partial(sp, alg, ref, obj, moms, facs, rng, obs):
    """Values given for some of the atoms, by object, name or symbol, in one
    or two calls."""
    def wkey(w):
        a = alg.atom_key(alg.normal(w))
        b = alg.atom_key(alg.normal(tuple(reversed(w))))
        return min(a, b)
    atoms = [a for a in obj.atomic_monomials if not (a.is_zero or a.is_one)]
    allm = set(obj.moments if hasattr(obj, "moments") else obj.monomials)
    if not atoms:
        return
    for lpi, only in ((False, False), (True, False), (False, True)):
        k = int(rng.integers(1, min(len(atoms), 6) + 1))
        pick = [atoms[i] for i in rng.permutation(len(atoms))[:k]]
        if rng.random() < .5:
            kn = [a for a in atoms if a.is_knowable]
            pick = [kn[i] for i in rng.permutation(len(kn))[:k]]
        if only:
            pick = [a for a in pick if a in allm]
        val, given = {}, {}
        for a in pick:
            w = lp_factors(a)[0]
            if wkey(w) in val:
                continue
            val[wkey(w)] = float(rng.choice([0., .25, .5, .7, 1., 3e-4,
                                                    1e-5, .999]))
            how = int(rng.integers(3))
            if how == 1:
                key = a.name
            elif how == 2:
                key = a.symbol
            else:
                key = a
            given[key] = val[wkey(w)]
        if not given:
            continue
        ks = list(given)
        kw = dict(use_lpi_constraints=lpi, only_specified_values=only)
        if len(ks) > 1 and rng.random() < .5:
            # a second call adds to the first one; atoms outside the moment
            # matrix are forgotten in between
            if all(a in allm for a in pick):
                obj.set_values({x: given[x] for x in ks[:1]}, **kw)
                obj.update_values({x: given[x] for x in ks[1:]}, **kw)
                obs.saw("incremental assignments")
            else:
                obj.set_values(given, **kw)
        else:
            obj.set_values(given, **kw)
        got, sk = obj.known_moments, obj.semiknown_moments
        for m in moms:
            if m.is_zero or m.is_one:
                continue
            ks_ = [wkey(w) for w in facs[m]]
            v = [val[x] for x in ks_ if x in val]
            unk = [x for x in ks_ if x not in val]
            t, semi = None, None
            if len(ks_) == 1 or not only:
                if not unk:
                    t = float(np.prod(v))
                elif v and lpi:
                    x = float(np.prod(v))
                    if 1e-13 < abs(x) < 1e-7:
                        continue    # on the edge of what counts as zero
                    if abs(x) < 1e-8:
                        t = 0.
                    else:
                        semi = (x, tuple(sorted(unk)))
            if t is None:
                obs.check(m not in got, "partial-spurious",
                          lambda: f"{m.name} ({facs[m]}) got {got.get(m)} from "
                          f"{given} lpi={lpi} only={only}",
                          "partial assignments")
            else:
                obs.check(m in got and abs(float(got[m]) - t) < 1e-9,
                          "partial-known",
                          lambda: f"{m.name} ({facs[m]}) is "
                          f"{got.get(m, 'unset')}, expected {t}, from {given} "
                          f"lpi={lpi} only={only}", "partial assignments")
            if semi is None:
                obs.check(m not in sk, "partial-spurious-semi", m.name,
                          "partial assignments")
            else:
                ok = m in sk and abs(float(sk[m][0]) - semi[0]) < 1e-9 and \
                    tuple(sorted(wkey(w) for w in lp_factors(sk[m][1]))) \
                    == semi[1]
                obs.check(ok, "partial-semi",
                          lambda: f"{m.name} ({facs[m]}) is "
                          f"{sk.get(m, 'unset')}, expected {semi}, from "
                          f"{given}", "partial assignments")
