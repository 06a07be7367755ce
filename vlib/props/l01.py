"""L01: the LP relaxation is satisfied by every model of the causal
structure."""
import numpy as np
from .. import gen
from ..spec import Spec
from ..runner import Skip
from ..refalg import Algebra
from ..sdpobs import Realisation, TOL
from ..lpobs import RefLP, make_lp, column_words

ID = "L01"
RULE = ("a case is (random causal scenario, fanout or nonfanout LP); all "
        "variables of the generated program are evaluated in explicit random "
        "models (classical for fanout inflation, quantum and classical for "
        "nonfanout inflation) and every constraint, symmetry identification, "
        "factorisation and fixed value is tested on them; distinct = distinct "
        "(scenario, options) with >= 3 variables compared with a model")
ASSUMPTIONS = ["models are finite-dimensional, tolerance 1e-7"]
BUDGET = {"quick": 100, "thorough": 600}
warm = [{"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"], "A": ["C"]},
                      outcomes=[2, 2, 2], settings=[1, 2, 1], levels=[2, 1],
                      classical=["s"]), "fanout": False, "allout": False,
         "seed": 1}]


def cases(tier, rng):
    n = 900 if tier == "quick" else 8000
    for k in range(n):
        fan = bool(rng.random() < .45)
        sp = gen.any_spec(rng, max_ops=20 if rng.random() < .7 else 30,
                          classical="all" if fan else
                          [None, "none", "none"][int(rng.integers(3))],
                          maxlevel=3 if rng.random() < .15 else 2)
        yield {"spec": sp.d, "fanout": fan and not sp.nil,
               "allout": bool(rng.random() < .2),
               "seed": int(rng.integers(2 ** 31))}


def run(case, obs):
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    alg = Algebra(sp)
    RefLP(sp, 6000, alg)
    kw = {}
    if case["fanout"]:
        kw["nonfanout"] = False
    lp = make_lp(sp, include_all_outcomes=case["allout"], **kw)
    cols = column_words(lp)
    obs.check(len(cols) == len(lp.monomials) == lp.n_columns, "columns",
              f"{len(cols)} {len(lp.monomials)} {lp.n_columns}")
    kinds = ["classical"]
    if not all(sp.is_classical):
        kinds += ["quantum", "quantum"]
    ok = 0
    for k, kind in enumerate(kinds):
        R = None
        if kind == "classical":
            for card in (3, 2):
                R = Realisation(sp, kind, int(rng.integers(2 ** 31)),
                                card=card, style="surj")
                if R.m.npoints() * sp.n_ops() < 2e7:
                    break
                R = None
        else:
            R = Realisation(sp, kind, int(rng.integers(2 ** 31)),
                            complex_=bool(k % 2))
            if R.m.qdim() > 2 ** 12:
                R = None
        if R is None:
            obs.note("model too large")
            continue
        ok += 1
        compare(sp, lp, cols, R, rng, obs, 400 if kind == "classical" else 120)
    if not ok:
        raise Skip("models too large")
    if len(cols) >= 3:
        obs.distinct(sp.key(), case["fanout"], case["allout"])
    obs.sample({"variables": len(cols)})


def rows_of(M):
    M = M.tocsr()
    return [dict(zip(M.indices[M.indptr[i]:M.indptr[i + 1]].tolist(),
                     M.data[M.indptr[i]:M.indptr[i + 1]].tolist()))
            for i in range(M.shape[0])]


def compare(sp, lp, cols, R, rng, obs, lim):
    memo = {}

    def val(i):
        i = int(i)
        if i not in memo:
            memo[i] = float(np.real(R.word(cols[i])))
        return memo[i]

    def some(seq, n=lim):
        seq = list(seq)
        if len(seq) <= n:
            return seq
        return [seq[i] for i in rng.permutation(len(seq))[:n]]
    for row in some(rows_of(lp.minimal_sparse_equalities), lim // 2):
        t = sum(c * val(i) for i, c in row.items())
        obs.check(abs(t) < TOL, "equality",
                  lambda: f"{ {lp.monomials[i].name: c for i, c in row.items()} }"
                  f" = {t} in a {R.kind} model", "equalities")
    for row in some(rows_of(lp.minimal_sparse_inequalities), lim // 2):
        t = sum(c * val(i) for i, c in row.items())
        obs.check(t > -TOL, "inequality",
                  lambda: f"{ {lp.monomials[i].name: c for i, c in row.items()} }"
                  f" = {t} in a {R.kind} model", "inequalities")
    # identification of events under inflation symmetries
    lex = np.asarray(lp._lexorder)
    raw = lp._raw_monomials_as_lexboolvecs
    for k in some(range(len(raw))):
        w = tuple(tuple(int(v) for v in lex[i]) for i in np.flatnonzero(raw[k]))
        a, b = float(np.real(R.word(w))), val(lp.inverse[k])
        obs.check(abs(a - b) < TOL, "orbit",
                  lambda: f"event {w} = {a} is identified with "
                  f"{cols[int(lp.inverse[k])]} = {b}", "identifications")
    for i in some(range(len(cols))):
        m = lp.monomials[i]
        t = R.moment(m)
        obs.check(abs(t - val(i)) < TOL, "factorisation",
                  lambda: f"variable {cols[i]} = {val(i)} has factors "
                  f"{[f.name for f in m.factors]} = {t}", "factorisations")
    for m, fac in some(lp.factorization_conditions.items(), 60):
        t = np.prod([R.moment(f) for f in fac])
        obs.check(abs(t - val(lp.compmonomial_to_idx[m])) < TOL,
                  "factorization-condition", lambda: f"{m} = {fac}",
                  "factorisations")
    for m, fac in some(lp.quadratic_factorization_conditions.items(), 60):
        t = np.prod([R.moment(f) for f in fac])
        obs.check(len(fac) == 2 and
                  abs(t - val(lp.compmonomial_to_idx[m])) < TOL,
                  "quadratic-condition", lambda: f"{m} = {fac}",
                  "factorisations")
    for m, b in lp.moment_lowerbounds.items():
        obs.check(val(lp.compmonomial_to_idx[m]) > b - TOL, "lower-bound",
                  f"{m} >= {b}", "bounds")
    for m, b in lp.moment_upperbounds.items():
        obs.check(val(lp.compmonomial_to_idx[m]) < b + TOL, "upper-bound",
                  f"{m} <= {b}", "bounds")
    P = R.distribution()
    for lpi, shared in ((False, False), (True, False), (False, True)):
        lp.set_distribution(P, use_lpi_constraints=lpi,
                            shared_randomness=shared)
        for m, v in some(lp.known_moments.items(), lim // 2):
            t = val(lp.compmonomial_to_idx[m])
            obs.check(abs(t - float(v)) < TOL, "known-value",
                      lambda: f"{m.name} set to {v}, model has {t}",
                      "known values")
        for m, (c, u) in some(lp.semiknown_moments.items(), lim // 4):
            t = val(lp.compmonomial_to_idx[m])
            t2 = R.moment(u)
            obs.check(abs(t - float(c) * t2) < TOL, "semiknown",
                      lambda: f"{m.name}={t} but {c}*{u.name}={c * t2}",
                      "LPI constraints")
    lp.set_distribution(None)
    obs.saw("models (%s)" % R.kind)
