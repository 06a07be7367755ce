"""V01: every view of a programme shows the same programme."""
import numpy as np
from .. import gen
from ..spec import Spec
from ..runner import Skip
from ..sdpobs import make_sdp, pick_columns
from ..lpobs import RefLP, make_lp, column_words, lp_factors
from .h01 import Recorder, Net, step, capture, programme, difference, rows
from .s03 import Reference

ID = "V01"
RULE = ("a case is (scenario, SDP or LP, random sequence of operations); "
        "after each of them every table of the object (moments, names, "
        "matrices, arguments of the solver) is read and compared with the "
        "programme that is handed to the solver, and the tables that do not "
        "depend on values with the scenario; distinct = distinct (scenario, "
        "sequence of kinds of operations) with >= 2 comparisons")
BUDGET = {"quick": 60, "thorough": 500}
warm = [{"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"], "A": ["C"]},
                      outcomes=[2, 2, 2], settings=[1, 2, 1], levels=[2, 1],
                      classical=["s"]), "what": "sdp",
         "cols": "npa2", "seed": 3, "nops": 3},
        {"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"]},
                      outcomes=[2, 2, 2], settings=[1, 1, 1], levels=[2, 1],
                      classical="all"), "what": "lp", "seed": 1, "nops": 3}]


def cases(tier, rng):
    n = 500 if tier == "quick" else 6000
    for k in range(n):
        sup = bool(rng.random() < .12)
        nops = int(rng.integers(2, 7))
        if rng.random() < .35:
            sp = gen.any_spec(rng, max_ops=20)
            yield {"spec": sp.d, "what": "sdp", "sup": sup, "nops": nops,
                   "cols": pick_columns(rng, sp, 40),
                   "seed": int(rng.integers(2 ** 31))}
        else:
            sp = gen.any_spec(rng, max_ops=24, maxlevel=3
                              if rng.random() < .15 else 2,
                              classical=[None, "all", "none"]
                              [int(rng.integers(3))])
            yield {"spec": sp.d, "what": "lp", "sup": sup, "nops": nops,
                   "allout": bool(rng.random() < .2) and not sup,
                   "seed": int(rng.integers(2 ** 31))}


def run(case, obs):
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    what, sup = case["what"], case.get("sup", False)
    if sum(int(np.prod(range(1, n + 1))) for n in sp.levels) > 30:
        raise Skip("symmetry group too large")
    ref = Reference(sp, np.full(sp.shape, 1. / np.prod(sp.outcomes)))
    if what == "sdp":
        obj = make_sdp(sp, case["cols"], max_cols=60, supports_problem=sup)
        mons = list(obj.moments)
        sdp_tables(obj, obs)
    else:
        RefLP(sp, 1500, ref.alg)
        obj = make_lp(sp, supports_problem=sup,
                      include_all_outcomes=case.get("allout", False))
        mons = list(obj.monomials)
        lp_tables(obj, sp, ref.alg, obs)
    counts(obj, mons, sp, ref, obs)
    net, ops, n = Net(), [], 0
    for k in range(case["nops"]):
        try:
            step(obj, net, sp, what, sup, rng, ops)
        except AssertionError as e:
            if "contradicts" in str(e):
                raise Skip("values contradict bounds")
            raise
        order = list((lp_views if what == "lp" else sdp_views).items())
        if rng.random() < .5:
            order = [order[i] for i in rng.permutation(len(order))]
        exp = capture(obj, what)
        for name, f in order:
            got = f(obj)
            got = programme(got, what)
            if what == "sdp" and any(o.startswith("reset") for o in ops):
                # (resetting the values keeps the table of bounds short, as
                # the tests require, until the next assignment)
                got["inequalities"] |= {
                    r for r in exp["inequalities"] - got["inequalities"]
                    if len([k for k, _ in r if k != "#"]) == 1}
            obs.check(got == exp, "view " + name,
                      lambda: f"after {ops}: {difference(got, exp)}",
                      "views compared")
            n += 1
        obs.check(capture(obj, what) == exp, "view-changes",
                  f"after {ops}: reading the tables changes the programme",
                  "views compared")
        obs.check(obj.maximize == (net.obj is None or net.obj[1] == "max"),
                  "direction", f"after {ops}", "directions")
    if n >= 2:
        obs.distinct(sp.key(), str(case.get("cols")), tuple(ops))
    obs.sample({"operations": ops, "moments": len(mons)})


# ---------------------------------------------------------------------------
# views of a programme as arguments of a solver
# ---------------------------------------------------------------------------

def lp_by_name(lp):
    return {"variables": lp.monomial_names, "objective": lp.objective_by_name,
            "known_vars": lp.known_vars_by_name,
            "equalities": list(lp.moment_equalities_by_name)
            + [{x: 1., u: -c} for x, (c, u) in lp.semiknown_by_name.items()],
            "inequalities": lp.moment_inequalities_by_name,
            "lower_bounds": lp.lowerbounds_by_name,
            "upper_bounds": lp.upperbounds_by_name,
            "default_non_negative": True}


def lp_matrices(lp):
    names = [str(x) for x in lp.monomial_names]
    return {"variables": lp.monomial_names, "objective": lp.sparse_objective,
            "known_vars": lp.sparse_known_vars,
            "equalities": rows(lp.sparse_equalities, names)
            + rows(lp.sparse_semiknown, names),
            "inequalities": lp.sparse_inequalities,
            "lower_bounds": lp.sparse_lowerbounds,
            "upper_bounds": lp.sparse_upperbounds,
            "default_non_negative": True}


def lp_parts(lp):
    """The matrices of the structure and of the user's constraints apart."""
    names = [str(x) for x in lp.monomial_names]
    d = lp_matrices(lp)
    d["equalities"] = rows(lp.minimal_sparse_equalities, names) \
        + rows(lp.sparse_extra_equalities, names) \
        + [{x.name: 1., u.name: -c}
           for x, (c, u) in lp.semiknown_moments.items()]
    d["inequalities"] = rows(lp.minimal_sparse_inequalities, names) \
        + rows(lp.sparse_extra_inequalities, names)
    return d


def nm(d):
    return {m.name: float(v) for m, v in d.items()}


def lp_moments(lp):
    return {"variables": [m.name for m in lp.monomials],
            "objective": nm(lp.objective), "known_vars": nm(lp.known_moments),
            "equalities": [nm(e) for e in lp.moment_equalities]
            + [{x.name: 1., u.name: -c}
               for x, (c, u) in lp.semiknown_moments.items()],
            "inequalities": [nm(e) for e in lp.moment_inequalities],
            "lower_bounds": nm(lp.moment_lowerbounds),
            "upper_bounds": nm(lp.moment_upperbounds),
            "default_non_negative": True}


def sdp_moments(s):
    ineq = [nm(e) for e in s.moment_inequalities]
    for m, b in s.moment_lowerbounds.items():
        ineq.append({m.name: 1., "constant_term": -float(b)})
    for m, b in s.moment_upperbounds.items():
        ineq.append({m.name: -1., "constant_term": float(b)})
    mm = np.asarray(s.momentmatrix)
    masks = {}
    for i, m in s.compmoment_from_idx.items():
        if i in mm:
            masks[m.name] = (mm == i).astype(int)
    return {"variables": None, "objective": nm(s.objective),
            "known_vars": nm(s.known_moments),
            "semiknown_vars": {x.name: (float(c), u.name)
                               for x, (c, u) in s.semiknown_moments.items()},
            "equalities": [nm(e) for e in s.moment_equalities],
            "inequalities": ineq, "mask_matrices": masks}


lp_views = {"by name": lp_by_name, "as matrices": lp_matrices,
            "as matrices, in parts": lp_parts, "as moments": lp_moments}
sdp_views = {"as moments": sdp_moments}


# ---------------------------------------------------------------------------
# tables that depend on the scenario only
# ---------------------------------------------------------------------------

def lp_tables(lp, sp, alg, obs):
    cols = column_words(lp)
    mons = list(lp.monomials)
    n = len(mons)
    obs.check([m.name for m in mons] == [str(x) for x in lp.monomial_names]
              == list(lp.monomials_as_strings), "names",
              "names of the variables and monomials differ", "tables")
    obs.check(len(set(map(str, lp.monomial_names))) == n, "names",
              "variables with the same name", "tables")
    obs.check(all(lp.compmonomial_to_idx[m] == i and
                  lp.compmonomial_from_idx[i] == m
                  for i, m in enumerate(mons)) and
              len(lp.compmonomial_to_idx) == len(lp.compmonomial_from_idx)
              == lp.n_columns == n, "indices",
              "numbering of the variables", "tables")
    at = lambda w: alg.atom_key(tuple(sorted(w)))
    want = {}
    for i, w in enumerate(cols):
        comp = [tuple(sorted(c)) for c in alg.components(tuple(sorted(w)))]
        if len(comp) > 1:
            want[i] = tuple(sorted(at(c) for c in comp))
    keys = lambda m: [at(w) for w in lp_factors(m)]
    names = {m.name: i for i, m in enumerate(mons)}
    got = {lp.compmonomial_to_idx[m]: tuple(sorted(
        sum((keys(f) for f in fs), [])))
        for m, fs in lp.factorization_conditions.items()}
    obs.check(got == want, "factorisation",
              lambda: f"listed {set(got.items()) - set(want.items())}, missing"
              f" {set(want.items()) - set(got.items())}"[:500],
              "factorisation tables")
    obs.check(all(len(f.factors) == 1
                  for fs in lp.factorization_conditions.values()
                  for f in fs), "factorisation-atoms",
              "a factor is itself a product", "factorisation tables")
    got = {lp.compmonomial_to_idx[m]: tuple(sorted(
        sum((keys(f) for f in fs), []))) if len(fs) == 2 and
        all(len(f.factors) for f in fs) else None
        for m, fs in lp.quadratic_factorization_conditions.items()}
    obs.check(got == want, "quadratic",
              lambda: f"listed {set(got.items()) - set(want.items())}, missing"
              f" {set(want.items()) - set(got.items())}"[:500],
              "factorisation tables")
    for kind in ("factorization", "quadratic_factorization"):
        base = getattr(lp, kind + "_conditions")
        obs.check(getattr(lp, kind + "_conditions_by_name") ==
                  {m.name: tuple(f.name for f in fs)
                   for m, fs in base.items()}, kind + "-by-name",
                  "differs from the moments", "factorisation tables")
        if all(f in lp.compmonomial_to_idx for fs in base.values()
               for f in fs):
            sparse = getattr(lp, "sparse_" + kind + "_conditions")
            obs.check({int(k): tuple(int(i) for i in v)
                       for k, v in sparse.items()} ==
                      {names[m.name]: tuple(names[f.name] for f in fs)
                       for m, fs in base.items()}, kind + "-sparse",
                      "differs from the moments", "factorisation tables")
        else:
            obs.bad(kind + "-missing", "factors that are not variables: "
                    f"{[f.name for fs in base.values() for f in fs if f not in lp.compmonomial_to_idx][:4]}")
    obs.check(all(lp.names_to_symbols[m.name] == m.symbol for m in mons),
              "symbols", "names and symbols", "tables")


def sdp_tables(s, obs):
    mm = np.asarray(s.momentmatrix)
    idx = s.compmoment_from_idx
    obs.check(set(int(i) for i in np.unique(mm)) <= set(idx), "indices",
              "entries of the matrix without a moment", "tables")
    obs.check(mm.shape == (s.n_columns, s.n_columns), "size",
              f"{mm.shape} {s.n_columns}", "tables")
    ms = list(s.moments)
    obs.check(len(set(ms)) == len(ms) and set(ms) == set(idx.values()),
              "moments", "moments and numbers differ", "tables")
    obs.check(len({m.name for m in ms}) == len(ms), "names",
              "moments with the same name", "tables")
    obs.check(all(m in set(ms) for m in s.hermitian_moments) and
              set(s.nonnegative_moments) <= set(s.hermitian_moments) |
              {s.One}, "hermitian", "nonnegative but not Hermitian moments",
              "tables")
    obs.check(all(s.names_to_symbols[m.name] == m.symbol for m in ms),
              "symbols", "names and symbols", "tables")


def counts(obj, mons, sp, ref, obs):
    st = {"Knowable": 0, "Semi": 0, "Unknowable": 0}
    atoms = set()
    for m in mons:
        f = lp_factors(m)
        if m.is_zero:
            st["Knowable"] += 1
            continue
        v, u = ref.moment(f)
        st["Knowable" if not u else "Unknowable" if not v else "Semi"] += 1
        atoms.update(f)
    got = (obj.n_knowable, obj.n_something_knowable, obj.n_unknowable)
    obs.check(got == (st["Knowable"], st["Semi"], st["Unknowable"]),
              "counts", lambda: f"{got}, expected {st}", "counts")
    words = lambda ms: [f for m in ms if not m.is_zero
                        for f in lp_factors(m)]
    am = words(obj.atomic_monomials)
    alg = ref.alg
    flip = lambda ws: {min(alg.atom_key(alg.normal(w)), alg.atom_key(
        alg.normal(tuple(reversed(w))))) for w in ws}
    obs.check(flip(am) == flip(atoms), "atoms",
              lambda: f"{flip(am) ^ flip(atoms)}"[:300], "atoms")
    k = words(obj.knowable_atoms)
    want = {w for w in atoms if ref.knowable(w)}
    obs.check(set(k) == want, "knowable-atoms",
              lambda: f"{set(k) ^ want}"[:300], "atoms")
    d = set(words(obj.do_conditional_atoms))
    for w in atoms - want:
        if len({r[0] for r in w}) < len(w):
            continue
        one = all(len({r[1 + s] for r in w if r[1 + s]}) <= 1
                  for s in range(sp.nsources))
        obs.check((w in d) == one, "do-conditionals",
                  lambda: f"{w}: listed {w in d}, expected {one}", "atoms")
