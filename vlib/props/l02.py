"""L02: the LP contains exactly the constraints of the inflation technique."""
import itertools
import numpy as np
from .. import gen
from ..spec import Spec
from ..runner import Skip
from ..refalg import Algebra
from ..lpobs import RefLP, make_lp, column_words, lp_key
from .l01 import rows_of

ID = "L02"
RULE = ("a case is (random scenario, options); contexts, events, orbits, "
        "normalisation and positivity constraints are rebuilt from the "
        "scenario and compared, after exact expansion in a Collins-Gisin "
        "basis, with every row of the program generated by the real code; "
        "distinct = distinct (scenario, options) with >= 3 variables")
BUDGET = {"quick": 100, "thorough": 600}
warm = [{"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"], "A": ["C"]},
                      outcomes=[2, 2, 2], settings=[1, 2, 1], levels=[2, 1],
                      classical=["s"]), "fanout": False, "allout": False,
         "seed": 1}]


def cases(tier, rng):
    n = 800 if tier == "quick" else 8000
    for k in range(n):
        fan = bool(rng.random() < .4)
        sp = gen.any_spec(rng, max_ops=20 if rng.random() < .7 else 30,
                          classical="all" if fan else
                          [None, "none"][int(rng.integers(2))],
                          maxlevel=3 if rng.random() < .15 else 2)
        yield {"spec": sp.d, "fanout": fan and not sp.nil,
               "allout": bool(rng.random() < .25),
               "seed": int(rng.integers(2 ** 31))}


def run(case, obs):
    sp = Spec(case["spec"])
    if sum(int(np.prod(range(1, n + 1))) for n in sp.levels) > 30:
        raise Skip("symmetry group too large")
    if len(sp.nil) > 1:
        raise Skip("several nonclassical latents: commutation is only "
                   "conservative")
    alg = Algebra(sp)
    ref = RefLP(sp, 2500, alg)
    kw = {"nonfanout": False} if case["fanout"] else {}
    lp = make_lp(sp, include_all_outcomes=case["allout"], **kw)
    cols = column_words(lp)
    keyof = {}

    def key(ev):
        if ev not in keyof:
            keyof[ev] = ref.key(ev)
        return keyof[ev]
    # variables: one per class of events, without the last outcome of
    # childless parties
    full = [case["allout"] or sp.has_children[p] for p in range(sp.nparties)]
    want = set()
    for c in ref.cliques:
        for ev in ref.events(c):
            if all(full[r[0] - 1] or r[-1] < sp.outcomes[r[0] - 1] - 1
                   for r in ev):
                want.add(key(ev))
    got = [key(tuple(sorted(w))) for w in cols]
    obs.saw("variables", len(got))
    obs.check(len(set(got)) == len(got), "duplicate-variable",
              lambda: f"{len(got) - len(set(got))} classes of events have "
              "several variables", "variable tables")
    obs.check(set(got) == want, "variables",
              lambda: f"missing {list(want - set(got))[:2]}, unexpected "
              f"{list(set(got) - want)[:2]}", "variable tables")
    for i, m in enumerate(lp.monomials):
        obs.check(lp_key(alg, m) == got[i], "monomial-object",
                  lambda: f"variable {i} is {cols[i]}, its monomial {m.name}",
                  "monomial objects")
    # the orbit table of the raw events
    lex = np.asarray(lp._lexorder)
    raw = lp._raw_monomials_as_lexboolvecs
    for k in range(len(raw)):
        w = tuple(sorted(tuple(int(v) for v in lex[i])
                         for i in np.flatnonzero(raw[k])))
        if key(w) != got[int(lp.inverse[k])]:
            obs.bad("orbit", f"{w} identified with {cols[int(lp.inverse[k])]}")
            break
    obs.saw("raw events", len(raw))

    # expansion in the full Collins-Gisin basis
    memo = {}

    def expand(ev):
        """event -> {key of CG event: coefficient}"""
        if ev in memo:
            return memo[ev]
        for t, r in enumerate(ev):
            p = r[0] - 1
            if r[-1] == sp.outcomes[p] - 1:
                rest = ev[:t] + ev[t + 1:]
                out = dict(expand(rest))
                for o in range(sp.outcomes[p] - 1):
                    for k, c in expand(tuple(sorted(
                            rest + (r[:-1] + (o,),)))).items():
                        out[k] = out.get(k, 0) - c
                break
        else:
            out = {key(ev): 1}
        memo[ev] = {k: c for k, c in out.items() if c}
        return memo[ev]

    def expand_row(row):
        out = {}
        for i, c in row.items():
            for k, d in expand(tuple(sorted(cols[i]))).items():
                out[k] = out.get(k, 0) + c * d
        return {k: c for k, c in out.items() if c}
    eqs = rows_of(lp.minimal_sparse_equalities)
    for row in eqs:
        if not obs.check(not expand_row(row), "equality-wrong",
                         lambda: f"{ {cols[i]: c for i, c in row.items()} } is "
                         "not a normalisation identity", "equality rows"):
            break
    # completeness: every redundant variable is determined
    redundant = [i for i, w in enumerate(cols) if any(
        r[-1] == sp.outcomes[r[0] - 1] - 1 for r in w)]
    M = lp.minimal_sparse_equalities
    rank = 0
    if M.shape[0]:
        A = M.toarray()
        rank = np.linalg.matrix_rank(A) if A.shape[0] <= 700 else None
    nclass = len({frozenset(expand(tuple(sorted(w))).items()) for w in cols})
    # the relations among columns given by the expansions have this rank
    basis = sorted({k for w in cols for k in expand(tuple(sorted(w)))})
    if len(cols) <= 700 and rank is not None:
        pos = {k: i for i, k in enumerate(basis)}
        E = np.zeros((len(cols), len(basis)))
        for i, w in enumerate(cols):
            for k, c in expand(tuple(sorted(w))).items():
                E[i, pos[k]] = c
        need = len(cols) - np.linalg.matrix_rank(E)
        obs.check(rank == need, "equality-missing",
                  lambda: f"{rank} independent equalities, {need} "
                  f"normalisation identities among the {len(cols)} variables "
                  f"({len(redundant)} redundant)", "equality ranks")
    # inequalities: positivity of every maximal event
    want = {}
    for c in ref.maximal:
        for ev in ref.events(c):
            e = expand(ev)
            want.setdefault(tuple(sorted(e.items())), ev)
    got_in = {}
    for row in rows_of(lp.minimal_sparse_inequalities):
        row = {i: c for i, c in row.items() if c}
        got_in[tuple(sorted(expand_row(row).items()))] = row
    obs.saw("inequality rows", len(got_in))
    extra = [r for k, r in got_in.items() if k not in want]
    obs.check(not extra, "inequality-wrong",
              lambda: f"{ {cols[i]: c for i, c in extra[0].items()} } >= 0 is "
              "not the positivity of a maximal event", "inequality tables")
    miss = [v for k, v in want.items() if k not in got_in and k]
    obs.check(not miss, "inequality-missing",
              lambda: f"positivity of {len(miss)} maximal events is missing, "
              f"e.g. {miss[0]}", "inequality tables")
    if len(cols) >= 3:
        obs.distinct(sp.key(), case["fanout"], case["allout"])
    obs.sample({"variables": len(cols), "equalities": len(eqs),
                "inequalities": len(got_in)})
