"""S02: the moment matrix identifies exactly the entries that the rules of
inflation identify."""
import numpy as np
from .. import gen
from ..spec import Spec
from ..runner import Skip
from ..refalg import Algebra
from ..sdpobs import make_sdp, columns_rows, pick_columns

ID = "S02"
RULE = ("a case is (random scenario, generating set); for every entry of the "
        "generated index matrix a reference key (reduced product, factors, "
        "copy relabelling, conjugation) is computed from the scenario; "
        "distinct = distinct (scenario, generating set) with >= 3 columns")
BUDGET = {"quick": 100, "thorough": 600}
warm = [{"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"], "A": ["C"]},
                      outcomes=[2, 2, 2], settings=[1, 2, 1], levels=[2, 1],
                      classical=["s"]), "cols": "npa2", "seed": 1}]


def cases(tier, rng):
    n = 700 if tier == "quick" else 6000
    for k in range(n):
        sp = gen.any_spec(rng, max_ops=24 if rng.random() < .8 else 40,
                          maxlevel=3 if rng.random() < .1 else 2)
        cols = pick_columns(rng, sp, 70 if tier == "quick" else 130)
        yield {"spec": sp.d, "cols": cols, "seed": int(rng.integers(2 ** 31))}


def run(case, obs):
    sp = Spec(case["spec"])
    if sum(int(np.prod(range(1, n + 1))) for n in sp.levels) > 30:
        raise Skip("symmetry group too large")
    if len(sp.nil) > 1:
        raise Skip("several nonclassical latents: commutation is only "
                   "conservative")
    alg = Algebra(sp)
    sdp = make_sdp(sp, case["cols"], max_cols=200)
    words = columns_rows(sdp)
    n = len(words)
    mm = np.asarray(sdp.momentmatrix)
    key_of, idx_of, where = {}, {}, {}
    memo = {}
    for i in range(n):
        ri = tuple(reversed(words[i]))
        for j in range(i, n):
            w = ri + tuple(words[j])
            if w not in memo:
                memo[w] = alg.key(w)
            k = memo[w]
            for a in {int(mm[i, j]), int(mm[j, i])}:
                obs.saw("entries keyed")
                if k == "zero":
                    if not a == 0:
                        obs.bad("zero-missed", f"entry {(i, j)} ({words[i]})^+"
                                f" {words[j]} vanishes, has index {a}")
                        return
                elif k == ():
                    if a != 1:
                        obs.bad("one-missed", f"entry {(i, j)} is 1, index {a}")
                        return
                else:
                    if a in (0, 1):
                        obs.bad("wrong-constant", f"entry {(i, j)} has index "
                                f"{a}, expected key {k}")
                        return
                    if key_of.setdefault(a, k) != k:
                        obs.bad("over-identified", f"index {a} used for {k} "
                                f"and {key_of[a]}")
                        return
                    if idx_of.setdefault(k, a) != a:
                        obs.bad("under-identified", f"{k} has indices {a} and "
                                f"{idx_of[k]}: {where.get(k)} vs {(i, j)}")
                        return
                    where.setdefault(k, (i, j))
    obs.saw("distinct moments", len(key_of))
    # moment objects: exactly one per index, describing the same moment
    seen = {}
    for m in sdp.moments:
        if m.is_zero or m.is_one:
            continue
        w = tuple(tuple(int(v) for v in r) for f in m.factors
                  for r in np.asarray(f.as_2d_array))
        parts = tuple(sorted(alg.atom_key(alg.normal(tuple(
            tuple(int(v) for v in r) for r in np.asarray(f.as_2d_array))))
            for f in m.factors))
        dag = tuple(sorted(alg.atom_key(alg.normal(tuple(reversed([
            tuple(int(v) for v in r) for r in np.asarray(f.as_2d_array)]))))
            for f in m.factors))
        k = min(parts, dag)
        obs.check(key_of.get(m.idx) == k, "moment-object",
                  lambda: f"moment {m.name} of index {m.idx} stands for {k}, "
                  f"entries have {key_of.get(m.idx)}", "moment objects")
        obs.check(seen.setdefault(m.name, m.idx) == m.idx, "name-collision",
                  lambda: f"name {m.name} used by indices {m.idx} and "
                  f"{seen[m.name]}", "names")
        # default bound exactly on guaranteed non-negative moments
        pos = all(alg.nonnegative(tuple(tuple(int(v) for v in r) for r in
                                        np.asarray(f.as_2d_array)))
                  for f in m.factors)
        has = m in sdp.moment_lowerbounds
        obs.check(has == pos, "default-bound",
                  lambda: f"{m.name}: non-negative {pos}, bounded {has}",
                  "default bounds")
    check_equalities(sp, alg, sdp, words, mm, obs)
    if n >= 3:
        obs.distinct(sp.key(), str(case["cols"]))
    obs.sample({"columns": n, "moments": len(key_of)})


def check_equalities(sp, alg, sdp, words, mm, obs):
    """All normalisation relations expressible in the generating set."""
    if sp.is_network:
        obs.check(not sdp.moment_equalities, "network-equalities",
                  f"{len(sdp.moment_equalities)} equalities in a network")
        return
    n = len(words)
    pos = {alg.normal(tuple(w)): i for i, w in enumerate(words)}
    ref = set()
    for i, w in enumerate(words):
        for t, r in enumerate(w):
            p = r[0] - 1
            if not sp.has_children[p] or r[-1] != sp.outcomes[p] - 1:
                continue
            low = alg.reduce(tuple(w[:t] + w[t + 1:]))
            if low is None or alg.normal(low) not in pos:
                continue
            sib = []
            for o in range(sp.outcomes[p]):
                x = alg.reduce(tuple(w[:t] + [r[:-1] + (o,)] + w[t + 1:]))
                if x is None:
                    continue
                x = alg.normal(x)
                if x not in pos:
                    sib = None
                    break
                sib.append(pos[x])
            if sib is None:
                continue
            L = pos[alg.normal(low)]
            for row in range(n):
                eq = {}
                eq[int(mm[row, L])] = eq.get(int(mm[row, L]), 0) + 1
                for s in sib:
                    a = int(mm[row, s])
                    eq[a] = eq.get(a, 0) - 1
                eq.pop(0, None)
                eq = tuple(sorted((a, c) for a, c in eq.items() if c))
                if eq:
                    if eq[0][1] < 0:
                        eq = tuple((a, -c) for a, c in eq)
                    ref.add(eq)
    got = set()
    for e in sdp.moment_equalities:
        eq = {}
        for m, c in e.items():
            a = 0 if m.is_zero else 1 if m.is_one else m.idx
            eq[a] = eq.get(a, 0) + c
        eq.pop(0, None)
        eq = tuple(sorted((a, int(c)) for a, c in eq.items() if c))
        if eq:
            if eq[0][1] < 0:
                eq = tuple((a, -c) for a, c in eq)
            got.add(eq)
    obs.saw("reference equalities", len(ref))
    obs.check(not got - ref, "equality-extra",
              lambda: f"{len(got - ref)} equalities not derivable, e.g. "
              f"{sorted(got - ref)[0]}")
    obs.check(not ref - got, "equality-missing",
              lambda: f"{len(ref - got)} of {len(ref)} normalisation relations "
              f"missing, e.g. {sorted(ref - got)[0]}")
