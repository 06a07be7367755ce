"""S04: generating sets contain exactly the documented products."""
import itertools
import numpy as np
from .. import gen
from ..spec import Spec
from ..runner import Skip
from ..refalg import Algebra
from ..sdpobs import columns_rows

ID = "S04"
RULE = ("a case is (random scenario, specification of a generating set, "
        "maximal length); the set built by the library is compared with the "
        "one enumerated from the definition in an independent algebra, and "
        "given back to the library in its other encodings (symbols, arrays); "
        "distinct = distinct (scenario, specification, length) with >= 3 "
        "elements")
BUDGET = {"quick": 70, "thorough": 500}
warm = [{"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"], "A": ["C"]},
                      outcomes=[2, 3, 2], settings=[1, 2, 1], levels=[2, 1],
                      classical=["s"]), "cols": "npa2", "maxlen": 0,
         "seed": 1}]
MAXEL = 6000


def cases(tier, rng):
    n = 600 if tier == "quick" else 8000
    for k in range(n):
        sp = gen.any_spec(rng, max_ops=26 if tier == "quick" else 40,
                          maxlevel=3 if rng.random() < .15 else 2)
        r = rng.random()
        N = sp.nparties
        if r < .25:
            cols = "npa" + str(int(rng.integers(0, 4)))
        elif r < .5:
            cols = "local" + ("".join(str(int(x)) for x in rng.integers(
                0, 3, size=N)) if rng.random() < .6
                else str(int(rng.integers(1, 3))))
        elif r < .75:
            q = rng.random()
            cols = "physical" + ("" if q < .3 else "".join(
                str(int(x)) for x in rng.integers(0, 3, size=N))
                if q < .7 else str(int(rng.integers(1, 4))))
        else:
            blocks = [[]] if rng.random() < .9 else []
            for _ in range(int(rng.integers(1, 6))):
                blocks.append([int(x) for x in rng.integers(
                    0, N, size=int(rng.integers(1, 4)))])
            cols = blocks
        if isinstance(cols, str) and rng.random() < .05:
            cols = cols.capitalize() if rng.random() < .5 else cols.upper()
        yield {"spec": sp.d, "cols": cols, "seed": int(rng.integers(2 ** 31)),
               "maxlen": int(rng.integers(1, 5)) if rng.random() < .3
               and isinstance(cols, str) else 0}


def letters(sp):
    return [[r for r in sp.operators() if r[0] == p + 1 and
             (sp.has_children[p] or r[-1] != sp.outcomes[p] - 1)]
            for p in range(sp.nparties)]


def blocks_set(alg, L, blocks):
    """Irreducible products of one operator of each party of each block."""
    out = {}
    seen = {(): {(): None}}
    total = 0
    for b in blocks:
        if not b:
            out.setdefault((), len(out))
            continue
        total += int(np.prod([float(len(L[p])) for p in b]))
        if total > 60000:
            raise Skip("too many products")
        for w in itertools.product(*[L[p] for p in b]):
            x = alg.reduce(w)
            if x is None or len(x) != len(w):
                continue
            out.setdefault(alg.normal(x), len(out))
    return out


def expected(sp, alg, cols, maxlen):
    L = letters(sp)
    N = sp.nparties
    if not isinstance(cols, str):
        return blocks_set(alg, L, cols)
    low = cols.lower()
    if low.startswith("npa"):
        n = int(low[3:])
        if maxlen:
            n = min(n, maxlen)
        return blocks_set(alg, L, [list(c) for k in range(n + 1) for c in
                                   itertools.combinations_with_replacement(
                                       range(N), k)])
    kind = "local" if low.startswith("local") else "physical"
    lv = low[len(kind):]
    caps = ([10 ** 6] * N if not lv else [int(x) for x in lv]
            if len(lv) == N else [int(lv)] * N)
    if kind == "local":
        bl = []
        for f in itertools.product(*[range(c + 1) for c in caps]):
            if not maxlen or sum(f) <= maxlen:
                bl.append([p for p in range(N) for _ in range(f[p])])
        return blocks_set(alg, L, bl)
    groups = {}
    for p in range(N):
        for r in L[p]:
            groups.setdefault(r[:-1], []).append(r)
    gs = list(groups.values())
    out = {}

    def ext(cur, cand, used):
        if len(out) > 20000:
            raise Skip("too many products")
        for w in itertools.product(*[gs[i] for i in cur]):
            out.setdefault(alg.normal(w), len(out))
        if maxlen and len(cur) >= maxlen:
            return
        for k, i in enumerate(cand):
            p = gs[i][0][0] - 1
            if used[p] < caps[p]:
                u = list(used)
                u[p] += 1
                ext(cur + [i], [j for j in cand[k + 1:] if alg.commute(
                    gs[i][0], gs[j][0])], u)
    ext([], list(range(len(gs))), [0] * N)
    return out


def run(case, obs):
    from inflation import InflationSDP
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    if sum(int(np.prod(range(1, n + 1))) for n in sp.levels) > 30:
        raise Skip("symmetry group too large")
    if len(sp.nil) > 1:
        raise Skip("several nonclassical latents: commutation is only "
                   "conservative")
    alg = Algebra(sp)
    cols, maxlen = case["cols"], case["maxlen"]
    exp = expected(sp, alg, cols, maxlen)
    if len(exp) > MAXEL:
        raise Skip("too many elements")
    sdp = InflationSDP(sp.problem(), verbose=0)
    given = cols if isinstance(cols, str) else [list(b) for b in cols]
    if isinstance(cols, list) and not cols:
        raise Skip("empty")
    out = sdp.build_columns(given, max_monomial_length=maxlen)
    obs.check(given == cols, "argument-changed", "the specification changed")
    words = [tuple(w) for w in columns_rows(sdp)]
    got = [alg.normal(w) for w in words]
    what = f"{cols} (maximal length {maxlen})"
    obs.check(len(set(got)) == len(got), "repeated", lambda:
              f"{what}: {len(got) - len(set(got))} repeated elements",
              "generating sets compared")
    obs.saw("elements", len(got))
    obs.check(not set(got) - set(exp), "extra", lambda:
              f"{what}: {len(set(got) - set(exp))} elements that do not "
              f"belong, e.g. {sorted(set(got) - set(exp))[0]}",
              "generating sets compared")
    obs.check(not set(exp) - set(got), "missing", lambda:
              f"{what}: {len(set(exp) - set(got))} of {len(exp)} elements "
              f"missing, e.g. {sorted(set(exp) - set(got))[0]}",
              "generating sets compared")
    if () in exp and got:
        obs.check(got[0] == (), "identity-first", f"{what}: the identity is "
                  "not the first element", "generating sets compared")
    obs.check(len(out) == len(got) == sdp.n_columns, "count",
              f"{what}: {len(out)} {len(got)} {sdp.n_columns}")
    if len(got) >= 3:
        obs.distinct(sp.key(), str(cols), maxlen)
    obs.sample({"specification": str(cols), "maximal length": maxlen,
                "elements": len(got)})
    if not got or len(got) > 400:
        return
    # the other encodings of the same set
    lex = np.asarray(sdp._lexorder)
    alt = {}
    if got[0] == () and len(got) > 1:
        sym = InflationSDP(sp.problem(), verbose=0).build_columns(
            given, max_monomial_length=maxlen, symbolic=True)
        alt["symbols"] = list(sym)
    alt["2d arrays"] = [lex[np.asarray(w, int)].reshape(
        len(w), lex.shape[1]) for w in out]
    alt["1d arrays"] = [np.asarray(w) for w in out]
    for k, v in alt.items():
        s2 = InflationSDP(sp.problem(), verbose=0)
        before = repr(v)
        s2.build_columns(v)
        obs.check(repr(v) == before, "argument-changed",
                  f"{what}: the list of {k} was changed", "encodings")
        w2 = [alg.normal(tuple(w)) for w in columns_rows(s2)]
        obs.check(w2 == got, "encoding", lambda:
                  f"{what} given as {k}: {len(w2)} elements, first "
                  f"difference {[x for x in zip(w2, got) if x[0] != x[1]][:1]}",
                  "encodings")
    # the relaxation is built on it
    if len(got) <= 40 and not maxlen and rng.random() < .4:
        s3 = InflationSDP(sp.problem(), verbose=0)
        s3.generate_relaxation(given)
        obs.check([tuple(w) for w in columns_rows(s3)] == words
                  and len(s3.momentmatrix) == len(words), "relaxation",
                  f"{what}: the relaxation has other generating monomials",
                  "encodings")
