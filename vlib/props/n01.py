"""N01: every way of writing a moment denotes the same moment."""
import contextlib
import io
import re
import numpy as np
import sympy
from .. import gen
from ..spec import Spec
from ..runner import Skip
from ..refalg import Algebra
from ..sdpobs import make_sdp, pick_columns, columns_rows
from ..lpobs import make_lp, lp_factors

ID = "N01"
RULE = ("a case is (random scenario with random labels, SDP or LP); moments "
        "are written in all the accepted notations (names, legacy names, "
        "symbols, products of operators, arrays; with operators permuted, "
        "repeated, copies relabelled), given to the setters, and what arrives "
        "is compared with an independent algebra; distinct = distinct "
        "(scenario, notation, setter)")
BUDGET = {"quick": 60, "thorough": 500}
warm = [{"kind": k, "spec": dict(
    dag={"r": ["A", "B"], "s": ["B", "C"], "A": ["C"]}, outcomes=[2, 3, 2],
    settings=[1, 2, 1], levels=[2, 1], classical=["s"]), "seed": 1}
    for k in ("sdp", "lp")]

POOL = ["Alice", "Bob", "Q1", "x_1", "AA", "AB", "Z", "B", "a", "P", "lambda",
        "A", "E2", "C_b", "p"]


def relabel(d, rng):
    """The same scenario with other names."""
    sp = Spec(d)
    kids = sorted(set(sp.names))
    new = [str(x) for x in rng.permutation(POOL)[:len(kids)]]
    # sorted names keep the order of the parties when none is given
    if not d.get("order"):
        new = sorted(new)
    tr = dict(zip(kids, new))
    for i, s in enumerate(sp.sources):
        tr[s] = ["h%d", "S_%d", "psi%d", "w%d_"][int(rng.integers(4))] % i
    for i, s in enumerate(sp.latents):
        tr[s] = "int%d" % i
    f = lambda x: tr.get(x, x)
    e = dict(d)
    e["dag"] = {f(k): [f(c) for c in v] for k, v in d["dag"].items()}
    for k in ("order", "nil", "cil"):
        if d.get(k):
            e[k] = [f(c) for c in d[k]]
    if d.get("classical") != "all":
        e["classical"] = [f(c) for c in d.get("classical", [])]
    return e


def cases(tier, rng):
    n = 500 if tier == "quick" else 6000
    for k in range(n):
        sp = gen.any_spec(rng, max_ops=24 if rng.random() < .8 else 36,
                          maxlevel=3 if rng.random() < .1 else 2)
        yield {"kind": ["sdp", "sdp", "lp", "problem"][int(rng.integers(4))],
               "spec": sp.d, "seed": int(rng.integers(2 ** 31))}


def op_name(sp, r):
    p = r[0] - 1
    s = sp.names[p]
    x, par = sp.decode_setting(p, r[-2])
    if sp.settings[p] > 1:
        s += f"_{x}"
    if max(sp.levels) > 1:
        c = [str(v) for v in r[1:-2]]
        nz = [v for v in c if v != "0"]
        if nz:
            s += "^{" + ",".join(nz) + "}"
        s += "_" + "_".join(c)
    s += f"={r[-1]}"
    if par:
        s += "|do(" + ",".join(f"{sp.names[q]}={v}" for q, v in zip(
            sp.obs_parents[p], par)) + ")"
    return s


def free_name(sp, r):
    p = r[0] - 1
    x, par = sp.decode_setting(p, r[-2])
    s = sp.names[p] + (f"_{x}" if sp.settings[p] > 1 else "") + f"={r[-1]}"
    return s, {sp.names[q]: v for q, v in zip(sp.obs_parents[p], par)}


def old_name(sp, r, empty):
    p = r[0] - 1
    x = r[-2] if sp.eff_settings[p] > 1 else empty
    return (sp.names[p] + "_" + "_".join(str(v) for v in r[1:-2])
            + f"_{x}_{r[-1]}")


def shuffle(rng, alg, word, n=6):
    """A word with the same expectation value (up to conjugation)."""
    w = list(word)
    how = set()
    if len(w) > 1 and rng.random() < .5:
        for _ in range(n):
            i = int(rng.integers(len(w) - 1))
            if w[i] != w[i + 1] and alg.commute(w[i], w[i + 1]):
                w[i], w[i + 1] = w[i + 1], w[i]
                how.add("permuted")
    if rng.random() < .3:
        w = w[::-1]
        how.add("reversed")
    if w and rng.random() < .3:
        i = int(rng.integers(len(w)))
        w.insert(i, w[i])
        how.add("repeated")
    if rng.random() < .4:
        w = list(alg.relabel(tuple(w), alg.group[int(rng.integers(
            len(alg.group)))]))
        how.add("relabelled")
    return w, "+".join(sorted(how)) or "plain"


def mon_key(alg, m, dagger=True):
    if m.is_zero:
        return "zero"
    fs = lp_factors(m)
    k = tuple(sorted(alg.atom_key(alg.normal(w)) for w in fs))
    if not dagger:
        return k
    return min(k, tuple(sorted(alg.atom_key(alg.normal(w[::-1]))
                               for w in fs)))


def run(case, obs):
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    if case["kind"] != "problem" and rng.random() < .6:
        sp = Spec(relabel(sp.d, rng))
    if sum(int(np.prod(range(1, n + 1))) for n in sp.levels) > 30:
        raise Skip("symmetry group too large")
    if case["kind"] == "problem":
        return run_problem(sp, rng, obs)
    if len(sp.nil) > 1:
        raise Skip("several nonclassical latents: commutation is only "
                   "conservative")
    alg = Algebra(sp)
    if case["kind"] == "sdp":
        cols = pick_columns(rng, sp, 60)
        prog = make_sdp(sp, cols, max_cols=60)
        mons = [m for m in prog.moments]
    else:
        from ..lpobs import RefLP
        RefLP(sp, 1500)
        prog = make_lp(sp, include_all_outcomes=bool(rng.random() < .3))
        mons = list(prog.monomials)
    lp = case["kind"] == "lp"
    keyof = {}
    for m in mons:
        k = mon_key(alg, m)
        if not obs.check(k not in keyof or keyof[k] == m, "two-moments", lambda:
                         f"{m.name} and {keyof[k].name} are the same moment",
                         "moments"):
            return
        keyof.setdefault(k, m)
    for attr in ("name", "legacy_name", "symbol"):
        seen = {}
        for m in mons:
            x = getattr(m, attr)
            o = seen.setdefault(x, m)
            obs.check(o == m, attr + "-collision", lambda:
                      f"{attr} {x} stands for the moments "
                      f"{[f.as_2d_array.tolist() for f in o.factors]} and "
                      f"{[f.as_2d_array.tolist() for f in m.factors]}",
                      "uniqueness")
    for m in mons:
        for f in m.factors:
            if len(f.as_lexmon) and not f.is_zero:
                decode(sp, f, obs)
    # expected classes of words and their notations
    words = []
    ops = sp.operators()
    if lp:
        ev = [[r for w in lp_factors(m) for r in w] for m in mons
              if len(m.factors) == 1]
        words += [ev[int(i)] for i in rng.permutation(len(ev))[:10]]
    else:
        cw = columns_rows(prog)
        for _ in range(14):
            i, j = (int(x) for x in rng.integers(len(cw), size=2))
            words.append(list(cw[i])[::-1] + list(cw[j]))
    for _ in range(6):
        words.append([ops[int(i)] for i in rng.integers(
            len(ops), size=int(rng.integers(1, 4)))])
    syms = {}
    if not lp:
        for p, meas in enumerate(prog.measurements):
            rows = [r for r in ops if r[0] == p + 1]
            for q, r in enumerate(rows):
                o, x = sp.outcomes[p], sp.eff_settings[p]
                k, y, a = q // (o * x), q // o % x, q % o
                if a < o - 1:
                    syms[r] = meas[k][y][a]
    for w0 in words:
        w, how = shuffle(rng, alg, w0)
        if lp and any(not alg.commute(a, b) for i, a in enumerate(w)
                      for b in w[:i]):
            continue
        key = alg.key(tuple(w))
        if not w or key == ():
            continue
        forms = {"array": tuple(map(tuple, w)),
                 "names": "<" + " ".join(op_name(sp, r) for r in w) + ">",
                 "legacy": "<" + " ".join(old_name(sp, r, "0")
                                          for r in w) + ">",
                 "legacy2": "<" + " ".join(old_name(sp, r, "∅")
                                           for r in w) + ">",
                 "product": "*".join(op_name(sp, r) for r in w),
                 "symbols": sympy.prod([sympy.Symbol(
                     op_name(sp, r), commutative=False) for r in w])}
        if max(sp.levels) == 1 or len(w) > 1 or True:
            forms["probability"] = "P[" + " ".join(op_name(sp, r)
                                                   for r in w) + "]"
        if all(r in syms for r in w):
            forms["measurements"] = sympy.prod([syms[r] for r in w])
        m = keyof.get(key)
        if m is not None and not m.is_one:
            forms.update({"moment": m, "own name": m.name,
                          "own legacy name": m.legacy_name,
                          "own symbol": m.symbol})
        pick = rng.permutation(sorted(forms))[:5]
        for f in pick:
            setter = ["objective", "expression", "equality", "inequality",
                      "bound", "value"][int(rng.integers(6))]
            given(prog, lp, sp, alg, obs, str(f), forms[f], setter, key, m,
                  w, how)
    # two notations of the same moment add up
    for m in [mons[int(i)] for i in rng.permutation(len(mons))[:5]]:
        if m.is_zero or m.is_one or len(m.factors) != 1:
            continue
        w = lp_factors(m)[0]
        a = "<" + " ".join(op_name(sp, r) for r in w) + ">"
        with quiet():
            prog.set_objective({a: 1.5, m.symbol: .25, "1": .5, 1: .5})
        got = {x.name: v for x, v in prog.objective.items() if v}
        obs.check(got == {m.name: 1.75, "1": 1.}, "sum", lambda:
                  f"{a} and {m.symbol}: {got}", "sums of notations")
    products(prog, lp, mons, alg, rng, obs)
    obs.sample({"kind": case["kind"], "moments": len(mons),
                "names": [m.name for m in mons[:6]]})


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def effect(prog, lp, form, setter):
    """The moments that arrive, with their coefficients."""
    if setter == "objective":
        prog.set_objective({form: 2.})
        return {m: v / 2. for m, v in prog.objective.items() if v}
    if setter == "expression":
        prog.set_objective(2 * form)
        return {m: v / 2. for m, v in prog.objective.items() if v}
    if setter == "equality":
        prog.set_extra_equalities([{form: 1., 1: 3.}])
        d = dict(prog.extra_equalities[0])
    elif setter == "inequality":
        prog.set_extra_inequalities([{form: 1., 1: 3.}])
        d = dict(prog.extra_inequalities[0])
    elif setter == "bound":
        before = dict(prog.moment_upperbounds)
        prog.set_bounds({form: .87}, "up")
        d = {m: v for m, v in prog.moment_upperbounds.items()
             if before.get(m) != v}
        prog.reset("bounds")
        return {m: v / .87 for m, v in d.items()}
    elif setter == "value":
        prog.set_values({form: .13})
        d = {m: v / .13 for m, v in prog.known_moments.items()
             if not m.is_one and not m.is_zero}
        prog.reset("values")
        return d
    for m in list(d):
        if m.is_one:
            d[m] -= 3.
            if not d[m]:
                del d[m]
    return d


def given(prog, lp, sp, alg, obs, kind, form, setter, key, m, w, how):
    if setter == "expression" and not isinstance(form, sympy.Expr):
        setter = "objective"
    if setter == "bound" and (m is None or m.is_zero):
        setter = "objective"
    if setter == "value" and (m is None or m.is_zero or len(m.factors) != 1):
        setter = "equality"
    tag = f"{kind} ({how}) {form} given as {setter}"
    try:
        with quiet():
            d = effect(prog, lp, form, setter)
    except Exception as e:
        obs.check(m is None or m.is_zero, "refused:" + kind,
                  lambda: f"{tag}: {type(e).__name__}: {str(e)[:300]}; it is "
                  f"{m.name}", "notations")
        for kind_ in ("objective", "values", "bounds"):
            prog.reset(kind_)
        return
    if setter == "value":
        # other moments can be known as a consequence, through products
        d = {x: v for x, v in d.items() if len(x.factors) == 1}
    ks = {mon_key(alg, x): v for x, v in d.items()}
    want = {key: 1.}
    if key == "zero" and lp:
        ok = True        # there are no vanishing moments in the programme
    elif key == "zero":
        ok = all(k == "zero" for k in ks)
    elif m is None and lp:
        # what is not a moment of the programme need not be classified
        ok = True
    else:
        ok = set(ks) == set(want) and abs(ks[key] - 1) < 1e-9
    obs.check(ok, "meaning:" + kind, lambda:
              f"{tag}: arrived as { {x.name: v for x, v in d.items()} }, "
              f"operators {[lp_factors(x) for x in d]}; expected "
              f"{m.name if m is not None else key}", "notations")
    if m is not None and not m.is_zero:
        obs.check(all(x == m and hash(x) == hash(m) for x in d),
                  "not-the-moment:" + kind, f"{tag}: {d} is not {m}",
                  "notations")
        obs.distinct(sp.key(), kind, setter)


def products(prog, lp, mons, alg, rng, obs):
    """Products of expectation values are not expectation values of
    products."""
    atoms = [m for m in mons if len(m.factors) == 1 and not m.is_zero]
    if len(atoms) < 2:
        return
    byname = {tuple(sorted(mon_key(alg, x)[0] for x in atoms_of(m, prog))): m
              for m in mons if not m.is_zero and not m.is_one}
    for _ in range(6):
        a, b = (atoms[int(i)] for i in rng.integers(len(atoms), size=2))
        if not lp and not (a.is_hermitian and b.is_hermitian):
            continue
        s = f"{a.name}*{b.name}"
        key = tuple(sorted((mon_key(alg, a)[0], mon_key(alg, b)[0])))
        m = byname.get(key)
        try:
            with quiet():
                prog.set_extra_equalities([{s: 1., 1: 3.}])
            d = {x: v for x, v in prog.extra_equalities[0].items()
                 if not x.is_one}
        except Exception as e:
            obs.check(m is None, "product-refused", lambda:
                      f"{s}: {type(e).__name__} {str(e)[:200]}; it is "
                      f"{m.name}", "products of moments")
            continue
        ks = [tuple(sorted(mon_key(alg, x)[0] for x in atoms_of(y, prog)))
              for y in d]
        obs.check(ks == [key], "product-meaning", lambda:
                  f"{s} arrived as {[x.name for x in d]}",
                  "products of moments")


def atoms_of(m, prog):
    class One:
        is_zero = False
    out = []
    for f in m.factors:
        x = One()
        x.factors = [f]
        out.append(x)
    return out


TOK = re.compile(r"^(?P<op>[^|]*?)(?:\|do\((?P<do>.*)\))?$")


def decode(sp, f, obs):
    """The displayed name mentions the operators of the moment."""
    name = f.name
    rows = [tuple(int(v) for v in r) for r in np.asarray(f.as_2d_array)]
    inner = name[2:-1] if name[:2] == "P[" else name[1:-1]
    toks = inner.split(" ")
    full = [op_name(sp, r) for r in rows]
    free = [free_name(sp, r) for r in rows]
    ok = len(toks) == len(rows)
    shown = {}
    for t, a, (b, do) in zip(toks, full, free):
        if t == a:
            continue
        g = TOK.match(t)
        said = dict(x.split("=") for x in g["do"].split(",")) if g["do"] \
            else {}
        if g["op"] != b or any(str(do.get(k)) != v for k, v in said.items()):
            ok = False
        shown.setdefault("missing", []).append(
            {k: v for k, v in do.items() if k not in said})
    # omitted causes are the outcomes in the same moment
    outs = {}
    for r in rows:
        outs.setdefault(sp.names[r[0] - 1], set()).add(r[-1])
    for miss in shown.get("missing", []):
        for k, v in miss.items():
            if outs.get(k) != {v}:
                ok = False
    obs.check(ok, "displayed-name", lambda:
              f"{name} has the operators {rows}", "displayed names")


def run_problem(sp, rng, obs):
    """Operators and labels of the inflated scenario."""
    d = dict(sp.d)
    big = rng.random() < .3
    if big:     # large cardinalities
        i = int(rng.integers(sp.nparties))
        out, st = list(sp.outcomes), list(sp.settings)
        out[i] = int(rng.choice([10, 12, 255, 256, 257, 300]))
        j = int(rng.integers(sp.nparties))
        st[j] = int(rng.choice([10, 11, 256, 260])) if j != i else 2
        d.update(outcomes=out, settings=st,
                 levels=[min(x, 2) for x in sp.levels])
    else:
        d["levels"] = [int(rng.integers(1, 4)) for _ in sp.levels]
    sp = Spec(d)
    if sp.n_ops() > (2500 if big else 120):
        raise Skip("too many operators")
    rows = sp.operators()
    kw = sp.kwargs()
    import copy
    keep = copy.deepcopy(kw)
    from inflation import InflationProblem
    prob = InflationProblem(**kw)
    obs.check(kw == keep, "argument-changed", f"{keep} became {kw}",
              "problems")
    got = [tuple(int(v) for v in r) for m in prob.measurements
           for r in m.reshape(-1, m.shape[-1])]
    obs.check(got == rows, "operators", lambda:
              f"{len(got)} operators, expected {len(rows)}; first difference "
              f"{next((x for x in zip(got, rows) if x[0] != x[1]), None)}",
              "problems")
    obs.check(list(prob.names) == list(sp.names), "names",
              f"{prob.names} {sp.names}", "problems")
    # other labels and containers
    e = relabel(d, rng)
    sp2 = Spec(e)
    kw2 = sp2.kwargs()
    if rng.random() < .5:
        kw2["dag"] = {k: tuple(v) if rng.random() < .5 else set(v)
                      for k, v in kw2["dag"].items()}
        for k in ("outcomes_per_party", "settings_per_party",
                  "inflation_level_per_source", "order",
                  "classical_sources", "nonclassical_intermediate_latents"):
            if isinstance(kw2.get(k), list) and rng.random() < .5:
                kw2[k] = tuple(kw2[k])
    p2 = InflationProblem(**kw2)
    got2 = [tuple(int(v) for v in r) for m in p2.measurements
            for r in m.reshape(-1, m.shape[-1])]
    obs.check(got2 == got, "labels-matter", f"other labels {e}: other "
              "operators", "problems")
    if not big:
        alg = Algebra(sp)
        if len(sp.nil) <= 1:
            nc = np.asarray(prob._default_notcomm)
            bad = [(a, b) for i, a in enumerate(rows) for j, b in
                   enumerate(rows[:i]) if bool(nc[i, j]) == alg.commute(a, b)]
            obs.check(not bad, "commutation", lambda: f"{bad[:3]}: commute "
                      f"{alg.commute(*bad[0])} in the scenario",
                      "commutations")
            obs.check((np.asarray(p2._default_notcomm) == nc).all(),
                      "labels-matter", f"other labels {e}: other commutations",
                      "problems")
    obs.distinct(sp.key())
