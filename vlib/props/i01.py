"""I01: the inflated scenario is the one that was described."""
import copy
import itertools
import numpy as np
from .. import gen
from ..spec import Spec
from ..runner import Skip
from ..refalg import Algebra

ID = "I01"
RULE = ("a case is a random scenario (some with hundreds of settings, "
        "outcomes or copies); its parties, sources, operators, original "
        "events, copy symmetries, factors of random products, contexts and "
        "translations of settings are compared with those enumerated from the "
        "description; distinct = distinct scenarios")
BUDGET = {"quick": 45, "thorough": 400}
warm = [{"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"], "A": ["C"]},
                      outcomes=[2, 2, 2], settings=[1, 2, 1], levels=[2, 1],
                      classical=["s"]), "seed": 1}]


def wide(rng):
    """Scenarios whose labels need more than one byte."""
    fams = ["single", "bell", "instr", "bilocal", "collider"]
    sp = gen.random_spec(rng, max_ops=60, families=[
        fams[int(rng.integers(len(fams)))]])
    d = dict(sp.d)
    for _ in range(40):
        o = [int(rng.choice([2, 3, 17, 130, 257, 300])) for _ in d["outcomes"]]
        s = [int(rng.choice([1, 2, 16, 128, 256, 300])) for _ in d["settings"]]
        lv = [int(rng.choice([1, 2, 3])) for _ in sp.sources]
        q = Spec(dict(d, outcomes=o, settings=s, levels=lv))
        if 300 < q.n_ops() < 6000:
            return q
    return sp


def cases(tier, rng):
    n = 1500 if tier == "quick" else 20000
    for k in range(n):
        r = rng.random()
        if r < .07:
            sp = wide(rng)
        elif r < .2:
            sp = gen.any_spec(rng, max_ops=120, maxlevel=4)
        else:
            sp = gen.any_spec(rng, max_ops=60, maxlevel=3)
        yield {"spec": sp.d, "seed": int(rng.integers(2 ** 31))}


def forms(sp, rng):
    """Another accepted way of writing the same description."""
    pick = lambda xs: xs[int(rng.integers(len(xs)))]
    seqs = [list, tuple, np.array]
    kw = sp.kwargs()
    kw["outcomes_per_party"] = pick(seqs)(sp.outcomes)
    kw["settings_per_party"] = pick(seqs)(sp.settings)
    if all(x == 1 for x in sp.settings) and rng.random() < .6:
        if rng.random() < .5:
            del kw["settings_per_party"]
        else:
            kw["settings_per_party"] = pick([(), None])
    kw["inflation_level_per_source"] = pick(seqs)(sp.levels)
    if len(set(sp.levels)) == 1 and rng.random() < .6:
        kw["inflation_level_per_source"] = int(sp.levels[0])
        if sp.levels[0] == 1 and rng.random() < .5:
            kw["inflation_level_per_source"] = pick([(), None])
    cl = kw["classical_sources"]
    if cl == "all":
        kw["classical_sources"] = pick(["all", "ALL", tuple(sp.sources),
                                        list(sp.sources)])
    elif not len(cl):
        kw["classical_sources"] = pick([(), [], None])
    else:
        kw["classical_sources"] = pick([list, tuple])(
            [cl[int(i)] for i in rng.permutation(len(cl))])
    f = pick([list, tuple, set, lambda x: list(x)[::-1]])
    kw["dag"] = {k: f(v) for k, v in kw["dag"].items()}
    if kw.get("order"):
        kw["order"] = pick([list, tuple])(kw["order"])
        if list(kw["order"]) == sorted(sp.names) and rng.random() < .5:
            del kw["order"]
    for k in ("nonclassical_intermediate_latents",
              "classical_intermediate_latents"):
        if k in kw:
            kw[k] = pick([list, tuple])(kw[k])
    if (sp.nsources == 1 and sp.is_network and not sp.nil and not sp.cil
            and rng.random() < .7):
        # one source behind everything is the default
        kw["dag"] = pick([None, {}])
        kw["order"] = pick([list, tuple])(sp.names)
        if kw["classical_sources"] and not isinstance(
                kw["classical_sources"], str):
            kw["classical_sources"] = "all"
        if sp.names == [chr(65 + i) for i in range(sp.nparties)] \
                and rng.random() < .5:
            del kw["order"]
    return kw


def same(p, q, templates=True):
    for what, f in [
            ("names", lambda x: [str(n) for n in x.names]),
            ("shape", lambda x: tuple(x.expected_distro_shape)),
            ("settings", lambda x: list(map(int, x.settings_per_party))),
            ("outcomes", lambda x: list(map(int, x.outcomes_per_party))),
            ("measurements", lambda x: [np.asarray(m).tolist()
                                        for m in x.measurements]),
            ("hypergraph", lambda x: np.asarray(x.hypergraph).tolist()),
            ("has_children", lambda x: [bool(c) for c in x.has_children]),
            ("events", lambda x: np.asarray(x.original_dag_events).tolist()),
            ("joint measurability", lambda x: sorted(map(
                tuple, x.all_and_maximal_compatible_templates(max_n=2)[0]))
             if templates else None)]:
        if f(p) != f(q):
            yield f"{what}: {str(f(p))[:300]} but {str(f(q))[:300]}"


def run(case, obs):
    from inflation import InflationProblem
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    alg = Algebra(sp) if np.prod([np.prod(range(1, n + 1))
                                  for n in sp.levels]) < 600 else None
    p = sp.problem()
    ck = lambda cond, what, txt="": obs.check(cond, what, txt, "facts")
    # --- the description ---------------------------------------------------
    ck([str(x) for x in p.names] == sp.names, "names", str(p.names))
    ck(p.nr_parties == sp.nparties and p.nr_sources == sp.nsources, "counts")
    ck(tuple(p.expected_distro_shape) == sp.shape, "shape",
       str(p.expected_distro_shape))
    ck(list(map(int, p.settings_per_party)) == sp.eff_settings, "settings",
       f"{p.settings_per_party} expected {sp.eff_settings}")
    ck(list(map(int, p.outcomes_per_party)) == sp.outcomes, "outcomes")
    ck(bool(p.is_network) == sp.is_network, "is_network")
    ck([bool(x) for x in p.has_children] == sp.has_children, "has_children")
    H = np.asarray(p.hypergraph)
    ck(H.shape == (sp.nsources, sp.nparties) and all(
        bool(H[s, q]) == (s in sp.anc[q]) for s in range(sp.nsources)
        for q in range(sp.nparties)), "hypergraph", str(H))
    ck([sorted(map(int, x)) for x in p.parents_per_party] == sp.obs_parents,
       "parents", str(p.parents_per_party))
    ck(list(map(int, p.inflation_level_per_source)) == sp.levels, "levels")
    # --- operators ---------------------------------------------------------
    exp = sp.operators()
    got = [np.asarray(m) for m in p.measurements]
    flat = np.vstack([m.reshape(-1, m.shape[-1]) for m in got])
    rows = [tuple(int(v) for v in r) for r in flat]
    if not obs.check(sorted(rows) == sorted(exp), "operators",
                     lambda: f"missing {sorted(set(exp) - set(rows))[:5]}, "
                     f"not expected {sorted(set(rows) - set(exp))[:5]}, "
                     f"{len(rows)} vs {len(exp)}", "operator inventories"):
        return
    for q, m in enumerate(got):
        ck(m.ndim == 4 and m.shape[1:3] == (sp.eff_settings[q],
                                            sp.outcomes[q])
           and all(len({tuple(r[:-1]) for r in m[i, x].tolist()}) == 1
                   and [r[-1] for r in m[i, x].tolist()] ==
                   list(range(sp.outcomes[q]))
                   for i in range(m.shape[0]) for x in range(m.shape[1])),
           "measurement-layout", f"party {q}: {m.shape}")
    ev = sorted(tuple(int(v) for v in r)
                for r in np.asarray(p.original_dag_events))
    want = sorted((q + 1, x, a) for q in range(sp.nparties)
                  for x in range(sp.settings[q])
                  for a in range(sp.outcomes[q]))
    ck(ev == want, "original-events",
       f"{len(ev)} events, expected {len(want)}")
    pos = {r: i for i, r in enumerate(rows)}
    idx = lambda rr: [int(x) for x in p.mon_to_lexrepr(np.array(
        rr, dtype=flat.dtype).reshape(-1, flat.shape[1]))]
    order = idx(rows) if len(rows) < 400 else None
    if order is not None:
        ck(sorted(order) == list(range(len(rows))), "lexicographic-index",
           f"{order[:20]}")
    # --- effective settings ------------------------------------------------
    for q in range(sp.nparties):
        for x in rng.integers(0, sp.eff_settings[q], size=3):
            t = p.effective_to_parent_settings[q][int(x)]
            priv, par = sp.decode_setting(q, x)
            ck(tuple(int(v) for v in t) == (priv,) + par, "setting-meaning",
               f"party {q} setting {x}: {t}, expected {(priv,) + par}")
    # --- symmetries --------------------------------------------------------
    order_group = int(np.prod([np.prod(range(1, n + 1)) for n in sp.levels]))
    if order is not None and alg is not None and order_group <= 200:
        S = np.asarray(p.discover_lexorder_symmetries())
        inv = {i: r for r, i in zip(rows, order)}
        seen = set()
        for g in alg.group:
            perm = [0] * len(rows)
            for i, r in inv.items():
                perm[i] = order[pos[alg.relabel((r,), g)[0]]]
            seen.add(tuple(perm))
        mine = [tuple(int(v) for v in s) for s in S]
        obs.check(set(mine) == seen, "symmetries",
                  lambda: f"{len(set(mine))} permutations, expected "
                  f"{len(seen)}; e.g. {sorted(set(mine) ^ seen)[:2]}",
                  "symmetry groups")
        ck(len(mine) == order_group or sp.nsources and len(mine) == len(seen),
           "symmetry-count", f"{len(mine)} vs {order_group}")
    # --- products ----------------------------------------------------------
    comp = (alg or Algebra.__new__(Algebra))
    if alg is None:
        comp.spec, comp.ns = sp, sp.nsources
    for _ in range(12):
        k = int(rng.integers(1, 7))
        w = [rows[int(i)] for i in rng.integers(0, len(rows), size=k)]
        a = np.array(w, dtype=flat.dtype)
        b = a.copy()
        canon = bool(rng.random() < .5)
        f = p.factorize_monomial_2d(a, canonical_order=canon)
        ck(np.array_equal(a, b), "argument-changed", "factorize")
        fac = [tuple(tuple(int(v) for v in r) for r in x) for x in f]
        ref = comp.components(tuple(w))
        obs.check(sorted(fac) == sorted(ref), "factors",
                  lambda: f"{w}: factors {fac}, expected {ref}",
                  "factorisations")
        r = np.asarray(p.rectify_fake_setting(a))
        ck(np.array_equal(a, b), "argument-changed", "rectify")
        good = all(int(x[-2]) == sp.decode_setting(y[0] - 1, y[-2])[0]
                   and tuple(int(v) for v in x[:-2]) == y[:-2]
                   and int(x[-1]) == y[-1] for x, y in zip(r, w))
        ck(good and len(r) == len(w), "rectified-settings",
           f"{w} gives {r.tolist()}")
    # --- contexts ----------------------------------------------------------
    temps = sorted({r[:-1] for r in rows})
    if len(temps) <= 14 and alg is not None and order is not None and len(sp.nil) <= 1 \
            and not gen.unsound_cil(sp):
        com = {(s, t): alg.commute(s + (0,), t + (1,)) or s == t
               for s in temps for t in temps}
        # (templates are numbered in the order of the operators)
        key = {t: min(order[pos[r]] for r in rows if r[:-1] == t)
               for t in temps}
        temps.sort(key=key.get)
        maxn = int(rng.choice([0, 0, 1, 2, 3]))
        iso = bool(rng.random() < .7)
        al, mx = p.all_and_maximal_compatible_templates(
            max_n=maxn, isolate_maximal=iso)
        cl = []

        def ext(cur, cand):
            if maxn <= 0 or len(cur) <= maxn:
                cl.append(tuple(cur))
            if maxn <= 0 or len(cur) < maxn:
                for n, c in enumerate(cand):
                    ext(cur + [c], [d for d in cand[n + 1:]
                                    if com[temps[c], temps[d]]])
        ext([], list(range(len(temps))))
        gl = [tuple(int(v) for v in c) for c in al]
        obs.check(sorted(gl) == sorted(cl), "contexts",
                  lambda: f"max_n={maxn}: {len(gl)} contexts, expected "
                  f"{len(cl)}; {sorted(set(gl) ^ set(cl))[:3]}",
                  "sets of contexts")
        if iso and maxn <= 0:
            mm = [c for c in cl if c and not any(
                all(com[temps[i], temps[j]] for j in c)
                for i in range(len(temps)) if i not in c)]
            gm = [tuple(int(v) for v in c) for c in mx]
            obs.check(sorted(gm) == sorted(mm), "maximal-contexts",
                      lambda: f"{sorted(set(gm) ^ set(mm))[:3]}",
                      "sets of contexts")
    # --- other forms of the same description -------------------------------
    if len(rows) < 200:
        kw = forms(sp, rng)
        keep = {k: copy.deepcopy(v) for k, v in kw.items()}
        q = InflationProblem(**kw)
        obs.saw("forms of descriptions")
        for t in same(p, q, len(rows) < 60):
            obs.bad("form:" + t.split(":")[0], f"{keep}: {t}")
        if rng.random() < .3:      # what the caller does later has no effect
            for v in kw.values():
                if isinstance(v, np.ndarray):
                    v[...] = 3
                elif isinstance(v, (list, dict, set)):
                    v.clear()
            for t in same(p, q, False):
                obs.bad("alias:" + t.split(":")[0], f"{keep}: {t}")
    obs.distinct(sp.key())
    obs.sample({"operators": len(rows), "symmetries": order_group})
