"""Scenario generator: named families with random cardinalities, inflation
levels, classicality and party order, plus random DAGs."""
import numpy as np
from .spec import Spec

BASE = {
    # name: (dag, nil, cil)
    "single": ({"r": ["A"]}, [], []),
    "bell": ({"r": ["A", "B"]}, [], []),
    "bell3": ({"r": ["A", "B", "C"]}, [], []),
    "oneside": ({"r": ["A", "B"], "s": ["A"]}, [], []),
    "bilocal": ({"r": ["A", "B"], "s": ["B", "C"]}, [], []),
    "bilocal_rev": ({"s": ["B", "C"], "r": ["A", "B"]}, [], []),
    "triangle": ({"r": ["A", "B"], "s": ["B", "C"], "t": ["A", "C"]}, [], []),
    "star": ({"r": ["A", "D"], "s": ["B", "D"], "t": ["C", "D"]}, [], []),
    "chain4": ({"r": ["A", "B"], "s": ["B", "C"], "t": ["C", "D"]}, [], []),
    "disjoint": ({"r": ["A", "B"], "s": ["C"]}, [], []),
    "tripartite2": ({"r": ["A", "B", "C"], "s": ["B", "C"]}, [], []),
    "instr": ({"U": ["A", "B"], "A": ["B"]}, [], []),
    "instr_noise": ({"U": ["A", "B"], "V": ["A"], "A": ["B"]}, [], []),
    "sequential": ({"U": ["B", "C"], "V": ["A", "B"], "A": ["B"],
                    "B": ["C"]}, [], []),
    "evans": ({"U": ["A", "B"], "V": ["B", "C"], "B": ["A", "C"]}, [], []),
    "forkdown": ({"U": ["B", "C"], "V": ["A"], "A": ["B", "C"]}, [], []),
    "collider": ({"U": ["A", "C"], "V": ["B", "C"], "A": ["C"],
                  "B": ["C"]}, [], []),
    "unrelated": ({"U": ["A", "B"], "V": ["B", "C"], "A": ["B"]}, [], []),
    "nil1": ({"s1": ["L", "A"], "s2": ["L", "C"], "L": ["B", "C"]},
             ["L"], []),
    "nil2": ({"s": ["A", "L"], "L": ["B", "C"]}, ["L"], []),
    "nil3": ({"s1": ["A", "L"], "s2": ["L", "D"], "L": ["B", "C"]},
             ["L"], []),
    "nil_two": ({"s1": ["L", "A"], "s2": ["L", "M"], "L": ["B", "C"],
                 "M": ["C", "D"]}, ["L", "M"], []),
    "nil_mixed": ({"s1": ["A", "B", "L", "M"], "s2": ["C", "D"],
                   "s3": ["L"], "L": ["C", "D"], "M": ["B", "E"]},
                  ["L"], ["M"]),
    "nil_direct": ({"s1": ["L", "B"], "s2": ["L", "A"], "L": ["B", "C"]},
                   ["L"], []),
    "cil1": ({"s": ["A", "L"], "L": ["B", "C"]}, [], ["L"]),
    "cil_direct": ({"s": ["A", "L"], "t": ["B", "C"], "L": ["B", "C"]},
                   [], ["L"]),
}


def unsound_cil(spec):
    """A classical intermediate latent with several parents, one of which is a
    nonclassical source (recorded finding; see DESIGN.md)."""
    return any(len(spec.lat_sources[l]) > 1
               and any(not spec.is_classical[s] for s in spec.lat_sources[l])
               for l in spec.cil)


def random_spec(rng, max_ops=40, families=None, classical=None, maxlevel=2,
                max_out=3, max_set=3, networks_only=False, with_order=True,
                tries=200):
    """classical: None (random), 'all', 'none'."""
    for _ in range(tries):
        fam = (families[int(rng.integers(len(families)))] if families
               else list(BASE)[int(rng.integers(len(BASE)))])
        dag, nil, cil = BASE[fam]
        dag = {k: list(v) for k, v in dag.items()}
        names = sorted({c for v in dag.values() for c in v
                        if c not in nil + cil})
        n = len(names)
        if rng.random() < .5:
            outs = [2] * n
        else:
            outs = [int(x) for x in rng.integers(2, max_out + 1, size=n)]
        if rng.random() < .3:
            sets = [1] * n
        else:
            sets = [int(x) for x in rng.integers(1, max_set + 1, size=n)]
        srcs = [k for k in dag if k not in names and k not in nil + cil]
        levels = [int(x) for x in rng.integers(1, maxlevel + 1,
                                               size=len(srcs))]
        if classical == "all":
            cl = "all"
        elif classical == "none":
            cl = []
        else:
            r = rng.random()
            if r < .25:
                cl = "all"
            elif r < .6:
                cl = []
            else:
                cl = [s for s in srcs if rng.random() < .5]
        if nil and (cl == "all" or any(
                all(s in cl for s in srcs if l in dag[s]) for l in nil)):
            cl = [s for s in cl if s in srcs
                  and not any(l in dag[s] for l in nil)] if cl != "all" else []
        d = dict(dag=dag, outcomes=outs, settings=sets, levels=levels,
                 classical=cl, family=fam)
        if nil:
            d["nil"] = list(nil)
        if cil:
            d["cil"] = list(cil)
        if rng.random() < .2:      # rename nodes
            tr = {x: y for x, y in zip(names, rng.permutation(
                ["Alice", "Bob", "Zed", "X1", "Q"])[:n])}
            f = lambda x: str(tr.get(x, x))
            d["dag"] = {f(k): [f(c) for c in v] for k, v in dag.items()}
            names = sorted(f(x) for x in names)
        order = list(names)
        if with_order and rng.random() < .5:
            order = [str(x) for x in rng.permutation(names)]
            d["order"] = order
        sp = Spec(d)
        if networks_only and not sp.is_network:
            continue
        if unsound_cil(sp):
            continue
        if sp.n_ops() <= max_ops:
            return sp
    raise RuntimeError("no scenario found")


def random_dag_spec(rng, max_ops=40, maxlevel=2, classical=None, tries=500):
    """A random DAG over 2-4 parties and 1-3 sources."""
    for _ in range(tries):
        n = int(rng.integers(2, 5))
        m = int(rng.integers(1, 4))
        names = ["A", "B", "C", "D"][:n]
        dag = {}
        for i in range(m):
            k = int(rng.integers(1, min(n, 3) + 1))
            dag["s%d" % i] = [names[j] for j in
                              sorted(rng.permutation(n)[:k].tolist())]
        if set(c for v in dag.values() for c in v) != set(names):
            continue
        if rng.random() < .5:
            perm = [names[i] for i in rng.permutation(n)]
            for i in range(n):
                ch = [perm[j] for j in range(i + 1, n) if rng.random() < .35]
                if ch:
                    dag[perm[i]] = ch
        keys = list(dag)
        if rng.random() < .5:
            keys = [keys[i] for i in rng.permutation(len(keys))]
            dag = {k: dag[k] for k in keys}
        srcs = [k for k in dag if k not in names]
        outs = [int(x) for x in rng.choice([2, 2, 2, 3], size=n)]
        sets = [int(x) for x in rng.choice([1, 1, 2], size=n)]
        levels = [int(x) for x in rng.integers(1, maxlevel + 1, size=m)]
        cl = ("all" if classical == "all" else [] if classical == "none"
              else ["all", [], [s for s in srcs if rng.random() < .5]]
              [int(rng.integers(3))])
        d = dict(dag=dag, outcomes=outs, settings=sets, levels=levels,
                 classical=cl, family="random")
        if rng.random() < .4:
            d["order"] = [str(x) for x in rng.permutation(names)]
        sp = Spec(d)
        if sp.n_ops() <= max_ops:
            return sp
    raise RuntimeError("no scenario found")


def two_digit_spec(rng, max_ops, classical=None):
    """Scenarios with more than ten outcomes or settings."""
    for _ in range(60):
        sp = random_spec(rng, max_ops=max_ops, classical=classical, families=[
            ["single", "bell", "bell", "oneside", "instr", "bilocal",
             "disjoint"][int(rng.integers(7))]])
        n = len(sp.names)
        o, s = [2] * n, [1] * n
        p = int(rng.integers(n))
        v = int(rng.choice([10, 11, 12, 13]))
        if rng.random() < .5:
            o[p] = v
        else:
            s[p] = v
        if rng.random() < .4:
            (s if rng.random() < .5 else o)[(p + 1) % n] = 3
        q = Spec(dict(sp.d, outcomes=o, settings=s,
                      levels=[1 if rng.random() < .8 else l
                              for l in sp.levels]))
        if q.n_ops() <= max_ops:
            return q
    return None


MULTI = [{"h": ["A", "B", "C"], "A": ["C"], "B": ["C"]},
         {"h": ["A", "B"], "g": ["B", "C"], "A": ["C"], "B": ["C"]},
         {"h": ["A", "C"], "g": ["B", "C"], "A": ["C"], "B": ["C"]},
         {"h": ["A", "B", "C"], "A": ["B", "C"], "B": ["C"]},
         {"h": ["A"], "g": ["B", "C"], "A": ["B", "C"], "B": ["C"]}]


def multi_parent_spec(rng, max_ops, classical=None):
    """A node caused by two observed nodes of different cardinalities."""
    for _ in range(60):
        dag = MULTI[int(rng.integers(len(MULTI)))]
        tr = dict(zip("ABC", rng.permutation(list("ABC"))))
        f = lambda x: str(tr.get(x, x))
        dag = {f(k): [f(c) for c in v] for k, v in dag.items()}
        keys = [list(dag)[i] for i in rng.permutation(len(dag))]
        dag = {k: dag[k] for k in keys}
        order = [str(x) for x in rng.permutation(list("ABC"))]
        src = [k for k in dag if k not in order]
        card = dict(zip(order, [2, 2, 2]))
        a, b = (f("A"), f("B"))[::1 if rng.random() < .5 else -1]
        card[a] = 3 if rng.random() < .85 else 4
        if rng.random() < .15:
            card[b] = 1
        d = dict(dag=dag, outcomes=[card[x] for x in order],
                 settings=[1 if rng.random() < .75 else 2 for _ in order],
                 levels=[1 if rng.random() < .7 else 2 for _ in src],
                 classical=classical if classical == "all" else []
                 if classical == "none" else ["all", [], src[:1]][
                     int(rng.integers(3))], order=order, family="multi")
        sp = Spec(d)
        if sp.n_ops() <= max_ops:
            return sp
    return None


def any_spec(rng, p_random=.25, **kw):
    sp = _any_spec(rng, p_random, **kw)
    if rng.random() < .05:      # a node with a single outcome
        o = list(sp.outcomes)
        o[int(rng.integers(len(o)))] = 1
        sp = sp.restrict(outcomes=o)
    return sp


def _any_spec(rng, p_random, **kw):
    if kw.get("max_ops", 40) >= 18 and rng.random() < .05:
        sp = two_digit_spec(rng, max(kw.get("max_ops", 40), 30),
                            kw.get("classical"))
        if sp is not None and not (kw.get("networks_only")
                                   and not sp.is_network):
            return sp
    if not kw.get("networks_only") and kw.get("max_ops", 40) >= 18 \
            and rng.random() < .05:
        sp = multi_parent_spec(rng, kw.get("max_ops", 40),
                               kw.get("classical"))
        if sp is not None:
            return sp
    if rng.random() < p_random:
        k2 = {k: v for k, v in kw.items()
              if k in ("max_ops", "maxlevel", "classical")}
        sp = random_dag_spec(rng, **k2)
        if not (kw.get("networks_only") and not sp.is_network):
            return sp
    return random_spec(rng, **kw)


def ncols_upper(spec, col, CG=True):
    """Rough upper bound of the number of generating monomials."""
    k = []
    for p in range(spec.nparties):
        o = spec.outcomes[p] - (0 if spec.has_children[p] or not CG else 1)
        k.append(int(np.prod([spec.levels[s] for s in spec.anc[p]]))
                 * spec.eff_settings[p] * o)
    tot = sum(k)
    if col.startswith("npa"):
        n = int(col[3:])
        from math import comb
        return sum(tot ** i if i < 2 else tot ** i // (2 if i == 2 else 4)
                   for i in range(n + 1))
    if col == "local1":
        return int(np.prod([x + 1 for x in k]))
    return tot ** 2
