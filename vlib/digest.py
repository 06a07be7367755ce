"""What a user can see of a piece of work with the library, as plain texts:
the same work done under other circumstances (another process, another hash
seed, other compilation of the kernels, ...) must give the same texts."""
import copy
import hashlib
import os
import tempfile
import numpy as np
from .spec import Spec
from .runner import Skip


def num(x):
    x = float(x)
    return "0" if abs(x) < 1e-12 else f"{x:.9g}"


def text(v):
    """Canonical text, keeping the order of lists and dictionaries."""
    if v is None or isinstance(v, (bool, str)):
        return str(v)
    if isinstance(v, (np.bool_,)):
        return str(bool(v))
    if isinstance(v, (int, np.integer)):
        return str(int(v))
    if isinstance(v, (float, np.floating)):
        return num(v)
    if isinstance(v, dict):
        return "{" + ", ".join(f"{text(k)}: {text(x)}"
                               for k, x in v.items()) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(map(text, v)) + "]"
    if isinstance(v, (set, frozenset)):
        return "set(" + ", ".join(sorted(map(text, v))) + ")"
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return "[" + ", ".join(map(text, v.flat)) + "]"
        return str(v.shape) + text(v.ravel().tolist())
    if hasattr(v, "tocoo"):
        c = v.tocoo()
        r = c.row if hasattr(c, "row") else np.zeros(c.nnz, int)
        d = {}
        for i, j, x in zip(r, c.col, c.data):
            d[int(i), int(j)] = d.get((int(i), int(j)), 0.) + float(x)
        return f"{c.shape}" + text(sorted((k, x) for k, x in d.items() if x))
    if hasattr(v, "name"):
        return str(v.name)
    return str(v)


def frozen(v):
    """Text of an argument, to see whether it was changed."""
    return f"{type(v).__name__}:{text(v)}"


class Watch:
    """Gives copies of arguments to the library and tells which of them were
    modified."""

    def __init__(self):
        self.held, self.changed = [], []

    def __call__(self, label, v):
        self.held.append((label, v, frozen(v)))
        return v

    def look(self):
        for label, v, t in self.held:
            if frozen(v) != t:
                self.changed.append(f"{label}: was {t[:200]}, is now "
                                    f"{frozen(v)[:200]}")
        self.held = []
        return self.changed

    def vandalise(self):
        """The caller goes on to use its own containers for other things."""
        for _, v, _ in self.held:
            try:
                if isinstance(v, list):
                    for x in v:
                        if isinstance(x, dict):
                            x.clear()
                    v.clear()
                elif isinstance(v, dict):
                    v.clear()
                elif isinstance(v, np.ndarray):
                    v[...] = 7
            except Exception:
                pass
        self.held = []


def problem_view(p):
    return {
        "names": text([str(x) for x in p.names]),
        "shape": text(list(p.expected_distro_shape)),
        "settings": text(np.asarray(p.settings_per_party)),
        "measurements": text([np.asarray(m) for m in p.measurements]),
        "symmetries": text(np.asarray(p.discover_lexorder_symmetries())),
        "events": text(np.asarray(p.original_dag_events)),
        "hypergraph": text(np.asarray(p.hypergraph)),
        "outcomes": text(np.asarray(p.outcomes_per_party)),
        "children": text(np.asarray(p.has_children)),
    }


def random_dist(sp, rng):
    from .props.s03 import distribution
    return np.round(distribution(sp, rng, ["model", "shared", "zeros"][
        int(rng.integers(3))]), 12)


def near(k, x, y):
    if x == y:
        return True
    if k.startswith("solve") and (None in (x, y) or "unknown" in (x, y)):
        return True         # no answer from the stand-in of the solver
    if k == "solve value" and None not in (x, y):
        x, y = float(x), float(y)
        return abs(x - y) < 1e-3 * (1 + abs(x))
    return False


def token(t):
    """Numbers are compared up to rounding (sums in another order)."""
    try:
        return f"{float(t) + 0.:.8g}"
    except ValueError:
        return t


def read(path):
    with open(path, "rb") as f:
        return f.read().decode("utf8", "replace")


def work(case, watch=None, verbose=0, solve=False, vandal=False):
    """Do the work of a case; returns {what: text}."""
    from inflation import InflationProblem, InflationSDP, InflationLP
    from .props import h01
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    what = case["what"]
    sup = bool(case.get("sup"))
    if sum(int(np.prod(range(1, n + 1))) for n in sp.levels) > 30:
        raise Skip("symmetry group too large")
    w = watch or (lambda label, v: v)

    def done():
        if watch is not None:
            if vandal:
                watch.vandalise()
            else:
                watch.look()
    out = {}
    kw = sp.kwargs()
    kw["verbose"] = verbose
    for k in ("dag", "outcomes_per_party", "settings_per_party",
              "classical_sources", "order",
              "nonclassical_intermediate_latents",
              "classical_intermediate_latents"):
        if k in kw:
            kw[k] = w("InflationProblem " + k, copy.deepcopy(kw[k]))
    form = [list, tuple, np.array][case["seed"] % 3]
    for k in ("outcomes_per_party", "settings_per_party"):
        kw[k] = w("InflationProblem " + k, form(kw[k]))
    if isinstance(kw["inflation_level_per_source"], list):
        kw["inflation_level_per_source"] = w(
            "InflationProblem levels", list(kw["inflation_level_per_source"]))
    prob = InflationProblem(**kw)
    done()
    for k, v in problem_view(prob).items():
        out["problem " + k] = v
    if case.get("kernels"):
        out.update(kernels(prob, rng))
    if what == "problem":
        return out
    if case.get("again"):       # another object of the same problem, before
        (InflationLP if case["again"] == "lp" else InflationSDP)(
            prob, verbose=0, include_all_outcomes=True)
    if what == "sdp":
        obj = InflationSDP(prob, verbose=verbose, supports_problem=sup)
        cols = w("columns", copy.deepcopy(case["cols"]))
        if len(InflationSDP(prob, verbose=0,
                            supports_problem=sup).build_columns(cols)) > 60:
            raise Skip("columns")
        obj.generate_relaxation(cols)
        done()
        out["matrix"] = text(np.asarray(obj.momentmatrix))
        out["columns"] = text([np.asarray(m)
                               for m in obj.generating_monomials_1d])
        out["moments"] = text([m.name for m in obj.moments])
        out["nonnegative"] = text([m.name for m in obj.nonnegative_moments])
        out["knowable"] = text([m.name for m in obj.knowable_atoms])
        known, semi = "known_moments", "semiknown_moments"
    else:
        from .lpobs import RefLP
        RefLP(sp, 1500)
        obj = InflationLP(prob, nonfanout=bool(case.get("nonfanout", True)),
                          verbose=verbose, supports_problem=sup)
        out["moments"] = text([str(m.name) for m in obj.monomials])
        out["factorization"] = text(obj.factorization_conditions_by_name)
        out["knowable"] = text([m.name for m in obj.knowable_atoms])
        known, semi = "known_vars_by_name", "semiknown_by_name"
    out["equalities"] = text(obj.moment_equalities)
    out["inequalities"] = text(obj.moment_inequalities)

    def view(tag):
        with h01.Recorder(what) as r:
            obj.solve()
        a = dict(r.args)
        a.pop("solverparameters", None)
        for k in sorted(a):
            if k in ("verbose",):
                continue
            v = a[k]
            if k == "mask_matrices":
                v = {str(m): x for m, x in v.items()}
            out[f"{tag}: {k}"] = text(v)
        out[f"{tag} known"] = text(getattr(obj, known))
        out[f"{tag} semi"] = text(getattr(obj, semi))
    names = h01.names_of(obj, what)
    P = random_dist(sp, rng)
    if sup:
        P = (P > .05).astype(float)
    lpi = bool(rng.random() < .4) and not sup
    dkw = {} if sup else {"use_lpi_constraints": lpi}
    obj.set_distribution(w("set_distribution array", P.copy()), **dkw)
    done()
    view("distribution")
    if not sup and names:
        vals = h01.values(obj, what, rng)
        obj.set_values(w("set_values", dict(vals)))
        done()
        more = h01.values(obj, what, rng)
        obj.update_values(w("update_values", dict(more)))
        done()
        for t in ("up", "lo"):
            ms = [names[int(i)] for i in rng.permutation(len(names))[:3]]
            free = [m for m in ms if m.name not in set(
                str(x) for x in getattr(obj, known))]
            b = {m.name: (1.5 if t == "up" else -.25) for m in free}
            obj.set_bounds(w("set_bounds " + t, b), t)
            done()
        e = [h01.lincomb(obj, what, rng) for _ in range(2)]
        obj.set_extra_equalities(w("set_extra_equalities", e))
        done()
        e = [h01.lincomb(obj, what, rng) for _ in range(2)]
        obj.set_extra_inequalities(w("set_extra_inequalities", e))
        done()
        d = h01.lincomb(obj, what, rng)
        obj.set_objective(w("set_objective", d),
                          "max" if rng.random() < .5 else "min")
        done()
        view("specification")
    if not sup and case.get("files"):
        with tempfile.TemporaryDirectory() as tmp:
            for ext in ((".csv", ".dat-s") if what == "sdp"
                        else (".lp", ".mps")):
                f = os.path.join(tmp, "p" + ext)
                try:
                    obj.write_to_file(f)
                except Exception as e:
                    out["file " + ext] = f"{type(e).__name__}: {e}"
                    continue
                out["file " + ext] = "\n".join(
                    " ".join(sorted(map(token, line.split())))
                    for line in read(f).splitlines() if tmp not in line)
    if solve and not sup:
        obj.set_distribution(P.copy(), use_lpi_constraints=lpi)
        obj.solve(feas_as_optim=True, solve_dual=bool(case["seed"] % 2))
        out["solve status"] = str(obj.status)
        if obj.success:
            out["solve value"] = f"{float(obj.objective_value):.9g}"
    for k, v in problem_view(prob).items():
        if v != out["problem " + k]:
            out["problem changed: " + k] = v
    return out


def kernels(prob, rng, n=6):
    """The kernels on their own (those that exist), on random products."""
    import inflation.sdp.fast_npa as f
    import inflation.lp.numbafied as g
    out = {}
    lex = np.vstack([np.asarray(m).reshape(-1, np.asarray(m).shape[-1])
                     for m in prob.measurements])
    N = len(lex)

    def call(tag, mod, name, *args):
        fn = getattr(mod, name, None)
        if fn is None:
            return
        try:
            r = fn(*[a.copy() if isinstance(a, np.ndarray) else a
                     for a in args])
            r = np.asarray(r).astype(np.int64) if isinstance(
                r, (np.ndarray, np.bool_, bool, int, np.integer)) else r
            out[f"kernel {name} {tag}"] = text(r)
        except IndexError:
            raise
        except Exception:
            out[f"kernel {name} {tag}"] = "error"
    notcomm = rng.random((N + 1, N + 1)) < .4
    notcomm = notcomm | notcomm.T
    np.fill_diagonal(notcomm, False)
    ortho = np.zeros((N + 1, N + 1), bool)
    for i in range(N):
        for j in range(N):
            ortho[i + 1, j + 1] = i != j and np.array_equal(lex[i, :-1],
                                                            lex[j, :-1])
    notcomm &= ~ortho
    for k in range(n):
        i = rng.integers(0, N, size=int(rng.integers(0 if k == 0 else 1, 6)))
        j = rng.integers(0, N, size=int(rng.integers(1, 4)))
        mon, mon2 = lex[i], lex[j]
        call(k, f, "dot_mon", mon, mon2)
        call(k, f, "mon_lexsorted", mon, lex)
        call(k, f, "nb_is_knowable", mon)
        call(k, f, "nb_mon_to_lexrepr", mon, lex)
        call(k, f, "nb_monomial_to_components", mon)
        call(k, f, "nb_overlap_matrix", mon[:, 1:-2])
        if len(mon):
            call(k, f, "nb_is_physical", mon)
            call(k, f, "nb_lexorder_idx", mon[0], lex)
            call(k, f, "nb_exists_shared_source", mon[0, 1:-2],
                 mon2[0, 1:-2])
        call(k, f, "remove_projector_squares", mon)
        call(k, f, "reverse_mon", mon)
        call(k, f, "commutation_matrix", lex,
             np.asarray(prob.sources_to_check_for_party_pair_commutation))
        word = (i + 1).astype(np.intc)
        call(k, f, "nb_lexmon_to_canonical", word, notcomm)
        for com in (False, True):
            for only in (False, True):
                call(f"{k}{com}{only}", f, "to_canonical_1d_internal", word,
                     notcomm, ortho, com, only)
        call(k, f, "lexmon_is_zero", word, ortho)
        call(k, f, "nb_all_commuting_q", mon, lex, notcomm[1:, 1:])
        call(k, g, "nb_mon_to_lexrepr_bool", mon, lex)
        a = rng.random((int(rng.integers(1, 5)), N)) < .3
        b = rng.random((int(rng.integers(1, 5)), N)) < .3
        call(k, g, "nb_outer_bitwise_or", a, b)
        call(k, g, "nb_outer_bitwise_xor", a, b)
        call(k, g, "nb_is_do_conditional", mon)
        adj = rng.random((len(i), len(i))) < .3
        adj = adj | adj.T
        np.fill_diagonal(adj, True)
        call(k, f, "nb_classify_disconnected_components", adj)
    return out


def short(d):
    return {k: (v if len(v) < 300 else
                hashlib.md5(v.encode()).hexdigest() + " " + v[:200])
            for k, v in d.items()}
