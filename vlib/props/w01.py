"""W01: an exported semidefinite programme is the programme of the object."""
import os
import re
import tempfile
import numpy as np
from .. import gen, files, conic
from ..boot import SCRATCH
from ..spec import Spec
from ..runner import Skip
from ..sdpobs import make_sdp, pick_columns, realisations
from ..solveobs import RefSDP, independent
from .h01 import capture, programme, difference

ID = "W01"
RULE = ("a case is (scenario, generating set, values, bounds, constraints and "
        "objective satisfied by an explicit model); the .csv and .mat files "
        "are read back and compared term by term, and the .dat-s file is "
        "solved as it stands, with the programme that the object hands to "
        "the solver; distinct = distinct programmes with at least one known "
        "value, bound, constraint or objective")
BUDGET = {"quick": 90, "thorough": 600}
ASSUMPTIONS = ["vlib/conic.py solves both the programme of the .dat-s file "
               "and the one of the object; undecided solves are not compared"]
warm = [{"spec": dict(dag={"r": ["A", "B"], "A": ["B"]}, outcomes=[2, 2],
                      settings=[2, 2], levels=[1]), "cols": "npa1",
         "seed": 2}]


def cases(tier, rng):
    n = 360 if tier == "quick" else 5000
    for k in range(n):
        sp = gen.any_spec(rng, max_ops=16)
        yield {"spec": sp.d, "cols": pick_columns(rng, sp, 22),
               "seed": int(rng.integers(2 ** 31))}


def clean(name):
    return re.sub(r"[;,]", ";", str(name).replace(" ", ""))


def split_top(s, seps):
    """Split at separators that are outside of brackets."""
    out, depth, cur = [], 0, ""
    for i, ch in enumerate(s):
        if ch in "[(<":
            depth += 1
        elif ch in "])>":
            depth -= 1
        if depth == 0 and ch in seps and cur and not (
                ch in "+-" and re.search(r"(^|[^\w\])>])\d[\d.]*[eE]$", cur)):
            out.append(cur)
            cur = ch if ch in "+-" else ""
        elif depth == 0 and ch in seps and ch not in "+-":
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    return out


def csv_linear(s, names):
    """Combination of names (without spaces) as written in the file."""
    s = clean(s)
    d = {}
    if not s:
        return d
    for t in split_top(s, "+-"):
        m = re.fullmatch(r"([+-]?)(?:(\d+\.?\d*(?:[eE][+-]?\d+)?)(?:\*|$))?"
                         r"(.*)", t)
        v = float(m.group(2)) if m.group(2) else 1.
        if m.group(1) == "-":
            v = -v
        nm = m.group(3) or "#"
        if nm == "1":
            nm = "#"
        if nm == "0":
            continue
        if nm != "#" and nm not in names:
            raise files.Malformed(f"term {t!r} of {s!r}")
        d[nm] = d.get(nm, 0.) + v
    return d


def read_csv(text, n, names):
    lines = text.split("\n")
    if not lines[0].startswith("Objective:"):
        raise files.Malformed("no objective")
    out = {"objective": csv_linear(lines[0][10:], names), "cells": {},
           "bounds": [], "eq": [], "ineq": []}
    for i in range(n):
        row = split_top(lines[1 + i], ",")
        if len(row) != n:
            raise files.Malformed(f"row {i} of the matrix has {len(row)} "
                                  "entries")
        for j in range(i, n):
            out["cells"][i, j] = csv_linear(row[j], names)
    sec = None
    for ln in lines[1 + n:]:
        if ln.startswith("Bounds"):
            sec = "bounds"
        elif ln.startswith("Equalities"):
            sec = "eq"
        elif ln.startswith("Inequalities"):
            sec = "ineq"
        elif not ln.strip() or ln.startswith("Variable,"):
            continue
        elif sec == "bounds":
            f = split_top(ln, ",")
            if len(f) != 3 or clean(f[0]) not in names:
                raise files.Malformed(f"bound {ln!r}")
            out["bounds"].append((clean(f[0]), *[
                None if x == "None" else files.num(x) for x in f[1:]]))
        elif sec:
            out[sec].append(csv_linear(ln, names))
        else:
            raise files.Malformed(f"line {ln!r}")
    return out


def canon(known, semi, objective, eqs, ineqs, bounds):
    """Canonical programme; knowns and semiknowns are substituted."""
    args = dict(variables=[], known_vars=dict(known), semiknown_vars=dict(semi),
                objective=objective, equalities=list(eqs),
                inequalities=list(ineqs), mask_matrices={})
    for v, lo, up in bounds:
        if lo is not None:
            args["inequalities"].append({v: 1., "#": -lo})
        if up is not None:
            args["inequalities"].append({v: -1., "#": up})
    P = programme(args, "sdp")
    return {k: P[k] for k in ("objective", "equalities")} | {
        "inequalities": tighten(P["inequalities"])}


def tighten(rows):
    """Of parallel inequalities only the strongest counts; the sign of a
    product follows from the sign of its factor."""
    best = {}
    for r in rows:
        d = dict(r)
        c = d.pop("#", 0.)
        if not d:
            best[()] = min(best.get((), 0.), c)
            continue
        k = sorted(d)[0]
        s = abs(d[k])
        key = tuple(sorted((m, round(v / s, 6) + 0.) for m, v in d.items()))
        best[key] = min(best.get(key, np.inf), round(c / s, 6) + 0.)
    return frozenset(best.items())


def prepare(case):
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    if sum(int(np.prod(range(1, n + 1))) for n in sp.levels) > 30:
        raise Skip("symmetry group too large")
    sdp = make_sdp(sp, case["cols"], max_cols=30)
    if sdp.n_columns < 3:
        raise Skip("too small")
    reals = realisations(sp, rng, n_cl=1, n_q=1, ncols=sdp.n_columns)
    if not reals:
        raise Skip("no model")
    r = reals[int(rng.integers(len(reals)))]
    return sp, rng, sdp, r


def configure(sp, rng, sdp, r, log):
    x0 = {m: r.moment(m) for m in sdp.moments}
    ms = [m for m in sdp.moments if not (m.is_one or m.is_zero)]
    word = [m for m in ms if abs(x0[m]) > 1e-6]
    pick = lambda L, n: [L[int(i)] for i in rng.permutation(len(L))[:n]]
    cast = (lambda v: np.float64(v)) if rng.random() < .3 else float
    lpi = bool(rng.random() < .5)

    def vals():
        k = rng.random()
        if k < .45:
            P = r.distribution()
            sdp.set_distribution(P, use_lpi_constraints=lpi)
            log.append("distribution")
        elif word:
            at = [m for m in word if len(m.factors) == 1 and x0[m] > 1e-3]
            v = {m: cast(x0[m]) for m in pick(
                at if rng.random() < .5 and at else word,
                int(rng.integers(1, 4)))}
            sdp.set_values(v, use_lpi_constraints=lpi)
            log.append("values")

    def bounds():
        for t in ("up", "lo"):
            b = {}
            for m in pick(ms, int(rng.integers(0, 4))):
                g = .02 + .3 * rng.random() * (rng.random() < .7)
                v = x0[m] + g if t == "up" else x0[m] - g
                if rng.random() < .25 and x0[m] < -.02 and t == "up":
                    v = x0[m] * .4
                b[m] = cast(np.round(v, 4))
            if b:
                sdp.set_bounds(b, t)
                log.append("bounds" + t)

    def extra():
        for t in ("eq", "ineq"):
            e = []
            for _ in range(int(rng.integers(0, 3))):
                d = {m: cast(np.round(rng.normal(), 2) or 1.)
                     for m in pick(ms, int(rng.integers(1, 5)))}
                s = sum(c * x0[m] for m, c in d.items())
                c = -s + (.01 + rng.random() * .3 if t == "ineq" else 0.)
                d[sdp.One] = cast(c)
                e.append(d)
            if e:
                (sdp.set_extra_equalities if t == "eq" else
                 sdp.set_extra_inequalities)(e)
                log.append("extra" + t)

    def objective():
        d = {m: cast(np.round(rng.normal(), 2) or 1.)
             for m in pick(ms, int(rng.integers(1, 5)))}
        if rng.random() < .5:
            d[sdp.One] = cast(np.round(rng.normal(), 2))
        t = "max" if rng.random() < .5 else "min"
        sdp.set_objective(d, t)
        log.append("objective " + t)
    try:
        if rng.random() < .7:
            bounds()
        if rng.random() < .8:
            vals()
        if rng.random() < .7:
            extra()
        if rng.random() < .8:
            objective()
    except AssertionError as e:
        if "contradicts" in str(e):
            raise Skip("values contradict bounds")
        raise
    return x0


def run(case, obs):
    sp, rng, sdp, r = prepare(case)
    log = []
    x0 = configure(sp, rng, sdp, r, log)
    d = tempfile.mkdtemp(prefix="w01.dir_", dir=SCRATCH)
    try:
        export(sp, rng, sdp, log, x0, d, obs)
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)
    if log:
        obs.distinct(sp.key(), str(case["cols"]), tuple(log))
    obs.sample({"columns": str(case["cols"]), "specification": log})


def export(sp, rng, sdp, log, x0, d, obs):
    from .h01 import Recorder
    with Recorder("sdp") as rec:
        sdp.solve()
    args = rec.args
    known = {k: v for k, v in args["known_vars"].items()}
    known["1"] = 1.
    known.setdefault("0", 0.)
    semi = args["semiknown_vars"]
    tr = lambda e: {clean(k) if k not in ("1", "constant_term") else "#": v
                    for k, v in e.items()}
    ref = canon({clean(k): v for k, v in known.items()},
                {clean(k): (c, clean(x)) for k, (c, x) in semi.items()},
                tr(args["objective"] or {}),
                [tr(e) for e in args["equalities"]],
                [tr(e) for e in args["inequalities"]], [])
    mm = np.asarray(sdp.momentmatrix)
    nm = {m.idx: m.name for m in sdp.moments}
    n = len(mm)

    def value(name, depth=0):
        if name in known:
            return {"#": float(known[name])}
        if name in semi and depth < 5:
            return {k: semi[name][0] * v
                    for k, v in value(semi[name][1], depth + 1).items()}
        return {clean(name): 1.}
    cells = {i: value(nm[i]) for i in np.unique(mm)}

    def same(a, b):
        return all(abs(a.get(k, 0.) - b.get(k, 0.)) < 1e-9
                   for k in set(a) | set(b))
    # -- CSV
    p = os.path.join(d, "p.csv")
    sdp.write_to_file(p)
    names = {clean(m.name) for m in sdp.moments}
    names |= {clean(x) for _, x in semi.values()}
    try:
        C = read_csv(open(p).read(), n, names)
    except files.Malformed as e:
        obs.bad("malformed-csv", f"{log}: {e}")
    else:
        badc = [(k, v) for k, v in C["cells"].items()
                if not same(v, cells[mm[k]])]
        obs.saw("matrix entries read", len(C["cells"]))
        obs.check(not badc, "csv-matrix", lambda:
                  f"{log}: entry {badc[0][0]} reads {badc[0][1]}, it is "
                  f"{cells[mm[badc[0][0]]]}", "files read")
        got = canon({}, {}, C["objective"], C["eq"], C["ineq"],
                    [])
        gotb = canon({clean(k): v for k, v in known.items()},
                     {clean(k): (c, clean(x)) for k, (c, x) in semi.items()},
                     {}, [], C["ineq"], C["bounds"])
        got["inequalities"] = gotb["inequalities"]
        compare(obs, "csv", got, ref, log)
    # -- MAT
    from scipy.io import loadmat
    p = os.path.join(d, "p.mat")
    sdp.write_to_file(p)
    M = loadmat(p)
    flat = lambda x: [(int(a[0]), float(a[1])) for a in np.asarray(x, float)
                      ] if np.size(x) else []
    names = {int(np.ravel(a)[0]): clean(np.ravel(b)[0])
             for a, b in M["moments_idx2name"]}
    m2 = np.asarray(M["momentmatrix"])
    obs.check(m2.shape == mm.shape and all(
        names.get(int(m2[i, j])) == clean(nm[mm[i, j]])
        for i in range(n) for j in range(n)), "mat-matrix",
        f"{log}: the matrix read from the .mat file has other moments",
        "files read")
    try:
        k2 = {names[i]: v for i, v in flat(M["known_moments"])}
        s2 = {names[int(a[0])]: (float(a[1]), names[int(a[2])])
              for a in np.asarray(M["semiknown_moments"])} \
            if np.size(M["semiknown_moments"]) else {}
        one = lambda t: "#" if t == "1" else t

        def rows(x):
            return [{one(names[int(i)]): float(c) for i, c in zip(
                np.ravel(e["moments"][0, 0]), np.ravel(e["coeffs"][0, 0]))}
                for e in np.ravel(x)]
        ob = {one(names[i]): v for i, v in flat(M["objective"])}
        bd = [(names[i], v, None) for i, v in flat(M["moment_lowerbounds"])]
        bd += [(names[i], None, v) for i, v in flat(M["moment_upperbounds"])]
        got = canon(k2, s2, ob, rows(M["moment_equalities"]),
                    rows(M["moment_inequalities"]), bd)
        compare(obs, "mat", got, ref, log)
        inside = {clean(nm[i]) for i in np.unique(mm)}
        kk = {k: v for k, v in k2.items() if k in inside}
        obs.check(all(abs(known_of(k, known) - v) < 1e-9
                      for k, v in kk.items())
                  and set(kk) >= {clean(k) for k in known} & inside
                  - {"0", "1"}, "mat-known", f"{log}: known values",
                  "files read")
    except KeyError as e:
        obs.bad("mat-names", f"{log}: moment {e} has no name")
    # -- SDPA
    nvars_ref = RefSDP(mm, nm, known, {k: v for k, v in semi.items()})
    for k, e in (("eq", args["equalities"]), ("in", args["inequalities"])):
        for row in e:
            nvars_ref.add(k, {("1" if m == "constant_term" else m): v
                              for m, v in row.items()})
    R = nvars_ref
    if not R.vars:
        obs.note("no unknown moments")
        return
    p = os.path.join(d, "p.dat-s" if rng.random() < .8 else "noext")
    sdp.write_to_file(p)
    p = p if p.endswith("dat-s") else p + ".dat-s"
    if not os.path.exists(p):
        obs.bad("missing-file", "no file " + os.path.basename(p))
        return
    try:
        P = files.read_sdpa(open(p).read())
    except files.Malformed as e:
        obs.bad("malformed-sdpa", f"{log}: {e}")
        return
    sdpa(obs, rng, P, R, mm, nm, args, log)


def known_of(name, known):
    for k, v in known.items():
        if clean(k) == name:
            return float(v)
    return np.nan


def compare(obs, fmt, got, ref, log):
    for k in ref:
        obs.check(got[k] == ref[k], f"{fmt}-{k}",
                  lambda: f"{log}: {k} of the .{fmt} file: only in the file "
                  f"{sorted(set(got[k]) - set(ref[k]))[:3]}, only in the "
                  f"programme {sorted(set(ref[k]) - set(got[k]))[:3]}",
                  "parts of files compared")


def sdpa(obs, rng, P, R, mm, nm, args, log):
    n = len(mm)
    if not obs.check(P.blocks[0] == n, "sdpa-matrix", f"{log}: blocks "
                     f"{P.blocks} for a matrix of size {n}", "files read"):
        return
    iu = np.triu_indices(n)
    pos = {(i, j): k for k, (i, j) in enumerate(zip(*iu))}
    h = np.zeros(len(iu[0]))
    F = np.zeros((len(iu[0]), P.n))
    diag = {}
    for k, b, i, j, v in P.entries:
        if b == 0:
            q = pos[min(i, j), max(i, j)]
            if k:
                F[q, k - 1] += v
            else:
                h[q] -= v
        else:
            if P.blocks[b] > 0 and i != j:
                obs.bad("sdpa-block", f"{log}: off-diagonal entry in block "
                        f"{b + 1}")
                return
            r = diag.setdefault((b, i), [0., {}])
            if k:
                r[1][k - 1] = r[1].get(k - 1, 0.) + v
            else:
                r[0] -= v
    # opposite rows are equalities
    rows = [(round(c, 9), tuple(sorted((k, round(v, 9)) for k, v in d.items()
                                       if abs(v) > 1e-12)))
            for c, d in diag.values()]
    rows = list(dict.fromkeys(rows))
    have, eqs, ine = set(rows), [], []
    for c, d in rows:
        if not d:
            if c < -1e-7:
                ine.append((c, d))
            continue
        opp = (-c + 0., tuple((k, -v) for k, v in d))
        if opp in have:
            if (c, d) <= opp:
                eqs.append((c, d))
        else:
            ine.append((c, d))

    def mat(L):
        A = np.zeros((len(L), P.n))
        b = np.zeros(len(L))
        for i, (c, d) in enumerate(L):
            b[i] = c
            for k, v in d:
                A[i, k] += v
        return A, b
    A, b = mat(eqs)
    C, dd = mat(ine)
    infeas = False
    if len(A):
        keep, infeas = independent(A, b)
        A, b = A[keep], b[keep]
    w = np.where(iu[0] == iu[1], 1., np.sqrt(2.))

    def solve(c, c0):
        if infeas:
            return dict(status="pinf")
        G = np.vstack([-C, -(F * w[:, None])])
        r = conic.conelp(-np.asarray(c), A, -b, G, np.concatenate([dd, h * w]),
                         len(C), [n], maxit=80)
        o = dict(status=r["status"])
        if r["status"] == "optimal":
            o["value"] = c0 - r["pobj"]
            o["gap"] = abs(r["pobj"] - r["dobj"])
        return o
    const = 0.
    for cm in P.comments:
        m = re.search(r"constant term of value (\S+)", cm)
        if m:
            const = files.num(m.group(1))
    todo = [("objective", {("1" if k == "constant_term" else k): v
                           for k, v in (args["objective"] or {}).items()},
             P.c, const)]
    for _ in range(4):
        q = rng.permutation(len(iu[0]))[:int(rng.integers(1, 4))]
        wt = rng.normal(size=len(q))
        c = np.zeros(P.n)
        d, c0 = {}, 0.
        for t, v in zip(q, wt):
            k = nm[mm[iu[0][t], iu[1][t]]]
            d[k] = d.get(k, 0.) + v
            c += v * F[t]
            c0 += v * h[t]
        todo.append(("functional of the matrix", d, c, c0))
    for what, d, c, c0 in todo:
        a, g = R.solve(d), solve(c, c0)
        if "unknown" in (a["status"], g["status"]) or "dinf" in (
                a["status"], g["status"]):
            obs.note("undecided solve")
            continue
        obs.saw("solves: " + a["status"])
        obs.check(a["status"] == g["status"], "sdpa-status",
                  f"{log}: the programme is {a['status']}, the file is "
                  f"{g['status']}", "optima compared")
        if a["status"] == g["status"] == "optimal":
            if max(a["gap"], g["gap"]) > 1e-5:
                continue
            tol = 2e-5 * (1 + abs(a["value"]))
            if not obs.check(abs(a["value"] - g["value"]) < tol,
                             "sdpa-" + what.split()[0],
                             f"{log}: largest {what}: {a['value']} in the "
                             f"programme, {g['value']} in the .dat-s file",
                             "optima compared"):
                break
    if any(abs(x) > 1e-12 for x in P.c):
        # the format minimises the objective vector
        s = solve(-np.asarray(P.c), 0.)
        t = solve(P.c, 0.)
        obs.saw("directions")
        if s["status"] == t["status"] == "optimal" and abs(
                s["value"] + t["value"]) > 1e-3:
            obs.bad("sdpa-direction", "the .dat-s format minimises the "
                    "objective vector, the exported one is to be maximised")
