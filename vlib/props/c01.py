"""C01: certificates are valid and represented consistently."""
import re
import numpy as np
from .. import gen
from ..spec import Spec
from ..runner import Skip
from ..sdpobs import make_sdp, pick_columns, Realisation
from ..solveobs import RefSDP
from ..lpobs import RefLP, make_lp
from .s03 import distribution
from . import s05, l03

ID = "C01"
RULE = ("a case is (scenario, relaxation or linear programme, distribution, "
        "bounds, extra constraints, objective, solving mode); the certificate "
        "obtained at one distribution is evaluated there and at other "
        "distributions whose optimum is known independently, some of them "
        "from explicit models; distinct = distinct (scenario, configuration, "
        "verdict) with a non-trivial certificate")
BUDGET = {"quick": 100, "thorough": 700}
ASSUMPTIONS = ["MOSEK's optimiser is replaced (no licence offline); the "
               "certificates are extracted by the library from the stand-in's "
               "dual solutions"]
warm = [{"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"]},
                      outcomes=[2, 2, 2], settings=[1, 1, 1], levels=[1, 2],
                      classical=[]), "cols": [[], [0], [1], [2]], "seed": 5,
         "kind": "sdp", "extra": True},
        {"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"]},
                      outcomes=[2, 2, 2], settings=[1, 1, 1], levels=[2, 1],
                      classical="all"), "seed": 1, "kind": "lp",
         "extra": True}]


def cases(tier, rng):
    n = 800 if tier == "quick" else 8000
    for k in range(n):
        if k % 2:
            sp = gen.any_spec(rng, max_ops=24, classical=[None, "all", "none"]
                              [int(rng.integers(3))])
            yield {"kind": "lp", "spec": sp.d,
                   "seed": int(rng.integers(2 ** 31)),
                   "allout": bool(rng.random() < .2),
                   "nonneg": bool(rng.random() < .8),
                   "extra": bool(rng.random() < .6)}
        else:
            sp = gen.any_spec(rng, max_ops=20 if rng.random() < .7 else 28)
            yield {"kind": "sdp", "spec": sp.d,
                   "cols": pick_columns(rng, sp, 26),
                   "seed": int(rng.integers(2 ** 31)),
                   "extra": bool(rng.random() < .6)}


def hostile(sp, rng):
    """A distribution, often an incompatible one."""
    r = rng.random()
    P = distribution(sp, rng, "shared" if r < .85 else "model")
    if rng.random() < .4:
        Q = distribution(sp, rng, "shared")
        t = rng.random()
        P = t * P + (1 - t) * Q
    v = float(rng.choice([0., .02, .1, .3]))
    return (1 - v) * P + v / np.prod(sp.outcomes)


def others(sp, rng, P, quantum):
    """[(distribution, is it compatible by construction)]"""
    out = [(distribution(sp, rng, "model"), True)]
    if quantum:
        r = Realisation(sp, "quantum", int(rng.integers(2 ** 31)))
        if r.feasible_size(4):
            out.append((r.distribution(), True))
    Q = hostile(sp, rng)
    out.append((.5 * P + .5 * Q, False))
    u = np.full(P.shape, 1. / np.prod(sp.outcomes))
    for v in (.25, .6):
        out.append(((1 - v) * P + v * u, False))
    return out


def scale(cert):
    return max(1e-12, sum(abs(v) for v in cert.values()))


def parse(s, consts):
    """Terms of a polynomial written as a string."""
    out = {}
    i = 0
    num = re.compile(r"\d+\.?\d*(?:e[+-]?\d+)?")
    while i < len(s):
        sg = 1.
        while s[i] in "+- ":
            if s[i] == "-":
                sg = -sg
            i += 1
        c, name = 1., None
        m = num.match(s, i)
        if m:
            c = float(m.group())
            i = m.end()
            if i < len(s) and s[i] == "*":
                i += 1
                name = ""
        else:
            name = ""
        if name is not None:
            depth = 0
            j = i
            while j < len(s) and (depth or s[j] not in "+-"):
                depth += s[j] in "[<"
                depth -= s[j] in "]>"
                j += 1
            name = s[i:j].strip()
            i = j
        else:
            name = "1"
        out[name] = out.get(name, 0.) + sg * c
    return out


def presentations(prog, cert, known_at, obs, tag):
    """known_at: list of (distribution, values of known moments there)."""
    by_mon = {}
    for k, v in cert.items():
        m = prog.monomial_from_name[k]
        by_mon[m.name if not m.is_one else "1"] = by_mon.get(
            m.name if not m.is_one else "1", 0.) + float(v)
    zero = by_mon.pop("0", 0.)
    raw = {("1" if m.is_one else m.name): float(v)
           for m, v in prog.certificate_as_dict(clean=False).items()}
    nz = lambda d: {k: v for k, v in d.items() if abs(v) > 1e-12}
    same = lambda a, b, t: set(nz(a)) == set(nz(b)) and all(
        abs(a[k] - b[k]) <= t * (1 + abs(b[k])) for k in nz(b))
    if np.allclose(list(by_mon.values()), 0.):
        obs.check(raw == {}, "empty-certificate", f"{tag}: {raw}",
                  "presentations")
        return
    obs.check(same(raw, by_mon, 1e-9), "as-dict",
              lambda: f"{tag}: as_dict(clean=False) {raw} vs raw {by_mon}",
              "presentations")
    clean = {("1" if m.is_one else m.name): float(v)
             for m, v in prog.certificate_as_dict().items()}
    vals = [abs(zero)] + [abs(v) for v in by_mon.values()]

    def cleaned(got, chop, dec):
        """got must be the normalised certificate rounded to dec decimals."""
        if any(abs(v - chop) < 1e-3 * chop for v in vals):
            return True
        f = (min if chop else max)(v for v in vals if v > chop)
        # (coefficients can be chopped before or after normalising)
        return set(got) <= set(by_mon) and all(
            abs(got.get(k, 0.) - v / f)
            <= .501 * 10. ** -dec + 1e-7 * abs(v / f)
            or (k not in got or got[k] == 0.)
            and min(abs(v), abs(v / f)) <= chop * (1 + 1e-6)
            for k, v in by_mon.items())
    obs.check(cleaned(clean, 1e-10, 3), "clean",
              lambda: f"{tag}: cleaned {clean}, raw {by_mon}",
              "presentations")
    top = max(vals)
    for chop, dec in ((1e-10, 6), (1e-3 * top, 2), (0., 4)):
        got = {("1" if m.is_one else m.name): float(v) for m, v in
               prog.certificate_as_dict(chop_tol=chop,
                                        round_decimals=dec).items()}
        obs.check(cleaned(got, chop, dec), "clean-options",
                  lambda: f"{tag}: chop {chop} decimals {dec}: {got}, raw "
                  f"{by_mon}", "presentations")
    for dct, sym, txt in (
            (raw, prog.certificate_as_probs(clean=False),
             prog.certificate_as_string(clean=False)),
            (clean, prog.certificate_as_probs(), prog.certificate_as_string())):
        got = {}
        syms = {m.symbol: ("1" if m.is_one else m.name)
                for m in prog.monomial_from_name.values()}
        for t, c in sym.expand().as_coefficients_dict().items():
            got[syms.get(t, "1" if t == 1 else str(t))] = float(c)
        big_ = {k: v for k, v in dct.items() if abs(v) > 1e-8}
        obs.check(all(abs(got.get(k, 0.) - v) <= 1e-8 * (1 + abs(v))
                      for k, v in big_.items())
                  and all(k in big_ or abs(v) < 2e-8
                          for k, v in got.items()), "as-probs",
                  lambda: f"{tag}: as_probs {got}, dict {dct}",
                  "presentations")
        if obs.check(txt.endswith(" < 0"), "as-string-form", txt,
                     "presentations"):
            ps = parse(txt[:-4], ("1",))
            obs.check(all(abs(ps.get(k, 0.) - v) <= 2e-5 * (1 + abs(v))
                          for k, v in big_.items())
                      and all(k in big_ or abs(v) < 2e-8
                              for k, v in ps.items()), "as-string",
                      lambda: f"{tag}: string {txt} parsed {ps}, dict {dct}",
                      "presentations")
    for P, kn in known_at:
        if all(k in kn for k in clean):
            v = sum(c * kn[k] for k, c in clean.items())
            e = prog.evaluate_certificate(P)
            obs.check(abs(e - v) < 1e-7 * (1 + scale(clean)), "evaluate",
                      lambda: f"{tag}: evaluate_certificate {e}, from the "
                      f"values of the moments {v}", "presentations")
            for what, pol in (("symbolic", prog.certificate_as_probs()),
                              ("names", dict(clean))):
                e = prog.evaluate_polynomial(pol, P)
                obs.check(abs(e - v) < 1e-7 * (1 + scale(clean)),
                          "evaluate-polynomial",
                          lambda: f"{tag}: {what}: evaluate_polynomial({pol}) "
                          f"gives {e}, from the values of the moments {v}",
                          "presentations")


def run(case, obs):
    (run_sdp if case["kind"] == "sdp" else run_lp)(case, obs)


def run_sdp(case, obs):
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    if sum(int(np.prod(range(1, n + 1))) for n in sp.levels) > 30:
        raise Skip("symmetry group too large")
    sdp = make_sdp(sp, case["cols"], max_cols=20)
    P = hostile(sp, rng)
    sdp.set_distribution(P)
    mm = np.asarray(sdp.momentmatrix)
    if len(np.unique(mm)) > 220:
        raise Skip("too many variables")
    mons = dict(sdp.compmoment_from_idx)
    nonneg = list(sdp.nonnegative_moments)
    low = {m: 0. for m in nonneg}
    up, ex, cfg = {}, {"eq": [], "ineq": []}, []

    def ref(known):
        R = RefSDP(mm, mons, known, {})
        for e in sdp.minimal_equalities:
            R.add("eq", e)
        for m, b in low.items():
            R.add("ineq", {m: 1., sdp.One: -b})
        for m, b in up.items():
            R.add("ineq", {m: -1., sdp.One: b})
        for t in ex:
            for d in ex[t]:
                R.add(t, d)
        return R
    if case.get("extra"):
        # constraints around an interior point of a compatible distribution
        sdp.set_distribution(distribution(sp, rng, "model"))
        k0 = dict(sdp.known_moments)
        R0 = ref(k0)
        s0 = R0.solve()
        if s0["status"] != "optimal":
            raise Skip("first solve " + s0["status"])
        pool = [m for m in mons.values() if not m.is_zero]

        def val(d):
            c, e = R0.expr(d)
            return c + sum(v * (s0["x"][R0.vars[m]] if m in R0.vars else 0.)
                           for m, v in e.items())
        unknown = [m for m in pool if m not in k0 and not m.is_one]
        for typ, dst, s in (("up", up, 1.), ("lo", low, -1.)):
            if unknown and rng.random() < .5:
                b = {}
                for i in rng.permutation(len(unknown))[:int(
                        rng.integers(1, 4))]:
                    m = unknown[int(i)]
                    b[m] = val({m: 1.}) + s * float(rng.choice([.2, .05]))
                sdp.set_bounds({m.name: v for m, v in b.items()}, typ)
                dst.update(b)
                cfg.append(typ)
        for typ in ("eq", "ineq"):
            if rng.random() < .4:
                d = s05.lincomb(rng, pool, None, sdp)
                d[sdp.One] = d.get(sdp.One, 0.) - val(d) + (
                    0. if typ == "eq" else float(rng.choice([.05, .2])))
                ex[typ].append(d)
                cfg.append("extra" + typ)
        # (setting values removes the extra constraints)
        sdp.set_distribution(P)
        for typ, fun in (("eq", sdp.set_extra_equalities),
                         ("ineq", sdp.set_extra_inequalities)):
            if ex[typ]:
                fun([s05.as_input(rng, d, sdp) for d in ex[typ]])
    objective, direction = None, "max"
    if rng.random() < .35:
        pool = [m for m in mons.values() if not m.is_zero]
        objective = s05.lincomb(rng, pool, None, sdp)
        direction = "max" if rng.random() < .5 else "min"
        sdp.set_objective(s05.as_input(rng, objective, sdp), direction)
        cfg.append(direction)
    sgn = 1. if direction == "max" else -1.
    known = {m.name: float(v) for m, v in sdp.known_moments.items()}
    certs = []
    for dual in (True, False):
        feas = objective is None and bool(rng.random() < .55)
        sdp.solve(feas_as_optim=feas, solve_dual=dual)
        if sdp.status not in ("feasible", "infeasible"):
            obs.note("library status " + str(sdp.status))
            continue
        so = sdp.solution_object
        cert = {k: float(v) for k, v in so["dual_certificate"].items()}
        tag = f"sdp dual={dual} feas={feas} cfg={cfg} status={sdp.status}"
        kn = dict(known, constant_term=1.)
        bad = [k for k in cert if k not in kn]
        if not obs.check(not bad, "certificate-keys", f"{tag}: {bad}",
                         "certificates"):
            continue
        v = sum(c * kn[k] for k, c in cert.items())
        if sdp.status == "feasible":
            obs.check(abs(v - so["dual_value"]) < 1e-5 * max(1, scale(cert)),
                      "certificate-at-point", lambda: f"{tag}: certificate "
                      f"{v}, dual value {so['dual_value']}", "certificates")
        else:
            obs.check(v < -1e-7 * scale(cert), "certificate-not-negative",
                      lambda: f"{tag}: infeasible but certificate {v}, "
                      f"scale {scale(cert)}", "certificates")
        certs.append((cert, sdp.status, feas, tag, dual))
    if not certs:
        raise Skip("no certificate")
    pts = []
    for Q, compat in others(sp, rng, P, rng.random() < .5):
        sdp.set_distribution(Q)
        kn = {m.name: float(x) for m, x in sdp.known_moments.items()}
        if set(kn) != set(known):
            obs.bad("known-set", "the set of known moments depends on the "
                    "distribution")
            return
        R = ref(dict(sdp.known_moments))
        lam = R.solve()
        opt = None
        if objective is not None and lam["status"] == "optimal" \
                and lam["value"] > 1e-6 and not any(
                    m.name in known and not m.is_one for m in objective):
            # (known terms of an objective are constants when solving)
            opt = R.solve({m: sgn * x for m, x in objective.items()})
        pts.append((Q, compat, dict(kn, constant_term=1.), lam, opt))
    for cert, status, feas, tag, dual in certs:
        sc = scale(cert)
        tol = 2e-5 * max(sc, 1.) if status == "feasible" else 2e-5 * sc
        for Q, compat, kn, lam, opt in pts:
            v = sum(c * kn[k] for k, c in cert.items())
            if compat and not case.get("extra") and objective is None:
                obs.check(v > -tol, "excludes-compatible",
                          lambda: f"{tag}: certificate {v} at the "
                          f"distribution of an explicit model (scale {sc})",
                          "other points (explicit models)")
            if lam["status"] != "optimal":
                continue
            if status == "infeasible":
                if lam["value"] > -1e-9:
                    obs.check(v > -tol, "excludes-feasible",
                              lambda: f"{tag}: certificate {v} at a feasible "
                              f"point (lambda {lam['value']}, scale {sc})",
                              "other points")
            elif feas:
                obs.check(v > lam["value"] - tol, "below-lambda",
                          lambda: f"{tag}: certificate {v} below the optimum "
                          f"{lam['value']}", "other points")
            elif opt and opt["status"] == "optimal":
                obs.check(v > opt["value"] - tol - 1e-5 * abs(opt["value"]),
                          "below-optimum",
                          lambda: f"{tag}: certificate {v} below the optimum "
                          f"{opt['value']} of the objective "
                          f"{[(m.name, c) for m, c in objective.items()]}",
                          "other points")
        if sc > 1e-6:
            obs.distinct("sdp", sp.key(), str(case["cols"]), tuple(cfg),
                         status, feas, dual)
    # presentations of the certificate of the last solve
    sdp.set_distribution(P)
    cert, status, feas, tag, dual = certs[-1]
    sdp.solve(feas_as_optim=feas, solve_dual=dual)
    if sdp.status in ("feasible", "infeasible"):
        cert = sdp.solution_object["dual_certificate"]
        presentations(sdp, cert, [(q[0], dict(q[2], **{"1": 1.}))
                                  for q in pts], obs, tag)
    obs.sample({"cfg": cfg, "status": status, "cert": dict(list(
        cert.items())[:6]), "points": len(pts)})


def run_lp(case, obs):
    sp = Spec(case["spec"])
    rng = np.random.default_rng(case["seed"])
    if sum(int(np.prod(range(1, n + 1))) for n in sp.levels) > 30:
        raise Skip("symmetry group too large")
    RefLP(sp, 2500)
    lp = make_lp(sp, include_all_outcomes=case.get("allout", False),
                 default_non_negative=case.get("nonneg", True))
    if len(lp.monomials) > 600:
        raise Skip("too many variables")
    if case.get("extra"):
        R, objective, direction, cfg = l03.configure(
            lp, sp, rng, dict(case, val="dist"))
    else:
        lp.set_distribution(distribution(sp, rng, "model"))
        R, objective, direction, cfg = plain(lp, case), None, "max", []
    P = hostile(sp, rng)
    lp.set_distribution(P)
    R.known = {m: float(v) for m, v in lp.known_moments.items()}
    known = {m.name: v for m, v in R.known.items()}
    sgn = 1. if direction == "max" else -1.
    c = np.zeros(R.n)
    for m, v in (objective or {}).items():
        c[R.pos[m]] += sgn * v
    bounded = any(abs(b) > 1e-12 for b in
                  list(lp.moment_upperbounds.values())
                  + list(lp.moment_lowerbounds.values()))
    mech = (lambda s: "lp-certificate-user-bounds") if bounded else \
        (lambda s: s)
    names = [m.name for m in R.mons]
    certs = []
    modes = [("", {})]
    if objective is None:
        modes.append([("ineq", dict(relax_inequalities=True)),
                      ("known", dict(relax_known_vars=True)),
                      ("both", dict(relax_known_vars=True,
                                    relax_inequalities=True))][
                          int(rng.integers(3))])
    for dual in (True, False):
        for mode, kw in modes:
            lp.solve(solve_dual=dual, **kw)
            so = lp.solution_object
            infeas = "infeas" in so["status"]
            if not lp.success and not infeas:
                obs.note("library status " + so["status"])
                continue
            if not lp.success and "dual_infeas" in so["status"]:
                ray_of_primal = not dual
                if ray_of_primal:
                    continue
            if not lp.success and "prim_infeas" in so["status"] and dual:
                continue      # unbounded programme
            tag = f"lp dual={dual} {kw} cfg={cfg} status={so['status']}"
            cert = {k: float(v) for k, v in so["dual_certificate"].items()}
            obj = {k for k, v in zip(names, c) if v}
            extra = [k for k in cert if k not in known and k not in obj]
            if not obs.check(not extra, mech("certificate-keys"),
                             f"{tag}: {extra}", "certificates"):
                continue
            sparse = so["sparse_certificate"].toarray().ravel()
            full = dict(zip(names, sparse))
            obs.check(all(abs(full.get(k, 0.) - cert.get(k, 0.)) < 2e-8 * (
                1 + abs(cert.get(k, 0.))) for k in names),
                "sparse-certificate", f"{tag}", "certificates")
            x = np.array([so["x"][k] for k in names]) if lp.success else None
            at = dict(known)
            for k in obj - set(known):
                at[k] = so["x"][k] if lp.success else 0.
            v = sum(a * at[k] for k, a in cert.items())
            sc = scale(cert)
            if lp.success:
                t = so["dual_value"] if kw else 0.
                obs.check(abs(v - t) < 1e-6 * max(1, sc),
                          mech("certificate-at-point"),
                          lambda: f"{tag}: certificate {v}, expected {t}",
                          "certificates")
            else:
                obs.check(v < -1e-7 * sc, mech("certificate-not-negative"),
                          lambda: f"{tag}: infeasible, certificate {v}",
                          "certificates")
            certs.append((cert, lp.success, mode, tag, dual, kw))
    if not certs:
        raise Skip("no certificate")
    pts = []
    for Q, compat in others(sp, rng, P, not all(sp.is_classical)
                            and rng.random() < .5):
        lp.set_distribution(Q)
        R.known = {m: float(x) for m, x in lp.known_moments.items()}
        kn = {m.name: v for m, v in R.known.items()}
        if set(kn) != set(known):
            obs.bad("known-set", "the set of known moments depends on the "
                    "distribution")
            return
        st, val, x = R.solve(c)
        sv = {}
        # relaxed programmes ignore the default bounds
        lb = R.lb.copy()
        R.lb[:] = -np.inf
        for m, b in lp.moment_lowerbounds.items():
            R.lb[R.pos[m]] = b
        for mode in {q[2] for q in certs if q[2]}:
            sv[mode] = R.solve(c, mode)
        R.lb = lb
        pts.append((Q, compat, kn, st, x, sv))
    for cert, success, mode, tag, dual, kw in certs:
        sc = scale(cert)
        tol = 1e-6 * max(1., sc) if success else 1e-6 * sc
        for Q, compat, kn, st, x, sv in pts:
            at = dict(kn)
            if x is not None:
                at.update({k: v for k, v in zip(names, x) if k not in kn})
            unk = [k for k in cert if k not in at]
            if not unk and compat and not case.get("extra"):
                v = sum(a * at[k] for k, a in cert.items())
                obs.check(v > -tol, mech("excludes-compatible"),
                          lambda: f"{tag}: certificate {v} at the "
                          f"distribution of an explicit model",
                          "other points (explicit models)")
            if mode:
                s2, v2, _ = sv[mode]
                if s2 == "optimal" and not unk:
                    v = sum(a * at[k] for k, a in cert.items())
                    if not success:      # a ray, of any scale
                        v2 = 0.
                    obs.check(v > v2 - tol, mech("below-optimum"),
                              lambda: f"{tag}: certificate {v} below the "
                              f"relaxed optimum {v2}", "other points")
            elif st == "optimal":
                v = sum(a * at[k] for k, a in cert.items())
                obs.check(v > -tol, mech("excludes-feasible"),
                          lambda: f"{tag}: certificate {v} at a feasible "
                          "point", "other points")
        if sc > 1e-6:
            obs.distinct("lp", sp.key(), tuple(cfg), case.get("allout"),
                         success, mode, dual)
    lp.set_distribution(P)
    cert, success, mode, tag, dual, kw = certs[-1]
    lp.solve(solve_dual=dual, **kw)
    cert = lp.solution_object["dual_certificate"]
    presentations(lp, cert, [(q[0], dict(q[2], **{"1": 1.})) for q in pts],
                  obs, tag)
    obs.sample({"cfg": cfg, "success": success, "cert": dict(list(
        cert.items())[:6]), "points": len(pts)})


def plain(lp, case):
    R = l03.Prog(lp.monomials)
    for mat, lst in ((lp.minimal_sparse_equalities, R.eq),
                     (lp.minimal_sparse_inequalities, R.ineq)):
        if mat.shape[0] and mat.nnz:
            for r in np.asarray(mat.toarray(), float):
                lst.append((r, 0.))
    if case.get("nonneg", True):
        R.lb[:] = 0.
    return R
