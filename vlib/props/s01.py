"""S01: the SDP relaxation is satisfied by every model of the causal
structure."""
import numpy as np
from .. import gen
from ..spec import Spec
from ..runner import Skip
from ..refalg import Algebra
from ..sdpobs import (make_sdp, columns_rows, realisations, pick_columns, TOL)

ID = "S01"
RULE = ("a case is (random causal scenario, generating set); the relaxation is "
        "generated by the real code and compared entry by entry with the Gram "
        "matrices of explicit random classical and quantum models of the same "
        "scenario; distinct = distinct (scenario, generating set) pairs for "
        "which at least one model was compared on a matrix of >= 3 columns")
ASSUMPTIONS = ["models are finite-dimensional (qubits/qutrits, 2-3 valued "
               "classical variables), tolerance 1e-7"]
BUDGET = {"quick": 110, "thorough": 600}
warm = [{"spec": dict(dag={"r": ["A", "B"], "s": ["B", "C"], "A": ["C"]},
                      outcomes=[2, 2, 2], settings=[1, 2, 1], levels=[2, 1],
                      classical=["s"]), "cols": "npa2", "seed": 1}]


CIL = dict(dag={"s1": ["L", "A"], "s2": ["L", "C"], "L": ["B", "C"]},
           outcomes=[2, 2, 2], settings=[1, 1, 1], levels=[2, 2], cil=["L"])


def explained(alg, words, n, where):
    """Whether the entries at the flat positions `where` are different moments
    under the exact commutation rules of the scenario."""
    keys = {alg.key(tuple(reversed(words[k // n])) + tuple(words[k % n]))
            for k in where}
    return len(keys) > 1


def cases(tier, rng):
    # recorded finding: incompatible measurements of a classical latent
    for seed in (1, 2):
        yield {"spec": CIL, "cols": "npa2", "seed": seed}
    n = 900 if tier == "quick" else 8000
    for k in range(n):
        big = rng.random() < .25
        sp = gen.any_spec(rng, max_ops=40 if big else 20,
                          maxlevel=3 if rng.random() < .15 else 2)
        cols = pick_columns(rng, sp, 260 if big and tier == "thorough" else 120)
        yield {"spec": sp.d, "cols": cols, "seed": int(rng.integers(2 ** 31))}


def run(case, obs):
    sp = Spec(case["spec"])
    special = gen.unsound_cil(sp)
    rng = np.random.default_rng(case["seed"])
    sdp = make_sdp(sp, case["cols"])
    words = columns_rows(sdp)
    n = len(words)
    mm = np.asarray(sdp.momentmatrix)
    obs.check(mm.shape == (n, n), "shape", f"{mm.shape} for {n} columns")
    known = {tuple(r) for r in sp.operators()}
    for w in words:
        for r in w:
            if r not in known:
                obs.bad("column-operator", f"{r} is not an operator")
                return
    models = realisations(sp, rng, 1, 2, n)
    if not models:
        raise Skip("models too large")
    flat = mm.ravel()
    idxs, first, inv = np.unique(flat, return_index=True, return_inverse=True)
    cnt = np.bincount(inv)
    moms = {m.idx: m for m in sdp.moments}
    for i in idxs:
        if int(i) > 0 and int(i) not in moms:
            obs.bad("moment-missing", f"index {i} has no associated moment")
            return
    for R in models:
        G = R.gram(words).ravel()
        mean = np.bincount(inv, weights=G) / cnt
        dev = np.abs(G - mean[inv])
        obs.saw("matrix entries compared", len(G))
        if special and R.kind == "quantum":
            # recorded finding: the measurements of different copies of a
            # classical latent with several parents are taken as compatible
            alg = Algebra(sp)
            for a in np.unique(flat[dev > TOL]):
                where = np.flatnonzero(flat == a)
                mech = ("multi-parent-classical-latent"
                        if explained(alg, words, n, where)
                        else "identified-entries")
                obs.bad(mech, f"index {a} joins entries "
                        f"{[divmod(int(k), n) for k in where[:4]]} with values "
                        f"{G[where[:4]]}")
            continue
        if dev.max() > TOL:
            k = int(dev.argmax())
            i, j = divmod(k, n)
            same = np.flatnonzero(inv == inv[k])
            far = int(same[np.abs(G[same] - G[k]).argmax()])
            i2, j2 = divmod(far, n)
            obs.bad("identified-entries", f"entries {(i, j)}={G[k]:.6f} and "
                    f"{(i2, j2)}={G[far]:.6f} share index {flat[k]} but "
                    f"differ in a {R.kind} model; columns {words[i]} "
                    f"{words[j]} / {words[i2]} {words[j2]}")
        val = {int(i): v for i, v in zip(idxs, mean)}
        if 0 in val:
            obs.check(abs(val[0]) < TOL, "zero-entry",
                      f"entries marked 0 average {val[0]}", "zero checked")
        if 1 in val:
            obs.check(abs(val[1] - 1) < TOL, "one-entry",
                      f"entries marked 1 average {val[1]}", "one checked")
        # the moment object attached to an index describes that expectation
        sel = list(moms.items())
        if len(sel) > 150:
            pick = rng.permutation(len(sel))[:150]
            sel = [sel[i] for i in pick]
        for i, m in sel:
            v = R.moment(m)
            obs.check(abs(v - val[i]) < TOL, "moment-object",
                      lambda: f"index {i} has value {val[i]:.6f}, its moment "
                      f"{m.name} has {v:.6f} ({R.kind})", "moments evaluated")
        for eq in sdp.moment_equalities:
            tot = sum(c * (val[m.idx] if m.idx in val else R.moment(m))
                      for m, c in eq.items())
            obs.check(abs(tot) < TOL, "equality",
                      lambda: f"{ {m.name: c for m, c in eq.items()} } sums to "
                      f"{tot:.6f}", "equalities")
        for ine in sdp.moment_inequalities:
            tot = sum(c * (val[m.idx] if m.idx in val else R.moment(m))
                      for m, c in ine.items())
            obs.check(tot > -TOL, "inequality",
                      lambda: f"{ {m.name: c for m, c in ine.items()} } = "
                      f"{tot:.6f}", "inequalities")
        for m, b in sdp.moment_lowerbounds.items():
            v = val[m.idx] if m.idx in val else R.moment(m)
            obs.check(v > b - TOL, "lower-bound",
                      lambda: f"{m.name} >= {b} but it equals {v:.6f} in a "
                      f"{R.kind} model", "lower bounds")
        for m, b in sdp.moment_upperbounds.items():
            v = val[m.idx] if m.idx in val else R.moment(m)
            obs.check(v < b + TOL, "upper-bound", f"{m.name} <= {b}: {v}",
                      "upper bounds")
        P = R.distribution()
        for lpi, shared in ((False, False), (True, False), (False, True)):
            sdp.set_distribution(P, use_lpi_constraints=lpi,
                                 shared_randomness=shared)
            for m, v in sdp.known_moments.items():
                t = val[m.idx] if m.idx in val else R.moment(m)
                obs.check(abs(t - float(v)) < TOL, "known-value",
                          lambda: f"{m.name} set to {v}, model has {t:.6f}",
                          "known values")
            for m, (c, u) in sdp.semiknown_moments.items():
                t = val[m.idx] if m.idx in val else R.moment(m)
                t2 = val[u.idx] if u.idx in val else R.moment(u)
                obs.check(abs(t - float(c) * t2) < TOL, "semiknown",
                          lambda: f"{m.name}={t:.6f} but {c}*{u.name}="
                          f"{float(c) * t2:.6f}", "LPI constraints")
        sdp.set_distribution(None)
        obs.saw("models (%s)" % R.kind)
    if n >= 3:
        obs.distinct(sp.key(), str(case["cols"]))
    obs.sample({"columns": n, "moments": len(moms),
                "models": [R.kind for R in models]})
