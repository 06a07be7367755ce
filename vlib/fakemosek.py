"""MOSEK stand-in.

There is no MOSEK licence in the sandbox, so `mosek.Task.optimize` always
fails.  Everything up to that call (model building through the Task API and
through Fusion, reading and writing of files) works.  `install()` replaces the
optimisation call and the solution getters of `mosek.Task` with an
implementation that reads the *actual* model back from the task, solves it with
HiGHS (LP) or with vlib.conic (models with semidefinite variables), and returns
the solution using MOSEK's documented sign conventions.  It is also the
observation point of the model-fidelity monitors: every optimised model is
appended to `CAPTURED`.
"""
import numpy as np
import mosek
from scipy.sparse import csr_array, coo_array, csr_matrix
from scipy.optimize import linprog
from . import conic

CAPTURED = []
HOOKS = []            # callables model -> None (run before solving)
SOLVE = {"on": True}  # off: only capture
_orig = {}


class Captured:
    """Plain-data copy of a task."""

    def __init__(self, task):
        t = task
        self.n = t.getnumvar()
        self.m = t.getnumcon()
        self.c = np.array(t.getc() if self.n else [], dtype=float)
        self.cfix = t.getcfix()
        rows, cols, vals = [], [], []
        if self.m and self.n:
            nnz = t.getnumanz()
            if nnz:
                r, cc, v = t.getatrip()
                rows, cols, vals = list(r), list(cc), list(v)
        self.A = csr_matrix((vals, (rows, cols)), shape=(self.m, self.n),
                            dtype=float)
        self.blc, self.buc = self._bounds(t.getconbound, self.m)
        self.blx, self.bux = self._bounds(t.getvarbound, self.n)
        self.maximize = t.getobjsense() == mosek.objsense.maximize
        self.nbar = t.getnumbarvar()
        self.bardim = [t.getdimbarvarj(j) for j in range(self.nbar)]
        self.barc = []   # (j, k, l, v) lower triangle
        self.bara = []   # (i, j, k, l, v)
        if self.nbar:
            nt = t.getnumbarcblocktriplets()
            if nt:
                num, sj, sk, sl, sv = t.getbarcblocktriplet()
                self.barc = list(zip(sj, sk, sl, sv))[:num]
            nt = t.getnumbarablocktriplets()
            if nt:
                num, si, sj, sk, sl, sv = t.getbarablocktriplet()
                self.bara = list(zip(si, sj, sk, sl, sv))[:num]
        self.conic_extra = t.getnumacc() + t.getnumcone() + t.getnumdjc()
        self.solution = None

    @staticmethod
    def _bounds(getter, k):
        lo, up = np.full(k, -np.inf), np.full(k, np.inf)
        for i in range(k):
            bk, l, u = getter(i)
            if bk in (mosek.boundkey.lo, mosek.boundkey.ra,
                      mosek.boundkey.fx):
                lo[i] = l
            if bk in (mosek.boundkey.up, mosek.boundkey.ra):
                up[i] = u
            if bk == mosek.boundkey.fx:
                up[i] = l
        return lo, up

    # ---- evaluation ------------------------------------------------------
    def objective(self, xx, barX=()):
        v = self.cfix + float(self.c @ xx)
        for j, k, l, val in self.barc:
            v += val * barX[j][k, l] * (1 if k == l else 2)
        return v

    def violation(self, xx, barX=()):
        act = self.A @ xx if self.n else np.zeros(self.m)
        act = np.asarray(act, dtype=float).copy()
        for i, j, k, l, val in self.bara:
            act[i] += val * barX[j][k, l] * (1 if k == l else 2)
        v = 0.0
        for a, lo, up in ((act, self.blc, self.buc), (xx, self.blx, self.bux)):
            if len(a):
                v = max(v, np.max(np.maximum(lo - a, a - up), initial=0.0))
        for X in barX:
            if len(X):
                v = max(v, -np.linalg.eigvalsh((X + X.T) / 2)[0])
        return v

    # ---- solving ---------------------------------------------------------
    def solve(self):
        if self.conic_extra:
            raise NotImplementedError("conic constraints beyond barvars")
        self.solution = self._solve_sdp() if self.nbar else self._solve_lp()
        return self.solution

    def _solve_lp(self):
        sg = -1.0 if self.maximize else 1.0
        n, m = self.n, self.m
        sol = dict(xx=np.zeros(n), y=np.zeros(m), slx=np.zeros(n),
                   sux=np.zeros(n), status="unknown", barX=[], barS=[])
        if np.any(self.blx > self.bux) or np.any(self.blc > self.buc):
            return self._lp_infeasible(sol, sg)
        if n == 0:
            ok = np.all(self.blc <= 1e-9) and np.all(self.buc >= -1e-9)
            sol["status"] = "optimal" if ok else "pinf"
            return self._finish(sol)
        eq = np.flatnonzero(self.blc == self.buc)
        up = np.flatnonzero((self.blc != self.buc) & np.isfinite(self.buc))
        lo = np.flatnonzero((self.blc != self.buc) & np.isfinite(self.blc))
        from scipy.sparse import vstack as spv
        Aub = spv([self.A[up], -self.A[lo]]) if len(up) + len(lo) else None
        bub = np.concatenate([self.buc[up], -self.blc[lo]])
        kw = dict(A_eq=self.A[eq] if len(eq) else None,
                  b_eq=self.blc[eq] if len(eq) else None,
                  A_ub=Aub, b_ub=bub if Aub is not None else None,
                  bounds=np.column_stack([self.blx, self.bux]))
        r = linprog(sg * self.c, method="highs", **kw)
        if r.status in (2, 3, 4):
            # decide infeasible / unbounded with a clean phase 1
            r0 = linprog(np.zeros(n), method="highs", **kw)
            if r0.status == 2:
                return self._lp_infeasible(sol, sg)
            if r0.status == 0 and r.status in (2, 3, 4):
                return self._lp_unbounded(sol, sg)
            sol["status"] = "unknown"
            return self._finish(sol)
        if r.status != 0:
            sol["status"] = "unknown"
            return self._finish(sol)
        sol["status"] = "optimal"
        sol["xx"] = np.asarray(r.x, dtype=float)
        y = np.zeros(m)
        if len(eq):
            y[eq] += r.eqlin.marginals
        if Aub is not None:
            mg = r.ineqlin.marginals
            y[up] += mg[:len(up)]
            y[lo] += -mg[len(up):]
        sol["y"] = sg * y
        sol["slx"] = sg * np.asarray(r.lower.marginals)
        sol["sux"] = -sg * np.asarray(r.upper.marginals)
        return self._finish(sol)

    def _lp_infeasible(self, sol, sg):
        """Farkas certificate: duals of  min t  with all constraints elastic."""
        n, m = self.n, self.m
        from scipy.sparse import vstack as spv, identity, hstack as sph
        rows, rhs, kind = [], [], []
        I = identity(n, format="csr")
        for mat, lo, up, tag in ((self.A, self.blc, self.buc, "c"),
                                 (I, self.blx, self.bux, "x")):
            iu, il = np.flatnonzero(np.isfinite(up)), \
                np.flatnonzero(np.isfinite(lo))
            if len(iu):
                rows.append(mat[iu]); rhs.append(up[iu])
                kind += [(tag, "u", i) for i in iu]
            if len(il):
                rows.append(-mat[il]); rhs.append(-lo[il])
                kind += [(tag, "l", i) for i in il]
        M = spv(rows)
        M = sph([M, csr_matrix(-np.ones((M.shape[0], 1)))])
        c = np.zeros(n + 1)
        c[-1] = 1
        r = linprog(c, A_ub=M.tocsr(), b_ub=np.concatenate(rhs),
                    bounds=[(None, None)] * n + [(0, None)], method="highs")
        sol["status"] = "pinf"
        if r.status == 0:
            y, slx, sux = np.zeros(m), np.zeros(n), np.zeros(n)
            for mg, (tag, side, i) in zip(r.ineqlin.marginals, kind):
                v = mg if side == "u" else -mg      # slc - suc
                if tag == "c":
                    y[i] += v
                elif side == "u":
                    sux[i] += -mg
                else:
                    slx[i] += -mg
            sol["y"], sol["slx"], sol["sux"] = sg * y, sg * slx, sg * sux
        else:
            sol["status"] = "unknown"
        return self._finish(sol)

    def _lp_unbounded(self, sol, sg):
        n = self.n
        lo = np.where(np.isfinite(self.blx), 0.0, -1.0)
        up = np.where(np.isfinite(self.bux), 0.0, 1.0)
        rl = np.where(np.isfinite(self.blc), 0.0, -np.inf)
        ru = np.where(np.isfinite(self.buc), 0.0, np.inf)
        from scipy.optimize import milp, LinearConstraint, Bounds
        cons = [LinearConstraint(self.A, rl, ru)] if self.m else []
        r = milp(sg * self.c, constraints=cons, bounds=Bounds(lo, up))
        sol["status"] = "dinf" if (r.status == 0 and r.fun < -1e-9) \
            else "unknown"
        if r.x is not None:
            sol["xx"] = np.asarray(r.x)
        return self._finish(sol)

    def _solve_sdp(self):
        n, m = self.n, self.m
        sg = -1.0 if self.maximize else 1.0
        ks = [d * (d + 1) // 2 for d in self.bardim]
        off = n + np.concatenate([[0], np.cumsum(ks)]).astype(int)
        N = off[-1]
        pos = []
        for d in self.bardim:
            P = np.zeros((d, d), dtype=int)
            iu = np.triu_indices(d)
            P[iu] = np.arange(len(iu[0]))
            pos.append(np.maximum(P, P.T))
        c = np.zeros(N)
        c[:n] = sg * self.c
        for j, k, l, v in self.barc:
            c[off[j] + pos[j][k, l]] += sg * v * (1 if k == l else conic.SQ2)
        Af = np.zeros((m, N))
        Af[:, :n] = self.A.toarray()
        for i, j, k, l, v in self.bara:
            Af[i, off[j] + pos[j][k, l]] += v * (1 if k == l else conic.SQ2)
        eq = np.flatnonzero(self.blc == self.buc)
        xfix = np.flatnonzero(self.blx == self.bux)
        A = np.vstack([Af[eq], np.eye(N)[xfix]])
        b = np.concatenate([self.blc[eq], self.blx[xfix]])
        # drop dependent rows (keep consistency check)
        keep = np.arange(len(b))
        bad = False
        if len(b):
            import scipy.linalg as sla
            Q, R, piv = sla.qr(A.T, mode="economic", pivoting=True)
            dg = np.abs(np.diag(R))
            rank = int(np.sum(dg > 1e-10 * max(1.0, dg[0] if len(dg) else 1)))
            keep = np.sort(piv[:rank])
            if rank < len(b):
                xs = np.linalg.lstsq(A, b, rcond=None)[0]
                if np.max(np.abs(A @ xs - b), initial=0) > 1e-7:
                    bad = True
        G, h, kind = [], [], []
        for mat, lo, up, tag, skip in ((Af, self.blc, self.buc, "c", set(eq)),
                                       (np.eye(N)[:n], self.blx, self.bux, "x",
                                        set(xfix))):
            for i in range(len(lo)):
                if i in skip:
                    continue
                if np.isfinite(up[i]):
                    G.append(mat[i]); h.append(up[i]); kind.append((tag, "u", i))
                if np.isfinite(lo[i]):
                    G.append(-mat[i]); h.append(-lo[i]); kind.append((tag, "l", i))
        l = len(h)
        for j, d in enumerate(self.bardim):
            blk = np.zeros((ks[j], N))
            blk[np.arange(ks[j]), off[j] + np.arange(ks[j])] = -1
            G.extend(blk); h.extend([0.0] * ks[j])
        G, h = np.array(G).reshape(-1, N), np.array(h)
        sol = dict(xx=np.zeros(n), y=np.zeros(m), slx=np.zeros(n),
                   sux=np.zeros(n), status="unknown",
                   barX=[np.zeros((d, d)) for d in self.bardim],
                   barS=[np.zeros((d, d)) for d in self.bardim])
        if bad:
            # A'w = 0 and b'w = 1 prove that the equalities are inconsistent
            w = b - A @ xs
            w /= b @ w
            sol["status"] = "pinf"
            sol["y"][eq] = sg * w[:len(eq)]
            sol["slx"][xfix] = sg * np.maximum(w[len(eq):], 0)
            sol["sux"][xfix] = sg * np.maximum(-w[len(eq):], 0)
            return self._finish(sol)
        r = conic.conelp(c, A[keep], b[keep], G, h, l, list(self.bardim))
        sol["status"] = r["status"]
        sol["score"] = r.get("score")
        if r.get("x") is not None:
            x = r["x"]
            sol["xx"] = x[:n]
            sol["barX"] = [conic.smat(x[off[j]:off[j + 1]], d)
                           for j, d in enumerate(self.bardim)]
        if r.get("z") is not None:
            # Lagrangian: c + A'y' + G'z = 0 ; MOSEK: y = slc - suc, c = A'y+..
            yy = np.zeros(len(b)); yy[keep] = -r["y"]
            y, slx, sux = np.zeros(m), np.zeros(n), np.zeros(n)
            y[eq] = yy[:len(eq)]
            for q, i in zip(yy[len(eq):], xfix):
                slx[i] += max(q, 0); sux[i] += max(-q, 0)
            z = r["z"]
            for zz, (tag, side, i) in zip(z[:l], kind):
                if tag == "c":
                    y[i] += -zz if side == "u" else zz
                elif side == "u":
                    sux[i] += zz
                else:
                    slx[i] += zz
            o = l
            bs = []
            for k, d in zip(ks, self.bardim):
                bs.append(sg * conic.smat(z[o:o + k], d)); o += k
            sol["y"], sol["slx"], sol["sux"] = sg * y, sg * slx, sg * sux
            sol["barS"] = bs
        return self._finish(sol)

    def _finish(self, sol):
        pos = lambda v: np.where(v > 0, v, 0)
        sg = -1.0 if self.maximize else 1.0
        y = sol["y"]
        slc, suc = sg * pos(sg * y), sg * pos(-sg * y)
        # equality rows: sign-free split is fine
        sol["slc"], sol["suc"] = slc, suc
        fin = lambda b, s: float(np.sum(np.where(np.isfinite(b), b, 0) * s))
        d = 0.0 if sol["status"] in ("pinf", "dinf") else self.cfix
        sol["dobj"] = d + fin(self.blc, slc) - fin(self.buc, suc) \
            + fin(self.blx, sol["slx"]) - fin(self.bux, sol["sux"])
        if sol["status"] == "dinf":
            sol["pobj"] = self.objective(sol["xx"], sol["barX"]) - self.cfix
        else:
            sol["pobj"] = self.objective(sol["xx"], sol["barX"])
        act = np.asarray(self.A @ sol["xx"] if self.n else np.zeros(self.m),
                         dtype=float).copy()
        for i, j, k, l, val in self.bara:
            act[i] += val * sol["barX"][j][k, l] * (1 if k == l else 2)
        sol["xc"] = act
        return sol


_SOLSTA = {"optimal": "optimal", "pinf": "prim_infeas_cer",
           "dinf": "dual_infeas_cer", "unknown": "unknown"}
_PROSTA = {"optimal": "prim_and_dual_feas", "pinf": "prim_infeas",
           "dinf": "dual_infeas", "unknown": "unknown"}


def _lowvec(mats):
    out = []
    for M in mats:
        d = len(M)
        out.append(np.concatenate([M[j:, j] for j in range(d)])
                   if d else np.zeros(0))
    return np.concatenate(out) if out else np.zeros(0)


_STORE = {}


def install():
    if _orig:
        return
    T = mosek.Task

    def st(task):
        return _STORE[id(task)]

    def optimize(self, *a):
        cap = Captured(self)
        CAPTURED.append(cap)
        for hk in HOOKS:
            hk(cap)
        if SOLVE["on"]:
            cap.solve()
        else:
            cap.solution = cap._finish(dict(
                xx=np.arange(cap.n, dtype=float), y=np.zeros(cap.m),
                slx=np.zeros(cap.n), sux=np.zeros(cap.n), status="optimal",
                barX=[np.zeros((d, d)) for d in cap.bardim],
                barS=[np.zeros((d, d)) for d in cap.bardim]))
        cap.task_kind = ("itr" if cap.nbar else "bas")
        _STORE[id(self)] = cap
        self._cap = cap
        return mosek.rescode.ok

    def solutiondef(self, which):
        cap = _STORE.get(id(self))
        # fusion asks for itr first, then bas.  Report under both only for
        # LPs, interior only for SDPs.
        if cap is None:
            return 0
        if which == mosek.soltype.itr:
            return 1
        if which == mosek.soltype.bas:
            return 0 if cap.nbar else 1
        return 0

    def getsolsta(self, which):
        return getattr(mosek.solsta, _SOLSTA[st(self).solution["status"]])

    def getprosta(self, which):
        return getattr(mosek.prosta, _PROSTA[st(self).solution["status"]])

    def getprimalobj(self, which):
        return float(st(self).solution["pobj"])

    def getdualobj(self, which):
        return float(st(self).solution["dobj"])

    def getsolution(self, which, *a):
        s = st(self).solution
        c = st(self)
        return (getprosta(self, which), getsolsta(self, which),
                [mosek.stakey.unk] * c.m, [mosek.stakey.unk] * c.n, [],
                list(s["xc"]), list(s["xx"]), list(s["y"]), list(s["slc"]),
                list(s["suc"]), list(s["slx"]), list(s["sux"]), [0.] * c.n)

    def mk(key, conv=lambda v: v):
        def full(self, which, *a):
            v = np.asarray(conv(st(self).solution[key]), dtype=float)
            if a and hasattr(a[0], "__len__"):
                a[0][:] = v
                return a[0]
            return list(v)

        def slc(self, which, first, last, *a):
            v = np.asarray(conv(st(self).solution[key]), dtype=float)
            v = v[first:last]
            if a and hasattr(a[-1], "__len__"):
                a[-1][:] = v
                return a[-1]
            return list(v)
        return full, slc

    def barslice(key):
        def f(self, which, first, last, slicesize, *a):
            v = _lowvec(st(self).solution[key][first:last])
            if a:
                a[-1][:] = v
                return a[-1]
            return list(v)
        return f

    new = dict(optimize=optimize, solutiondef=solutiondef,
               getsolsta=getsolsta, getprosta=getprosta,
               getprimalobj=getprimalobj, getdualobj=getdualobj,
               getsolution=getsolution,
               getbarxslice=barslice("barX"), getbarsslice=barslice("barS"),
               solutionsummary=lambda self, *a: None)
    for nm, key in (("getxx", "xx"), ("getxc", "xc"), ("gety", "y"),
                    ("getslc", "slc"), ("getsuc", "suc"), ("getslx", "slx"),
                    ("getsux", "sux")):
        f, s = mk(key)
        new[nm] = f
        new[nm + "slice"] = s
    for k, v in new.items():
        _orig[k] = getattr(T, k)
        setattr(T, k, v)


def uninstall():
    for k, v in _orig.items():
        setattr(mosek.Task, k, v)
    _orig.clear()


def reset():
    CAPTURED.clear()
    _STORE.clear()
