"""Independent reference for the semidefinite programmes that the library
sends to a solver."""
import numpy as np
from . import conic
from .runner import Skip


class RefSDP:
    """max c0 + c.x  s.t.  Gamma(x) >= 0, equalities, inequalities.

    known: moment -> value;  semi: moment -> (coeff, moment)."""

    def __init__(self, mm, mons, known, semi):
        self.mm = np.asarray(mm)
        self.n = len(self.mm)
        self.mons = mons
        self.known = dict(known)
        self.semi = dict(semi)
        self.vars = {}
        self.eqs, self.ineqs = [], []
        self.ent = {}
        iu = np.triu_indices(self.n)
        self.iu = iu
        for k, i in enumerate(self.mm[iu]):
            self.ent.setdefault(int(i), []).append(k)
        for i in self.ent:
            for v in self.expr({mons[i]: 1.})[1]:
                self.var(v)

    def var(self, m):
        if m not in self.vars:
            self.vars[m] = len(self.vars)
        return self.vars[m]

    def lin(self, m):
        seen = 0
        c = 1.
        while True:
            if m in self.known:
                return c * float(self.known[m]), {}
            if m in self.semi and seen < 5:
                a, m = self.semi[m]
                c *= float(a)
                seen += 1
                continue
            return 0., {m: c}

    def expr(self, d):
        """(constant, {moment: coeff}) of a combination after substitution"""
        const, out = 0., {}
        for m, v in d.items():
            a, r = self.lin(m)
            const += v * a
            for k, c in r.items():
                out[k] = out.get(k, 0.) + v * c
        return const, out

    def add(self, kind, d):
        e = self.expr(d)
        for v in e[1]:
            self.var(v)
        (self.eqs if kind == "eq" else self.ineqs).append(e)

    def rows(self, lst):
        A = np.zeros((len(lst), len(self.vars)))
        b = np.zeros(len(lst))
        for i, (c, d) in enumerate(lst):
            b[i] = c
            for m, v in d.items():
                A[i, self.vars[m]] += v
        return A, b

    def matrices(self):
        k = len(self.iu[0])
        h = np.zeros(k)
        F = np.zeros((k, len(self.vars)))
        for i, ks in self.ent.items():
            c, d = self.expr({self.mons[i]: 1.})
            h[ks] += c
            for m, v in d.items():
                F[ks, self.vars[m]] += v
        return h, F

    def gamma(self, x):
        h, F = self.matrices()
        v = h + F @ x
        M = np.zeros((self.n, self.n))
        M[self.iu] = v
        return M + np.triu(M, 1).T

    def solve(self, objective=None):
        """objective: dict (maximised) or None for max lambda."""
        h, F = self.matrices()
        w = np.where(self.iu[0] == self.iu[1], 1., np.sqrt(2.))
        A, b = self.rows(self.eqs)
        C, d = self.rows(self.ineqs)
        nv = len(self.vars)
        if objective is None:
            c = np.zeros(nv + 1)
            c[-1] = -1.
            eye = (self.iu[0] == self.iu[1]).astype(float)
            F = np.hstack([F, -eye[:, None]])
            A = np.hstack([A, np.zeros((len(A), 1))])
            C = np.hstack([C, np.zeros((len(C), 1))])
            c0 = 0.
        else:
            c0, e = self.expr(objective)
            c = np.zeros(nv)
            for m, v in e.items():
                c[self.vars[m]] -= v
        if nv == 0 and objective is not None:
            ok = (np.all(np.abs(b) < 1e-7) and np.all(d > -1e-7))
            lam = np.linalg.eigvalsh(self.gamma(np.zeros(0)))[0]
            return dict(status="optimal" if ok and lam > -1e-7 else "pinf",
                        value=c0, x=np.zeros(0))
        # drop dependent equality rows
        if len(A):
            keep, bad = independent(A, b)
            if bad:
                return dict(status="pinf")
            A, b = A[keep], b[keep]
        G = np.vstack([-C, -(F * w[:, None])])
        hh = np.concatenate([d, h * w])
        r = conic.conelp(c, A, -b, G, hh, len(C), [self.n], maxit=80)
        out = dict(status=r["status"])
        if r["status"] == "optimal":
            out["x"] = r["x"][:nv]
            out["value"] = c0 - r["pobj"]
            out["gap"] = abs(r["pobj"] - r["dobj"])
        return out

    def violation(self, x, lam=0.):
        """Largest violation of the constraints at a point."""
        out = {"lmi": max(0., lam - np.linalg.eigvalsh(self.gamma(x))[0])}
        A, b = self.rows(self.eqs)
        C, d = self.rows(self.ineqs)
        out["eq"] = float(np.max(np.abs(A @ x + b), initial=0.))
        out["ineq"] = float(max(0., np.max(-(C @ x + d), initial=0.)))
        return out


def independent(A, b, tol=1e-9):
    """Indices of a maximal independent set of rows; True if inconsistent."""
    keep = []
    Q = np.zeros((0, A.shape[1]))
    import scipy.linalg as sla
    for i in range(len(A)):
        r = A[i] - Q.T @ (Q @ A[i])
        r = r - Q.T @ (Q @ r)
        if np.linalg.norm(r) > tol * max(1., np.linalg.norm(A[i])):
            Q = np.vstack([Q, r / np.linalg.norm(r)])
            keep.append(i)
        else:
            if keep:
                y = sla.lstsq(A[keep].T, A[i])[0]
                if abs(y @ b[keep] - b[i]) > 1e-7:
                    return keep, True
            elif abs(b[i]) > 1e-9:
                return keep, True
    return keep, False
