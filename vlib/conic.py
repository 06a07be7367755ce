"""A small, self-contained conic interior-point solver (NT scaling, homogeneous
self-dual embedding) used as the engine of the MOSEK stand-in.

    min c'x  s.t.  A x = b,  G x + s = h,  s in K = R_+^l x S_+^{n1} x ...

PSD blocks are stored in scaled svec form (off-diagonals times sqrt 2).
"""
import numpy as np
import scipy.linalg as sla

SQ2 = np.sqrt(2.0)


def svec_idx(n):
    iu = np.triu_indices(n)
    return iu, np.where(iu[0] == iu[1], 1.0, SQ2)


def svec(M):
    iu, w = svec_idx(M.shape[0])
    return M[iu] * w


def smat(v, n):
    iu, w = svec_idx(n)
    M = np.zeros((n, n))
    M[iu] = v / w
    return M + np.triu(M, 1).T


class Scaling:
    def __init__(self, s, z, l, ns):
        self.l, self.ns = l, ns
        self.d = np.sqrt(s[:l] / z[:l])
        self.lam = [np.sqrt(s[:l] * z[:l])]
        self.R, self.Ri = [], []
        o = l
        for n in ns:
            k = n * (n + 1) // 2
            L1 = sla.cholesky(smat(s[o:o + k], n), lower=True)
            L2 = sla.cholesky(smat(z[o:o + k], n), lower=True)
            U, sv, Vt = sla.svd(L2.T @ L1)
            self.R.append(L1 @ Vt.T / np.sqrt(sv))
            self.Ri.append((U / np.sqrt(sv)).T @ L2.T)
            self.lam.append(sv)
            o += k

    def _map(self, v, diag, mats, left, right):
        out = np.empty_like(v)
        out[:self.l] = v[:self.l] * diag
        o = self.l
        for n, M in zip(self.ns, mats):
            k = n * (n + 1) // 2
            V = smat(v[o:o + k], n)
            out[o:o + k] = svec(left(M) @ V @ right(M))
            o += k
        return out

    def W(self, v):       # scaled z:  R' Z R
        return self._map(v, self.d, self.R, lambda M: M.T, lambda M: M)

    def Wt(self, v):      # adjoint: R V R'
        return self._map(v, self.d, self.R, lambda M: M, lambda M: M.T)

    def Wit(self, v):     # W^{-T}: R^{-1} S R^{-T}
        return self._map(v, 1 / self.d, self.Ri, lambda M: M, lambda M: M.T)

    def lamvec(self):
        out = [self.lam[0]]
        for n, sv in zip(self.ns, self.lam[1:]):
            out.append(svec(np.diag(sv)))
        return np.concatenate(out)

    def circ(self, u, v):
        out = np.empty_like(u)
        out[:self.l] = u[:self.l] * v[:self.l]
        o = self.l
        for n in self.ns:
            k = n * (n + 1) // 2
            U, V = smat(u[o:o + k], n), smat(v[o:o + k], n)
            out[o:o + k] = svec((U @ V + V @ U) / 2)
            o += k
        return out

    def lamdiv(self, v):
        out = np.empty_like(v)
        out[:self.l] = v[:self.l] / self.lam[0]
        o = self.l
        for n, sv in zip(self.ns, self.lam[1:]):
            k = n * (n + 1) // 2
            out[o:o + k] = svec(2 * smat(v[o:o + k], n)
                                / (sv[:, None] + sv[None, :]))
            o += k
        return out

    def maxstep(self, u):
        """largest -min eig of lam^{-1/2} u lam^{-1/2} (u already scaled)"""
        t = 0.0
        if self.l:
            t = max(t, np.max(-u[:self.l] / self.lam[0]))
        o = self.l
        for n, sv in zip(self.ns, self.lam[1:]):
            k = n * (n + 1) // 2
            U = smat(u[o:o + k], n) / np.sqrt(np.outer(sv, sv))
            t = max(t, -sla.eigvalsh(U, subset_by_index=[0, 0])[0])
            o += k
        return t


def conelp(c, A, b, G, h, l, ns, maxit=100, tol=1e-9):
    nx, ny = len(c), len(b)
    m = l + sum(n for n in ns)
    e = np.concatenate([np.ones(l)] + [svec(np.eye(n)) for n in ns]) \
        if (l or ns) else np.zeros(0)
    nz = len(e)
    x, y, s, z, tau, kap = np.zeros(nx), np.zeros(ny), e.copy(), e.copy(), 1., 1.
    nb = 1 + np.linalg.norm(b)
    nh = 1 + np.linalg.norm(h)
    nc = 1 + np.linalg.norm(c)
    best = None
    for it in range(maxit):
        rx = -A.T @ y - G.T @ z - c * tau
        ry = A @ x - b * tau
        rz = s + G @ x - h * tau
        rt = kap + c @ x + b @ y + h @ z
        mu = (s @ z + kap * tau) / (m + 1)
        pobj, dobj = c @ x / tau, -(b @ y + h @ z) / tau
        pres = max(np.linalg.norm(ry) / nb, np.linalg.norm(rz) / nh) / tau
        dres = np.linalg.norm(rx) / nc / tau
        gap = (s @ z) / tau ** 2
        relgap = gap / max(1.0, min(abs(pobj), abs(dobj)))
        score = max(pres, dres, min(gap, relgap))
        if best is None or score < best[0]:
            best = (score, x / tau, y / tau, s / tau, z / tau, pobj, dobj)
        if pres < tol and dres < tol and min(gap, relgap) < tol:
            break
        hy = b @ y + h @ z
        if hy < 0 and np.linalg.norm(A.T @ y + G.T @ z) / nc / (-hy) < tol:
            return {"status": "pinf", "x": None, "y": y / -hy, "z": z / -hy,
                    "s": None, "it": it}
        cx = c @ x
        if cx < 0 and max(np.linalg.norm(A @ x) / nb,
                          np.linalg.norm(G @ x + s) / nh) / (-cx) < tol:
            return {"status": "dinf", "x": x / -cx, "s": s / -cx, "y": None,
                    "z": None, "it": it}
        try:
            S = Scaling(s, z, l, ns)
        except (np.linalg.LinAlgError, ValueError):
            break
        # KKT: [0 A' G'; A 0 0; G 0 -W'W]
        if nz:
            # scaled G columns: W^{-T} G
            Gs = np.empty((nz, nx))
            Gs[:l] = G[:l] / S.d[:, None]
            o = l
            for n, Ri in zip(ns, S.Ri):
                k = n * (n + 1) // 2
                iu, w = svec_idx(n)
                block = G[o:o + k] / w[:, None]
                T = np.zeros((nx, n, n))
                T[:, iu[0], iu[1]] = block.T
                T[:, iu[1], iu[0]] = block.T
                T = Ri @ T @ Ri.T
                Gs[o:o + k] = (T[:, iu[0], iu[1]] * w).T
                o += k
        else:
            Gs = np.zeros((0, nx))
        H = Gs.T @ Gs
        reg = 1e-13 * max(1.0, np.abs(H).max() if H.size else 1.0)
        K0 = np.block([[H, A.T], [A, np.zeros((ny, ny))]])
        K = K0.copy()
        K[np.arange(nx), np.arange(nx)] += reg
        K[np.arange(nx, nx + ny), np.arange(nx, nx + ny)] -= 1e-13
        try:
            lu = sla.lu_factor(K, check_finite=False)
        except Exception:
            break

        def solve(bx, by, bz):
            # A'y + G'z = bx ; A x = by ; G x - W'W z = bz
            # z = (W'W)^{-1}(Gx - bz)
            wz = S.Wit(bz) if nz else bz
            rhs = np.concatenate([bx + Gs.T @ wz, by])
            sol = sla.lu_solve(lu, rhs, check_finite=False)
            for _ in range(3):
                r = rhs - K0 @ sol
                sol = sol + sla.lu_solve(lu, r, check_finite=False)
            xs, ys = sol[:nx], sol[nx:]
            zs_scaled = Gs @ xs - wz           # = W z
            # z = W^{-1} zs_scaled ; W^{-1} v = R^{-T} v R^{-1}
            zs = S._map(zs_scaled, 1 / S.d, S.Ri,
                        lambda M: M.T, lambda M: M) if nz else zs_scaled
            return xs, ys, zs

        if not np.all(np.isfinite(K)):
            break
        x1, y1, z1 = solve(-c, b, h)
        lamv = S.lamvec()
        denom = c @ x1 + b @ y1 + h @ z1 - kap / tau

        def direction(f, ds, dk):
            dx_, dy_, dz_, dt_ = -f * rx, -f * ry, -f * rz, -f * rt
            ls = S.lamdiv(ds)
            x2, y2, z2 = solve(-dx_, dy_, dz_ - S.Wt(ls))
            Dt = (dt_ - dk / tau - (c @ x2 + b @ y2 + h @ z2)) / denom
            Dx, Dy, Dz = x2 + Dt * x1, y2 + Dt * y1, z2 + Dt * z1
            wz = S.W(Dz)
            Dss = ls - wz                     # W^{-T} Ds
            Dk = (dk - kap * Dt) / tau
            return Dx, Dy, Dz, Dt, Dk, Dss, wz

        Dx, Dy, Dz, Dt, Dk, Dss, wz = direction(1.0, -S.circ(lamv, lamv),
                                                -kap * tau)
        t = max(S.maxstep(Dss), S.maxstep(wz), -Dt / tau, -Dk / kap)
        al = min(1.0, 1 / t) if t > 0 else 1.0
        sig = (1 - al) ** 3
        ds = -S.circ(lamv, lamv) - S.circ(Dss, wz) + sig * mu * e
        dk = -kap * tau - Dk * Dt + sig * mu
        Dx, Dy, Dz, Dt, Dk, Dss, wz = direction(1 - sig, ds, dk)
        t = max(S.maxstep(Dss), S.maxstep(wz), -Dt / tau, -Dk / kap)
        al = min(1.0, 0.99 / t) if t > 0 else 1.0
        if not np.isfinite(al) or al < 1e-9:
            break
        x, y, z = x + al * Dx, y + al * Dy, z + al * Dz
        s = s + al * S.Wt(Dss)
        tau, kap = tau + al * Dt, kap + al * Dk
        # rescale the homogeneous iterate
        nrm = max(tau, kap)
        if nrm > 1e6 or nrm < 1e-6:
            x, y, z, s, tau, kap = (v / nrm for v in (x, y, z, s, tau, kap))
    if best is None:
        return {"status": "unknown"}
    score, x, y, s, z, pobj, dobj = best
    return {"status": "optimal" if score < 1e-6 else "unknown", "x": x,
            "y": y, "s": s, "z": z, "pobj": pobj, "dobj": dobj,
            "score": score, "it": it}
