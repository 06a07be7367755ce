"""Explicit causal models compatible with a scenario, evaluated on the inflated
causal graph.  They are the ground truth of the soundness monitors: whatever
the library derives must hold for every one of them."""
import itertools
import numpy as np


class ClassicalModel:
    """Every latent node is a finite random variable.

    Sources have `card` values with random weights; classical intermediate
    latents and parties are deterministic functions of their parents (all
    randomness can be absorbed in the sources)."""

    def __init__(self, spec, rng, card=2, style="random"):
        self.spec = spec
        ns = spec.nsources
        self.card = [card] * ns if isinstance(card, int) else list(card)
        self.w = []
        for s in range(ns):
            v = rng.dirichlet(np.ones(self.card[s]) * 2.0) + 0.02
            self.w.append(v / v.sum())
        self.latcard = {l: int(rng.integers(2, 4)) for l in spec.latents}
        self.lat_f = {l: rng.integers(0, self.latcard[l],
                                      size=[self.card[s] for s in
                                            spec.lat_sources[l]])
                      for l in spec.latents}
        self.f = []
        for p in range(spec.nparties):
            sh = ([self.card[s] for s in spec.direct[p]]
                  + [self.latcard[l] for l in spec.lat_parents[p]]
                  + spec.setting_shape[p])
            t = rng.integers(0, spec.outcomes[p], size=sh)
            if style == "surj" and t.size >= spec.outcomes[p]:
                flat = t.reshape(-1)
                pos = rng.permutation(flat.size)[:spec.outcomes[p]]
                flat[pos] = np.arange(spec.outcomes[p])
            self.f.append(t)

    def response(self, p, vals, private, parents):
        """Outcome of party p: vals[s] = arrays of source values."""
        sp = self.spec
        ix = [vals[s] for s in sp.direct[p]]
        for l in sp.lat_parents[p]:
            ix.append(self.lat_f[l][tuple(vals[s] for s in sp.lat_sources[l])]
                      if sp.lat_sources[l] else self.lat_f[l])
        ix.append(private)
        ix.extend(parents)
        return self.f[p][tuple(ix)]

    def distribution(self):
        sp = self.spec
        P = np.zeros(sp.shape)
        grids = np.indices(self.card).reshape(len(self.card), -1)
        w = np.ones(grids.shape[1])
        for s in range(sp.nsources):
            w = w * self.w[s][grids[s]]
        for xs in np.ndindex(*sp.settings):
            outs = {}
            for p in sp.topo():
                outs[p] = self.response(p, grids, xs[p],
                                        [outs[q] for q in sp.obs_parents[p]])
                outs[p] = np.broadcast_to(outs[p], w.shape)
            np.add.at(P, tuple(outs[p] for p in range(sp.nparties))
                      + tuple(xs), w)
        return P

    def npoints(self):
        return int(np.prod([float(c) ** n for c, n in
                            zip(self.card, self.spec.levels)]))

    def realise(self, rows):
        """0/1 vectors of the operators `rows` over the inflated sample space,
        and the weights of its points."""
        sp = self.spec
        dims, slot = [], {}
        for s in range(sp.nsources):
            for c in range(1, sp.levels[s] + 1):
                slot[(s, c)] = len(dims)
                dims.append(self.card[s])
        grids = np.indices(dims).reshape(len(dims), -1)
        w = np.ones(grids.shape[1])
        for (s, c), k in slot.items():
            w = w * self.w[s][grids[k]]
        out = np.zeros((len(rows), grids.shape[1]), dtype=bool)
        cache = {}
        for r, row in enumerate(rows):
            p = int(row[0]) - 1
            idx = tuple(int(x) for x in row[1:-2])
            key = (p, idx, int(row[-2]))
            if key not in cache:
                priv, par = sp.decode_setting(p, row[-2])
                vals = {s: grids[slot[(s, idx[s])]] for s in sp.anc[p]}
                cache[key] = np.broadcast_to(
                    self.response(p, vals, priv, par), w.shape)
            out[r] = cache[key] == int(row[-1])
        return out, w


class QuantumModel:
    """Quantum (or hybrid) model: pure multipartite source states, projective
    measurements; classical sources are shared diagonal registers.

    Each nonclassical source hands one subsystem to each of its children
    (parties or intermediate latents).  A nonclassical intermediate latent
    applies a unitary, controlled on the classical registers it sees, and
    splits its system among its children.  A classical intermediate latent
    performs a projective measurement, whose result is broadcast."""

    def __init__(self, spec, rng, complex_=True, dim=2, cdim=2):
        self.spec = spec
        self.rng = rng
        self.cplx = complex_
        sp = spec
        self.sub = {}            # (s, child) -> dim
        self.children = {}
        for s, name in enumerate(sp.sources):
            ch = list(dict.fromkeys(sp.dag[name]))
            self.children[s] = ch
            for c in ch:
                if sp.is_classical[s]:
                    continue
                d = dim
                if c in sp.nil:
                    # a latent must be able to split what it receives
                    nk = len(sp.dag[c])
                    nq = sum(not sp.is_classical[t] for t in sp.lat_sources[c])
                    d = dim if nq >= nk else dim ** int(np.ceil(nk / nq))
                self.sub[(s, c)] = d
        self.cd = {s: cdim for s in range(sp.nsources) if sp.is_classical[s]}
        self.state, self.cw = {}, {}
        for s in range(sp.nsources):
            if sp.is_classical[s]:
                v = rng.dirichlet(np.ones(self.cd[s]) * 2) + .05
                self.cw[s] = v / v.sum()
            else:
                sh = [self.sub[(s, c)] for c in self.children[s]]
                v = self._g(sh)
                self.state[s] = v / np.linalg.norm(v)
        # latents
        self.lat = {}
        for l in sp.latents:
            qs = [s for s in sp.lat_sources[l] if not sp.is_classical[s]]
            cs = [s for s in sp.lat_sources[l] if sp.is_classical[s]]
            D = int(np.prod([self.sub[(s, l)] for s in qs])) if qs else 1
            csh = [self.cd[s] for s in cs]
            if l in sp.nil:
                kids = list(dict.fromkeys(sp.dag[l]))
                kd = self._split(D, len(kids))
                U = np.stack([self._unitary(D) for _ in np.ndindex(*csh)])
                self.lat[l] = dict(q=qs, c=cs, D=D, kids=kids, kd=kd,
                                   U=U.reshape(csh + [D, D]))
            else:
                L = int(rng.integers(2, 4))
                Q = np.stack([self._projectors(D, L)
                              for _ in np.ndindex(*csh)])
                self.lat[l] = dict(q=qs, c=cs, D=D, L=L,
                                   Q=Q.reshape(csh + [L, D, D]))
        # parties: systems: own subsystems of direct quantum sources, parts of
        # nonclassical latents; controls: classical sources, classical latents
        self.meas = []
        for p, name in enumerate(sp.names):
            qs = [s for s in sp.direct[p] if not sp.is_classical[s]]
            cs = [s for s in sp.direct[p] if sp.is_classical[s]]
            ql = [l for l in sp.lat_parents[p] if l in sp.nil]
            cl = [l for l in sp.lat_parents[p] if l in sp.cil]
            D = 1
            for s in qs:
                D *= self.sub[(s, name)]
            for l in ql:
                D *= self.lat[l]["kd"][self.lat[l]["kids"].index(name)]
            csh = [self.cd[s] for s in cs] + [self.lat[l]["L"] for l in cl]
            csh += [sp.eff_settings[p]]
            M = np.stack([self._projectors(D, sp.outcomes[p])
                          for _ in np.ndindex(*csh)])
            self.meas.append(dict(qs=qs, cs=cs, ql=ql, cl=cl, D=D,
                                  M=M.reshape(csh + [sp.outcomes[p], D, D])))
        self._build_local()

    # -- random objects -----------------------------------------------------
    def _g(self, sh):
        v = self.rng.normal(size=sh)
        if self.cplx:
            v = v + 1j * self.rng.normal(size=sh)
        return v

    def _unitary(self, D):
        q, r = np.linalg.qr(self._g((D, D)))
        return q * (np.diag(r) / np.abs(np.diag(r)))

    def _projectors(self, D, n):
        """n orthogonal projectors summing to 1 (ranks random, all outcomes
        used when possible)."""
        U = self._unitary(D)
        lab = np.concatenate([self.rng.permutation(n)[:D],
                              self.rng.integers(0, n, size=max(0, D - n))])
        out = np.zeros((n, D, D), dtype=complex if self.cplx else float)
        for k, o in enumerate(lab[:D]):
            v = U[:, k]
            out[o] += np.outer(v, v.conj())
        return out

    @staticmethod
    def _split(D, k):
        kd, rem = [], D
        for i in range(k):
            if i == k - 1:
                kd.append(rem)
            else:
                f = next((x for x in (2, 3, 5) if rem % x == 0 and rem > 1), 1)
                if rem == 2 and k - i > 1:
                    f = 2
                kd.append(f)
                rem //= f
        return kd

    # -- local operators ----------------------------------------------------
    def axes(self, p, idx):
        """Subsystems (labels) on which the operator of party p with copies
        idx acts: ('q', s, copy, child) and ('c', s, copy)."""
        sp = self.spec
        m = self.meas[p]
        name = sp.names[p]
        ax = []

        def add(a):
            if a not in ax:
                ax.append(a)
        for s in m["cs"]:
            add(("c", s, idx[s]))
        for l in m["ql"] + m["cl"]:
            for s in self.lat[l]["c"]:
                add(("c", s, idx[s]))
        for s in m["qs"]:
            add(("q", s, idx[s], name))
        for l in m["ql"] + m["cl"]:
            for s in self.lat[l]["q"]:
                add(("q", s, idx[s], l))
        return ax

    def axdim(self, a):
        return self.cd[a[1]] if a[0] == "c" else self.sub[(a[1], a[3])]

    def _build_local(self):
        sp = self.spec
        self.local = {}
        one = tuple([1] * sp.nsources)
        for p in range(sp.nparties):
            ax = self.axes(p, one)
            cax = [a for a in ax if a[0] == "c"]
            qax = [a for a in ax if a[0] == "q"]
            m = self.meas[p]
            name = sp.names[p]
            cd = [self.axdim(a) for a in cax]
            qd = [self.axdim(a) for a in qax]
            Dq = int(np.prod(qd)) if qd else 1
            for x in range(sp.eff_settings[p]):
                blocks = np.zeros(cd + [sp.outcomes[p], Dq, Dq],
                                  dtype=complex if self.cplx else float)
                for cv in np.ndindex(*cd):
                    val = {a[1]: v for a, v in zip(cax, cv)}
                    blocks[cv] = self._block(p, name, m, val, qax, qd, x)
                self.local[(p, x)] = (cd, qd, blocks)

    def _block(self, p, name, m, val, qax, qd, x):
        """Operator (per outcome) on the quantum axes qax, for given values
        of the classical registers."""
        sp = self.spec
        Dq = int(np.prod(qd)) if qd else 1
        nout = sp.outcomes[p]
        total = np.zeros((nout, Dq, Dq),
                         dtype=complex if self.cplx else float)
        lats = m["cl"]
        for lv in np.ndindex(*[self.lat[l]["L"] for l in lats]):
            ctrl = tuple(val[s] for s in m["cs"]) + lv + (x,)
            M = m["M"][ctrl]                     # nout, D, D
            # embed M on: direct qs axes, then parts of nonclassical latents
            # build as a product of factors:  total system =
            # [direct qs] x [each nil latent system] x [each cil system]
            dims_d = [self.sub[(s, name)] for s in m["qs"]]
            Dd = int(np.prod(dims_d)) if dims_d else 1
            # split of D = Dd * prod kd
            kds = [self.lat[l]["kd"][self.lat[l]["kids"].index(name)]
                   for l in m["ql"]]
            T = M.reshape([nout, Dd] + kds + [Dd] + kds)
            nk = len(kds)
            op = T
            # for each nil latent: extend with identity on the other kids and
            # conjugate by its unitary
            for k, l in enumerate(m["ql"]):
                L = self.lat[l]
                pos = L["kids"].index(name)
                before = int(np.prod(L["kd"][:pos])) if pos else 1
                after = int(np.prod(L["kd"][pos + 1:])) \
                    if pos + 1 < len(L["kd"]) else 1
                U = L["U"][tuple(val[s] for s in L["c"])]
                kd = L["kd"][pos]
                Ur = U.reshape(before, kd, after, L["D"])
                # new[i,j] = sum conj(U[b a' c, i]) op[a',a''] U[b a'' c, j]
                op = np.moveaxis(op, [2 + k, 2 + nk + 1 + k], [-2, -1])
                op = np.einsum("...xy,bxci,bycj->...ij", op, Ur.conj(), Ur)
                op = np.moveaxis(op, [-2, -1], [2 + k, 2 + nk + 1 + k])
            Dl = [self.lat[l]["D"] for l in m["ql"]]
            op = op.reshape(nout, Dd * int(np.prod(Dl or [1])),
                            Dd * int(np.prod(Dl or [1])))
            for l, v in zip(lats, lv):
                L = self.lat[l]
                Q = L["Q"][tuple(val[s] for s in L["c"])][v]
                op = np.stack([np.kron(o, Q) for o in op])
            total += op
        return total

    def qdim(self):
        n = 1.0
        for s in range(self.spec.nsources):
            if self.spec.is_classical[s]:
                n *= float(self.cd[s]) ** self.spec.levels[s]
            else:
                d = float(np.prod([self.sub[(s, c)] for c in self.children[s]]))
                n *= d ** self.spec.levels[s]
        return n

    # -- states and application ----------------------------------------------
    def build_state(self, copies):
        """Vector on the subsystems of the given source copies
        (list of (s, copy)); axes labels and tensor."""
        labels, tens = [], np.ones(())
        for (s, c) in copies:
            if self.spec.is_classical[s]:
                v = np.sqrt(self.cw[s])
                lab = [("c", s, c)]
            else:
                v = self.state[s]
                lab = [("q", s, c, ch) for ch in self.children[s]]
            labels += lab
            tens = np.multiply.outer(tens, v)
        return labels, tens

    def apply(self, labels, tens, row):
        """Apply the operator described by row to the vector."""
        p = int(row[0]) - 1
        idx = tuple(int(v) for v in row[1:-2])
        x, o = int(row[-2]), int(row[-1])
        ax = self.axes(p, idx)
        cax = [a for a in ax if a[0] == "c"]
        qax = [a for a in ax if a[0] == "q"]
        cd, qd, blocks = self.local[(p, x)]
        pos = [labels.index(a) for a in cax + qax]
        t = np.moveaxis(tens, pos, range(len(pos)))
        sh = t.shape
        nc = int(np.prod(cd)) if cd else 1
        nq = int(np.prod(qd)) if qd else 1
        t = t.reshape(nc, nq, -1)
        B = blocks[..., o, :, :].reshape(nc, nq, nq)
        t = np.matmul(B, t).reshape(sh)
        return np.moveaxis(t, range(len(pos)), pos)

    def vectors(self, words, rows):
        """M|psi> for every word (sequence of positions into rows)."""
        sp = self.spec
        copies = [(s, c) for s in range(sp.nsources)
                  for c in range(1, sp.levels[s] + 1)]
        labels, psi = self.build_state(copies)
        memo = {(): psi}
        out = []

        def get(w):
            if w not in memo:
                memo[w] = self.apply(labels, get(w[1:]), rows[w[0]])
            return memo[w]
        for w in words:
            out.append(np.asarray(get(tuple(int(i) for i in w))).reshape(-1))
        return np.stack(out)

    def moment(self, word_rows):
        """<psi| O_1 O_2 ... |psi> for a list of operator rows."""
        used = []
        for row in word_rows:
            p = int(row[0]) - 1
            idx = tuple(int(v) for v in row[1:-2])
            for a in self.axes(p, idx):
                if (a[1], a[2]) not in used:
                    used.append((a[1], a[2]))
        labels, psi = self.build_state(used)
        t = psi
        for row in reversed(list(word_rows)):
            t = self.apply(labels, t, row)
        return np.vdot(psi, t)

    def distribution(self):
        sp = self.spec
        P = np.zeros(sp.shape)
        one = [1] * sp.nsources
        for xs in np.ndindex(*sp.settings):
            for outs in np.ndindex(*sp.outcomes):
                word = []
                for p in range(sp.nparties):
                    eff = int(np.ravel_multi_index(
                        (xs[p],) + tuple(outs[q] for q in sp.obs_parents[p]),
                        sp.setting_shape[p]))
                    idx = [one[s] if s in sp.anc[p] else 0
                           for s in range(sp.nsources)]
                    word.append([p + 1] + idx + [eff, outs[p]])
                P[outs + xs] = float(np.real(self.moment(word)))
        P[np.abs(P) < 1e-12] = 0.      # rounding noise
        return P
