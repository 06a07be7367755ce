"""Observation helpers for InflationSDP objects."""
import numpy as np
from .models import ClassicalModel, QuantumModel
from .runner import Skip
from . import gen

TOL = 1e-7


def pick_columns(rng, spec, max_cols=130):
    opts = []
    for c, w in (("npa1", 1), ("npa2", 3), ("local1", 2), ("npa3", 1.5)):
        if gen.ncols_upper(spec, c) <= max_cols:
            opts.append((c, w))
    if spec.n_ops() <= 16:
        opts += [("physical", 1.), ("physical2", 1.5)]
        lv = "".join(str(int(x)) for x in rng.integers(1, 3, size=spec.nparties))
        opts.append(("local" + lv, 1.))
        opts.append(("physical" + lv, .7))
    if gen.ncols_upper(spec, "npa2") <= max_cols * 2:
        n = spec.nparties
        blocks = [[]]
        for _ in range(int(rng.integers(2, 5))):
            b = sorted(int(x) for x in rng.integers(0, n, size=int(
                rng.integers(1, 3))))
            if b not in blocks:
                blocks.append(b)
        opts.append((blocks, 1.5))
    if not opts:
        opts = [([[], [0]], 1.)]
    w = np.array([x[1] for x in opts])
    return opts[int(rng.choice(len(opts), p=w / w.sum()))][0]


def make_sdp(spec, cols, max_cols=450, **kw):
    from inflation import InflationSDP
    sdp = InflationSDP(spec.problem(), verbose=0, **kw)
    got = sdp.build_columns(cols)
    if len(got) > max_cols:
        raise Skip(f"{len(got)} columns")
    sdp = InflationSDP(spec.problem(), verbose=0, **kw)
    sdp.generate_relaxation(cols)
    return sdp


def columns_rows(sdp):
    """Generating monomials as lists of operator rows."""
    lex = np.asarray(sdp._lexorder)
    return [[tuple(int(v) for v in lex[int(i)]) for i in w]
            for w in sdp.generating_monomials_1d]


class Realisation:
    """Values of operators products in an explicit model."""

    def __init__(self, spec, kind, seed, **kw):
        rng = np.random.default_rng(seed)
        self.spec, self.kind = spec, kind
        if kind == "classical":
            self.m = ClassicalModel(spec, rng, **kw)
        else:
            self.m = QuantumModel(spec, rng, **kw)
        self._memo = {}

    def distribution(self):
        return self.m.distribution()

    def feasible_size(self, ncols):
        if self.kind == "classical":
            return self.m.npoints() * ncols <= 4e7
        return self.m.qdim() <= 2 ** 14 and self.m.qdim() * ncols <= 6e6

    def gram(self, words):
        rows = sorted({r for w in words for r in w})
        pos = {r: i for i, r in enumerate(rows)}
        if self.kind == "classical":
            ops, wt = self.m.realise(rows) if rows else (
                np.zeros((0, 1), bool), np.ones(1))
            V = np.ones((len(words), len(wt)))
            for k, w in enumerate(words):
                for r in w:
                    V[k] *= ops[pos[r]]
            return (V * wt) @ V.T
        V = self.m.vectors([[pos[r] for r in w] for w in words], rows)
        return np.real(V.conj() @ V.T)

    def word(self, rows):
        """Complex expectation value of a product of operators."""
        rows = tuple(tuple(int(v) for v in r) for r in rows)
        if rows not in self._memo:
            if not rows:
                v = 1.
            elif self.kind == "classical":
                v = self._cword(rows)
            else:
                v = self.m.moment(rows)
            self._memo[rows] = v
        return self._memo[rows]

    def _cword(self, rows):
        if not hasattr(self, "_ops"):
            allr = self.spec.operators()
            self._pos = {r: i for i, r in enumerate(allr)}
            self._ops, self._wt = self.m.realise(allr)
        x = np.ones(len(self._wt))
        for r in rows:
            x = x * self._ops[self._pos[r]]
        return float(x @ self._wt)

    def moment(self, mon):
        """Value of a compound moment of the library (product of its
        factors)."""
        if mon.is_zero:
            return 0.
        v = 1.
        for f in mon.factors:
            v = v * self.word(np.asarray(f.as_2d_array))
        return float(np.real(v))


def realisations(spec, rng, n_cl=1, n_q=2, ncols=1):
    """A few models that fit the scenario and the size limits."""
    out = []
    for _ in range(n_cl):
        for card in (3, 2):
            r = Realisation(spec, "classical", int(rng.integers(2 ** 31)),
                            card=card, style="surj")
            if r.feasible_size(ncols):
                out.append(r)
                break
    for k in range(n_q):
        r = Realisation(spec, "quantum", int(rng.integers(2 ** 31)),
                        complex_=bool(k % 2 == 0))
        if r.feasible_size(ncols):
            out.append(r)
    return out
