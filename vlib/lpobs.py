"""Observation helpers for InflationLP objects and an independent construction
of the inflation linear program."""
import itertools
import numpy as np
from .runner import Skip
from .refalg import Algebra


class RefLP:
    """Contexts (sets of compatible measurements) of the inflated graph."""

    def __init__(self, spec, max_events=20000, alg=None):
        self.spec = sp = spec
        self.alg = alg or Algebra(spec)
        groups = {}
        for r in sp.operators():
            groups.setdefault(r[:-1], []).append(r)
        self.groups = list(groups.values())
        n = len(self.groups)
        self.comp = np.zeros((n, n), bool)
        for i, j in itertools.combinations(range(n), 2):
            self.comp[i, j] = self.comp[j, i] = self.alg.commute(
                self.groups[i][0], self.groups[j][-1])
        self.max_events = max_events
        # all compatible subsets and the maximal ones
        self.cliques = []
        total = 0

        def ext(cur, cand, w):
            nonlocal total
            total += w
            if total > max_events:
                raise Skip("too many events")
            self.cliques.append(tuple(cur))
            for k, i in enumerate(cand):
                ext(cur + [i], [j for j in cand[k + 1:] if self.comp[i, j]],
                    w * len(self.groups[i]))
        ext([], list(range(n)), 1)
        self.total = total
        self.maximal = [c for c in self.cliques if not any(
            all(self.comp[i, j] for j in c)
            for i in range(n) if i not in c)]

    def events(self, clique):
        for ev in itertools.product(*[self.groups[i] for i in clique]):
            yield tuple(sorted(ev))

    def key(self, event):
        """Key of an event under copy relabelling and factorisation."""
        comp = self.alg.components(event)
        return tuple(sorted(self.alg.atom_key(c) for c in
                            (tuple(sorted(c)) for c in comp)))


def make_lp(spec, **kw):
    from inflation import InflationLP
    kw.setdefault("nonfanout", True)
    return InflationLP(spec.problem(), verbose=0, **kw)


def lp_factors(mon):
    """Factors of a monomial as tuples of operator rows."""
    return [tuple(tuple(int(v) for v in r) for r in np.asarray(f.as_2d_array))
            for f in mon.factors if len(f.as_lexmon)]


def lp_key(alg, mon):
    return tuple(sorted(alg.atom_key(tuple(sorted(w)))
                        for w in lp_factors(mon)))


def column_words(lp):
    lex = np.asarray(lp._lexorder)
    return [tuple(tuple(int(v) for v in lex[i]) for i in np.flatnonzero(b))
            for b in np.asarray(lp._monomials_as_lexboolvecs)]
