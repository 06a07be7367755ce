"""Reference algebra of measurement operators on the inflated graph, derived
from the scenario alone (no use of the code under test)."""
import itertools
from functools import lru_cache


class Algebra:
    """Words are tuples of operator rows (party, copies.., setting, outcome)."""

    def __init__(self, spec):
        self.spec = spec
        self.ns = spec.nsources
        self._comm = {}
        self._canon = {}
        lv = spec.levels
        perms = [list(itertools.permutations(range(1, n + 1))) for n in lv]
        self.group = list(itertools.product(*perms))

    # quantum subsystems an operator acts on: (source, copy, recipient)
    def qaxes(self, r):
        sp = self.spec
        p = r[0] - 1
        out = set()
        for s in sp.direct[p]:
            if not sp.is_classical[s]:
                out.add((s, r[1 + s], sp.names[p]))
        for l in sp.lat_parents[p]:
            for s in sp.lat_sources[l]:
                if not sp.is_classical[s]:
                    out.add((s, r[1 + s], l))
        return out

    def commute(self, a, b):
        k = (a, b)
        if k not in self._comm:
            self._comm[k] = self._commute(a, b)
        return self._comm[k]

    def _commute(self, a, b):
        """Whether a and b commute in every model of the scenario."""
        if a == b:
            return True
        sp = self.spec
        if a[:-1] == b[:-1]:
            return True
        shared = self.qaxes(a) & self.qaxes(b)
        if not shared:
            return True
        pa, pb = a[0] - 1, b[0] - 1
        for (s, c, who) in shared:
            if who in sp.cil:
                # same copy of the latent: one measurement, broadcast result
                if all(a[1 + t] == b[1 + t] for t in sp.lat_sources[who]):
                    continue
                return False
            if who in sp.nil:
                same = all(a[1 + t] == b[1 + t] for t in sp.lat_sources[who])
                if same and pa != pb:
                    continue
                return False
            return False       # the same party acts twice on that subsystem
        return True

    def orthogonal(self, a, b):
        return a[:-1] == b[:-1] and a[-1] != b[-1]

    def reduce(self, word):
        """None if the product vanishes, else the word without squares."""
        w = list(word)
        changed = True
        while changed:
            changed = False
            for i in range(len(w)):
                for j in range(i + 1, len(w)):
                    if w[i] == w[j] or self.orthogonal(w[i], w[j]):
                        # can j be moved next to i?  split the letters in
                        # between into those that can leave to the right
                        if self._adjacent(w, i, j):
                            if w[i] != w[j]:
                                return None
                            del w[j]
                            changed = True
                            break
                if changed:
                    break
        return tuple(w)

    def _adjacent(self, w, i, j):
        """Letters i<j of the trace can be made adjacent: no letter k between
        them lies on a dependence path from i to j."""
        reach = {i}
        for k in range(i + 1, j + 1):
            for m in list(reach):
                if not self.commute(w[m], w[k]):
                    if k == j:
                        # direct dependence i-j (non commuting) is adjacency
                        # only if nothing in between is on a path
                        if m != i:
                            return False
                    else:
                        reach.add(k)
                        break
        return True

    def normal(self, word):
        """Lexicographically smallest representative of the trace."""
        w = list(word)
        out = []
        while w:
            best = None
            for k in range(len(w)):
                if all(self.commute(w[m], w[k]) for m in range(k)):
                    if best is None or w[k] < w[best]:
                        best = k
            out.append(w.pop(best))
        return tuple(out)

    def components(self, word):
        """Factors: connected components of the shared-copies graph."""
        n = len(word)
        lab = list(range(n))

        def find(x):
            while lab[x] != x:
                x = lab[x]
            return x
        for i in range(n):
            for j in range(i):
                if any(word[i][1 + s] and word[i][1 + s] == word[j][1 + s]
                       for s in range(self.ns)):
                    lab[find(i)] = find(j)
        groups = {}
        for i in range(n):
            groups.setdefault(find(i), []).append(word[i])
        return [tuple(g) for g in groups.values()]

    def relabel(self, word, g):
        return tuple((r[0],) + tuple(g[s][r[1 + s] - 1] if r[1 + s] else 0
                                     for s in range(self.ns)) + r[-2:]
                     for r in word)

    def atom_key(self, word):
        if word not in self._canon:
            self._canon[word] = min(self.normal(self.relabel(word, g))
                                    for g in self.group)
        return self._canon[word]

    def key(self, word, dagger=True):
        """Canonical key of the expectation value (real part) of a product;
        'zero' if it vanishes, () if it is one."""
        w = self.reduce(word)
        if w is None:
            return "zero"
        comp = self.components(self.normal(w))
        k = tuple(sorted(self.atom_key(c) for c in comp))
        if not dagger:
            return k
        comp2 = self.components(self.normal(tuple(reversed(w))))
        k2 = tuple(sorted(self.atom_key(c) for c in comp2))
        return min(k, k2)

    def nonnegative(self, word):
        """Sandwich criterion for an irreducible factor."""
        w = list(word)
        while any(not self.commute(a, b)
                  for a, b in itertools.combinations(w, 2)):
            done = False
            for i in range(len(w)):
                if not all(self.commute(w[i], x) for x in w[:i]):
                    continue
                for j in range(i + 1, len(w)):
                    if w[i] == w[j] and all(self.commute(w[j], x)
                                            for x in w[j + 1:]):
                        w = w[:i] + w[i + 1:j] + w[j + 1:]
                        done = True
                        break
                if done:
                    break
            if not done:
                return False
        return True
