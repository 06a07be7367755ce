"""Scenario description, interpreted independently of the code under test."""
import itertools
import json
import numpy as np


class Spec:
    """A causal scenario.  `d` is a JSON-serialisable dict with the keys
    dag, outcomes, settings, levels, classical, nil, cil, order."""

    def __init__(self, d):
        self.d = d
        self.dag = {k: list(v) for k, v in d["dag"].items()}
        self.nil = list(d.get("nil", []))
        self.cil = list(d.get("cil", []))
        self.latents = self.nil + self.cil
        kids = []
        for v in self.dag.values():
            for c in v:
                if c not in self.latents and c not in kids:
                    kids.append(c)
        self.names = list(d["order"]) if d.get("order") else sorted(kids)
        self.outcomes = list(d["outcomes"])
        self.settings = list(d["settings"])
        self.nparties = len(self.names)
        self.sources = [k for k in self.dag
                        if k not in self.names and k not in self.latents]
        self.nsources = len(self.sources)
        lv = d["levels"]
        self.levels = [lv] * self.nsources if isinstance(lv, int) else list(lv)
        cl = d.get("classical", [])
        self.classical = (set(self.sources) if cl == "all" else set(cl))
        self.is_classical = [s in self.classical for s in self.sources]
        # party -> observed parents (indices, in party order)
        self.obs_parents = [[j for j, q in enumerate(self.names)
                             if p in self.dag.get(q, [])]
                            for p in self.names]
        self.direct = [[i for i, s in enumerate(self.sources)
                        if p in self.dag[s]] for p in self.names]
        self.lat_parents = [[l for l in self.latents
                             if p in self.dag.get(l, [])]
                            for p in self.names]
        self.lat_sources = {l: [i for i, s in enumerate(self.sources)
                                if l in self.dag[s]] for l in self.latents}
        self.anc = []        # sources in the causal past without observed
        for p in range(self.nparties):
            s = set(self.direct[p])
            for l in self.lat_parents[p]:
                s |= set(self.lat_sources[l])
            self.anc.append(sorted(s))
        self.is_network = not any(self.obs_parents)
        self.has_children = [bool(self.dag.get(p)) for p in self.names]
        self.setting_shape = [
            [self.settings[p]] + [self.outcomes[j] for j in self.obs_parents[p]]
            for p in range(self.nparties)]
        self.eff_settings = [int(np.prod(s)) for s in self.setting_shape]
        self.shape = tuple(self.outcomes + self.settings)

    def topo(self):
        order, left = [], list(range(self.nparties))
        while left:
            for p in left:
                if all(q in order for q in self.obs_parents[p]):
                    order.append(p)
                    left.remove(p)
                    break
            else:
                raise ValueError("cyclic")
        return order

    def decode_setting(self, p, eff):
        """(private setting, outcomes of observed parents)"""
        t = np.unravel_index(int(eff), self.setting_shape[p])
        return int(t[0]), tuple(int(x) for x in t[1:])

    def kwargs(self):
        d = self.d
        kw = dict(dag=d["dag"], outcomes_per_party=list(self.outcomes),
                  settings_per_party=list(self.settings),
                  inflation_level_per_source=d["levels"],
                  classical_sources=d.get("classical", ()),
                  verbose=0)
        if d.get("order"):
            kw["order"] = list(d["order"])
        if self.nil:
            kw["nonclassical_intermediate_latents"] = list(self.nil)
        if self.cil:
            kw["classical_intermediate_latents"] = list(self.cil)
        return kw

    def problem(self, **over):
        from inflation import InflationProblem
        kw = self.kwargs()
        kw.update(over)
        return InflationProblem(**kw)

    # -- the inflated operators, enumerated from the specification ----------
    def operators(self):
        """Expected operator rows: (party+1, copy indices, setting, outcome)."""
        rows = []
        for p in range(self.nparties):
            rng = [range(1, self.levels[s] + 1) if s in self.anc[p] else (0,)
                   for s in range(self.nsources)]
            for idx in itertools.product(*rng):
                for x in range(self.eff_settings[p]):
                    for a in range(self.outcomes[p]):
                        rows.append((p + 1,) + idx + (x, a))
        return rows

    def n_ops(self):
        return sum(int(np.prod([self.levels[s] for s in self.anc[p]] or [1]))
                   * self.eff_settings[p] * self.outcomes[p]
                   for p in range(self.nparties))

    def restrict(self, **over):
        d = dict(self.d)
        d.update(over)
        return Spec(d)

    def key(self):
        return json.dumps(self.d, sort_keys=True)

    def __repr__(self):
        return json.dumps(self.d)
