import itertools

import numpy as np

from _gap import gap, module_getattr
from pgmpy.models import TabularCPD

__getattr__ = module_getattr("pgmpy.estimators")


class _Estimator:
    def __init__(self, model, data, state_names=None, complete_samples_only=True):
        if not set(model.nodes) <= set(data.columns):
            raise ValueError("variable names of the model must be identical to column names in data")
        self.model, self.data = model, data
        self.state_names = {}
        for c in data.columns:
            have = set(x for x in data[c] if x == x)
            st = list((state_names or {}).get(c, sorted(have)))
            if not have <= set(st):
                raise ValueError("Data contains unexpected states for variable: %s." % c)
            self.state_names[c] = st

    def counts(self, node):
        parents = sorted(self.model.get_parents(node))
        vs = [node] + parents
        card = [len(self.state_names[v]) for v in vs]
        pos = [{s: i for i, s in enumerate(self.state_names[v])} for v in vs]
        t = np.zeros(card)
        for row in zip(*[list(self.data[v]) for v in vs]):
            if all(x == x for x in row):
                t[tuple(p[x] for p, x in zip(pos, row))] += 1
        return vs, card, t

    def _cpd(self, vs, card, t):
        c = TabularCPD(vs[0], card[0], t.reshape(card[0], -1), evidence=vs[1:], evidence_card=card[1:],
                       state_names={v: list(self.state_names[v]) for v in vs})
        c.normalize()
        return c


class MaximumLikelihoodEstimator(_Estimator):
    def get_parameters(self):
        return [self.estimate_cpd(n) for n in sorted(self.model.nodes)]

    def estimate_cpd(self, node):
        vs, card, t = self.counts(node)
        t = t.reshape(card[0], -1)
        t[:, (t == 0).all(axis=0)] = 1
        return self._cpd(vs, card, t)


class BayesianEstimator(_Estimator):
    def get_parameters(self, prior_type="BDeu", equivalent_sample_size=5, pseudo_counts=None):
        return [self.estimate_cpd(n, prior_type, equivalent_sample_size) for n in sorted(self.model.nodes)]

    def estimate_cpd(self, node, prior_type="BDeu", equivalent_sample_size=5, pseudo_counts=None):
        vs, card, t = self.counts(node)
        if prior_type == "K2":
            pc = 1.0
        elif prior_type == "BDeu":
            pc = float(equivalent_sample_size) / float(np.prod(card))
        else:
            raise ValueError("'prior_type' not specified")
        return self._cpd(vs, card, t + pc)
