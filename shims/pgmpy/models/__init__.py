import itertools

import networkx as nx
import numpy as np

from _gap import gap, module_getattr

__getattr__ = module_getattr("pgmpy.models")


class TabularCPD:
    def __init__(self, variable, variable_card, values, evidence=None, evidence_card=None, state_names=None):
        self.variable = variable
        self.variables = [variable] + list(evidence or [])
        self.cardinality = np.array([variable_card] + list(evidence_card or []), dtype=int)
        self.values = np.asarray(values, dtype=float).reshape(self.cardinality)
        self.state_names = dict(state_names or {})

    def normalize(self):
        v = self.values.reshape(self.cardinality[0], -1)
        self.values = (v / v.sum(axis=0)).reshape(self.cardinality)

    def get_values(self):
        return self.values.reshape(self.cardinality[0], -1)

    @property
    def variable_card(self):
        return int(self.cardinality[0])

    def get_evidence(self):
        return self.variables[:0:-1]

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        gap("pgmpy: TabularCPD.%s" % n)


class BayesianModel(nx.DiGraph):
    def __init__(self, ebunch=None):
        super().__init__()
        self.cpds = []
        if ebunch:
            self.add_edges_from(ebunch)

    def add_edge(self, u, v, **kw):
        if u == v:
            raise ValueError("Self loops are not allowed.")
        if u in self and v in self and nx.has_path(self, v, u):
            raise ValueError("Loops are not allowed. Adding the edge from (%s->%s) forms a loop." % (u, v))
        super().add_edge(u, v, **kw)

    def add_edges_from(self, ebunch, **kw):
        for e in ebunch:
            self.add_edge(e[0], e[1])

    def get_parents(self, node):
        return list(self.predecessors(node))

    def get_children(self, node):
        return list(self.successors(node))

    def add_cpds(self, *cpds):
        for c in cpds:
            for i, old in enumerate(self.cpds):
                if old.variable == c.variable:
                    self.cpds[i] = c
                    break
            else:
                self.cpds.append(c)

    def get_cpds(self, node=None):
        if node is None:
            return self.cpds
        if node not in self:
            raise ValueError("Node not present in the Directed Graph")
        for c in self.cpds:
            if c.variable == node:
                return c
        return None

    def get_cardinality(self, node=None):
        if node:
            return int(self.get_cpds(node).cardinality[0])
        return {c.variable: int(c.cardinality[0]) for c in self.cpds}

    def fit(self, data, estimator=None, state_names=None, complete_samples_only=True, **kw):
        from pgmpy.estimators import MaximumLikelihoodEstimator
        est = (estimator or MaximumLikelihoodEstimator)(self, data, state_names=state_names or {}, complete_samples_only=complete_samples_only)
        self.add_cpds(*est.get_parameters(**kw))

    def _joint(self):
        nodes = list(self.nodes)
        card = [int(self.get_cpds(n).cardinality[0]) for n in nodes]
        pos = {n: i for i, n in enumerate(nodes)}
        t = np.ones(card)
        for n in nodes:
            c = self.get_cpds(n)
            axes = [pos[v] for v in c.variables]
            order = np.argsort(axes)
            shape = [1] * len(nodes)
            for a in axes:
                shape[a] = card[a]
            t = t * np.transpose(c.values, order).reshape(shape)
        return nodes, t

    def _posterior(self, row, missing):
        nodes, t = self._joint()
        for ax, n in enumerate(nodes):
            if n in row:
                st = self.get_cpds(n).state_names[n]
                if row[n] not in st:
                    raise KeyError(row[n])
                m = np.zeros(t.shape[ax])
                m[st.index(row[n])] = 1.0
                t = t * m.reshape([-1 if a == ax else 1 for a in range(t.ndim)])
        keep = [n for n in nodes if n in missing]
        t = t.sum(axis=tuple(a for a, n in enumerate(nodes) if n not in missing))
        with np.errstate(invalid="ignore", divide="ignore"):
            return keep, t / t.sum()

    def _missing(self, data):
        if set(data.columns) == set(self.nodes):
            raise ValueError("No variable missing in data. Nothing to predict")
        if set(data.columns) - set(self.nodes):
            raise ValueError("Data has variables which are not in the model")
        return set(self.nodes) - set(data.columns)

    def predict(self, data, n_jobs=-1):
        import pandas as pd
        missing = self._missing(data)
        out = {n: [] for n in missing}
        for _, row in data.iterrows():
            keep, t = self._posterior(row.to_dict(), missing)
            ix = np.unravel_index(np.argmax(t), t.shape)
            for n, i in zip(keep, ix):
                out[n].append(self.get_cpds(n).state_names[n][i])
        return pd.DataFrame(out, index=data.index)

    def predict_probability(self, data):
        import pandas as pd
        missing = self._missing(data)
        out = {}
        for _, row in data.iterrows():
            keep, t = self._posterior(row.to_dict(), missing)
            for a, n in enumerate(keep):
                v = t.sum(axis=tuple(b for b in range(t.ndim) if b != a))
                for i, s in enumerate(self.get_cpds(n).state_names[n]):
                    out.setdefault("%s_%s" % (n, s), []).append(v[i])
        return pd.DataFrame(out, index=data.index)

    def check_model(self):
        for n in self.nodes:
            c = self.get_cpds(n)
            if c is None:
                raise ValueError("No CPD associated with %s" % n)
            if set(c.variables[1:]) != set(self.get_parents(n)):
                raise ValueError("CPD associated with %s doesn't have proper parents associated with it." % n)
            if not np.allclose(c.get_values().sum(axis=0), 1):
                raise ValueError("Sum or integral of conditional probabilities for node %s is not equal to 1." % n)
        return True


_PGMPY = """active_trail_nodes add_node check_model copy fit_update get_ancestral_graph get_factorized_product get_immoralities
get_independencies get_leaves get_markov_blanket get_roots get_random is_active_trail is_iequivalent is_imap local_independencies
moralize remove_cpds remove_node remove_nodes_from simulate to_joint_gaussian to_junction_tree to_markov_model""".split()
for _n in _PGMPY:
    if not hasattr(BayesianModel, _n):
        setattr(BayesianModel, _n, (lambda n: lambda self, *a, **k: gap("pgmpy: BayesianModel.%s" % n))(_n))
BayesianNetwork = BayesianModel
