"""Stand-in for pygraphviz: records nodes, edges and attributes as strings."""
from _gap import forbid_missing, module_getattr

__getattr__ = module_getattr("pygraphviz")


class Attr(dict):
    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v if isinstance(v, str) else str(v))

    def update(self, *a, **k):
        for kk, v in dict(*a, **k).items():
            self[kk] = v

    def __getitem__(self, k):
        return self.get(k)


class Node(str):
    def __new__(cls, name, attr):
        s = str.__new__(cls, name)
        s.attr = attr
        return s


class Edge(tuple):
    def __new__(cls, u, v, attr):
        s = tuple.__new__(cls, (u, v))
        s.attr = attr
        return s


class AGraph:
    def __init__(self, thing=None, name="", strict=True, directed=False, **attr):
        self.name, self.strict, self.directed = name, strict, directed
        self.graph_attr, self.node_attr, self.edge_attr = Attr(), Attr(), Attr()
        self._n, self._e = {}, {}
        self.layouts = []

    def add_node(self, n, **attr):
        n = str(n)
        self._n.setdefault(n, Attr()).update(attr)

    def add_edge(self, u, v=None, key=None, **attr):
        if v is None:
            u, v = u
        u, v = str(u), str(v)
        self.add_node(u)
        self.add_node(v)
        self._e.setdefault((u, v), Attr()).update(attr)

    def get_node(self, n):
        if str(n) not in self._n:
            raise KeyError(n)
        return Node(str(n), self._n[str(n)])

    def get_edge(self, u, v, key=None):
        if (str(u), str(v)) not in self._e:
            raise KeyError((u, v))
        return Edge(str(u), str(v), self._e[(str(u), str(v))])

    def nodes(self):
        return [self.get_node(n) for n in self._n]

    def edges(self, keys=False):
        return [self.get_edge(*e) for e in self._e]

    def has_node(self, n):
        return str(n) in self._n

    def has_edge(self, u, v=None):
        return (str(u), str(v)) in self._e

    def layout(self, prog="neato", args=""):
        self.layouts.append(prog)

    def draw(self, path=None, format=None, prog=None, args=""):
        return b""

    __getattr__ = forbid_missing("pygraphviz")
