"""C12 Graph / Ug keep nodes, edges and adjacency consistent under any history of changes."""
from hypothesis import strategies as st

from vf import gen
from vf.core import need

from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.graph import Graph, Ug
from pybbn.graph.node import Node

EXAMPLES = (2400, 20000)
RULE = ("a random history of up to 30 add_node / add_edge / remove_node calls on up to 9 ids, compared with a set model after every call; "
        "non-trivial: an edge was refused as a duplicate or a node with edges was removed")
CORPUS = [{"kind": "ug", "ops": [["edge", 0, 1, "u"], ["edge", 1, 0, "u"], ["edge", 1, 2, "u"], ["del", 1], ["node", 1],
                                 ["edge", 1, 0, "u"], ["edge", 2, 2, "u"]]},
          {"kind": "ug", "ops": [["edge", 0, k, "u"] for k in range(1, 41)] + [["del", 7], ["del", 0], ["edge", 3, 4, "u"]]},
          {"kind": "ug", "quiet": list(range(699)), "ops": [["edge", k * 37 % 300, k * k % 300, "u"] for k in range(500)] + [["edge", 1, k, "u"] for k in range(2, 180)]
           + [["del", k] for k in range(0, 300, 50)] + [["node", k] for k in range(300, 316)]},
          {"kind": "graph", "ops": [["edge", k % 9, k * 5 % 11 + 20, "ud"[k % 2]] for k in range(60)] + [["del", 3], ["del", 25]]}]


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["ug", "graph", "graph"]))
    ids = draw(st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 100, 300, 1000, 10 ** 6]), min_size=2, max_size=9, unique=True))
    n = len(ids)
    m = draw(st.integers(1, 30 if tier == "quick" else 60))
    raw = draw(gen.blob(4 * m))
    ops = []
    for x in range(m):
        k, a, b, u = raw[4 * x] % 10, ids[raw[4 * x + 1] % n], ids[raw[4 * x + 2] % n], raw[4 * x + 3] % 2
        if k == 0:
            ops.append(["node", a])
        elif k == 1:
            ops.append(["del", a])
        else:
            ops.append(["edge", a, b, "u" if kind == "ug" or u else "d"])
    rate = draw(st.sampled_from([0, 0, 64, 160, 250]))  # how often nothing is asked after a call
    quiet = [x for x in range(m) if raw[4 * x + 3] * 7 % 256 < rate]
    case = {"kind": kind, "ops": ops, "quiet": quiet}
    if draw(st.integers(0, 3)) == 0:
        case["kept"] = True  # a node or edge given again is the same object
    return case


class Kept(dict):
    """Edges between nodes, each made once."""

    def edge(self, i, j, t, keep):
        key = (id(i), id(j), t)
        if keep is None or keep is False or key not in self:
            self[key] = Edge(i, j, t)
        return self[key]


class Model:
    def __init__(self):
        self.nodes = {}
        self.edges = {}  # key -> (i, j, type)

    def arcs(self):
        a = set()
        for i, j, t in self.edges.values():
            a.add((i, j))
            if t == "u":
                a.add((j, i))
        return a

    def add_edge(self, i, j, t):
        if i == j:
            return False
        a = self.arcs()
        if (i, j) in a and (t == "d" or (j, i) in a):
            return False
        key = (i, j, "d") if t == "d" else (min(i, j), max(i, j), "u")
        self.edges[key] = (i, j, t)
        return True


def check(case):
    g = Ug() if case["kind"] == "ug" else Graph()
    m = Model()
    interesting = False
    tag = {"u": EdgeType.UNDIRECTED, "d": EdgeType.DIRECTED}
    quiet = set(case.get("quiet", []))
    kept, pool = Kept(), {} if case.get("kept") else None

    def make(i):
        return Node(i) if pool is None else pool.setdefault(i, Node(i))

    ids = sorted({x for op in case["ops"] for x in op[1:] if isinstance(x, int)})
    for step, op in enumerate(case["ops"]):
        what = f"after operation {step} {op}"
        if op[0] == "node":
            node = make(op[1])
            need(g.add_node(node) is g, f"{what}: add_node does not return the graph")
            m.nodes.setdefault(op[1], node)
        elif op[0] == "edge":
            i, j = make(op[1]), make(op[2])
            if op[1] == op[2] and step % 2:
                j = i
            need(g.add_edge(kept.edge(i, j, tag[op[3]], pool)) is g, f"{what}: add_edge does not return the graph")
            m.nodes.setdefault(op[1], i)
            m.nodes.setdefault(op[2], j)
            interesting = not m.add_edge(op[1], op[2], op[3]) or interesting
        else:
            interesting = interesting or any(op[1] in (i, j) for i, j, _ in m.edges.values())
            g.remove_node(op[1])
            m.nodes.pop(op[1], None)
            m.edges = {k: e for k, e in m.edges.items() if op[1] not in e[:2]}
        if step not in quiet or step == len(case["ops"]) - 1:
            compare(g, m, ids, what)
    return {"nontrivial": interesting, "labels": [case["kind"], f"ops<={(len(case['ops']) + 9) // 10 * 10}"]}


def compare(g, m, ids, what, identity=True):
    nodes = list(g.get_nodes())
    need(sorted(n.id for n in nodes) == sorted(m.nodes), f"{what}: nodes {[n.id for n in nodes]} instead of {sorted(m.nodes)}")
    for i, n in m.nodes.items() if identity else ():
        need(g.get_node(i) is n, f"{what}: node {i} is not the first one added")
    got = sorted((e.i.id, e.j.id, "u") if e.type == EdgeType.UNDIRECTED else (e.i.id, e.j.id, "d") for e in g.get_edges())
    want = sorted(m.edges.values())
    need(norm(got) == norm(want), f"{what}: edges {got} instead of {want}")
    adj = {i: set() for i in ids}
    for i, j, _ in m.edges.values():
        adj[i].add(j)
        adj[j].add(i)
    for i in ids:
        need(set(g.get_neighbors(i)) == adj[i], f"{what}: neighbours of {i} are {g.get_neighbors(i)} instead of {adj[i]}")
        for j in ids:
            need(g.edge_exists(i, j) is (j in adj[i]), f"{what}: edge_exists({i}, {j}) is {g.edge_exists(i, j)}")


def norm(es):
    return sorted((min(i, j), max(i, j), t) if t == "u" else (i, j, t) for i, j, t in es)
