"""C13 Dag / Bbn stay acyclic and consistent under any history of changes."""
import networkx as nx
from hypothesis import strategies as st

from vf import gen
from vf.core import need, oracle
from vf.props.c12 import Kept

from pybbn.graph.dag import Bbn, Dag, PathDetector
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.node import BbnNode
from pybbn.graph.variable import Variable

EXAMPLES = (1920, 30000)
RULE = ("a random history of up to 30 (45) add_node / add_edge / remove_node calls on up to 12 nodes, compared with an arc-set model after every (at times every other) "
        "call; non-trivial: an edge was refused because it would close a directed cycle")
CORPUS = [
    {"kind": k, "ids": [0, 1, 2, 3], "ops": [["edge", 0, 1, "d"], ["edge", 1, 2, "d"], ["edge", 2, 0, "d"], ["edge", 2, 3, "d"],
                                             ["edge", 3, 0, "d"], ["del", 1], ["edge", 2, 0, "d"], ["edge", 3, 0, "d"]]}
    for k in ("dag", "bbn")
] + [{"kind": k, "chain": 1500} for k in ("dag", "bbn")]
CORPUS += [{"kind": k, "ids": list(range(46)), "quiet": list(range(len(e))), "ops": e + [["edge", 22, 45, "d"], ["edge", 1, 0, "d"], ["edge", 22, 0, "d"]]}
           for k in ("dag", "bbn") for e in ([["edge", (7 * i + 3) % 45, 45, "d"] for i in range(45)], [["edge", 0, (7 * i + 3) % 45 + 1, "d"] for i in range(45)])]
CORPUS += [{"kind": "bbn", "ids": [0, 1, 2], "kept": True, "ops": [["edge", 0, 1, "d"], ["edge", 1, 2, "d"], ["edge", 2, 0, "d"], ["del", 1], ["edge", 2, 0, "d"],
                                                                  ["edge", 0, 1, "d"], ["edge", 1, 2, "d"]]}]


@st.composite
def histories(draw, undirected_share, max_ops):
    """Calls that mostly grow a DAG along a hidden order and then try to close cycles."""
    n = draw(st.sampled_from([5, 6, 4, 7, 3, 2, 9, 12]))
    ids = list(draw(st.permutations([0, 1, 2, 3, 4, 5, 6, 10, 300, 1000, 1001, 10 ** 6])))[:n]
    hub = draw(st.integers(-2, n // 2))  # a node with many children, if not negative
    if n > 7:
        max_ops = max_ops * 3 // 2
    ops, quiet = [], []
    m = draw(st.integers(1, max_ops) if draw(st.integers(0, 3)) == 3 else st.integers(max_ops // 2, max_ops))
    raw = draw(gen.blob(4 * m))
    for x in range(m):
        k, a, b, u = raw[4 * x] % 16, raw[4 * x + 1] % n, raw[4 * x + 2] % n, raw[4 * x + 3] % 16
        if a == b and u != 7:
            b = (a + 1 + k) % n
        if k >= 12 and hub >= 0 and b > hub:
            a = hub
        lo, hi = min(a, b), max(a, b)
        t = "u" if u < undirected_share else "d"
        if k == 0:
            ops.append(["node", ids[a]])
        elif k == 1 and u < 9:
            ops.append(["del", ids[a]])
            if u < 3 and a != b:  # another node takes its place before anything is asked
                quiet.append(len(ops) - 1)
                ops.append(["node", ids[b]])
        elif k <= 4 or lo == hi:  # against the order
            ops.append(["edge", ids[hi], ids[lo], t])
        elif k <= 7:  # a step along the order: these make the long paths
            a = min(a, n - 2)
            ops.append(["edge", ids[a], ids[a + 1], t])
        else:
            ops.append(["edge", ids[lo], ids[hi], t])
    rate = draw(st.sampled_from([0, 0, 64, 160, 250]))  # how often nothing is asked after a call
    quiet += [x for x in range(m) if raw[4 * x + 3] * 7 % 256 < rate]
    case = {"ids": ids, "ops": ops, "quiet": sorted(set(quiet))}
    if draw(st.integers(0, 3)) == 0:
        case["kept"] = True  # an edge given again is the same object
    return case


@st.composite
def cases(draw, tier):
    case = draw(histories(1, 30 if tier == "quick" else 60))
    case["kind"] = draw(st.sampled_from(["dag", "bbn"]))
    return case


def new(kind):
    return Bbn() if kind == "bbn" else Dag()


def node(i, name=None):
    return BbnNode(Variable(i, name or f"v{i}", ["on", "off"]), [.5, .5])


def long_chain(case):
    g = new(case["kind"])
    k = case["chain"]
    nodes = [node(i) for i in range(k)]
    for a, b in zip(nodes[:-1], nodes[1:]):
        g.add_edge(Edge(a, b, EdgeType.DIRECTED))
    g.add_edge(Edge(nodes[-1], nodes[0], EdgeType.DIRECTED))
    need(len(g.get_edges()) == k - 1, f"a chain of {k} nodes has {len(g.get_edges())} edges after trying to close it")
    need(nx.is_directed_acyclic_graph(g.to_nx_graph()[0]), "the long chain was closed into a cycle")
    g.add_edge(Edge(nodes[0], nodes[-1], EdgeType.DIRECTED))
    need(len(g.get_edges()) == k, "the long chain's shortcut was refused")
    return {"nontrivial": True, "labels": ["long-chain"]}


def check(case):
    if "chain" in case:
        return long_chain(case)
    g = new(case["kind"])
    pool = {i: node(i) for i in case["ids"]}
    quiet = set(case.get("quiet", []))
    kept = Kept()
    present = []
    arcs = []  # in insertion order
    cyc = False
    labels = [case["kind"]]
    for step, op in enumerate(case["ops"]):
        what = f"after operation {step} {op}"
        if op[0] == "node":
            need(g.add_node(pool[op[1]]) is g, f"{what}: add_node does not return the graph")
            if op[1] not in present:
                present.append(op[1])
        elif op[0] == "edge":
            i, j = op[1], op[2]
            t = EdgeType.DIRECTED if op[3] == "d" else EdgeType.UNDIRECTED
            need(g.add_edge(kept.edge(pool[i], pool[j], t, case.get("kept", False))) is g, f"{what}: add_edge does not return the graph")
            present += [x for x in dict.fromkeys((i, j)) if x not in present]
            with oracle():
                back = reach(arcs, j, i)
            if op[3] == "d" and i != j and (i, j) not in arcs and (j, i) not in arcs:
                if back:
                    cyc = True
                else:
                    arcs.append((i, j))
        else:
            g.remove_node(op[1])
            if op[1] in present:
                present.remove(op[1])
                if quiet:  # should it be added again, it is another node
                    pool[op[1]] = node(op[1], f"v{op[1]} of {step}")
            if any(op[1] in a for a in arcs):
                labels.append("removed-a-connected-node")
            arcs = [a for a in arcs if op[1] not in a]
        if step not in quiet or step == len(case["ops"]) - 1:
            compare(g, present, arcs, case["ids"], what, {i: n.variable.name for i, n in pool.items()})
    for a in case["ids"]:
        for b in case["ids"]:
            with oracle():
                want = a == b or reach(arcs, a, b)
            need(PathDetector(g, a, b).exists() is want, f"PathDetector({a}, {b}) does not answer {want} on {arcs}")
    return {"nontrivial": cyc, "labels": sorted(set(labels))}


def reach(arcs, a, b):
    seen, stack = {a}, [a]
    while stack:
        x = stack.pop()
        for p, c in arcs:
            if p == x and c not in seen:
                seen.add(c)
                stack.append(c)
    return b in seen


def compare(g, present, arcs, ids, what, names=None):
    names = names or {i: f"v{i}" for i in ids}
    need(sorted(n.id for n in g.get_nodes()) == sorted(present), f"{what}: nodes {[n.id for n in g.get_nodes()]}")
    got = [(e.i.id, e.j.id) for e in g.get_edges()]
    need(sorted(got) == sorted(arcs), f"{what}: edges {got} instead of {arcs}")
    need(g.get_i2n() == {i: names[i] for i in present}, f"{what}: get_i2n() is {g.get_i2n()}")
    need(g.get_n2i() == {names[i]: i for i in present}, f"{what}: get_n2i() is {g.get_n2i()}")
    d, labels = g.to_nx_graph()
    need(nx.is_directed_acyclic_graph(d), f"{what}: not acyclic: {sorted(d.edges)}")
    need(sorted(d.nodes) == sorted(present) and sorted(d.edges) == sorted(arcs), f"{what}: to_nx_graph() is {d.nodes}, {d.edges}")
    need(labels == {i: names[i] for i in present}, f"{what}: to_nx_graph() labels {labels}")
    for i in ids:
        pa = [p for p, c in arcs if c == i]
        ch = [c for p, c in arcs if p == i]
        need(sorted(g.get_parents(i)) == sorted(pa), f"{what}: get_parents({i}) is {g.get_parents(i)} instead of {pa}")
        need(sorted(g.get_children(i)) == sorted(ch), f"{what}: get_children({i}) is {g.get_children(i)} instead of {ch}")
        need(set(g.get_neighbors(i)) == set(pa + ch), f"{what}: get_neighbors({i}) is {g.get_neighbors(i)}")
        for emptied in (g.get_i2n, g.get_n2i, g.get_edges):
            emptied().clear()
        for emptied in (g.get_parents, g.get_children):
            emptied(i).clear()
        if isinstance(g, Bbn):
            g.get_parents_ordered(i).clear()
            need(g.get_parents_ordered(i) == sorted(pa), f"{what}: get_parents_ordered({i}) is {g.get_parents_ordered(i)}")
            need(list(g.parents.get(i, [])) == pa, f"{what}: parents of {i} are {g.parents.get(i)} instead of {pa} (insertion order)")
        for j in ids:
            need(g.edge_exists(i, j) is ((i, j) in arcs), f"{what}: edge_exists({i}, {j}) is {g.edge_exists(i, j)}")
