"""C14 a partially directed graph never gets a directed cycle nor two edges on one pair."""
import networkx as nx

from vf.core import need, oracle
from vf.props.c12 import Kept
from vf.props.c13 import histories, reach

from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.node import Node
from pybbn.graph.pdag import Pdag

EXAMPLES = (1920, 30000)
RULE = ("a random history of up to 30 (45) calls adding nodes, directed and undirected edges and removing nodes on up to 12 ids, compared with a "
        "model after every call; non-trivial: a directed edge was refused because it would close a directed cycle")
ASSUMPTIONS = ["whether an undirected edge joining two nodes that a directed path already connects is accepted is left open"]
CORPUS = [
    {"ids": [0, 1, 2, 3], "ops": [["edge", 0, 1, "d"], ["edge", 1, 2, "u"], ["edge", 2, 0, "d"], ["edge", 1, 3, "d"], ["edge", 3, 0, "d"],
                                  ["edge", 1, 0, "u"], ["del", 1], ["edge", 3, 0, "d"]]},
    {"chain": 1500},
    {"ids": list(range(46)), "quiet": list(range(45)), "ops": [["edge", (7 * i + 3) % 45, 45, "d"] for i in range(45)] + [["edge", 45, 3, "d"], ["edge", 45, 44, "u"]]},
    {"ids": list(range(46)), "quiet": list(range(45)), "ops": [["edge", 0, (7 * i + 3) % 45 + 1, "d"] for i in range(45)] + [["edge", 31, 0, "d"], ["edge", 32, 0, "u"]]},
    {"ids": [0, 1, 2], "kept": True, "ops": [["edge", 0, 1, "d"], ["edge", 1, 2, "d"], ["edge", 2, 0, "d"], ["del", 1], ["edge", 2, 0, "d"], ["edge", 0, 1, "d"]]},
]


def cases(tier):
    return histories(3, 30 if tier == "quick" else 60)


def long_chain(k):
    g = Pdag()
    nodes = [Node(i) for i in range(k)]
    for a, b in zip(nodes[:-1], nodes[1:]):
        g.add_edge(Edge(a, b, EdgeType.DIRECTED))
    g.add_edge(Edge(nodes[-1], nodes[0], EdgeType.DIRECTED))
    need(len(g.get_edges()) == k - 1, f"a chain of {k} nodes has {len(g.get_edges())} edges after trying to close it")
    return {"nontrivial": True, "labels": ["long-chain"]}


def check(case):
    if "chain" in case:
        return long_chain(case["chain"])
    g = Pdag()
    pool = {i: Node(i) for i in case["ids"]}
    quiet = set(case.get("quiet", []))
    kept = Kept()
    present = set()
    arcs, und = [], set()
    cyc = False
    labels = set()
    for step, op in enumerate(case["ops"]):
        what = f"after operation {step} {op}"
        if op[0] == "node":
            g.add_node(pool[op[1]])
            present.add(op[1])
        elif op[0] == "edge":
            i, j = op[1], op[2]
            directed = op[3] == "d"
            g.add_edge(kept.edge(pool[i], pool[j], EdgeType.DIRECTED if directed else EdgeType.UNDIRECTED, case.get("kept", False)))
            present |= {i, j}
            with oracle():
                taken = i == j or (i, j) in arcs or (j, i) in arcs or frozenset((i, j)) in und
                back, fwd = reach(arcs, j, i), reach(arcs, i, j)
            if directed and not taken:
                if back:
                    cyc = True
                else:
                    arcs.append((i, j))
            elif not taken:
                stored = any(e.type == EdgeType.UNDIRECTED and {e.i.id, e.j.id} == {i, j} for e in g.get_edges())
                if stored or not (back or fwd):
                    und.add(frozenset((i, j)))
                if back or fwd:
                    labels.add("undirected-along-a-directed-path")
        else:
            g.remove_node(op[1])
            present.discard(op[1])
            if not case.get("kept"):
                pool[op[1]] = Node(op[1])
            arcs = [a for a in arcs if op[1] not in a]
            und = {u for u in und if op[1] not in u}
        if step not in quiet or step == len(case["ops"]) - 1:
            compare(g, present, arcs, und, case["ids"], what)
    if arcs and und:
        labels.add("mixed")
    return {"nontrivial": cyc, "labels": sorted(labels)}


def compare(g, present, arcs, und, ids, what):
    need(sorted(n.id for n in g.get_nodes()) == sorted(present), f"{what}: nodes {[n.id for n in g.get_nodes()]}")
    gd = [(e.i.id, e.j.id) for e in g.get_edges() if e.type == EdgeType.DIRECTED]
    gu = [frozenset((e.i.id, e.j.id)) for e in g.get_edges() if e.type != EdgeType.DIRECTED]
    need(sorted(gd) == sorted(arcs), f"{what}: directed edges {sorted(gd)} instead of {sorted(arcs)}")
    need(len(gu) == len(und) and set(gu) == und, f"{what}: undirected edges {gu} instead of {und}")
    need(nx.is_directed_acyclic_graph(nx.DiGraph(gd)), f"{what}: directed cycle in {gd}")
    for i in ids:
        pa = {p for p, c in arcs if c == i}
        ch = {c for p, c in arcs if p == i}
        un = {j for j in ids if frozenset((i, j)) in und}
        need(set(g.get_neighbors(i)) == pa | ch | un, f"{what}: get_neighbors({i}) is {g.get_neighbors(i)}")
        gp, go = set(g.get_parents(i)), set(g.get_out_nodes(i))
        need(pa <= gp and ch <= go, f"{what}: get_parents({i}) is {gp}, get_out_nodes({i}) is {go}")
        need(not gp & go and gp | go == pa | ch | un, f"{what}: get_parents({i}) is {gp}, get_out_nodes({i}) is {go}")
        for j in ids:
            d = (i, j) in arcs
            e = d or (j, i) in arcs or frozenset((i, j)) in und
            need(g.directed_edge_exists(i, j) is d, f"{what}: directed_edge_exists({i}, {j}) is {g.directed_edge_exists(i, j)}")
            need(g.edge_exists(i, j) is e, f"{what}: edge_exists({i}, {j}) is {g.edge_exists(i, j)}")
