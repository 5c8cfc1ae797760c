"""C29 moralisation is exact; triangulation gives a chordal supergraph and its maximal cliques."""
import itertools

import networkx as nx
from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import need, oracle
from vf.props.common import LARGE, chain, huang, net_labels, wide

from pybbn.graph.edge import Edge, EdgeType
from pybbn.pptc.moralizer import Moralizer
from pybbn.pptc.triangulator import Triangulator

EXAMPLES = (1200, 10000)
RULE = ("a random network of 1-9 nodes (every eighth one with 12-40, and every eighth a structure over 8-16 with up to 15 parents); non-trivial: triangulation has to add at least one edge")
CORPUS = [{"net": huang()}, {"net": chain(80, True)},
          {"net": {"nodes": [{"id": i, "name": f"n{i}", "values": ["a", "b"], "probs": []} for i in range(6)],
                   "edges": [[0, 1], [1, 2], [2, 3], [3, 4], [4, 5], [0, 5]]}}]
def bare(ids, edges):
    return {"nodes": [{"id": i, "name": f"n{i}", "values": ["a", "b"], "probs": []} for i in ids], "edges": edges}


def grid(n):
    return bare(range(n * n), [[i, i + d] for i in range(n * n) for d in ([1] if i % n < n - 1 else []) + ([n] if i < n * (n - 1) else [])])


CORPUS += [{"net": grid(14)}, {"net": bare(range(60), [[p, k] for k in range(1, 60) for p in {k * k * 7 % k, (k * 31 + 5) % k, (k * 17 + 3) % k}])}]
CORPUS += [{"net": x} for x in LARGE] + [{"net": wide(14, 1, 1)}]


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 7)) == 0:
        return {"net": draw(gen.big_nets(12, 40 if tier == "quick" else 80))}
    if draw(st.integers(0, 7)) == 0:  # no more than a structure: any number of parents
        n = draw(st.sampled_from([8, 9, 10, 11, 12, 13, 14, 15, 16, 16, 30]))
        ids = draw(gen.idents(n))
        pas = draw(gen.shape(n, draw(st.sampled_from([2, 3, n])), ["random", "dense", "sink", "complete", "loop", "fan", "star"]))
        return {"net": {"nodes": [{"id": i, "name": f"n{i}", "values": ["a", "b"], "probs": []} for i in ids],
                        "edges": list(draw(st.permutations([[ids[q], ids[j]] for j in range(n) for q in pas[j]])))}}
    kinds = ["loop", "dense", "dense", "loop", "random", "tree", "sink", "forest"]
    return {"net": draw(gen.nets(max_nodes=9, max_joint=20000, max_parents=6, kinds=kinds, plain_cpt=True, large=True))}


def check(case):
    spec = case["net"]
    bbn = obs.build(spec)
    with oracle():
        pa = model.parents_of(spec)
        ids = set(pa)
        moral = {frozenset(e) for e in spec["edges"]}
        for ps in pa.values():
            moral |= {frozenset(c) for c in itertools.combinations(ps, 2)}
    ug = Moralizer.moralize(bbn)
    need({n.id for n in ug.get_nodes()} == ids and all(ug.get_node(i) is bbn.get_node(i) for i in ids), "moral graph: nodes differ")
    got = [frozenset((e.i.id, e.j.id)) for e in ug.get_edges()]
    need(len(got) == len(set(got)) and set(got) == moral, f"moral graph: edges {sorted(map(sorted, got))} instead of {sorted(map(sorted, moral))}")
    need(all(e.type == EdgeType.UNDIRECTED for e in ug.get_edges()), "moral graph: a directed edge")
    for i in ids:
        nb = {j for e in moral if i in e for j in e} - {i}
        need(set(ug.get_neighbors(i)) == nb, f"moral graph: neighbours of {i} are {ug.get_neighbors(i)} instead of {nb}")
    obs.same_spec(obs.bbn_spec(bbn), spec, "network after moralisation")

    cliques = Triangulator.triangulate(ug)
    filled = {frozenset((e.i.id, e.j.id)) for e in ug.get_edges()}
    with oracle():
        g = nx.Graph()
        g.add_nodes_from(ids)
        g.add_edges_from(map(tuple, filled))
        m = nx.Graph()
        m.add_nodes_from(ids)
        m.add_edges_from(map(tuple, moral))
        chordal = nx.is_chordal(g) if len(g) > 3 else True
        maximal = {frozenset(c) for c in nx.find_cliques(g)}
        was_chordal = nx.is_chordal(m) if len(m) > 3 else True
    need(moral <= filled, "triangulation lost an edge of the moral graph")
    need({n.id for n in ug.get_nodes()} == ids, "triangulation lost a node")
    need(chordal, f"not chordal after triangulation: {sorted(map(sorted, filled))}")
    need(not was_chordal or filled == moral, f"edges {sorted(map(sorted, filled - moral))} added to a graph that was chordal")
    got = [frozenset(n.id for n in c.nodes) for c in cliques]
    need(len(got) == len(set(got)) and set(got) == maximal,
         f"cliques {sorted(map(sorted, got))} instead of the maximal cliques {sorted(map(sorted, maximal))}")
    obs.same_spec(obs.bbn_spec(bbn), spec, "network after triangulation")
    if len(ids) <= 12:
        again(ug, bbn)
        obs.same_spec(obs.bbn_spec(bbn), spec, "network after more triangulations")
    return {"nontrivial": filled != moral, "labels": net_labels(spec)}


def again(ug, bbn):
    """The same graph, triangulated once more as it is, with another edge, and with a node less."""
    def run(what):
        ids = [n.id for n in ug.get_nodes()]
        with oracle():
            g = nx.Graph()
            g.add_nodes_from(ids)
            g.add_edges_from((e.i.id, e.j.id) for e in ug.get_edges())
            before = {frozenset(e) for e in g.edges}
            was_chordal = nx.is_chordal(g) if len(g) > 3 else True
        got = [frozenset(n.id for n in c.nodes) for c in Triangulator.triangulate(ug)]
        after = {frozenset((e.i.id, e.j.id)) for e in ug.get_edges()}
        with oracle():
            g.add_edges_from(map(tuple, after))
            chordal = nx.is_chordal(g) if len(g) > 3 else True
            maximal = {frozenset(c) for c in nx.find_cliques(g)} if ids else set()
        need([n.id for n in ug.get_nodes()] == ids, f"{what}: the graph has other nodes")
        need(before <= after and chordal and (after == before or not was_chordal), f"{what}: edges {sorted(map(sorted, after))} from {sorted(map(sorted, before))}")
        need(len(got) == len(set(got)) and set(got) == maximal, f"{what}: cliques {sorted(map(sorted, got))} instead of {sorted(map(sorted, maximal))}")

    run("triangulated again")
    ids = [n.id for n in ug.get_nodes()]
    apart = [(i, j) for k, i in enumerate(ids) for j in ids[k + 1:] if j not in ug.get_neighbors(i)]
    if apart:
        i, j = apart[len(apart) // 2]
        ug.add_edge(Edge(bbn.get_node(i), bbn.get_node(j), EdgeType.UNDIRECTED))
        run("triangulated with one edge more")
    if len(ids) > 1:
        ug.remove_node(ids[len(ids) // 2])
        run("triangulated with a node less")
