"""C33 clusters and join trees are the ones that the documented rules choose: fewest fill-in edges, lightest cluster; largest mass, least cost."""
import itertools
import math

from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import need, oracle
from vf.props.common import LARGE, chain, huang, net_labels

from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.graph import Ug
from pybbn.graph.node import BbnNode
from pybbn.graph.variable import Variable
from pybbn.pptc.triangulator import Triangulator

EXAMPLES = (900, 10000)
RULE = ("a random network of 1-9 nodes (every tenth one with 10-30) and a random undirected graph of 2-14 variables with 1-40 values, compared with a "
        "reference elimination and a reference spanning forest; non-trivial: the elimination adds an edge or the graph has two separation sets of one mass but of different costs")
CORPUS = [{"net": huang(), "cards": [16, 16, 2, 2, 16, 16], "ids": [0, 1, 2, 3, 4, 5], "arcs": [[0, 1], [1, 2], [2, 3], [3, 4], [4, 5], [5, 0]]},
          {"net": chain(30, True), "cards": [2, 3, 4, 5], "ids": [10, 9, 1, 0], "arcs": [[0, 1], [1, 2], [2, 3], [3, 0]]}]
CORPUS += [dict(CORPUS[1], net=x) for x in LARGE]
CORPUS += [{"net": chain(3), "cards": [2 + i % c for i in range(n)], "ids": list(range(n)), "arcs": arcs} for n, c, arcs in [
    (10, 1, [[a, b] for a in range(5) for b in range(5, 10)]), (18, 2, [[a, b] for a in range(9) for b in range(9, 18)]),
    (40, 2, [[a, b] for a in range(40) for b in range(a)]), (32, 2, [[a, a ^ (1 << k)] for a in range(32) for k in range(5) if a < a ^ (1 << k)]),
    (49, 3, [[a, a + d] for a in range(49) for d in (1, 7) if a + d < 49 and (d == 7 or a % 7 < 6)])]]


@st.composite
def cases(draw, tier):
    kinds = ["loop", "dense", "random", "sink", "hub", "star", "loop"]
    net = draw(gen.mixed(gen.nets(max_nodes=9, max_joint=30000, max_parents=4, kinds=kinds, plain_cpt=True, large=True), 30 if tier == "quick" else 60, 10))
    n = draw(st.sampled_from([6, 5, 4, 3, 2, 8, 11, 14]))
    cards = draw(st.lists(st.sampled_from([2, 3, 1, 5, 8, 16, 40]), min_size=n, max_size=n))
    ids = draw(gen.idents(n))
    raw = draw(gen.blob(n * n))
    bar = draw(st.sampled_from([80, 120, 200, 150]))
    loop = draw(st.booleans())
    arcs = [[a, b] for a, b in itertools.combinations(range(n), 2) if raw[a * n + b] < bar or loop and b - a in (1, n - 1)]
    order = draw(st.permutations(range(len(arcs))))
    return {"net": net, "cards": cards, "ids": ids, "more": draw(st.lists(st.integers(0, 13), max_size=3)), "arcs": [arcs[k] for k in order]}


def first(adj, size):
    """Fewest missing edges between neighbours, then lightest cluster, then smallest id."""
    def key(v):
        missing = sum(1 for a, b in itertools.combinations(sorted(adj[v]), 2) if b not in adj[a])
        return missing, math.prod(size[u] for u in adj[v]) * size[v], v

    return min(adj, key=key)


def eliminate(adj, size):
    """Maximal clusters of the elimination, and whether an edge was added."""
    adj = {v: set(s) for v, s in adj.items()}
    out, filled = [], False
    while adj:
        v = first(adj, size)
        c = frozenset(adj[v] | {v})
        if not any(c <= d for d in out):
            out.append(c)
        for a, b in itertools.combinations(adj[v], 2):
            filled = filled or b not in adj[a]
            adj[a].add(b)
            adj[b].add(a)
        for u in adj.pop(v):
            adj[u].discard(v)
    return out, filled


def forest(sets, size):
    """Largest total mass of a spanning forest and, with it, the least total cost."""
    w = [math.prod(size[v] for v in s) for s in sets]
    pairs = sorted((-len(sets[a] & sets[b]), w[a] + w[b], a, b) for a, b in itertools.combinations(range(len(sets)), 2) if sets[a] & sets[b])
    root = list(range(len(sets)))

    def find(x):
        while root[x] != x:
            x = root[x]
        return x

    mass = cost = 0
    for m, c, a, b in pairs:
        a, b = find(a), find(b)
        if a != b:
            root[a] = b
            mass -= m
            cost += c
    return mass, cost, len({(m, c) for m, c, _, _ in pairs}) > len({m for m, _, _, _ in pairs})


def check(case):
    spec = case["net"]
    with oracle():
        size = {n["id"]: len(n["values"]) for n in spec["nodes"]}
        adj = {i: set() for i in size}
        for i, ps in model.parents_of(spec).items():
            for a, b in itertools.combinations(ps + [i], 2):
                adj[a].add(b)
                adj[b].add(a)
        want, filled = eliminate(adj, size)
        mass, cost, choice = forest(want, size)
    jt = obs.apply(spec)
    got = {frozenset(n.id for n in c.nodes) for c in jt.get_cliques()}
    need(got == set(want), f"clusters {sorted(map(sorted, got))} instead of {sorted(map(sorted, want))}")
    seps = jt.get_sep_sets()
    got = sum(len(s.nodes) for s in seps)
    need(got == mass, f"the separation sets have {got} variables in all; {mass} is possible")
    got = sum(math.prod(size[n.id] for n in s.left.nodes) + math.prod(size[n.id] for n in s.right.nodes) for s in seps)
    need(got == cost, f"the separation sets cost {got} in all; with {mass} variables in them {cost} is possible")

    # any undirected graph
    ids = case["ids"]
    nodes = [BbnNode(Variable(i, f"v{i}", [str(k) for k in range(c)]), []) for i, c in zip(ids, case["cards"])]
    g = Ug()
    for n in nodes:
        g.add_node(n)
    for a, b in case["arcs"]:
        g.add_edge(Edge(nodes[a], nodes[b], EdgeType.UNDIRECTED))
    with oracle():
        size = dict(zip(ids, case["cards"]))
        adj = {i: set() for i in ids}
        for a, b in case["arcs"]:
            adj[ids[a]].add(ids[b])
            adj[ids[b]].add(ids[a])
        v = first(adj, size)
        missing = {frozenset(p) for p in itertools.combinations(adj[v], 2) if p[1] not in adj[p[0]]}
        weight = math.prod(size[u] for u in adj[v] | {v})
        want, also = eliminate(adj, size)
    c = Triangulator.select_node(g)
    need(c.node.id == v, f"the first to be eliminated is {c.node.id} instead of {v}")
    need({n.id for n in c.get_bbn_nodes()} == adj[v] | {v} and c.weight == weight, f"the cluster of {v} is {[n.id for n in c.get_bbn_nodes()]} of weight {c.weight}")
    got = [frozenset((e.i.id, e.j.id)) for e in c.edges]
    need(len(got) == len(missing) and set(got) == missing, f"fill-in of {v} is {sorted(map(sorted, got))} instead of {sorted(map(sorted, missing))}")
    d = Triangulator.duplicate(g)
    got = [frozenset(n.id for n in k.nodes) for k in Triangulator.triangulate(d)]
    need(len(got) == len(set(got)) and set(got) == set(want), f"clusters {sorted(map(sorted, got))} instead of {sorted(map(sorted, want))} of the graph")
    for i in ids:
        need(set(g.get_neighbors(i)) == adj[i], f"triangulating a duplicate changes the neighbours of {i} in the original")
    # the same graph with more in it
    new = BbnNode(Variable(max(ids) + 1, "new", ["0", "1"]), [])
    g.add_node(new)
    size[new.id], adj[new.id] = 2, set()
    for a in case.get("more", [0]):
        g.add_edge(Edge(nodes[a % len(nodes)], new, EdgeType.UNDIRECTED))
        adj[nodes[a % len(nodes)].id].add(new.id)
        adj[new.id].add(nodes[a % len(nodes)].id)
    with oracle():
        want, _ = eliminate(adj, size)
    got = [frozenset(n.id for n in k.nodes) for k in Triangulator.triangulate(g)]
    need(len(got) == len(set(got)) and set(got) == set(want), f"clusters {sorted(map(sorted, got))} instead of {sorted(map(sorted, want))} of the graph after an addition")
    return {"nontrivial": filled or also or choice, "labels": net_labels(spec) + ["fill-in"] * filled + ["cost-matters"] * choice}
