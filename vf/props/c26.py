"""C26 path activity agrees with d-separation, and path descriptions with the graph."""
import itertools

import networkx as nx
from hypothesis import strategies as st

from vf import gen
from vf.core import need, oracle

from pybbn.causality.do import get_all_paths, get_colliders, get_graph, get_paths, is_active_path

EXAMPLES = (780, 6000)
RULE = ("a random DAG of 2-7 nodes; all pairs of nodes with random evidence sets; every simple path is judged and compared with an independent "
        "d-separation test; non-trivial: evidence opens a path that is closed without it")
CORPUS = [
    {"nodes": ["x", "y", "c", "d"], "edges": [["x", "c"], ["y", "c"], ["c", "d"]], "ev": [[], ["c"], ["d"]]},
    {"nodes": ["x", "y", "a", "b", "m"], "edges": [["a", "x"], ["a", "m"], ["b", "m"], ["b", "y"], ["x", "y"]], "ev": [[], ["m"], ["m", "a"]]},
    {"nodes": list(range(28)), "edges": [[k, k + 1] for k in range(24)] + [[25, 24], [25, 26], [27, 26]], "ev": [[], [24], [22, 24], [26], [24, 26], [24, 26, 25]]},
]


@st.composite
def dags(draw, min_nodes=2, max_nodes=7):
    n = draw(st.sampled_from([k for k in (4, 5, 3, 6, 2, 7) if min_nodes <= k <= max_nodes]))
    sparse = draw(st.integers(0, 7)) == 0
    if sparse:
        n += 4
    names = list(draw(st.permutations([f"n{i}" for i in range(n)]))) if draw(st.booleans()) else list(draw(st.permutations(range(n))))
    pas = draw(gen.shape(n, 5, ["chain", "tree", "hub", "forest", "loop"] if sparse else ["random", "dense", "dense", "random", "loop", "sink", "star", "hub"]))
    edges = [[names[q], names[j]] for j in range(n) for q in pas[j]]
    return {"nodes": sorted(names), "edges": list(draw(st.permutations(edges)))}


@st.composite
def tailed(draw):
    """A path whose colliders have descendants at some distance; evidence far below opens it."""
    n = draw(st.integers(3, 5))
    size = draw(st.sampled_from([9, 9, 9, 20]))
    edges = []
    tails = []
    for i in range(n - 1):
        edges.append([i, i + 1] if draw(st.booleans()) else [i + 1, i])
    mids = [i for i in range(1, n - 1) if [i - 1, i] in edges and [i + 1, i] in edges] or [draw(st.integers(1, n - 2))]
    k = n
    for m in mids:
        last = m
        for _ in range(draw(st.integers(0, size - k)) if k < size else 0):
            edges.append([last, k])
            last = k
            k += 1
        tails.append(last)
    if draw(st.booleans()):
        a, b = draw(st.integers(0, k - 2)), draw(st.integers(0, k - 2))
        if abs(a - b) > 1 and [min(a, b), max(a, b)] not in edges:
            d = nx.DiGraph(edges)
            edges.append([a, b] if not (b in d and a in d and nx.has_path(d, b, a)) else [b, a])
    names = list(draw(st.permutations(range(k))))
    return {"nodes": list(range(k)), "edges": [[names[a], names[b]] for a, b in draw(st.permutations(edges))],
            "ev": [[], [names[t] for t in tails], draw(st.lists(st.integers(0, k - 1), max_size=3, unique=True))]}


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 3)) == 0:
        return draw(tailed())
    case = draw(dags(max_nodes=6 if tier == "quick" else 7))
    if draw(st.integers(0, 2)) == 0:  # the same digraph again, with other edges
        order = list(nx.topological_sort(graph_of(case)))
        n = len(order)
        pairs = [[order[a], order[b]] for a in range(n) for b in range(a + 1, n)]
        case["then"] = draw(st.lists(st.sampled_from(pairs), min_size=1, max_size=3, unique_by=tuple))
    case["ev"] = [[]] + draw(st.lists(st.lists(st.sampled_from(case["nodes"]), max_size=3, unique=True), min_size=1, max_size=3))
    return case


def graph_of(case):
    d = nx.DiGraph()
    d.add_nodes_from(case["nodes"])
    d.add_edges_from(map(tuple, case["edges"]))
    return d


def simple_paths(d, x, y):
    out = []

    def walk(path):
        for n in sorted(set(d.successors(path[-1])) | set(d.predecessors(path[-1]))):
            if n == y:
                out.append(path + [n])
            elif n not in path:
                walk(path + [n])

    walk([x])
    return out


def colliders(d, path):
    return [b for a, b, c in zip(path, path[1:], path[2:]) if d.has_edge(a, b) and d.has_edge(c, b)]


def active(d, path, ev):
    col = set(colliders(d, path))
    for b in path[1:-1]:
        if b in col:
            if not ({b} | nx.descendants(d, b)) & ev:
                return False
        elif b in ev:
            return False
    return True


def separated(d, x, y, ev):
    """Independent of paths: the moral graph of the ancestors."""
    keep = {x, y} | ev
    for n in list(keep):
        keep |= nx.ancestors(d, n)
    u = nx.Graph()
    u.add_nodes_from(keep)
    for n in keep:
        pa = list(d.predecessors(n))
        u.add_edges_from((p, n) for p in pa)
        u.add_edges_from(itertools.combinations(pa, 2))
    u.remove_nodes_from(ev)
    return not nx.has_path(u, x, y)


def check(case):
    with oracle():
        d = graph_of(case)
    opened = judge(case, d)
    if case.get("then"):
        with oracle():
            for a, b in case["then"]:
                if d.has_edge(a, b):
                    d.remove_edge(a, b)
                else:
                    d.add_edge(a, b)
        opened = judge(case, d) or opened
    return {"nontrivial": opened, "labels": ["str" if isinstance(case["nodes"][0], str) else "int", f"n={len(case['nodes'])}"]}


def judge(case, d):
    with oracle():
        before = (list(d.nodes), list(d.edges))
    g = get_graph(d)
    need(set(g.u.nodes) == set(d.nodes) and {frozenset(e) for e in g.u.edges} == {frozenset(e) for e in d.edges}, "skeleton differs")
    opened = False
    for x, y in itertools.permutations(case["nodes"], 2):
        with oracle():
            want = simple_paths(d, x, y)
        got = [list(p) for p in get_all_paths(g, x, y)]
        need(sorted(map(str, got)) == sorted(map(str, want)), f"paths from {x} to {y}: {got} instead of {want}")
        meta = get_paths(g, x, y)
        need(sorted(str(list(p["path"])) for p in meta) == sorted(map(str, want)), f"get_paths({x}, {y}) lists other paths")
        for m in meta:
            p = list(m["path"])
            with oracle():
                col = colliders(d, p)
                exp = {"x": x, "y": y, "is_active": active(d, p, set()), "backdoor": d.has_edge(p[1], p[0]), "frontdoor": d.has_edge(p[0], p[1])}
            for k, v in exp.items():
                need(m[k] == v, f"get_paths({x}, {y}): path {p}: {k} is {m[k]} instead of {v}")
            need(list(m["colliders"]) == col, f"get_paths({x}, {y}): path {p}: colliders {m['colliders']} instead of {col}")
            need(list(get_colliders(g, p)) == col, f"get_colliders({p}) instead of {col}")
            need(sorted(m["z"]) == sorted(set(p) - {x, y} - set(col)) and len(m["z"]) == len(set(m["z"])),
                 f"get_paths({x}, {y}): path {p}: non-colliders {m['z']}")
        for ev in case["ev"]:
            ev = set(ev) - {x, y}
            any_active = False
            for p in want:
                with oracle():
                    exp = active(d, p, ev)
                    opened = opened or (exp and not active(d, p, set()))
                act = is_active_path(g, list(p), set(ev))
                need(bool(act) is exp, f"path {p} given {ev}: active is {act}, expected {exp}")
                any_active = any_active or act
            with oracle():
                sep = separated(d, x, y, ev)
            need(any_active is not sep, f"{x} and {y} given {ev}: d-separated is {sep}, but an active path exists: {any_active}")
    need((list(d.nodes), list(d.edges)) == before, "the graph was changed")
    return opened
