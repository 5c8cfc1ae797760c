"""C27 confounder and mediator sets are what they claim to be."""
import itertools

import networkx as nx
from hypothesis import strategies as st

from vf.core import need, oracle
from vf.props.c26 import active, colliders, dags, graph_of, simple_paths, tailed

from pybbn.causality.do import get_all_confounders, get_graph, get_minimal_confounders, get_minimal_mediators

EXAMPLES = (910, 6000)
RULE = ("a random DAG of 2-7 nodes, every ordered pair (x, y); non-trivial: some pair has an open backdoor path and a directed path with "
        "interior nodes")
CORPUS = [
    {"nodes": ["x", "y", "c", "m"], "edges": [["c", "x"], ["c", "y"], ["x", "m"], ["m", "y"]]},
    {"nodes": ["a", "b", "m", "x", "y"], "edges": [["a", "x"], ["a", "m"], ["b", "m"], ["b", "y"], ["m", "x"], ["m", "y"], ["x", "y"]]},
]


def cases(tier):
    usual = dags(max_nodes=6 if tier == "quick" else 7)
    return st.integers(0, 5).flatmap(lambda k: tailed() if k == 0 else usual)


def check(case):
    with oracle():
        d = graph_of(case)
    g = get_graph(d)
    nontrivial = False
    pairs = list(itertools.permutations(case["nodes"], 2))
    for x, y in pairs + pairs[:2]:
        with oracle():
            paths = simple_paths(d, x, y)
            open_back = [p for p in paths if d.has_edge(p[1], p[0]) and active(d, p, set())]
            shut_back = [p for p in paths if d.has_edge(p[1], p[0]) and not active(d, p, set())]
            directed = [p for p in paths if all(d.has_edge(a, b) for a, b in zip(p, p[1:]))]
            every_collider = {c for p in paths for c in colliders(d, p)}
            excluded = nx.descendants(d, x) | {x, y} | {c for p in shut_back for c in colliders(d, p)}
            want = {n for p in open_back for n in p} - excluded
            nontrivial = nontrivial or (any(len(p) > 2 for p in open_back) and any(len(p) > 2 for p in directed))
        pair = f"({x}, {y})"

        got = get_all_confounders(g, x, y)
        need(set(got) == want and len(got) == len(want), f"get_all_confounders{pair} is {got} instead of {want}")
        got.clear()

        first = get_minimal_confounders(g, x, y)
        got = list(first)
        first.clear()
        need(len(got) == len(set(got)) <= len(open_back), f"get_minimal_confounders{pair} is {got} for {len(open_back)} open backdoor paths")
        inner = {n for p in open_back for n in p[1:-1]}
        need(set(got) <= inner, f"get_minimal_confounders{pair} is {got}; the open backdoor paths pass through {inner} only")
        for p in open_back:
            need(len(p) == 2 or set(got) & set(p[1:-1]), f"get_minimal_confounders{pair} is {got}, which leaves {p} open")

        first = get_minimal_mediators(g, x, y)
        got = list(first)
        first.clear()
        need(len(got) == len(set(got)) <= len(directed), f"get_minimal_mediators{pair} is {got} for {len(directed)} directed paths")
        inner = {n for p in directed for n in p[1:-1]}
        need(set(got) <= inner - every_collider,
             f"get_minimal_mediators{pair} is {got}; candidates are {inner} without the colliders {every_collider}")
        for p in directed:
            if len(p) > 2 and not set(p[1:-1]) & every_collider:
                need(set(got) & set(p[1:-1]), f"get_minimal_mediators{pair} is {got}, which misses the directed path {p}")
    return {"nontrivial": nontrivial, "labels": [f"n={len(case['nodes'])}"]}
