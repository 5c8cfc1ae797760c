"""C20 generated structures are what their names promise."""
import json

import networkx as nx
import numpy as np
from hypothesis import strategies as st

from vf.core import need
from vf.props.common import elsewhere

from pybbn.generator.bbngenerator import generate_multi_bbn, generate_singly_bbn

EXAMPLES = (880, 4000)
RULE = ("random sizes 1-30, iteration counts 0-150 and seeds for both generators; non-trivial: the structure is not the initial chain")
CORPUS = [{"kind": k, "n": n, "iter": it, "seed": 1} for k in ("singly", "multi") for n in (1, 2, 3, 12, 40) for it in (0, 1, 50)]
CORPUS += [{"kind": k, "n": n, "iter": it, "seed": 2} for k in ("singly", "multi") for n, it in ((250, 300), (5, 3000))]


@st.composite
def cases(draw, tier):
    return {"kind": draw(st.sampled_from(["singly", "multi"])), "n": draw(st.one_of(st.integers(1, 8), st.integers(1, 30))),
            "iter": draw(st.one_of(st.integers(0, 20), st.integers(0, 150))), "seed": draw(st.integers(0, 2 ** 32 - 1))}


def draws(cases):
    """Networks of several cases, for another process to repeat."""
    out = []
    for c in cases:
        np.random.seed(c["seed"])
        g, p = (generate_singly_bbn if c["kind"] == "singly" else generate_multi_bbn)(c["n"], max_iter=c["iter"])
        out.append([sorted(map(list, g.edges)), [[i, np.asarray(p[i]["params"]).tolist()] for i in sorted(p)]])
    return out


CORPUS.append({"elsewhere": [{"kind": k, "n": n, "iter": it, "seed": s} for k in ("singly", "multi") for n, it in ((5, 20), (12, 60), (30, 100)) for s in (1, 2, 3)]})


def check(case):
    if "elsewhere" in case:
        here = json.loads(json.dumps(draws(case["elsewhere"])))
        need(here == elsewhere("vf.props.c20", "draws", case["elsewhere"]), "the same NumPy seed gives another network in another process")
        return {"nontrivial": True, "labels": ["another-process"]}
    n = case["n"]
    make = generate_singly_bbn if case["kind"] == "singly" else generate_multi_bbn
    np.random.seed(case["seed"])
    g, p = make(n, max_iter=case["iter"])
    need(sorted(g.nodes) == list(range(n)), f"nodes {list(g.nodes)} instead of 0..{n - 1}")
    need(isinstance(g, nx.DiGraph) and not g.is_multigraph(), "not a simple directed graph")
    need(nx.is_directed_acyclic_graph(g), f"directed cycle in {sorted(g.edges)}")
    need(nx.is_connected(nx.Graph(g.edges)) and len({x for e in g.edges for x in e}) == n if n > 1 else not g.edges,
         f"not connected: {sorted(g.edges)}")
    if case["kind"] == "singly":
        need(g.number_of_edges() == n - 1, f"{g.number_of_edges()} edges on {n} nodes: more than one path between two nodes")
    need(sorted(p) == list(range(n)), f"parameters for {sorted(p)}")
    np.random.seed(case["seed"])
    g2, p2 = make(n, max_iter=case["iter"])
    need(list(g2.edges) == list(g.edges) and all(np.array_equal(p[i]["params"], p2[i]["params"]) for i in p),
         "the same NumPy seed gives another network")
    chain = [(i, i + 1) for i in range(n - 1)]
    return {"nontrivial": sorted(g.edges) != chain, "labels": [case["kind"], f"extra-edges={min(5, g.number_of_edges() - n + 1)}"]}
