"""C35 files and dictionaries in the documented formats are exchanged with programs other than the library."""
import json
import os
import tempfile

import networkx as nx
from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import need, oracle, same_marginals
from vf.props.common import HUGE, LARGE, assert_evidence, differs, huang, huge, lik_of, net_labels

from pybbn.graph.dag import Bbn
from pybbn.graph.jointree import JoinTree
from pybbn.pptc.inferencecontroller import InferenceController

EXAMPLES = (600, 8000)
RULE = ("a random network of 1-7 nodes in the documented JSON, CSV and stored join tree formats: what the library writes goes through a reader "
        "of the check's own; what a writer of the check's own writes (entries in any order, any layout, a join tree from a random elimination "
        "order) goes through the library; non-trivial: a node has two or more parents, or the join tree read has three or more cliques")
CORPUS = [{"net": huang(), "order": [3, 1, 2, 0, 7, 6, 5, 4], "elim": [4, 0, 2, 6, 1, 3, 7, 5], "indent": 2, "sort": True, "end": False, "roots": True, "ev": [[0, "observation", {"on": 1.0}]]}]
CORPUS += [{"net": x, "order": list(range(len(x["nodes"])))[::-1], "elim": list(range(len(x["nodes"])))[::-1], "indent": None, "sort": False, "end": True,
            "roots": False, "ev": [[x["nodes"][-1]["id"], "observation", {x["nodes"][-1]["values"][0]: 1.0}]]} for x in LARGE + HUGE]


@st.composite
def cases(draw, tier):
    net = draw(gen.nets(max_nodes=7 if tier == "quick" else 8, max_joint=400 if tier == "quick" else 1000, max_parents=4, text="csv"))
    n = len(net["nodes"])
    return {"net": net, "order": list(draw(st.permutations(range(n)))), "elim": list(draw(st.permutations(range(n)))),
            "indent": draw(st.sampled_from([None, 2, 0, 4])), "sort": draw(st.booleans()), "end": draw(st.booleans()), "roots": draw(st.booleans()),
            "ev": draw(gen.evidence_list(net, max_nodes=2))}


def entry(n):
    return {"probs": list(n["probs"]), "variable": {"id": n["id"], "name": n["name"], "values": list(n["values"])}}


def elimination_tree(spec, order):
    """Maximal cliques of the graph filled in along the order, and a maximum spanning forest of them."""
    pa = model.parents_of(spec)
    g = nx.Graph()
    g.add_nodes_from(pa)
    for i, ps in pa.items():
        f = ps + [i]
        g.add_edges_from((a, b) for k, a in enumerate(f) for b in f[k + 1:])
    left = g.copy()
    found = []
    for v in order:
        nb = list(left[v])
        found.append(frozenset(nb + [v]))
        left.add_edges_from((a, b) for k, a in enumerate(nb) for b in nb[k + 1:])
        left.remove_node(v)
    cliques = [c for c in found if not any(c < d for d in found)]
    t = nx.Graph()
    t.add_nodes_from(range(len(cliques)))
    for a in range(len(cliques)):
        for b in range(a):
            if cliques[a] & cliques[b]:
                t.add_edge(a, b, weight=len(cliques[a] & cliques[b]))
    return cliques, list(nx.maximum_spanning_edges(t, data=False))


def dashed(*groups):
    return "-".join(str(x) for g in groups for x in sorted(g))


def stored_tree(spec, case):
    pos = [spec["nodes"][k] for k in case["order"]]
    cliques, links = elimination_tree(spec, [spec["nodes"][k]["id"] for k in case["elim"]])
    nodes = {}
    rank = {n["id"]: k for k, n in enumerate(pos)}
    for c in cliques:
        nodes[dashed(c)] = {"node_ids": sorted(c, key=rank.get), "type": "clique"}
    edges = []
    for a, b in links:
        key = dashed(cliques[a], cliques[a] & cliques[b], cliques[b])
        nodes[key] = {"left": dashed(cliques[a]), "right": dashed(cliques[b]), "type": "sepset"}
        edges.append(key)
    pa = model.parents_of(spec)
    info = {str(n["id"]): pa[n["id"]] for n in pos if pa[n["id"]] or case["roots"]}
    return {"bbn_nodes": {str(n["id"]): entry(n) for n in pos}, "jt": {"edges": edges, "nodes": nodes, "parent_info": info}}, len(cliques)


def entries(d, spec, what):
    with oracle():
        want = {str(n["id"]): entry(n) for n in spec["nodes"]}
    need(set(d) == set(want), f"{what}: nodes {sorted(d)}")
    for k, w in want.items():
        need(d[k].get("probs") == w["probs"], f"{what}: probabilities of node {k} are {d[k].get('probs')} instead of {w['probs']}")
        v = d[k].get("variable") or {}
        need({x: v.get(x) for x in w["variable"]} == w["variable"], f"{what}: variable {k} is {v} instead of {w['variable']}")


def order_of(edges, spec, what):
    """The parents of every node, in the order of the edges."""
    with oracle():
        pa = model.parents_of(spec)
    got = {i: [p for p, c in edges if c == i] for i in pa}
    need(got == pa and len(edges) == sum(map(len, pa.values())), f"{what}: edges {edges}; the parents are {pa}")


def check(case):
    spec = case["net"]
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "net")
        written(spec, path)
        cliques = read_back(spec, case, path)
    with oracle():
        multi = any(len(p) > 1 for p in model.parents_of(spec).values())
    return {"nontrivial": multi or cliques > 2, "labels": net_labels(spec) + [f"cliques={min(cliques, 6)}"]}


def written(spec, path):
    """The library writes, the check reads."""
    bbn = obs.build(spec)
    Bbn.to_json(bbn, path)
    with open(path) as f:
        d = json.load(f)
    entries(d["nodes"], spec, "JSON file")
    order_of([(e["pa"], e["ch"]) for e in d["edges"]], spec, "JSON file")

    Bbn.to_csv(bbn, path)
    with open(path) as f:
        lines = [x for x in f.read().split("\n") if x]
    nodes, edges = {}, []
    for x in lines:
        t = x.split(",")
        if "|" in t:
            k = t.index("|")
            nodes[t[0]] = {"probs": [float(p) for p in t[k + 1:]], "variable": {"id": int(t[0]), "name": t[1], "values": t[2:k]}}
        else:
            need(len(t) == 3 and t[2] == "directed", f"CSV file: line {x!r}")
            edges.append((int(t[0]), int(t[1])))
    entries(nodes, spec, "CSV file")
    order_of(edges, spec, "CSV file")

    if huge(spec):
        return
    jt = InferenceController.apply(bbn)
    d = json.loads(json.dumps(JoinTree.to_dict(jt, bbn)))
    entries(d["bbn_nodes"], spec, "stored join tree")
    d = d["jt"]
    with oracle():
        pa = model.parents_of(spec)
    for i, ps in pa.items():
        need(d["parent_info"].get(str(i), []) == ps, f"stored join tree: parents of {i} are {d['parent_info'].get(str(i))} instead of {ps}")
    kinds = {k: x["type"] for k, x in d["nodes"].items()}
    got = sorted(sorted(x["node_ids"]) for x in d["nodes"].values() if x["type"] == "clique")
    want = sorted(sorted(n.id for n in c.nodes) for c in jt.get_cliques())
    need(got == want, f"stored join tree: cliques {got} instead of {want}")
    seps = {k: x for k, x in d["nodes"].items() if x["type"] == "sepset"}
    need(sorted(d["edges"]) == sorted(seps) and len(d["nodes"]) == len(seps) + len(got), f"stored join tree: edges {d['edges']}, nodes {kinds}")
    sets = {k: sorted(x["node_ids"]) for k, x in d["nodes"].items() if x["type"] == "clique"}
    got = sorted(sorted([sets[x["left"]], sets[x["right"]]]) for x in seps.values())
    want = sorted(sorted([sorted(n.id for n in s.left.nodes), sorted(n.id for n in s.right.nodes)]) for s in jt.get_sep_sets())
    need(got == want, f"stored join tree: separation sets between {got} instead of {want}")


def read_back(spec, case, path):
    """The check writes, the library reads."""
    with oracle():
        pos = [spec["nodes"][k] for k in case["order"]]
        layout = {"indent": case["indent"], "sort_keys": case["sort"]}
        d = {"nodes": {str(n["id"]): entry(n) for n in pos}, "edges": [{"pa": p, "ch": c} for p, c in spec["edges"]]}
        with open(path, "w") as f:
            f.write(json.dumps(d, **layout))
    obs.same_spec(obs.bbn_spec(Bbn.from_json(path)), spec, "network read from a JSON file")

    with oracle():
        lines = [",".join([str(n["id"]), n["name"], *n["values"], "|", *map(str, n["probs"])]) for n in pos] + [f"{p},{c},directed" for p, c in spec["edges"]]
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n" * case["end"])
    obs.same_spec(obs.bbn_spec(Bbn.from_csv(path)), spec, "network read from a CSV file")

    if huge(spec):
        return 0
    with oracle():
        d, cliques = stored_tree(spec, case)
        text = json.dumps(d, **layout)
        prior = model.posteriors(spec)
        after = model.posteriors(spec, lik_of(spec, case["ev"]))
    jt = InferenceController.apply_from_serde(JoinTree.from_dict(json.loads(text)))
    same_marginals(obs.posteriors(jt), prior, "join tree read from a description")
    assert_evidence(jt, case["ev"])
    same_marginals(obs.posteriors(jt), after, "join tree read from a description, with evidence")
    return cliques
