"""C21 generated parameters are valid and survive conversion and export."""
import json
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import model, obs
from vf.core import close, need, oracle, same_marginals

from pybbn.generator.bbngenerator import (
    convert_for_drawing,
    convert_for_exact_inference,
    generate_bbn_to_file,
    generate_multi_bbn,
    generate_singly_bbn,
    to_json,
)
from pybbn.graph.dag import Bbn
from pybbn.pptc.inferencecontroller import InferenceController

EXAMPLES = (420, 3000)
RULE = ("random generator settings (1-9 nodes, 1-12 values, alpha 1-20) and seeds, converted to a network, to JSON, to a drawing graph and to a "
        "file; non-trivial: a node has two or more parents or more than two values")
CORPUS = [{"kind": k, "n": n, "iter": 20, "values": v, "alpha": 10, "seed": 5, "ext": x, "pretty": True}
          for k, n, v, x in (("singly", 1, 2, "csv"), ("multi", 5, 4, "json"), ("singly", 4, 1, "json"), ("multi", 6, 3, "csv"))]
CORPUS += [{"kind": k, "n": n, "iter": it, "values": v, "alpha": a, "seed": 6, "ext": x, "pretty": False}
           for k, n, it, v, a, x in (("singly", 2, 1, 150, 1, "csv"), ("singly", 300, 20, 3, 10, "json"), ("multi", 120, 10, 4, 200, "csv"))]


@st.composite
def cases(draw, tier):
    many = draw(st.integers(0, 3)) == 0
    return {"kind": draw(st.sampled_from(["singly", "multi"])), "n": draw(st.integers(1, 4 if many else 9)), "iter": draw(st.integers(0, 40)),
            "values": draw(st.integers(5, 12) if many else st.integers(1, 5)), "alpha": draw(st.integers(1, 20)),
            "seed": draw(st.integers(0, 2 ** 32 - 1)),
            "ext": draw(st.sampled_from(["json", "csv"])), "pretty": draw(st.booleans())}


def check(case):
    make = generate_singly_bbn if case["kind"] == "singly" else generate_multi_bbn
    np.random.seed(case["seed"])
    g, p = make(case["n"], max_iter=case["iter"], max_values=case["values"], max_alpha=case["alpha"])
    top = max(2, case["values"])
    cards = {i: int(p[i]["shape"][1]) for i in p}
    nontrivial = False
    for i in g.nodes:
        pa = list(g.predecessors(i))
        need(sorted(p[i]["parents"]) == sorted(pa), f"node {i}: parents {p[i]['parents']} instead of {pa}")
        need(2 <= cards[i] <= top, f"node {i} has {cards[i]} values; at most {top} were asked for")
        rows = 1
        for q in pa:
            rows *= cards[q]
        t = np.asarray(p[i]["params"])
        need(t.shape == (rows, cards[i]) and tuple(int(x) for x in p[i]["shape"]) == t.shape,
             f"node {i}: CPT of shape {t.shape}, declared {p[i]['shape']}, for {rows} parent configurations")
        need(bool((t >= 0).all()) and all(close(s, 1.0) for s in t.sum(axis=1)), f"node {i}: CPT rows are not distributions: {t}")
        nontrivial = nontrivial or len(pa) > 1 or cards[i] > 2

    # to_json
    d = json.loads(to_json(g, p, pretty=case["pretty"]))
    need(d["nodes"] == list(g.nodes), f"JSON nodes {d['nodes']}")
    need([(e["pa"], e["ch"]) for e in d["edges"]] == list(g.edges), f"JSON edges {d['edges']}")
    need(len(d["parameters"]) == len(p), "JSON parameters are incomplete")
    for e in d["parameters"]:
        t = np.asarray(p[e["node"]]["params"])
        need(e["params"] == t.flatten().tolist() and e["shape"] == list(t.shape), f"JSON parameters of node {e['node']} differ")

    # conversion
    bbn = convert_for_exact_inference(g, p)
    spec = obs.bbn_spec(bbn)
    need(sorted(n["id"] for n in spec["nodes"]) == sorted(g.nodes), "converted nodes differ")
    need(sorted(map(tuple, spec["edges"])) == sorted(g.edges), f"converted edges {spec['edges']} instead of {sorted(g.edges)}")
    for n in spec["nodes"]:
        need(len(n["values"]) == len(set(n["values"])) == cards[n["id"]], f"node {n['id']}: values {n['values']}")
        need(n["probs"] == np.asarray(p[n["id"]]["params"]).flatten().tolist(), f"node {n['id']}: CPT differs from the parameters")
    need(len({n["name"] for n in spec["nodes"]}) == len(spec["nodes"]), "two nodes have the same name")
    # the rows of a CPT belong to the parents in the order listed with it
    listed = {i: list(p[i]["parents"]) for i in g.nodes}
    read = {i: [a for a, b in spec["edges"] if b == i] for i in g.nodes}
    need(read == listed, f"the converted network reads its CPTs with parents {read} instead of {listed}")
    read = {i: [e["pa"] for e in d["edges"] if e["ch"] == i] for i in g.nodes}
    need(read == listed, f"JSON: the edges list parents {read} instead of {listed}")
    other = convert_for_exact_inference(g, p)  # a conversion of its own
    for n in list(other.get_nodes()):
        n.variable.values[0] = "changed"
        n.probs[0] = -1.0
        if n.id % 2:
            other.remove_node(n.id)
    need(obs.bbn_spec(bbn) == spec, "changing a second conversion changed the first")
    need(obs.bbn_spec(convert_for_exact_inference(g, p)) == spec, "converting again gives another network")
    drawing = convert_for_drawing(bbn)
    need(sorted(drawing.nodes) == sorted(g.nodes) and sorted(drawing.edges) == sorted(g.edges), "the drawing graph differs")
    with oracle():
        small = model.joint_size(spec) <= 2000
        want = model.posteriors(spec) if small else None
    if small:
        same_marginals(obs.posteriors(InferenceController.apply(bbn)), want, "inference on the converted network")

    # file
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "bbn." + case["ext"])
        obs.stale(path, spec)
        np.random.seed(case["seed"])
        generate_bbn_to_file(case["n"], path, bbn_type=case["kind"], max_iter=case["iter"], max_values=case["values"],
                             max_alpha=case["alpha"])
        back = Bbn.from_csv(path) if case["ext"] == "csv" else Bbn.from_json(path)
    obs.same_spec(obs.bbn_spec(back), spec, f"network read back from the {case['ext']} file")
    return {"nontrivial": nontrivial, "labels": [case["kind"], case["ext"]]}
