"""C08 dict and JSON round trips keep the network."""
import json
import os
import tempfile

from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import need, oracle, same_marginals
from vf.props.common import HUGE, LARGE, huang, huge, net_labels

from pybbn.graph.dag import Bbn
from pybbn.pptc.inferencecontroller import InferenceController

EXAMPLES = (700, 6000)
RULE = ("a random network of 1-7 nodes (names and values with spaces, unicode, punctuation; sparse ids; 1-4 values) through to_dict, a JSON "
        "string, or a JSON file; optionally compiled before; non-trivial: a node with two or more parents")
CORPUS = [{"net": huang(), "via": v, "compiled": c} for v in ("dict", "string", "file") for c in (False, True)]
HALF = {"nodes": [{"id": 0, "name": "a\ud83d", "values": ["x\ude00", "y", "\ud800\ud800"], "probs": [.2, .3, .5]},
                  {"id": 1, "name": "\udfff", "values": ["\ude00\ud83d", "\U0001f600"], "probs": [.1, .9, .2, .8, .4, .6]}], "edges": [[0, 1]]}
CORPUS += [{"net": HALF, "via": v, "compiled": False} for v in ("dict", "file")]
CORPUS += [{"net": x, "via": "string", "compiled": False} for x in LARGE]
CORPUS += [{"net": x, "via": "file", "compiled": False} for x in HUGE]


@st.composite
def cases(draw, tier):
    return {"net": draw(gen.mixed(gen.nets(max_nodes=7, max_joint=1000, max_parents=4), 30 if tier == "quick" else 100)),
            "via": draw(st.sampled_from(["dict", "string", "file"])), "compiled": draw(st.booleans())}


def later(bbn, spec, path, write, read):
    """The file is written again after a change of the network, and read again."""
    one = read(path)
    node = spec["nodes"][-1]
    was = bbn.get_node(node["id"]).probs
    k = len(node["values"])
    now = [x for r in range(0, len(node["probs"]), k) for x in node["probs"][r:r + k][::-1]]
    bbn.get_node(node["id"]).probs = list(now)
    write(bbn, path)
    two = read(path)
    need(one is not two and not set(map(id, one.get_nodes())) & set(map(id, two.get_nodes())), "two networks read from one path share nodes")
    obs.same_spec(obs.bbn_spec(two), dict(spec, nodes=spec["nodes"][:-1] + [dict(node, probs=now)]), "network written again after a change")
    obs.same_spec(obs.bbn_spec(one), spec, "network read before that change")
    bbn.get_node(node["id"]).probs = was


def check(case):
    spec = case["net"]
    bbn = obs.build(spec)
    if case["compiled"]:
        InferenceController.apply(bbn)
    if case["via"] == "file":
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "bbn.json")
            obs.stale(path, spec)
            Bbn.to_json(bbn, path)
            with open(path) as f:
                json.load(f)
            back = Bbn.from_json(path)
            later(bbn, spec, path, Bbn.to_json, Bbn.from_json)
    else:
        d = Bbn.to_dict(bbn)
        d = json.loads(json.dumps(d)) if case["via"] == "string" else d
        back = Bbn.from_dict(d)
        twin = Bbn.from_dict(d)
        need(twin is not back and not set(map(id, twin.get_nodes())) & set(map(id, back.get_nodes())), "two networks read from one description share nodes")
        obs.same_spec(obs.bbn_spec(twin), spec, "network read a second time")
    obs.same_spec(obs.bbn_spec(back), spec, "reloaded network")
    obs.same_spec(obs.bbn_spec(bbn), spec, "network after serialisation")
    again = Bbn.from_dict(json.loads(json.dumps(Bbn.to_dict(back))))
    obs.same_spec(obs.bbn_spec(again), spec, "network after a second round trip")
    need(json.dumps(Bbn.to_dict(again)) == json.dumps(Bbn.to_dict(bbn)), "writing the result again gives another description")
    need(again is not back and back is not bbn, "the reloaded network is the same object")
    if not huge(spec):
        with oracle():
            want = model.posteriors(spec)
        same_marginals(obs.posteriors(InferenceController.apply(back)), want, "priors of the reloaded network")
    with oracle():
        multi = any(len(p) > 1 for p in model.parents_of(spec).values())
    return {"nontrivial": multi, "labels": net_labels(spec) + [case["via"]]}
