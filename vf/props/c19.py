"""C19 importing a libpgm network keeps its distribution."""
import copy
import itertools
import json

from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import need, oracle, same_marginals
from vf.props.common import HUGE, LARGE, huang, huge, net_labels

from pybbn.graph.factory import Factory
from pybbn.pptc.inferencecontroller import InferenceController

EXAMPLES = (660, 6000)
RULE = ("a random network of 1-7 nodes written in libpgm's dictionary form (names in any order, parents in any order) and imported from JSON "
        "text, dictionary or object; non-trivial: a node with two or more parents")
ASSUMPTIONS = ["values contain no quotes (the libpgm key format is ambiguous otherwise)"]
CORPUS = [{"net": huang(), "form": "json", "none": True, "order": [3, 1, 0, 2, 7, 6, 5, 4], "data": [7, 6, 5, 4, 3, 2, 1, 0]}]
CORPUS += [{"net": x, "form": "json", "none": True, "order": list(range(len(x["nodes"]))), "data": list(range(len(x["nodes"])))} for x in LARGE + HUGE]


@st.composite
def cases(draw, tier):
    net = draw(gen.mixed(gen.nets(max_nodes=7, max_joint=1000, max_parents=5), 30 if tier == "quick" else 100))
    n = len(net["nodes"])
    return {"net": net, "form": draw(st.sampled_from(["json", "dict", "object"])), "none": draw(st.booleans()),
            "order": list(draw(st.permutations(range(n)))), "data": list(draw(st.permutations(range(n)))),
            "E": list(draw(st.permutations(range(len(net["edges"])))))}


class Libpgm:
    def __init__(self, d):
        self.V, self.E, self.Vdata = d["V"], d["E"], d["Vdata"]


def libpgm(spec, case):
    nodes = model.by_id(spec)
    pa = model.parents_of(spec)
    vdata = {}
    for k in case["data"]:
        n = spec["nodes"][k]
        ps = pa[n["id"]]
        k = len(n["values"])
        if ps:
            cprob = {}
            for r, combo in enumerate(itertools.product(*[nodes[p]["values"] for p in ps])):
                cprob["[" + ", ".join(f"'{v}'" for v in combo) + "]"] = n["probs"][r * k:(r + 1) * k]
        else:
            cprob = list(n["probs"])
        kids = [nodes[c]["name"] for p, c in spec["edges"] if p == n["id"]]
        vdata[n["name"]] = {"ord": n["id"], "numoutcomes": k, "vals": list(n["values"]), "cprob": cprob,
                            "parents": [nodes[p]["name"] for p in ps] if ps else (None if case["none"] else []),
                            "children": kids or None}
    # the list of edges has an order of its own
    edges = [spec["edges"][k] for k in case["E"]] if "E" in case else spec["edges"][::-1]
    return {"V": [spec["nodes"][k]["name"] for k in case["order"]],
            "E": [[nodes[p]["name"], nodes[c]["name"]] for p, c in edges], "Vdata": vdata}


def check(case):
    spec = case["net"]
    with oracle():
        d = libpgm(spec, case)
        before = copy.deepcopy(d)
    given = Libpgm(d) if case["form"] == "object" else d

    def load():
        if case["form"] == "json":
            return Factory.from_libpgm_discrete_json(json.dumps(d))
        if case["form"] == "dict":
            return Factory.from_libpgm_discrete_dictionary(given)
        return Factory.from_libpgm_discrete_object(given)

    bbn = load()
    obs.same_spec(obs.bbn_spec(bbn), spec, "imported network")
    with oracle():
        want = None if huge(spec) else model.posteriors(spec)
        pa = model.parents_of(spec)
    if want:
        same_marginals(obs.posteriors(InferenceController.apply(bbn)), want, "inference on the imported network")
    need(d == before, "the libpgm description was changed")
    for n in bbn.get_nodes():  # the network is the caller's to change
        n.probs[0] = -1.0
        n.variable.values[0] = "changed"
    need(d == before, "changing the imported network changed the libpgm description")
    # the same objects with other numbers in them
    for v in d["Vdata"].values():
        for row in v["cprob"].values() if isinstance(v["cprob"], dict) else [v["cprob"]]:
            row.reverse()
    with oracle():
        k = {n["id"]: len(n["values"]) for n in spec["nodes"]}
        nodes = [dict(n, probs=[x for r in range(0, len(n["probs"]), k[n["id"]]) for x in n["probs"][r:r + k[n["id"]]][::-1]]) for n in spec["nodes"]]
    obs.same_spec(obs.bbn_spec(load()), dict(spec, nodes=nodes), "network imported again after a change")
    return {"nontrivial": any(len(p) > 1 for p in pa.values()), "labels": net_labels(spec) + [case["form"]]}
