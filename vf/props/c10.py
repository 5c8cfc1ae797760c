"""C10 join tree round trip."""
import json

from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import need, oracle, same_marginals
from vf.props.c04 import structure
from vf.props.common import LARGE, assert_evidence, differs, huang, lik_of, net_labels

from pybbn.graph.jointree import JoinTree
from pybbn.pptc.inferencecontroller import InferenceController

EXAMPLES = (540, 6000)
RULE = ("a random network of 1-7 nodes (forests included), evidence in the saved tree, the tree through to_dict or a JSON string, "
        "apply_from_serde, then evidence and new CPTs in the loaded tree, which is stored again; non-trivial: two or more cliques and evidence that moves a "
        "posterior")
CORPUS = [{"net": huang(), "before": [[0, "observation", {"on": 1.0}]], "after": [[7, "observation", {"on": 1.0}]],
           "json": True, "cpt": None}]
CORPUS += [{"net": x, "before": [], "after": [[n["id"], "observation", {n["values"][-1]: 1.0}] for n in x["nodes"][-2:]], "json": True, "cpt": None} for x in LARGE]


@st.composite
def cases(draw, tier):
    net = draw(gen.mixed(gen.nets(max_nodes=7, max_joint=800, max_parents=4), 24 if tier == "quick" else 60))
    cpt = None
    if draw(st.integers(0, 3)) == 0:
        nd = draw(st.sampled_from(net["nodes"]))
        k = len(nd["values"])
        cpt = [nd["id"], draw(gen.cpt(len(nd["probs"]) // k, k))]
    return {"net": net, "before": draw(gen.evidence_list(net, max_nodes=2)),
            "after": draw(gen.evidence_list(net, max_nodes=2)), "json": draw(st.booleans()), "cpt": cpt}


def check(case):
    spec = case["net"]
    bbn = obs.build(spec)
    jt = InferenceController.apply(bbn)
    assert_evidence(jt, case["before"])
    d = JoinTree.to_dict(jt, bbn)
    if case["json"]:
        d = json.loads(json.dumps(d))
    back = InferenceController.apply_from_serde(JoinTree.from_dict(d))
    with oracle():
        prior = model.posteriors(spec)
        lik_b = lik_of(spec, case["before"])
        lik_a = lik_of(spec, case["after"])
        before = model.posteriors(spec, lik_b)
        after = model.posteriors(spec, lik_a)
    same_marginals(obs.posteriors(back), prior, "priors of the loaded tree")
    for n in spec["nodes"]:
        got = back.get_bbn_node(n["id"])
        got = (got.variable.name, list(got.variable.values), [float(x) for x in got.probs])
        need(got == (n["name"], n["values"], n["probs"]), f"node {n['id']} of the loaded tree is {got}")
    info = structure(spec, back)
    need({c.id for c in back.get_cliques()} == {c.id for c in jt.get_cliques()}, "other cliques than the saved tree")
    need({s.id for s in back.get_sep_sets()} == {s.id for s in jt.get_sep_sets()}, "other separation sets than the saved tree")
    assert_evidence(back, case["after"])
    same_marginals(obs.posteriors(back), after, "posteriors of the loaded tree")
    same_marginals(obs.posteriors(jt), before, "posteriors of the saved tree")
    obs.same_spec(obs.bbn_spec(bbn), spec, "the network")
    if case["cpt"]:
        i, p = case["cpt"]
        new = InferenceController.reapply(back, {i: list(p)})
        with oracle():
            s2 = dict(spec, nodes=[dict(n, probs=p) if n["id"] == i else n for n in spec["nodes"]])
            want = model.posteriors(s2)
        same_marginals(obs.posteriors(new), want, "loaded tree with a new CPT")
        same_marginals(obs.posteriors(back), after, "loaded tree after reapply")
        # and stored again, the changed one first; then the saved tree with its table changed in place
        for tree, expect, what in ((new, want, "changed"), (back, prior, "loaded")):
            again = JoinTree.from_dict(json.loads(json.dumps(JoinTree.to_dict(tree, bbn))))
            same_marginals(obs.posteriors(InferenceController.apply_from_serde(again)), expect, f"{what} tree, stored and loaded again")
        jt.update_bbn_cpts({i: list(p)})
        again = JoinTree.from_dict(JoinTree.to_dict(jt, bbn))
        same_marginals(obs.posteriors(InferenceController.apply_from_serde(again)), want, "saved tree with a new CPT, stored and loaded again")
    back.unobserve_all()
    same_marginals(obs.posteriors(back), prior, "loaded tree, evidence withdrawn")
    return {"nontrivial": len(list(back.get_cliques())) > 1 and differs(prior, after), "labels": info["labels"]}
