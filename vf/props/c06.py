"""C06 reapply with new CPTs equals compiling the changed network, and leaves the old tree alone."""
from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import oracle, same_marginals
from vf.props.c04 import structure
from vf.props.common import LARGE, assert_evidence, chain, differs, huang, lik_of, net_labels

from pybbn.pptc.inferencecontroller import InferenceController

EXAMPLES = (510, 5000)
RULE = ("a random network of 1-6 nodes, evidence on 0-2 nodes, then 1-3 reapply rounds (each: new CPTs for a random subset of nodes, "
        "applied to the newest or the first tree, evidence afterwards); non-trivial: a CPT change moves a prior by more than 1e-6")
CORPUS = [{"net": huang(), "ev": [[0, "observation", {"on": 1.0}]],
           "rounds": [{"cpts": [[0, [.1, .9]]], "base": "new", "ev": [[3, "observation", {"on": 1.0}]]}]},
          {"net": chain(300, True), "ev": [], "rounds": [{"cpts": [[299, [.6, .4]]], "base": "new", "ev": []}]}]
CORPUS += [{"net": x, "ev": [], "rounds": [{"cpts": [[n["id"], n["probs"][::-1]] for n in x["nodes"]], "base": "new", "ev": []}]} for x in LARGE]


@st.composite
def cases(draw, tier):
    q = tier == "quick"
    net = draw(gen.mixed(gen.nets(max_nodes=6 if q else 8, max_joint=500 if q else 1500, max_parents=4), 16 if q else 40, 16))
    rounds = []
    n = len(net["nodes"])
    for _ in range(draw(st.integers(1, 3))):
        picks = draw(st.lists(st.integers(0, n - 1), max_size=n, unique=True))
        cpts = []
        for i in picks:
            nd = net["nodes"][i]
            k = len(nd["values"])
            cpts.append([nd["id"], draw(gen.cpt(len(nd["probs"]) // k, k))])
        rounds.append({"cpts": cpts, "base": draw(st.sampled_from(["new", "new", "first"])),
                       "ev": draw(gen.evidence_list(net, max_nodes=2))})
    return {"net": net, "ev": draw(gen.evidence_list(net, max_nodes=2)), "rounds": rounds}


def check(case):
    spec = case["net"]
    first = InferenceController.apply(obs.build(spec, dtype=None))
    assert_evidence(first, case["ev"])
    trees = [(first, spec, lik_of(spec, case["ev"]))]
    moved = False
    for r, rd in enumerate(case["rounds"]):
        base, base_spec, base_lik = trees[0] if rd["base"] == "first" else trees[-1]
        with oracle():
            cpts = {i: p for i, p in rd["cpts"]}
            new_spec = {"edges": base_spec["edges"],
                        "nodes": [dict(n, probs=cpts.get(n["id"], n["probs"])) for n in base_spec["nodes"]]}
            moved = moved or differs(model.posteriors(base_spec), model.posteriors(new_spec))
        new = InferenceController.reapply(base, {i: obs.probs_of(spec, p, None) for i, p in cpts.items()})
        with oracle():
            want = model.posteriors(new_spec)
        same_marginals(obs.posteriors(new), want, f"round {r}: prior of the new tree")
        structure(new_spec, new)
        assert_evidence(new, rd["ev"])
        trees.append((new, new_spec, lik_of(new_spec, rd["ev"])))
        # every tree made so far still answers for its own network and evidence
        for i, (jt, s, lik) in enumerate(trees):
            with oracle():
                want = model.posteriors(s, lik)
            same_marginals(obs.posteriors(jt), want, f"round {r}: tree {i}")
    # and still takes evidence of its own
    for i, (jt, s, lik) in enumerate(trees):
        jt.unobserve_all()
        with oracle():
            want = model.posteriors(s)
        same_marginals(obs.posteriors(jt), want, f"at the end: tree {i}")
    return {"nontrivial": moved, "labels": net_labels(spec)}
