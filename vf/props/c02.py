"""C02 exact posteriors under observation, finding and virtual evidence."""
from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import need, oracle, same_marginals
from vf.props.common import CLASH, LARGE, assert_evidence, chain, clash, differs, hourglass, huang, lik_of, net_labels

EXAMPLES = (510, 9000)
RULE = ("a random network (as C01) and evidence on 1-8 (12 when large) distinct nodes: observations (also unnormalised), "
        "findings over value subsets, virtual likelihood vectors (also outside [0,1]); given as one batch or one call "
        "per node; non-trivial: some node's posterior differs from its prior by more than 1e-6")
CORPUS = [
    {"net": huang(), "ev": [[0, "observation", {"on": 1.0}], [5, "observation", {"off": 1.0}]], "batch": True},
    {"net": chain(300), "ev": [[299, "observation", {"x": 1.0}]], "batch": True},
    {"net": {"nodes": chain(2)["nodes"] + [dict(n, id=n["id"] + 2, name="m" + n["name"]) for n in chain(3)["nodes"]],
             "edges": [[0, 1], [2, 3], [3, 4]]}, "ev": [[4, "observation", {"x": 1.0}]], "batch": True},
]
CORPUS += [{"net": x, "ev": [[n["id"], "observation", {n["values"][-1]: 1.0}] for n in x["nodes"][-2:]], "batch": True} for x in LARGE + [hourglass(9, -1), hourglass(9, 95)]]
CORPUS += [{"net": clash(s), "ev": CLASH, "batch": True} for s in ",|"]


@st.composite
def cases(draw, tier):
    q = tier == "quick"
    if draw(st.integers(0, 19)) == 19:
        net = draw(gen.big_nets(12, 36 if q else 100))
        ev = draw(gen.evidence_list(net, max_nodes=12, min_nodes=1))
    else:
        net = draw(gen.nets(max_nodes=8 if q else 10, max_joint=1500 if q else 5000, max_parents=5))
        ev = draw(gen.evidence_list(net, max_nodes=4 if draw(st.integers(0, 3)) else 8, min_nodes=1))
    return {"net": net, "ev": ev, "batch": draw(st.booleans())}


def check(case):
    spec, ev = case["net"], case["ev"]
    with oracle():
        lik = lik_of(spec, ev)
        prior = model.posteriors(spec)
        want = model.posteriors(spec, lik)
        possible = model.evidence_prob(spec, lik) > 0
    jt = obs.apply(spec)
    if case["batch"]:
        assert_evidence(jt, ev)
    else:
        for e in ev:
            assert_evidence(jt, [e])
    for n in spec["nodes"]:
        node = jt.get_bbn_node_by_name(n["name"])
        need(node is not None and node.id == n["id"], f"get_bbn_node_by_name({n['name']!r}) is {node and node.id} instead of {n['id']}")
    same_marginals(obs.posteriors(jt), want, "posterior", rel=True)
    same_marginals(obs.potential_posteriors(jt), want, "posterior potential", rel=True)
    labels = net_labels(spec) + [t for _, t, _ in ev] + ([] if possible else ["impossible"])
    return {"nontrivial": differs(prior, want), "labels": labels}
