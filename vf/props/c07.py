"""C07 compiling a network does not change it, and it can be compiled again, also after changes."""
from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import oracle, same_marginals
from vf.props.c04 import structure
from vf.props.common import LARGE, assert_evidence, differs, huang, lik_of, net_labels

from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.node import BbnNode
from pybbn.graph.variable import Variable
from pybbn.pptc.inferencecontroller import InferenceController

EXAMPLES = (500, 6000)
RULE = ("a random network of 1-6 nodes and 2-6 steps: compile, compile twice and assert different evidence in the two trees, set a CPT, "
        "add a parent with its larger CPT, add a leaf, remove a leaf; after every step a fresh compile is compared with the oracle and "
        "the network with its specification; non-trivial: the network was changed after a compile")
CORPUS = [{"net": huang(), "steps": [["compile", [[0, "observation", {"on": 1.0}]]],
                                     ["add_edge", 0, 7, [.5, .5] * 8], ["compile", []], ["remove_leaf", 5],
                                     ["compile", []]]}]
CORPUS += [{"net": x, "steps": [["twins", [[n["id"], "observation", {n["values"][-1]: 1.0}] for n in x["nodes"][-2:]], []]]} for x in LARGE]


@st.composite
def cases(draw, tier):
    net = draw(gen.mixed(gen.nets(max_nodes=6, max_joint=400, max_parents=4), 16 if tier == "quick" else 40, 16))
    cur = net
    steps = []
    for _ in range(draw(st.integers(2, 6))):
        kind = draw(st.sampled_from(["compile", "twins", "cpt", "add_edge", "add_edge", "add_leaf", "remove_leaf"]))
        if kind == "compile":
            steps.append([kind, draw(gen.evidence_list(cur, max_nodes=2))])
        elif kind == "twins":
            steps.append([kind, draw(gen.evidence_list(cur, max_nodes=2)), draw(gen.evidence_list(cur, max_nodes=2))])
        else:
            step = draw(change_of(cur, kind))
            if step:
                steps.append(step)
                cur = step_spec(cur, step)
    return {"net": net, "steps": steps}


@st.composite
def change_of(draw, cur, kind, most=8):
    """A change of the network, or None."""
    nodes = model.by_id(cur)
    ids = [n["id"] for n in cur["nodes"]]
    if kind == "cpt":
        n = nodes[draw(st.sampled_from(ids))]
        k = len(n["values"])
        return [kind, n["id"], draw(gen.cpt(len(n["probs"]) // k, k))]
    if kind == "add_edge":
        ok = [(a, b) for a in ids for b in ids if a != b and legal(cur, a, b)]
        ok = [(a, b) for a, b in ok if len(nodes[b]["probs"]) * len(nodes[a]["values"]) <= 200]
        if ok:
            a, b = draw(st.sampled_from(ok))
            k = len(nodes[b]["values"])
            rows = len(nodes[b]["probs"]) // k * len(nodes[a]["values"])
            return [kind, a, b, draw(gen.cpt(rows, k))]
    if kind == "add_leaf" and (len(ids) < most or model.joint_size(cur) > 20000):
        i = max(ids) + draw(st.integers(1, 3))
        pas = draw(st.lists(st.sampled_from(ids), max_size=2, unique=True))
        rows = 1
        for p in pas:
            rows *= len(nodes[p]["values"])
        return [kind, {"id": i, "name": f"leaf{i}", "values": ["p", "q"], "probs": draw(gen.cpt(rows, 2))}, pas]
    if kind == "remove_leaf":
        leaves = [i for i in ids if all(p != i for p, _ in cur["edges"])]
        if len(ids) > 1:
            return [kind, draw(st.sampled_from(leaves))]
    return None


def legal(spec, a, b):
    """a -> b is new and closes no cycle."""
    if [a, b] in spec["edges"] or [b, a] in spec["edges"]:
        return False
    todo, seen = [b], set()
    while todo:
        x = todo.pop()
        if x == a:
            return False
        for p, c in spec["edges"]:
            if p == x and c not in seen:
                seen.add(c)
                todo.append(c)
    return True


def step_spec(spec, s):
    nodes, edges = spec["nodes"], spec["edges"]
    if s[0] == "cpt":
        nodes = [dict(n, probs=s[2]) if n["id"] == s[1] else n for n in nodes]
    elif s[0] == "add_edge":
        nodes = [dict(n, probs=s[3]) if n["id"] == s[2] else n for n in nodes]
        edges = edges + [[s[1], s[2]]]
    elif s[0] == "add_leaf":
        nodes = nodes + [s[1]]
        edges = edges + [[p, s[1]["id"]] for p in s[2]]
    elif s[0] == "remove_leaf":
        nodes = [n for n in nodes if n["id"] != s[1]]
        edges = [e for e in edges if s[1] not in e]
    return {"nodes": nodes, "edges": edges}


def apply_step(bbn, s):
    if s[0] == "cpt":
        bbn.get_node(s[1]).probs = list(s[2])
    elif s[0] == "add_edge":
        bbn.get_node(s[2]).probs = list(s[3])
        bbn.add_edge(Edge(bbn.get_node(s[1]), bbn.get_node(s[2]), EdgeType.DIRECTED))
    elif s[0] == "add_leaf":
        d = s[1]
        leaf = BbnNode(Variable(d["id"], d["name"], list(d["values"])), list(d["probs"]))
        bbn.add_node(leaf)
        for p in s[2]:
            bbn.add_edge(Edge(bbn.get_node(p), leaf, EdgeType.DIRECTED))
    elif s[0] == "remove_leaf":
        bbn.remove_node(s[1])


def check(case):
    spec = case["net"]
    bbn = obs.build(spec)
    compiled = changed = False
    labels = set(net_labels(spec))
    for k, s in enumerate(case["steps"]):
        what = f"step {k} ({s[0]})"
        labels.add(s[0])
        apply_step(bbn, s)
        if s[0] not in ("compile", "twins"):
            changed = changed or compiled
        with oracle():
            spec = step_spec(spec, s)
        evs = s[1:] if s[0] in ("compile", "twins") else [[]]
        trees = [InferenceController.apply(bbn) for _ in evs]
        compiled = True
        for jt, ev in zip(trees, evs):
            assert_evidence(jt, ev)
        for jt, ev in zip(trees, evs):
            with oracle():
                want = model.posteriors(spec, lik_of(spec, ev))
            same_marginals(obs.posteriors(jt), want, what)
        structure(spec, trees[-1])
        for jt in trees:
            jt.unobserve_all()
            with oracle():
                want = model.posteriors(spec)
            same_marginals(obs.posteriors(jt), want, f"{what}, evidence withdrawn")
        obs.same_spec(obs.bbn_spec(bbn), spec, f"the network after {what}")
    return {"nontrivial": changed, "labels": sorted(labels)}
