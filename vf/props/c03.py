"""C03 posteriors depend on the current evidence only, not on how it was reached."""
from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import need, oracle, same_marginals
from vf.props.common import LARGE, differs, huang, net_labels

from pybbn.graph.jointree import EvidenceBuilder
from pybbn.graph.node import BbnNode
from pybbn.graph.variable import Variable
from pybbn.pptc.inferencecontroller import InferenceController

EXAMPLES = (640, 5000)
RULE = ("a random network of 1-6 nodes and 1-10 operations, or 12-40 on small ones (set_observation, update_evidences with 0-3 pieces "
        "of evidence of any type, everything in force asserted again in one batch with something new, an evidence object asserted before or changed, a batch with a value or a node that there is not, unobserve, unobserve_all), every posterior compared with the oracle "
        "after every operation (in half of the cases, some are left unread; in a quarter a listener of the user's own takes the controller's place); non-trivial: "
        "at least two operations change the posteriors and one of them withdraws or replaces evidence")
CORPUS = [
    {"net": huang(), "ops": [["set", [0, "observation", {"on": 1.0}]], ["set", [0, "observation", {"off": 1.0}]],
                             ["set", [0, "observation", {"off": 1.0}]], ["update", [[7, "virtual", {"on": .5, "off": .1}]]],
                             ["unobserve_all"]]},
    {"net": huang(), "ops": [["update", [[0, "observation", {"on": 1.0}]]],
                             ["update", [[0, "virtual", {"on": 1.0, "off": .5}]]],
                             ["set", [0, "observation", {"on": 1.0}]],
                             ["set", [0, "observation", {"off": 0.7}]]]},
]
CORPUS += [{"net": huang(), "ops": [["update", [[0, "observation", {"on": 1.0}]]], ["again", 0, False], ["update", [[0, "observation", {"off": 1.0}]]], ["again", 0, k],
                                    ["again", 1, False], ["amend", 1, False, 0], ["unobserve_all"], ["amend", 1, k, 1], ["again", 0, False]]} for k in (False, True)]
CORPUS += [{"net": huang(), "ops": [["bad", [[0, "observation", {"on": 1.0}], [1, "observation", {"on": 1.0}]], 1, how], ["update", [[0, "observation", {"on": 1.0}]]], ["unobserve_all"]]}
           for how in ("value", "only", "node", "first")]
CORPUS += [{"net": x, "ops": [["update", [[n["id"], "observation", {n["values"][-1]: 1.0}] for n in x["nodes"][-2:]]], ["unobserve_all"]]} for x in LARGE]


class Ear(InferenceController):
    """A listener of the user's own: notes each call and lets the controller do its work."""

    def __init__(self):
        self.heard = []

    def evidence_retracted(self, join_tree):
        self.heard.append((join_tree, in_force(join_tree)))
        super().evidence_retracted(join_tree)

    def evidence_updated(self, join_tree):
        self.heard.append((join_tree, in_force(join_tree)))
        super().evidence_updated(join_tree)


def in_force(jt):
    return {n.id: [jt.get_evidence(n, v).entries[0].value for v in n.variable.values] for n in jt.get_bbn_nodes()}


def bad(jt, nodes, o):
    """Evidence with a mistake in one piece: is it refused?"""
    given = [obs.evidence(jt, i, t, g) for i, t, g in o[1]]
    ev = given[o[2]]
    if o[3] == "node":
        v = Variable(max(nodes) + 1 if all(isinstance(i, int) for i in nodes) else "no such node", "no such node", ["t", "f"])
        given[o[2]] = EvidenceBuilder().with_node(BbnNode(v, [0.5, 0.5])).with_evidence("t", 1.0).build()
    else:
        if o[3] != "value":
            old = dict(ev.values)
            ev.values.clear()
        ev.add_value("no such value", 1.0)
        if o[3] == "first":
            ev.values.update(old)
    try:
        if len(given) == 1:
            jt.set_observation(given[0])
        else:
            jt.update_evidences(given)
    except Exception:
        return True
    return False


@st.composite
def op(draw, net):
    nodes = net["nodes"]
    pick = st.integers(0, len(nodes) - 1)
    k = draw(st.sampled_from(["set", "set", "update", "update", "update", "update", "unobserve", "unobserve_all", "again", "again", "amend", "restate", "bad"]))
    if k == "set":
        return [k, draw(gen.ev_for(nodes[draw(pick)], ("observation", "observation", "observation", "finding",
                                                       "virtual", "unobserve")))]
    if k == "update":
        return [k, [draw(gen.ev_for(nodes[draw(pick)])) for _ in range(draw(st.integers(0, 3)))]]
    if k == "restate":  # everything in force is given again, and a piece that may be new
        return [k, [draw(gen.ev_for(nodes[draw(pick)])) for _ in range(draw(st.integers(0, 2)))], draw(st.integers(0, 8))]
    if k == "bad":  # one piece names a value, or a node, that there is not
        evs = [draw(gen.ev_for(nodes[draw(pick)])) for _ in range(draw(st.integers(1, 3)))]
        return [k, evs, draw(st.integers(0, len(evs) - 1)), draw(st.sampled_from(["value", "only", "node", "first"]))]
    if k == "amend":
        return [k, draw(st.integers(0, 7)), draw(st.booleans()), draw(st.integers(0, 3))]
    if k == "again":
        return [k, draw(st.integers(0, 7)), draw(st.booleans())]
    if k == "unobserve":
        return [k, [nodes[i]["id"] for i in draw(st.lists(pick, max_size=3))]]
    return [k]


@st.composite
def cases(draw, tier):
    q = tier == "quick"
    net = draw(gen.mixed(gen.nets(max_nodes=6 if q else 8, max_joint=400 if q else 1000, max_parents=4), 16 if q else 40, 16))
    # few nodes are touched, so that operations meet one another
    m = draw(st.integers(1, len(net["nodes"])))
    k = draw(st.integers(0, len(net["nodes"]) - m))
    sub = {"nodes": net["nodes"][k:k + m]}
    long = len(net["nodes"]) <= 4 and draw(st.integers(0, 3)) == 0
    ops = draw(st.lists(op(sub), min_size=12 if long else 1, max_size=40 if long else 10 if q else 16))
    return {"net": net, "ops": ops, "listen": draw(st.integers(0, 3)) == 3, "unread": draw(st.lists(st.integers(0, len(ops) - 1), unique=True)) if draw(st.booleans()) else []}


def check(case):
    spec = case["net"]
    with oracle():
        nodes = model.by_id(spec)
        prev = model.posteriors(spec)
    jt = obs.apply(spec)
    ear = Ear() if case.get("listen") and len(nodes) < 12 else None
    if ear:
        jt.set_listener(ear)
    state = {}
    changes = withdrawn = 0
    labels = set(net_labels(spec))
    made = []  # evidence objects, which may be asserted more than once
    for step, o in enumerate(case["ops"]):
        again = None
        if o[0] in ("again", "amend"):
            if not made:
                continue
            ev, again = made[o[1] % len(made)]
            if o[0] == "amend":  # the object is given other likelihoods first
                vals = nodes[ev[0]]["values"]
                ev = ev[:2] + [{v: float(k == o[3] % len(vals)) for k, v in enumerate(vals)}]
                for v, x in ev[2].items():
                    again.add_value(v, x)
                made[o[1] % len(made)] = (ev, again)
            o = ["set", ev] if o[2] else ["update", [ev]]
        if o[0] == "bad":
            if not bad(jt, nodes, o):
                break  # it was taken: what it means is not said
            with oracle():
                full = {i: state.get(i, [1.0] * len(n["values"])) for i, n in nodes.items()}
            need(in_force(jt) == full, f"operation {step}: a refused update left evidence {in_force(jt)} in force instead of {full}")
            same_marginals(obs.posteriors_once(jt), prev, f"after operation {step}, a refused update", rel=True)
            labels.add("refused")
            continue
        if o[0] == "restate":
            with oracle():
                evs = [[i, "virtual", dict(zip(nodes[i]["values"], v))] for i, v in state.items() if i not in [e[0] for e in o[1]]]
                evs[min(o[2], len(evs)):min(o[2], len(evs))] = o[1]
            labels.add("restated")
            o = ["update", evs]
        with oracle():
            before = dict(state)
            if o[0] in ("set", "update"):
                evs = [o[1]] if o[0] == "set" else o[1]
                for i, t, g in evs:
                    vec = model.normalise_evidence(nodes[i]["values"], t, g)
                    if o[0] == "set" and model.is_observed(vec) and state.get(i, [1.0] * len(vec)) == vec:
                        vec = [1.0] * len(vec)  # the same observation again takes it back
                        labels.add("toggle")
                    state[i] = vec
            else:
                for i in o[1] if o[0] == "unobserve" else nodes:
                    state[i] = [1.0] * len(nodes[i]["values"])
            want = model.posteriors(spec, state)
        if o[0] in ("set", "update"):
            given = [again] if again else [obs.evidence(jt, i, t, g) for i, t, g in ([o[1]] if o[0] == "set" else o[1])]
            if o[0] == "set":
                jt.set_observation(given[0])
            else:
                jt.update_evidences(given)
            if not again:
                made.extend(zip([o[1]] if o[0] == "set" else o[1], given))
        elif o[0] == "unobserve":
            jt.unobserve([jt.get_bbn_node(i) for i in o[1]])
        else:
            jt.unobserve_all()
        if ear:
            with oracle():
                full = {i: state.get(i, [1.0] * len(n["values"])) for i, n in nodes.items()}
                changed = any(v != before.get(i, [1.0] * len(v)) for i, v in full.items())
            need(len(ear.heard) <= 1, f"operation {step} ({o[0]}) calls the listener {len(ear.heard)} times")
            need(ear.heard or not changed, f"operation {step} ({o[0]}) changes evidence and does not call the listener")
            need(in_force(jt) == full, f"operation {step} ({o[0]}): evidence in force is {in_force(jt)} instead of {full}")
            for t, seen in ear.heard:
                need(t is jt and seen == full, f"operation {step} ({o[0]}): the listener is given evidence {seen} instead of {full}")
            ear.heard.clear()
        if step not in case.get("unread", []):
            same_marginals(obs.posteriors_once(jt), want, f"after operation {step} ({o[0]})", rel=True)
        with oracle():
            if differs(prev, want):
                changes += 1
                if any(set(before[i]) != {1.0} and before[i] != state[i] for i in before):
                    withdrawn += 1
            if any(sum(d.values()) == 0 for d in prev.values()) and not any(sum(d.values()) == 0 for d in want.values()):
                labels.add("recovered-from-impossible")
            prev = want
    same_marginals(obs.potential_posteriors(jt), prev, "at the end")
    same_marginals(obs.posteriors(jt), prev, "at the end")
    return {"nontrivial": changes >= 2 and withdrawn >= 1, "labels": sorted(labels)}
