"""C11 the DNE export describes the network."""
import re

from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import need, oracle
from vf.props.common import HUGE, LARGE, huang, net_labels

from pybbn.graph.dag import Bbn

EXAMPLES = (1400, 12000)
RULE = ("a random network of 1-8 nodes with identifier-like names exported to DNE and parsed back by an independent parser; non-trivial: a "
        "node with two or more parents")
ASSUMPTIONS = ["names and values are identifiers, as the DNE format requires"]
CORPUS = [{"net": huang(), "name": "network"}]
CORPUS += [{"net": x, "name": "network"} for x in LARGE + HUGE]
NODE = re.compile(r"\bnode\s+(\S+)\s*\{(.*?)\}\s*;", re.S)
FIELD = re.compile(r"(\w+)\s*=\s*(.*?);", re.S)


@st.composite
def cases(draw, tier):
    return {"net": draw(gen.mixed(gen.nets(max_nodes=8, max_joint=3000, max_parents=4, text="plain"), 30 if tier == "quick" else 100)),
            "name": draw(st.sampled_from(["network", "net1", "huang"]))}


def items(s, what):
    s = s.strip()
    need(s.startswith("(") and s.endswith(")"), f"{what}: {s[:60]!r} is not a list")
    s = s[1:-1].strip()
    return [x.strip() for x in s.split(",")] if s else []


def check(case):
    spec = case["net"]
    bbn = obs.build(spec)
    text = Bbn.to_dne(bbn) if case["name"] == "network" else Bbn.to_dne(bbn, case["name"])
    need(text.lstrip().startswith("// ~->[DNET-1]->~"), "no DNET header")
    need(re.search(r"\bbnet\s+%s\s*\{" % case["name"], text), f"no bnet {case['name']}")
    need(text.count("{") == text.count("}"), "braces do not match")
    with oracle():
        pa = model.parents_of(spec)
        nodes = model.by_id(spec)
    found = NODE.findall(text)
    names = [n for n, _ in found]
    need(sorted(names) == sorted(n["name"] for n in spec["nodes"]), f"nodes {names}")
    body = dict(found)
    for n in spec["nodes"]:
        f = dict(FIELD.findall(body[n["name"]]))
        what = f"node {n['name']}"
        need(f.get("discrete", "").upper() == "TRUE", f"{what}: not discrete")
        need(f.get("kind", "").upper() == "NATURE", f"{what}: kind")
        need(items(f["states"], what) == n["values"], f"{what}: states {f['states']}")
        want = [nodes[p]["name"] for p in pa[n["id"]]]
        need(items(f["parents"], what) == want, f"{what}: parents {f['parents']} instead of {want}")
        got = [float(x) for x in items(f["probs"].replace("(", " ").replace(")", " ").join("()"), what)]
        need(got == n["probs"], f"{what}: probs {got} instead of {n['probs']}")
    obs.same_spec(obs.bbn_spec(bbn), spec, "network after the export")
    last = bbn.get_node(spec["nodes"][-1]["id"])
    last.probs, was = [0.0 if k % len(last.variable.values) else 1.0 for k in range(len(last.probs))], list(last.probs)
    again = dict(NODE.findall(Bbn.to_dne(bbn, case["name"])))
    f = dict(FIELD.findall(again[last.variable.name]))
    got = [float(x) for x in items(f["probs"].replace("(", " ").replace(")", " ").join("()"), "changed node")]
    need(got == last.probs, f"exported after a change: probs {got} instead of {last.probs}")
    need({k: v for k, v in again.items() if k != last.variable.name} == {k: v for k, v in body.items() if k != last.variable.name}, "the other nodes are exported differently then")
    last.probs = was
    return {"nontrivial": any(len(p) > 1 for p in pa.values()), "labels": net_labels(spec)}
