"""Adapters from JSON specs to the public API of the code under test."""
import numpy as np

from pybbn.graph.dag import Bbn
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.jointree import Evidence, EvidenceBuilder, EvidenceType
from pybbn.graph.node import BbnNode
from pybbn.graph.variable import Variable
from pybbn.pptc.inferencecontroller import InferenceController

from vf.core import fail

TYPES = {
    "virtual": EvidenceType.VIRTUAL,
    "finding": EvidenceType.FINDING,
    "observation": EvidenceType.OBSERVATION,
    "unobserve": EvidenceType.UNOBSERVE,
}


def probs_of(spec, probs, dtype=float):
    """A CPT as the caller holds it: a list, a tuple, or an array as the generators make them."""
    if spec.get("as") == "tuple":
        return tuple(probs)
    return np.array(probs, dtype=dtype) if spec.get("as") == "array" else list(probs)


def build(spec, dtype=float):
    bbn = Bbn()
    nodes = {}
    for n in spec["nodes"]:
        node = BbnNode(Variable(n["id"], n["name"], list(n["values"])), probs_of(spec, n["probs"], dtype))
        nodes[n["id"]] = node
        bbn.add_node(node)
    for p, c in spec["edges"]:
        bbn.add_edge(Edge(nodes[p], nodes[c], EdgeType.DIRECTED))
    return bbn


def apply(spec):
    return InferenceController.apply(build(spec))


def fresh(v):
    """An equal value that is another object, as values read from elsewhere are."""
    if isinstance(v, str) and len(v) > 1:
        return "".join([v[:1], v[1:]])
    return v


def evidence(jt, node_id, etype, given):
    node = jt.get_bbn_node(node_id)
    way = (node_id + len(given)) % 4
    if way == 0:  # without the builder
        e = Evidence(node, TYPES[etype])
        for v, x in given.items():
            e.add_value(fresh(v), x)
        return e
    b = EvidenceBuilder().with_node(node)
    if way != 1 or etype != "observation":  # observations are the default
        b = b.with_type(TYPES[etype])
    for v, x in given.items():
        if way == 3:
            b.build()  # too early: of no use
        b = b.with_evidence(fresh(v), x)
    if way == 3:  # a builder may go on after it has built something
        e = b.build()
        for v in node.variable.values:
            b = b.with_evidence(v, 1.0)
        b.with_type(EvidenceType.UNOBSERVE).build()
        return e
    return b.build()


def stale(path, spec):
    """For every other network, a file that was there before and is longer."""
    if len(spec["nodes"]) % 2 == 0:
        with open(path, "w") as f:
            f.write("0,old,a,b,|,0.5,0.5\n" * 40 * (len(spec["nodes"]) + 1))


def spoil(x):
    """What the caller of a function does with its result must not matter to later calls."""
    for y in x.values() if isinstance(x, dict) else x:
        if isinstance(y, (dict, list, set)):
            y.clear()
    x.clear()


def posteriors_once(jt):
    """Posteriors, whose own object is then emptied."""
    p = posteriors(jt)
    out = {k: dict(v) for k, v in p.items()}
    spoil(p)
    return out


def posteriors(jt):
    """name -> value -> probability through get_posteriors()."""
    p = jt.get_posteriors()
    if not isinstance(p, dict):
        fail(f"get_posteriors() returned {type(p).__name__}")
    return p


def potential_posteriors(jt):
    """The same through get_bbn_potential(), the older of the two interfaces."""
    out = {}
    for node in jt.get_bbn_nodes():
        pot = jt.get_bbn_potential(node)
        d = {}
        for e in pot.entries:
            if set(e.entries) != {node.id}:
                fail(f"potential of node {node.id} is over {sorted(e.entries)}")
            v = e.entries[node.id]
            if v in d:
                fail(f"potential of node {node.id} lists value {v!r} twice")
            d[v] = e.value
        out[node.variable.name] = d
    return out


def bbn_spec(bbn):
    """Reads a Bbn back into a spec (order of nodes and edges as stored)."""
    nodes = [
        {
            "id": n.id,
            "name": n.variable.name,
            "values": list(n.variable.values),
            "probs": [float(p) for p in n.probs],
        }
        for n in bbn.get_nodes()
    ]
    return {"nodes": nodes, "edges": [[e.i.id, e.j.id] for e in bbn.get_edges()]}


def same_spec(got, want, what):
    """Equality as networks: nodes by id, and for every node the ordered parents."""
    g = {n["id"]: n for n in got["nodes"]}
    w = {n["id"]: n for n in want["nodes"]}
    if len(g) != len(got["nodes"]) or set(g) != set(w):
        fail(f"{what}: node ids {[n['id'] for n in got['nodes']]} instead of {sorted(w)}")
    for i in w:
        for k in ("name", "values", "probs"):
            if g[i][k] != w[i][k]:
                fail(f"{what}: node {i}: {k} is {g[i][k]!r} instead of {w[i][k]!r}")
    for i in w:
        gp = [p for p, c in got["edges"] if c == i]
        wp = [p for p, c in want["edges"] if c == i]
        if gp != wp:
            fail(f"{what}: node {i}: parents {gp} instead of {wp}")
    if len(got["edges"]) != len(want["edges"]):
        fail(f"{what}: edges {got['edges']} instead of {want['edges']}")
