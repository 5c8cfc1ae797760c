"""C15 a deep copy equals its original and shares nothing with it."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import need, oracle, same_marginals
from vf.props import c12, c13, c14
from vf.props.c07 import legal
from vf.props.common import LARGE, chain, huang, lik_of, net_labels

from pybbn.graph.dag import Bbn, Dag
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.graph import Graph, Ug
from pybbn.graph.node import BbnNode, Node
from pybbn.graph.pdag import Pdag
from pybbn.graph.variable import Variable
from pybbn.pptc.inferencecontroller import InferenceController

EXAMPLES = (450, 4000)
RULE = ("a random history of deep copies of join trees, networks or graphs interleaved with changes to one of the copies; every copy is "
        "compared with its own model after every step; non-trivial: a copy was made and one side changed afterwards")
CORPUS = [
    {"kind": "jt", "net": huang(), "ops": [["ev", 0, [0, "observation", {"on": 1.0}]], ["copy", 0], ["ev", 1, [0, "observation", {"off": 1.0}]],
                                           ["clear", 0], ["copy", 1], ["ev", 2, [7, "observation", {"on": 1.0}]]]},
    {"kind": "bbn", "net": huang(), "compiled": True, "ops": [["copy", 0], ["cpt", 1, 0, [.1, .9]], ["drop", 1, 7], ["add", 0, 99]]},
    {"kind": "jt", "net": chain(300, True), "ops": [["copy", 0], ["ev", 1, [0, "observation", {"x": 1.0}]]]},
    {"kind": "bbn", "net": chain(600), "compiled": False, "ops": [["copy", 0], ["cpt", 1, 0, [.1, .9]]]},
    {"kind": "bbn", "net": chain(300), "compiled": True, "ops": [["copy", 0], ["cpt", 1, 0, [.1, .9]]]},
    {"kind": "bbn", "net": dict(chain(300), nodes=chain(300)["nodes"][::-1]), "compiled": True, "ops": [["copy", 0], ["cpt", 1, 0, [.1, .9]]]},
]
CORPUS += [{"kind": "jt", "net": x, "ops": [["copy", 0]] + [["ev", 1, e] for e in [[n["id"], "observation", {n["values"][-1]: 1.0}] for n in x["nodes"][-2:]]]} for x in LARGE]


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["jt", "jt", "bbn", "bbn", "graph"]))
    size = 9 if tier == "quick" else 16
    if kind == "graph":
        case = draw(c12.cases(tier))
        if draw(st.integers(0, 3)):
            case = draw(c13.histories(draw(st.sampled_from([1, 4])), 20))
            case["kind"] = draw(st.sampled_from(["dag", "bbn", "pdag", "pdag"]))
        pos = draw(st.lists(st.integers(0, len(case["ops"])), min_size=1, max_size=3))
        side = draw(st.lists(st.integers(0, 3), min_size=len(case["ops"]), max_size=len(case["ops"])))
        return {"kind": "graph", "of": case["kind"], "ops": case["ops"], "copy_at": sorted(pos), "side": side}
    net = draw(gen.mixed(gen.nets(max_nodes=6, max_joint=400, max_parents=4), 16 if tier == "quick" else 40, 16))
    ops = []
    trees = 1
    for _ in range(draw(st.integers(2, size))):
        t = draw(st.integers(0, trees - 1))
        what = draw(st.integers(0, 9))
        if what <= 2 or trees == 1 and what <= 6:
            ops.append(["copy", t])
            trees += 1
        elif kind == "jt":
            if what == 3:
                ops.append(["clear", t])
            elif what == 4:
                nd = draw(st.sampled_from(net["nodes"]))
                ops.append(["cpt", t, nd["id"], draw(gen.cpt(len(nd["probs"]) // len(nd["values"]), len(nd["values"])))])
            else:
                nd = draw(st.sampled_from(net["nodes"]))
                ops.append(["ev", t, draw(gen.ev_for(nd))])
        else:
            nd = draw(st.sampled_from(net["nodes"]))
            if what == 3:
                ops.append(["add", t, 200 + len(ops)])
            elif what == 4:
                ops.append(["drop", t, nd["id"]])
            elif what == 5 or what == 7:
                ops.append(["edge", t, nd["id"], draw(st.sampled_from(net["nodes"]))["id"], list(draw(gen.blob(7)))])
            elif what == 6:
                ops.append(["rename", t, nd["id"], draw(st.integers(0, len(nd["values"]) - 1)), f"new{len(ops)}"])
            else:
                ops.append(["cpt", t, nd["id"], draw(gen.cpt(len(nd["probs"]) // len(nd["values"]), len(nd["values"])))])
    case = {"kind": kind, "net": net, "ops": ops}
    if kind == "bbn":
        case["compiled"] = draw(st.booleans())
    return case


def check(case):
    return {"jt": trees, "bbn": networks, "graph": graphs}[case["kind"]](case)


def trees(case):
    spec = case["net"]
    jts = [(obs.apply(spec), {}, {})]  # tree, likelihoods, CPTs set for the next reapply
    copied = changed = False
    for step, op in enumerate(case["ops"]):
        jt, lik, cpts = jts[op[1]]
        if op[0] == "copy":
            jts.append((copy.deepcopy(jt), dict(lik), dict(cpts)))
            copied = True
        elif cpts and op[0] != "cpt":
            continue  # a tree with new CPTs has to be compiled again (reapply) before it is used
        elif op[0] == "clear":
            jt.unobserve_all()
            lik.clear()
        elif op[0] == "cpt":
            jt.update_bbn_cpts({op[2]: list(op[3])})
            cpts[op[2]] = op[3]
        else:
            i, t, g = op[2]
            jt.update_evidences([obs.evidence(jt, i, t, g)])
            lik.update(lik_of(spec, [op[2]]))
        changed = changed or (copied and op[0] != "copy")
        for k, (jt, lik, cpts) in enumerate(jts):
            if cpts:
                continue  # new CPTs count from the next compilation on: checked at the end
            with oracle():
                want = model.posteriors(spec, lik)
            same_marginals(obs.posteriors(jt), want, f"after step {step} {op[:2]}: tree {k}")
    for k, (jt, _, _) in enumerate(jts):
        own = {c.id: c for c in jt.get_nodes()}
        for e in jt.get_edges():
            s = e.sep_set
            need(own.get(s.id) is s and own.get(e.i.id) is e.i and own.get(e.j.id) is e.j and {s.left.id, s.right.id} == {e.i.id, e.j.id}
                 and own[s.left.id] is s.left and own[s.right.id] is s.right, f"tree {k}: an edge does not refer to the tree's own clusters")
        need(all(jt.get_bbn_node(n.id) is n for c in own.values() for n in c.nodes), f"tree {k}: a cluster does not refer to the tree's own variables")
    for k, (jt, lik, cpts) in enumerate(jts):
        with oracle():
            new_spec = dict(spec, nodes=[dict(n, probs=cpts.get(n["id"], n["probs"])) for n in spec["nodes"]])
            want = model.posteriors(new_spec)
        for n in new_spec["nodes"]:
            got = list(jt.get_bbn_node(n["id"]).probs)
            need(got == n["probs"], f"tree {k}: CPT of node {n['id']} is {got} instead of {n['probs']}")
        if len(spec["nodes"]) < 50:
            same_marginals(obs.posteriors(InferenceController.reapply(jt, {})), want, f"tree {k} compiled again")
    return {"nontrivial": changed, "labels": ["join-tree"] + net_labels(spec)}


def networks(case):
    spec = case["net"]
    if spec.get("as") == "tuple":
        del spec["as"]  # CPTs are changed in place here
    bbn = obs.build(spec)
    if case["compiled"]:
        InferenceController.apply(bbn)
    nets = [(bbn, copy.deepcopy(spec))]
    copied = changed = False
    big = len(spec["nodes"]) > 50
    for step, op in enumerate(case["ops"]):
        bbn, s = nets[op[1]]
        node = next((n for n in s["nodes"] if n["id"] == op[2]), None) if len(op) > 2 else None
        if op[0] == "copy":
            new = copy.deepcopy(bbn)
            need(type(new) is type(bbn), f"step {step}: the copy is a {type(new).__name__}")
            nets.append((new, copy.deepcopy(s)))
            copied = True
        elif op[0] == "add":
            if node is None:
                d = {"id": op[2], "name": f"x{op[2]}", "values": ["a", "b"], "probs": [.25, .75]}
                bbn.add_node(BbnNode(Variable(d["id"], d["name"], list(d["values"])), list(d["probs"])))
                s["nodes"].append(d)
        elif node is None:
            continue
        elif op[0] == "drop":
            if any(p == op[2] for p, _ in s["edges"]) or len(s["nodes"]) == 1:
                continue  # only leaves: the other CPTs keep their size
            bbn.remove_node(op[2])
            s["nodes"] = [n for n in s["nodes"] if n["id"] != op[2]]
            s["edges"] = [e for e in s["edges"] if op[2] not in e]
        elif op[0] == "edge":
            parent = next((n for n in s["nodes"] if n["id"] == op[3]), None)
            if parent is None or op[2] == op[3] or not legal(s, op[3], op[2]) or len(node["probs"]) * len(parent["values"]) > 300:
                continue
            k = len(node["values"])
            w = [op[4][j % len(op[4])] + 1.0 for j in range(len(node["probs"]) * len(parent["values"]))]
            node["probs"] = [x / sum(w[j // k * k:j // k * k + k]) for j, x in enumerate(w)]
            s["edges"].append([op[3], op[2]])
            bbn.get_node(op[2]).probs = list(node["probs"])
            bbn.add_edge(Edge(bbn.get_node(op[3]), bbn.get_node(op[2]), EdgeType.DIRECTED))
        elif op[0] == "rename":
            bbn.get_node(op[2]).variable.values[op[3]] = op[4]
            node["values"][op[3]] = op[4]
        else:
            probs = bbn.get_node(op[2]).probs
            new = op[3] * (len(node["probs"]) // len(op[3]))
            for k, p in enumerate(new):
                probs[k] = p
            node["probs"] = list(new)
        changed = changed or (copied and op[0] != "copy")
        for k, (b, sp) in enumerate(nets):
            obs.same_spec(obs.bbn_spec(b), sp, f"after step {step} {op[:3]}: network {k}")
    for k, (b, sp) in enumerate(nets):
        ends = {e.i.id: e.i for e in b.get_edges()} | {e.j.id: e.j for e in b.get_edges()}
        need(all(b.get_node(i) is n for i, n in ends.items()), f"network {k}: its edges do not refer to its own nodes")
        if not big:
            with oracle():
                want = model.posteriors(sp)
            same_marginals(obs.posteriors(InferenceController.apply(b)), want, f"network {k} compiled again")
    pieces(spec)
    return {"nontrivial": changed, "labels": ["network"] + net_labels(spec)}


def pieces(spec):
    """Variables, nodes and edges by themselves."""
    d = spec["nodes"][0]
    v = Variable(d["id"], d["name"], list(d["values"]))
    n = BbnNode(v, list(d["probs"]))
    n.add_metadata("note", ["x"])
    m = Node(d["id"] + 1)
    m.add_metadata("note", ["z"])
    e = Edge(n, m, EdgeType.DIRECTED)
    v2, n2, e2 = copy.deepcopy(v), copy.deepcopy(n), copy.deepcopy(e)
    for o in (v2, n2.variable, e2.i.variable):
        need((o.id, o.name, o.values) == (d["id"], d["name"], d["values"]), "copied variable differs")
        o.values[0] = "changed"
        o.name = "changed"
    need(e2.key == e.key and e2.type == e.type and e2.j.id == m.id, "copied edge differs")
    for o in (n2, e2.i):
        need(o.probs == d["probs"] and o.metadata == {"note": ["x"]} and o.id == d["id"], "copied node differs")
        o.probs[0] = -1.0
        o.metadata["note"].append("y")
        o.add_metadata("more", 1)
    m2 = copy.deepcopy(m)
    for o in (m2, e2.j):
        need(type(o) is Node and o.id == m.id and o.metadata == {"note": ["z"]}, "copied node differs")
        o.add_metadata("more", 1)
        o.metadata["note"].append("y")
    need(m.metadata == {"note": ["z"]}, "changing the copy of a node changed the node")
    need((v.name, v.values) == (d["name"], d["values"]), "changing the copy of a variable changed the variable")
    need(n.probs == d["probs"] and n.metadata == {"note": ["x"]}, "changing the copy of a node changed the node")
    need(n2 is not n and e2.i is not n and e2.j is not m, "the copy refers to the original's nodes")
    # contents that are themselves objects, arrays, or attributes of the user's own
    v = Tagged(d["id"], d["name"], [[x, [i]] for i, x in enumerate(d["values"])])
    v.tags = {"a": ["b"]}
    n = BbnNode(v, np.array(d["probs"]))
    n.add_metadata("deep", {"k": [["x"]]})
    two = [n, n]
    v2, n2, two2 = copy.deepcopy(v), copy.deepcopy(n), copy.deepcopy(two)
    need(two2[0] is two2[1], "two references to one node become two nodes")
    for o in (v2, n2.variable, two2[0].variable):
        need(type(o) is Tagged and o.values == v.values and o.tags == {"a": ["b"]}, "copied variable differs")
        o.values[-1][1].append("changed")
        o.tags["a"].append("changed")
    for o in (n2, two2[0]):
        need(list(o.probs) == d["probs"] and o.metadata == {"deep": {"k": [["x"]]}}, "copied node differs")
        o.probs[0] = -1.0
        o.metadata["deep"]["k"][0].append("changed")
    need(v.values == [[x, [i]] for i, x in enumerate(d["values"])] and v.tags == {"a": ["b"]}, "changing the copy of a variable changed the variable")
    need(list(n.probs) == d["probs"] and n.metadata == {"deep": {"k": [["x"]]}}, "changing the copy of a node changed the node")


class Tagged(Variable):
    """A user's own kind of variable."""


class Arcs:
    """Model of a Dag, Bbn or Pdag."""

    def __init__(self, kind):
        self.kind, self.present, self.arcs, self.und = kind, [], [], set()

    def copy(self):
        m = Arcs(self.kind)
        m.present, m.arcs, m.und = list(self.present), list(self.arcs), set(self.und)
        return m

    def node(self, i):
        if i not in self.present:
            self.present.append(i)

    def edge(self, g, i, j, t):
        self.node(i)
        self.node(j)
        with oracle():
            back, fwd = c13.reach(self.arcs, j, i), c13.reach(self.arcs, i, j)
        if i == j or (i, j) in self.arcs or (j, i) in self.arcs or frozenset((i, j)) in self.und:
            return
        if t == "d":
            if not back:
                self.arcs.append((i, j))
        elif self.kind == "pdag":  # open where a directed path joins the two (C14)
            if not (back or fwd) or any(e.type == EdgeType.UNDIRECTED and {e.i.id, e.j.id} == {i, j} for e in g.get_edges()):
                self.und.add(frozenset((i, j)))

    def remove(self, i):
        self.present = [x for x in self.present if x != i]
        self.arcs = [a for a in self.arcs if i not in a]
        self.und = {u for u in self.und if i not in u}

    def compare(self, g, ids, what):
        if self.kind == "pdag":
            c14.compare(g, set(self.present), self.arcs, self.und, ids, what)
        else:
            c13.compare(g, self.present, self.arcs, ids, what)


class Plain(c12.Model):
    def copy(self):
        m = Plain()
        m.nodes, m.edges = dict(self.nodes), dict(self.edges)
        return m

    def node(self, i):
        self.nodes.setdefault(i, None)

    def edge(self, g, i, j, t):
        self.node(i)
        self.node(j)
        self.add_edge(i, j, t)

    def remove(self, i):
        self.nodes.pop(i, None)
        self.edges = {k: e for k, e in self.edges.items() if i not in e[:2]}

    def compare(self, g, ids, what):
        c12.compare(g, self, ids, what, identity=False)


def graphs(case):
    of = case["of"]
    g = {"ug": Ug, "graph": Graph, "dag": Dag, "bbn": Bbn, "pdag": Pdag}[of]()
    gs = [(g, Plain() if of in ("ug", "graph") else Arcs(of))]
    make = c13.node if of in ("dag", "bbn") else Node
    tag = {"u": EdgeType.UNDIRECTED, "d": EdgeType.DIRECTED}
    ids = sorted({x for op in case["ops"] for x in op[1:] if isinstance(x, int)})
    changed = False
    for step, op in enumerate(case["ops"]):
        for _ in range(case["copy_at"].count(step)):
            g, m = gs[case["side"][step] % len(gs)]
            new = copy.deepcopy(g)
            need(type(new) is type(g), f"step {step}: the copy is a {type(new).__name__}")
            gs.append((new, m.copy()))
        g, m = gs[case["side"][step] % len(gs)]
        if op[0] == "node":
            g.add_node(make(op[1]))
            m.node(op[1])
        elif op[0] == "edge":
            g.add_edge(Edge(make(op[1]), make(op[2]), tag[op[3]]))
            m.edge(g, *op[1:])
        else:
            g.remove_node(op[1])
            m.remove(op[1])
        changed = changed or len(gs) > 1
        for k, (g, m) in enumerate(gs):
            m.compare(g, ids, f"after step {step} {op}: graph {k}")
    return {"nontrivial": changed, "labels": ["graph", of]}
