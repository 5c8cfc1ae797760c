"""C32 what is printed is what the object holds; a shallow copy is a new object with the same contents."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import need, oracle
from vf.props.common import LARGE, assert_evidence, differs, huang, lik_of, net_labels

from pybbn.gaussian.inference import GaussianInference
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.graph import Graph, Ug
from pybbn.graph.node import BbnNode, Node
from pybbn.graph.pdag import Pdag
from pybbn.graph.variable import Variable

EXAMPLES = (500, 8000)
RULE = ("a random network whose tables, nodes, edges, cliques and graphs are printed before and after evidence, a random mixed graph and a Gaussian "
        "model; each text is compared with the one put together from the specification and the oracle's probabilities; non-trivial: "
        "evidence moves a printed digit")
CORPUS = [{"net": huang(), "ev": [[0, "observation", {"on": 1.0}]], "arcs": [[0, 1, "d"], [2, 1, "u"], [10, 9, "u"]], "gauss": [["A", "B"], [1.5, -2], [1, 0.5, 2], ["B", 0.5]]}]
CORPUS[0:0] = [dict(CORPUS[0], gauss=[[f"x{k}" for k in range(25)], [k / 7 for k in range(25)], [[(r == c) * 30 + (r + c) % 5 / 3 for c in range(25)] for r in range(25)], ["x3", 0.5], ["x24", 1.5]])]
CORPUS += [dict(CORPUS[-1], net=x, ev=[[n["id"], "observation", {n["values"][-1]: 1.0}] for n in x["nodes"][-2:]]) for x in LARGE]
ASSUMPTIONS = ["a probability within 1e-9 of a rounding boundary may be printed rounded either way"]


@st.composite
def cases(draw, tier):
    net = draw(gen.nets(max_nodes=6, max_joint=400, max_parents=4))
    ev = draw(gen.evidence_list(net, max_nodes=3))
    raw = draw(gen.blob(3 * draw(st.integers(0, 12))))
    ids = draw(st.lists(st.one_of(st.integers(0, 12), st.integers(90, 120)), min_size=2, max_size=7, unique=True))
    arcs = [[ids[raw[k] % len(ids)], ids[raw[k + 1] % len(ids)], "du"[raw[k + 2] % 2]] for k in range(0, len(raw), 3)]
    n = draw(st.sampled_from([2, 3, 4, 2, 3, 4, 1, 9]))
    names = list(draw(st.permutations(["A", "B", "x1", "x 2", "long name", "x10", "c", "d", "e"])))[:n]
    b = draw(gen.blob(n + n * n + 1))
    means = [(x - 128) / 7 for x in b[:n]]
    root = np.array([(x - 128) / 50 for x in b[n:n + n * n]]).reshape(n, n)
    cov = (root @ root.T + np.eye(n)).tolist()
    seen = [[x, (b[k] - 100) / 9] for k, x in enumerate(list(draw(st.permutations(names)))[:draw(st.integers(0, n - 1))])]
    return {"net": net, "ev": ev, "arcs": arcs, "gauss": [names, means, cov] + seen}


def rounded(text, p, what):
    need(len(text.split(".")[-1]) == 5 and abs(float(text) - p) <= 0.5e-5 + 1e-9, f"{what}: {text} is printed for {p!r}")


def printed(text):
    """The lines, in whatever order."""
    return sorted(x for x in text.split("\n") if x)


def tables(jt, spec, want, what):
    nodes = model.by_id(spec)
    for node in jt.get_bbn_nodes():
        d = nodes[node.id]
        need(str(node) == f"{d['id']}|{d['name']}|{','.join(d['values'])}" and repr(node) == d["name"], f"{what}: {str(node)!r}, {node!r}")
        p = jt.get_bbn_potential(node)
        need(str(p) == repr(p) == "\n".join(str(e) for e in p.entries), f"{what}: table {str(p)!r}")
        need(len(p.entries) == len(d["values"]), f"{what}: {len(p.entries)} entries")
        for v, e in zip(d["values"], p.entries):
            head, tail = str(e).rsplit("|", 1)
            need(head == f"{node.id}={v}" and repr(e) == str(e), f"{what}: entry {str(e)!r} instead of {node.id}={v}")
            rounded(tail, want[d["name"]][v], f"{what}: {head}")
    for i, p in jt.potentials.items():
        for e in p.entries:
            head, tail = str(e).rsplit("|", 1)
            need(head == ",".join(f"{k}={e.entries[k]}" for k in sorted(e.entries)), f"{what}: entry {str(e)!r} of {e.entries}")
            rounded(tail, e.value, f"{what}: {head}")


def check(case):
    spec = case["net"]
    bbn = obs.build(spec)
    with oracle():
        prior = model.posteriors(spec)
        want = model.posteriors(spec, lik_of(spec, case["ev"]))
        lines = [f"{d['id']}|{d['name']}|{','.join(d['values'])}" for d in spec["nodes"]] + [f"{p}->{c}" for p, c in spec["edges"]]
        lines = [x for l in lines for x in l.split("\n") if x]
    text = str(bbn)
    need(printed(text) == sorted(lines), f"network printed as {text!r} instead of {lines!r}")
    jt = obs.apply(spec)
    tables(jt, spec, prior, "prior")
    for s in jt.get_sep_sets():
        need(str(s) == f"|{s.left} -- {','.join(n.variable.name for n in s.nodes)} -- {s.right}|", f"separation set printed as {s}")
    for e in jt.get_edges():
        need(str(e) == f"{e.sep_set.left}--{e.sep_set}--{e.sep_set.right}", f"edge printed as {e}")
    parts = [str(x) for x in list(jt.get_nodes()) + list(jt.get_edges())]
    tree_text = str(jt)
    need(printed(tree_text) == printed("\n".join(parts)), f"join tree printed as {tree_text!r} instead of {parts!r}")
    assert_evidence(jt, case["ev"])
    tables(jt, spec, want, "posterior")
    need(str(jt) == tree_text, "the join tree's text changed with the evidence")
    for d in spec["nodes"]:
        v = bbn.get_node(d["id"]).variable
        need(str(v) == f"{d['id']}|{d['name']}|{d['values']}", f"variable printed as {v}")
    need(str(bbn) == text, "the network's text changed")
    mixed(case["arcs"])
    gauss(*case["gauss"])
    shallow(bbn, jt, spec)
    changed(obs.build(spec) if len(spec["nodes"]) > 30 else bbn, spec)
    return {"nontrivial": differs(prior, want, 1e-5), "labels": net_labels(spec)}


def mixed(arcs):
    for make in (Graph, Pdag):
        g = make()
        graph_text(g)
        for k, (a, b, t) in enumerate(arcs):
            x = Node(a)
            g.add_edge(Edge(x, x if a == b else Node(b), EdgeType.DIRECTED if t == "d" else EdgeType.UNDIRECTED))
            if k < 4:
                graph_text(g)
        graph_text(g)
        if arcs:
            g.remove_node(arcs[-1][0])
            graph_text(g)


def graph_text(g):
    lines = [str(n.id) for n in g.get_nodes()]
    for e in g.get_edges():
        i, j = e.i.id, e.j.id
        lines.append(f"{i}->{j}" if e.type == EdgeType.DIRECTED else f"{min(i, j)}--{max(i, j)}")
        need(e.key == str(e) == lines[-1], f"edge {i}, {j} printed as {e}")
    need(printed(str(g)) == sorted(lines), f"graph printed as {str(g)!r} instead of {lines}")


def changed(bbn, spec):
    """The network's text follows its changes."""
    def compare(nodes, edges, what):
        lines = [f"{d['id']}|{d['name']}|{','.join(d['values'])}" for d in nodes] + [f"{p}->{c}" for p, c in edges]
        lines = [x for l in lines for x in l.split("\n") if x]
        need(printed(str(bbn)) == sorted(lines), f"{what}: network printed as {str(bbn)!r} instead of {lines!r}")

    nodes, edges = [dict(d) for d in spec["nodes"]], list(spec["edges"])
    v = bbn.get_node(nodes[0]["id"]).variable
    v.name = nodes[0]["name"] = "another name"
    compare(nodes, edges, "after renaming a node")
    need(str(v) == f"{v.id}|another name|{nodes[0]['values']}", f"renamed variable printed as {v}")
    v.values = nodes[0]["values"] = [f"new {k}" for k in range(len(v.values))]
    compare(nodes, edges, "after changing a node's values")
    need(str(v) == f"{v.id}|another name|{nodes[0]['values']}", f"changed variable printed as {v}")
    new = {"id": max(d["id"] for d in nodes) + 1, "name": "added", "values": ["p", "q"], "probs": [0.25, 0.75]}
    bbn.add_node(BbnNode(Variable(new["id"], new["name"], list(new["values"])), list(new["probs"])))
    nodes.append(new)
    compare(nodes, edges, "after adding a node")
    bbn.add_edge(Edge(bbn.get_node(new["id"]), bbn.get_node(nodes[0]["id"]), EdgeType.DIRECTED))
    edges.append([new["id"], nodes[0]["id"]])
    compare(nodes, edges, "after adding an edge")
    gone = nodes[0]["id"]
    bbn.remove_node(gone)
    compare([d for d in nodes if d["id"] != gone], [e for e in edges if gone not in e], "after removing a node")


def gauss(names, means, cov, *seen):
    if len(np.shape(cov)) == 1:
        cov = [[cov[0], cov[1]], [cov[1], cov[2]]]
    g = GaussianInference(list(names), np.array(means, dtype=float), np.array(cov, dtype=float))
    models = [(g, {})]
    for o in seen:
        models.append((models[-1][0].do_inference(*o), dict(models[-1][1], **{o[0]: o[1]})))
    if len(seen) > 1:
        models.append((g.do_inferences([tuple(o) for o in seen]), models[-1][1]))
    for m, meta in models:
        M = ",".join(f"{x:.3f}" for x in m.M)
        E = "|".join("[" + ",".join(f"{x:.3f}" for x in row) + "]" for row in m.E)
        text = f"GaussianInference[H=[{','.join(m.H)}], M=[{M}], E=[{E}], meta={{{','.join(f'{k}={v:.3f}' for k, v in m.meta.items())}}}]"
        need(repr(m) == str(m) == text, f"printed as {m!r} instead of {text}")
        need(list(m.H) == [n for n in names if n not in meta] and m.meta == meta, f"holds {m.H}, {m.meta}")


def shallow(bbn, jt, spec):
    node = next(iter(bbn.get_nodes()))
    edges = bbn.get_edges()
    for o in [bbn, node, node.variable, Ug(), Node(3), jt] + list(edges)[:1] + list(jt.get_nodes())[-1:] + list(jt.get_edges())[:1]:
        c = copy.copy(o)
        need(c is not o and type(c) is type(o), f"copy.copy of a {type(o).__name__} is {c!r}")
        need(set(c.__dict__) == set(o.__dict__) and all(c.__dict__[k] is v for k, v in o.__dict__.items()), f"the shallow copy of a {type(o).__name__} differs")
        need(str(c) == str(o), "the shallow copy prints differently")
        c.note = "only here"
        need("note" not in o.__dict__, "an attribute set on a shallow copy appears on its original")
    c = copy.copy(node.variable)
    c.name, c.values = "other", ["other"]
    need(obs.bbn_spec(bbn) == obs.bbn_spec(obs.build(spec)), "renaming a shallow copy renames the original")
