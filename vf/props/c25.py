"""C25 the ACE estimator equals the truncated factorisation P(y | do(x))."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import close, need, oracle
from vf.props.c07 import apply_step, change_of, step_spec
from vf.props.common import net_labels, wide

from pybbn.causality.ace import Ace

EXAMPLES = (200, 4000)
RULE = ("a random network of 2-6 nodes and 1-3 queries (x, y, y value) on one estimator, at times asked again of a new one after a CPT of the network changed; non-trivial: P(y | do(x)) differs from P(y | x) by "
        "more than 1e-6 for some x value")
ASSUMPTIONS = ["x values without positivity (a configuration of x's parents that occurs but rules x out) are not compared: the adjustment "
               "formula is undefined there"]


def nd(i, name, probs):
    return {"id": i, "name": name, "values": ["f", "t"], "probs": probs}


DRUG = {"nodes": [nd(1, "drug", [.23, .77, .76, .24]), nd(2, "recovery", [.31, .69, .27, .73, .13, .87, .07, .93]), nd(0, "gender", [.49, .51])],
        "edges": [[0, 1], [0, 2], [1, 2]]}
CHAINED = {"nodes": [nd(0, "u", [.5, .5]), nd(1, "a", [.9, .1, .1, .9]), nd(2, "b", [.2, .8, .7, .3]),
                     nd(3, "x", [.1, .9, .6, .4, .8, .2, .3, .7]), nd(4, "y", [.9, .1, .5, .5, .3, .7, .2, .8])],
           "edges": [[0, 1], [0, 2], [1, 3], [2, 3], [0, 4], [3, 4]]}
CORPUS = [{"net": DRUG, "queries": [[1, 2, 1], [1, 2, 0], [2, 1, 0], [1, 1, 0]]}, {"net": CHAINED, "queries": [[3, 4, 0], [3, 0, 1], [3, 1, 1]]}]
CORPUS.append({"net": wide(2, 9, 2, 1), "queries": [[2, 3, 0]]})  # a cause of many configurations
_w = wide(1, 34, 2, 1)
_r = [(11 * k + 3) % 19 / 20 + .02 for k in range(68)]
_w["nodes"][-1]["probs"] = [x for q in _r for x in (q, 1 - q)]
CORPUS.append({"net": dict(_w, edges=[[0, 2]] + _w["edges"]), "queries": [[1, 2, 0]]})  # and one that is confounded
CORPUS.append({"net": wide(1, 3, 30, 1), "queries": [[1, 2, 0], [1, 0, 1]]})


@st.composite
def cases(draw, tier):
    cells = 200 if tier == "quick" else 600
    kind = draw(st.integers(0, 9))
    if kind == 0:  # causes of many parents
        net = draw(gen.nets(min_nodes=5, max_nodes=6 if tier == "quick" else 7, max_joint=cells, min_card=1, max_card=2, max_parents=4, kinds=["random", "dense", "complete"]))
    elif kind == 1:  # variables of many values
        net = draw(gen.nets(min_nodes=2, max_nodes=4, max_joint=120, min_card=1, max_card=4, kinds=["random", "dense", "loop"]))
    else:
        net = draw(gen.nets(min_nodes=2, max_nodes=6, max_joint=cells, min_card=1, max_card=3,
                            kinds=["random", "dense", "dense", "loop", "random", "tree", "forest"]))
    n = len(net["nodes"])
    into = [sum(e[1] == x["id"] for e in net["edges"]) for x in net["nodes"]]
    qs = []
    for _ in range(draw(st.integers(1, 3))):
        x = draw(st.integers(0, n - 1))
        if kind == 0 and draw(st.integers(0, 2)):
            x = into.index(sorted(into)[-draw(st.integers(1, 2))])
        y = draw(st.integers(0, n - 2))
        y += y >= x
        if draw(st.integers(0, 11)) == 0:
            y = x
        qs.append([net["nodes"][x]["id"], net["nodes"][y]["id"], draw(st.integers(0, len(net["nodes"][y]["values"]) - 1))])
    return {"net": net, "queries": qs, "steps": [draw(change_of(net, "cpt"))] if draw(st.integers(0, 3)) == 0 else []}


def positive(spec, x):
    """x values that every configuration of x's parents which can occur allows."""
    nodes = model.by_id(spec)
    pa = model.parents_of(spec)[x]
    pz = model.marginal(model.joint(spec), pa)
    cpt = np.array(nodes[x]["probs"]).reshape(list(pz.shape) + [len(nodes[x]["values"])])
    return [v for k, v in enumerate(nodes[x]["values"]) if ((pz == 0) | (cpt[..., k] > 0)).all()]


def check(case):
    spec = case["net"]
    bbn = obs.build(spec)
    moved, compared = ask(Ace(bbn), spec, case)
    for s in case.get("steps", []):  # a new estimator on a changed network
        apply_step(bbn, s)
        spec = step_spec(spec, s)
        ask(Ace(bbn), spec, case)
    return {"nontrivial": moved, "labels": net_labels(spec) + (["compared"] if compared else ["nothing-positive"])}


def ask(ace, spec, case):
    moved = False
    compared = 0
    for q, (x, y, k) in enumerate(case["queries"] + case["queries"][:1]):
        with oracle():
            nodes = model.by_id(spec)
            xv, yv = nodes[x]["values"], nodes[y]["values"]
            pos = positive(spec, x)
            want = {v: model.do_prob(spec, x, v, y, yv[k]) for v in pos}
            cond = {}
            for v in pos:
                c = model.cond_joint(spec, [y], {x: [1.0 if u == v else 0.0 for u in xv]})
                cond[v] = c[(yv[k],)] if c else None
        got = ace.get_ace(obs.fresh(nodes[x]["name"]), obs.fresh(nodes[y]["name"]), obs.fresh(yv[k]))
        what = f"query {q}: P({nodes[y]['name']}={yv[k]} | do({nodes[x]['name']}))"
        need(set(got) == set(xv), f"{what}: answers for {sorted(got)} instead of {xv}")
        for v in pos:
            compared += 1
            need(close(got[v], want[v]), f"{what}: {got[v]!r} for {v!r}, expected {want[v]!r}")
            moved = moved or (cond[v] is not None and abs(cond[v] - want[v]) > 1e-6)
        obs.spoil(got)
    return moved, compared
