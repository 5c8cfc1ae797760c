"""C30 uses that only read networks leave them alone and do not disturb one another; after a change of a network, new uses see it."""
import copy
import json
import os
import tempfile

from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import close, need, oracle, same_marginals
from vf.props.c07 import apply_step, change_of, step_spec
from vf.props.c25 import positive
from vf.props.c16 import evidence_of
from vf.props.common import LARGE, chain, assert_evidence, differs, huang, lik_of, net_labels

from pybbn.causality.ace import Ace
from pybbn.generator.bbngenerator import convert_for_drawing
from pybbn.graph.dag import Bbn
from pybbn.graph.jointree import JoinTree
from pybbn.pptc.inferencecontroller import InferenceController
from pybbn.sampling.sampling import LogicSampler

EXAMPLES = (520, 4000)
RULE = ("one or two networks of 1-6 nodes (the second with the ids and structure of the first and other CPTs, or unrelated) and 3-10 uses "
        "of them in any order: compiling, asserting evidence in a tree, re-parameterising a tree, storing and loading a tree, sampling, estimating "
        "effects, exporting (dict, JSON, CSV, DNE), drawing, copying, at times changing a network (from then on its new uses and the trees copied "
        "or loaded before count); after each, the networks and every tree are compared with the oracle; non-trivial: uses of three kinds and evidence that moves a posterior")
ASSUMPTIONS = ["sampling only with evidence of probability 0.1 or more; effects only for causes with positivity (as C16, C25)"]
CORPUS = [{"nets": [huang()], "ops": [["compile", 0, [[0, "observation", {"on": 1.0}]]], ["ace", 0, 0, 7, 0], ["sample", 0, 1, [[1, 0]]],
                                      ["dict", 0], ["evidence", 0, [[3, "observation", {"off": 1.0}]]], ["ace", 0, 0, 7, 1],
                                      ["sample", 0, 1, [[1, 0]]], ["compile", 0, []], ["load", 0], ["draw", 0]]}]
CORPUS += [{"nets": [x], "ops": [["compile", 0, []], ["dict", 0], ["load", 0], ["treecopy", 0], ["compile", 0, []], ["draw", 0]]} for x in (LARGE[1], LARGE[5], chain(45))]


@st.composite
def cases(draw, tier):
    q = tier == "quick"
    nets = [draw(gen.nets(max_nodes=6, max_joint=150 if q else 400, text="csv", max_card=3))]
    if draw(st.integers(0, 2)):
        if draw(st.integers(0, 2)):
            first = nets[0]
            nodes = []
            for n in first["nodes"]:
                k = len(n["values"])
                nodes.append(dict(n, probs=draw(gen.cpt(len(n["probs"]) // k, k))))
            nets.append(dict(first, nodes=nodes))
        else:
            nets.append(draw(gen.nets(max_nodes=4, max_joint=100, text="csv", max_card=3)))
    ops = []
    cur = list(nets)
    trees = []  # [network index, its specification, free of the network]
    for _ in range(draw(st.integers(3, 10 if q else 16))):
        i = draw(st.integers(0, len(nets) - 1))
        net = cur[i]
        kinds = ["compile", "compile", "sample", "sample", "ace", "ace", "dict", "csv", "dne", "draw", "copy", "change", "change"] + (
            ["evidence"] * 4 + ["reapply", "load", "treecopy"] if trees else [])
        k = draw(st.sampled_from(kinds))
        if k == "compile":
            trees.append([i, net, False])
            ops.append([k, i, draw(gen.evidence_list(net, max_nodes=2))])
        elif k in ("evidence", "reapply", "load", "treecopy"):
            t = draw(st.integers(0, len(trees) - 1))
            i, net, free = trees[t]
            if k == "evidence":
                ops.append([k, t, draw(gen.evidence_list(net, max_nodes=2, types=("observation", "observation", "virtual", "unobserve")))])
            elif k == "reapply":
                n = draw(st.sampled_from(net["nodes"]))
                c = len(n["values"])
                ops.append([k, t, n["id"], draw(gen.cpt(len(n["probs"]) // c, c))])
            elif k == "treecopy" or net is cur[i]:
                trees.append([i, net, True])
                ops.append([k, t])
        elif k == "change":
            what = draw(st.sampled_from(["cpt", "cpt", "add_edge", "add_leaf", "remove_leaf"]))
            step = draw(change_of(net, what, 7))
            if step and model.joint_size(net) <= 300:
                ops.append([k, i, step])
                cur[i] = step_spec(net, step)
                trees = [t for t in trees if t[0] != i or t[2]]
        elif k == "sample":
            x = draw(st.sampled_from(net["nodes"]))
            ev = [[x["id"], draw(st.integers(0, len(x["values"]) - 1))]] if draw(st.booleans()) else []
            ops.append([k, i, draw(st.integers(0, 2)), ev])
        elif k == "ace":
            if len(net["nodes"]) > 1:
                x, y = draw(st.permutations(net["nodes"]))[:2]
                ops.append([k, i, x["id"], y["id"], draw(st.integers(0, len(y["values"]) - 1))])
        else:
            ops.append([k, i])
    return {"nets": nets, "ops": ops}


def check(case):
    specs = list(case["nets"])
    bbns = [obs.build(s) for s in specs]
    trees = []  # [tree, spec, likelihoods, network, free of it]
    kept = {}  # samplers, estimators, first results
    moved = False
    changes = 0
    for step, o in enumerate(case["ops"]):
        k, i = o[0], o[1]
        what = f"step {step} ({k})"
        if k == "compile":
            jt = InferenceController.apply(bbns[i])
            assert_evidence(jt, o[2])
            trees.append([jt, specs[i], lik_of(specs[i], o[2]), i, False])
        elif k == "change":
            apply_step(bbns[i], o[2])
            with oracle():
                specs[i] = step_spec(specs[i], o[2])
            trees = [t for t in trees if t[3] != i or t[4]]
            kept = {key: v for key, v in kept.items() if key[1] != i}
            changes += 1
        elif k == "evidence" and trees:
            t = trees[i % len(trees)]
            assert_evidence(t[0], o[2])
            t[2] = lik_of(t[1], o[2], t[2])
        elif k == "reapply" and trees:
            t = trees[i % len(trees)]
            new = InferenceController.reapply(t[0], {o[2]: list(o[3])})
            with oracle():
                want = model.posteriors(dict(t[1], nodes=[dict(n, probs=o[3]) if n["id"] == o[2] else n for n in t[1]["nodes"]]))
            same_marginals(obs.posteriors(new), want, what)
        elif k == "load" and trees:
            t = trees[i % len(trees)]
            d = json.loads(json.dumps(JoinTree.to_dict(t[0], bbns[t[3]])))
            trees.append([InferenceController.apply_from_serde(JoinTree.from_dict(d)), t[1], {}, t[3], True])
        elif k == "treecopy" and trees:
            t = trees[i % len(trees)]
            trees.append([copy.deepcopy(t[0]), t[1], dict(t[2]), t[3], True])
        elif k == "sample":
            spec = specs[i]
            with oracle():
                ev, _, _ = evidence_of(spec, o[3], 0.1)
                nodes = model.by_id(spec)
                cpts = model.factors(spec)
            fresh = LogicSampler(bbns[i]).get_samples(evidence=dict(ev), n_samples=8, seed=o[2])
            sampler = kept.setdefault(("sampler", i), LogicSampler(bbns[i]))
            need(sampler.get_samples(evidence=dict(ev), n_samples=8, seed=o[2]) == fresh, f"{what}: two samplers differ for one seed")
            need(len(fresh) == 8, f"{what}: {len(fresh)} samples instead of 8")
            for s in fresh:
                need(all(s[n] == v for n, v in ev.items()), f"{what}: sample {s} with evidence {ev}")
                for vs, a in cpts:
                    need(a[tuple(nodes[v]["values"].index(s[v]) for v in vs)] > 0, f"{what}: impossible sample {s}")
            key = ("samples", i, o[2], json.dumps(o[3]))
            need(kept.setdefault(key, copy.deepcopy(fresh)) == fresh, f"{what}: other samples than at the first time")
            obs.spoil(fresh)
        elif k == "ace":
            spec, x, y, c = specs[i], o[2], o[3], o[4]
            ace = kept[("ace", i)] if ("ace", i) in kept else kept.setdefault(("ace", i), Ace(bbns[i]))
            with oracle():
                nodes = model.by_id(spec)
                yv = nodes[y]["values"][c]
                want = {v: model.do_prob(spec, x, v, y, yv) for v in positive(spec, x)}
            got = ace.get_ace(nodes[x]["name"], nodes[y]["name"], yv)
            for v in want:
                need(close(got[v], want[v]), f"{what}: P({y}={yv} | do({x}={v})) is {got[v]!r} instead of {want[v]!r}")
            obs.spoil(got)
        elif k == "dict":
            d = Bbn.to_dict(bbns[i])
            text = json.dumps(d)
            obs.spoil(d)
            d = json.loads(text)
            obs.same_spec(obs.bbn_spec(Bbn.from_dict(d)), specs[i], what)
        elif k == "csv":
            f = tempfile.NamedTemporaryFile(suffix=".csv", delete=False)
            f.close()
            try:
                Bbn.to_csv(bbns[i], f.name)
                obs.same_spec(obs.bbn_spec(Bbn.from_csv(f.name)), specs[i], what)
            finally:
                os.unlink(f.name)
        elif k == "dne":
            text = Bbn.to_dne(bbns[i])
            need(kept.setdefault(("dne", i), text) == text, f"{what}: another text than at the first time")
        elif k == "draw":
            g = convert_for_drawing(bbns[i])
            need(sorted(g.nodes) == sorted(n["id"] for n in specs[i]["nodes"]), f"{what}: nodes {list(g.nodes)}")
            need(sorted(map(list, g.edges)) == sorted(specs[i]["edges"]), f"{what}: edges {list(g.edges)}")
            g.clear()
        elif k == "copy":
            obs.same_spec(obs.bbn_spec(copy.deepcopy(bbns[i])), specs[i], what)
        for j, b in enumerate(bbns):
            obs.same_spec(obs.bbn_spec(b), specs[j], f"{what}: network {j}")
        for j, (jt, spec, lik, _, _) in enumerate(trees):
            with oracle():
                want = model.posteriors(spec, lik)
                moved = moved or (bool(lik) and differs(want, model.posteriors(spec)))
            same_marginals(obs.posteriors_once(jt), want, f"{what}: tree {j}")
    labels = sorted({o[0] for o in case["ops"]} | set(net_labels(specs[0])) | {f"networks={len(specs)}"})
    return {"nontrivial": moved and len({o[0] for o in case["ops"]}) > 2, "labels": labels}
