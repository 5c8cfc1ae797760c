"""C36 a call that fails leaves everything it was given, and everything made before, as it was."""
import copy
import json
import math
import os
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import HarnessError, Violation, close, need, oracle, same_marginals
from vf.props.c03 import bad, in_force
from vf.props.c19 import Libpgm, libpgm
from vf.props.common import LARGE, differs, huang, lik_of, net_labels

from pybbn.causality.ace import Ace
from pybbn.gaussian.inference import GaussianInference
from pybbn.graph.dag import Bbn
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.factory import Factory
from pybbn.graph.jointree import JoinTree
from pybbn.graph.node import BbnNode
from pybbn.graph.variable import Variable
from pybbn.pptc.inferencecontroller import InferenceController
from pybbn.sampling.sampling import LogicSampler

EXAMPLES = (640, 5000)
RULE = ("a random network of 1-6 nodes, a tree compiled from it and 2-10 calls, most of which are given something that cannot be (evidence with an unknown "
        "value or variable, a CPT that is too short or raises when it is read, an unwritable path, a damaged stored tree or description, an unknown name, a missing "
        "column, an edge that cannot be), others assert proper evidence; after each the network, the tree, an estimator, a sampler, a Gaussian model and the "
        "arguments are compared with what they were; non-trivial: calls of two kinds raised, and evidence moves a posterior")
KINDS = ["evidence", "unobserve", "reapply", "compile", "csv", "json", "edge", "remove", "ace", "load", "network", "libpgm", "data", "gaussian", "sample"]
CORPUS = [{"net": huang(), "ops": [["good", [[0, "observation", {"on": 1.0}]]]] + [[k, 3, 5, 1] for k in KINDS[1:]]
           + [["evidence", [[1, "observation", {"on": 1.0}], [2, "observation", {"on": 1.0}]], 1, "value"], ["good", [[3, "observation", {"off": 1.0}]]]]}]
CORPUS += [{"net": x, "ops": [[k, 7, 3, 0] for k in ("compile", "reapply", "unobserve", "csv", "edge")]} for x in (LARGE[1], LARGE[5])]


class Boom(list):
    """A CPT that cannot be read to its end."""

    def __init__(self, values, after):
        super().__init__(values)
        self.left = after

    def read(self):
        self.left -= 1
        if self.left < 0:
            raise OSError("this CPT cannot be read")

    def __getitem__(self, i):
        self.read()
        return super().__getitem__(i)

    def __iter__(self):
        for x in super().__iter__():
            self.read()
            yield x

    def __deepcopy__(self, memo):
        return self


@st.composite
def cases(draw, tier):
    q = tier == "quick"
    net = draw(gen.mixed(gen.nets(max_nodes=6, max_joint=200 if q else 500, text="csv", max_card=3), 14 if q else 30, 20))
    ops = []
    for _ in range(draw(st.integers(2, 10 if q else 16))):
        k = draw(st.sampled_from(["good"] * 5 + ["evidence"] * 3 + ["ace"] * 2 + KINDS[1:]))
        if k == "good":
            ops.append([k, draw(gen.evidence_list(net, max_nodes=2, types=("observation", "observation", "virtual", "unobserve")))])
        elif k == "evidence":
            evs = [draw(gen.ev_for(draw(st.sampled_from(net["nodes"])))) for _ in range(draw(st.integers(1, 3)))]
            ops.append([k, evs, draw(st.integers(0, len(evs) - 1)), draw(st.sampled_from(["value", "only", "node", "first"]))])
        else:
            ops.append([k] + draw(st.lists(st.integers(0, 30), min_size=3, max_size=3)))
    return {"net": net, "ops": ops}


def stranger(spec):
    return BbnNode(Variable(max(n["id"] for n in spec["nodes"]) + 1, "no such node", ["t", "f"]), [0.5, 0.5])


def unreadable(probs, k, how):
    """A CPT of another make: too short, none at all, or one that raises after some reads."""
    if how % 4 == 0:
        return list(probs)[:k % len(probs)]
    return None if how % 4 == 1 else Boom(probs, k % len(probs))


def damaged(d, a, b):
    """A nested dictionary without one of its entries, and without another inside."""
    d = copy.deepcopy(d)
    at = d
    for _ in range(b % 4):
        inner = [k for k in sorted(at, key=str) if isinstance(at[k], dict) and at[k]]
        if not inner:
            break
        at = at[inner[a % len(inner)]]
    keys = sorted(at, key=str)
    del at[keys[a % len(keys)]]
    return d


def passed(d, f):
    """Calls f on d, which is compared with what it was if f raises."""
    with oracle():
        before = copy.deepcopy(d)
    try:
        f(d)
    except Exception:
        need(d == before, "a description that was refused was changed")
        raise


def same_effects(x, y):
    return set(x) == set(y) and all(close(x[k], y[k]) or math.isnan(x[k]) and math.isnan(y[k]) for k in x)


def check(case):
    spec = case["net"]
    with oracle():
        small = model.joint_size(spec) <= 100  # where a few dozen propagations cost nothing
        nodes = model.by_id(spec)
        prior = model.posteriors(spec)
    bbn = obs.build(spec)
    jt = InferenceController.apply(bbn)
    lik = {}
    raised = set()
    moved = False

    # what the calls are given, or work on
    sampler = LogicSampler(bbn)
    samples = sampler.get_samples(n_samples=4, seed=3)
    x, y = spec["nodes"][0], spec["nodes"][-1]
    ace = Ace(obs.build(spec)) if len(spec["nodes"]) > 1 and small and any(o[0] == "ace" for o in case["ops"]) else None
    effects = [dict(ace.get_ace(p["name"], q["name"], q["values"][0])) for p, q in ((x, y), (y, x))] if ace else None
    stored = json.loads(json.dumps(JoinTree.to_dict(jt, bbn)))
    written = json.loads(json.dumps(Bbn.to_dict(bbn)))
    order = list(range(len(spec["nodes"])))
    with oracle():
        described = libpgm(spec, {"order": order, "data": order[::-1], "none": True})
        df = pd.DataFrame({"a": ["t", "f", "t"], "b": ["t", "t", "f"]})
        given = copy.deepcopy((stored, written, described, df))
        E = np.array([[2.0, 1.0, 0.5], [1.0, 3.0, 1.0], [0.5, 1.0, 1.5]])
    gauss = GaussianInference(["A", "B", "C"], np.array([1.0, 2.0, 3.0]), E.copy(), {}).do_inference("B", 0.5)
    params = {k: tuple(map(float, v)) for k, v in gauss.P.items()}
    gone = os.path.join(tempfile.gettempdir(), "no such directory", "file")

    def call(kind, a, b, c):
        n = spec["nodes"][a % len(spec["nodes"])]
        node = bbn.get_node(n["id"])
        if kind == "unobserve":
            jt.unobserve([jt.get_bbn_node(n["id"]), stranger(spec)])
        elif kind == "reapply":
            m = spec["nodes"][b % len(spec["nodes"])]
            InferenceController.reapply(jt, {m["id"]: list(m["probs"]), n["id"]: unreadable(n["probs"], b, c)})
        elif kind == "compile":
            right = node.probs
            try:
                node.probs = unreadable(n["probs"], b, c)
                InferenceController.apply(bbn)
            finally:
                node.probs = right
        elif kind == "csv":
            Bbn.to_csv(bbn, gone) if c % 2 else Bbn.from_csv(gone)
        elif kind == "json":
            Bbn.to_json(bbn, gone) if c % 2 else Bbn.from_json(gone)
        elif kind == "edge":
            m = bbn.get_node(spec["nodes"][b % len(spec["nodes"])]["id"])
            if c % 3 == 0:
                bbn.add_edge(Edge(node, node, EdgeType.DIRECTED))
            elif c % 3 == 1:
                bbn.add_edge(Edge(node, m, EdgeType.UNDIRECTED))
            elif spec["edges"]:  # the other way round: a cycle
                p, q = spec["edges"][b % len(spec["edges"])]
                bbn.add_edge(Edge(bbn.get_node(q), bbn.get_node(p), EdgeType.DIRECTED))
        elif kind == "remove":
            bbn.remove_node(stranger(spec).id)
        elif kind == "ace" and ace:
            ace.get_ace(*[(x["name"], y["name"], "no such value"), ("no such name", y["name"], y["values"][0]), (x["name"], "no such name", "t")][c % 3])
        elif kind == "load":
            passed(damaged(stored, a, b), lambda d: InferenceController.apply_from_serde(JoinTree.from_dict(d)))
        elif kind == "network":
            passed(damaged(written, a, b), Bbn.from_dict)
        elif kind == "libpgm":
            passed(damaged(described, a, b), (lambda d: Factory.from_libpgm_discrete_object(Libpgm(d))) if c % 2 else Factory.from_libpgm_discrete_dictionary)
        elif kind == "data":
            Factory.from_data([{"a": [], "z": ["a"]}, {"a": ["z"], "b": []}, {"a": ["b"], "b": ["a"]}, {"b": []}][c % 4], df)
        elif kind == "gaussian":
            gauss.do_inferences([[("A", 1.0), ("Z", 2.0)], [("A", "text")], [("A", None)]][c % 3])
        elif kind == "sample":
            sampler.get_samples(n_samples=[None, "3"][c % 2], seed=5)

    for step, o in enumerate(case["ops"]):
        what = f"call {step} ({o[0]})"
        if o[0] == "good":
            jt.update_evidences([obs.evidence(jt, i, t, g) for i, t, g in o[1]])
            lik = lik_of(spec, o[1], lik)
        elif o[0] == "evidence":
            if not bad(jt, nodes, o):
                break
            raised.add(o[0])
        else:
            try:
                call(*o)
            except (Violation, HarnessError):
                raise
            except Exception:
                raised.add(o[0])
        with oracle():
            want = model.posteriors(spec, lik) if lik else prior
            moved = moved or bool(lik) and differs(want, prior)
            full = {i: lik.get(i, [1.0] * len(n["values"])) for i, n in nodes.items()}
        need(in_force(jt) == full, f"{what}: evidence in force is {in_force(jt)} instead of {full}")
        same_marginals(obs.posteriors_once(jt), want, what)
        obs.same_spec(obs.bbn_spec(bbn), spec, f"{what}: the network")
        need(stored == given[0] and written == given[1] and described == given[2], f"{what}: a description was changed")
        with oracle():
            same = df.equals(given[3])
        need(same, f"{what}: the data frame was changed")
        got = {k: tuple(map(float, v)) for k, v in gauss.P.items()}
        need(got == params, f"{what}: the Gaussian model has {got} instead of {params}")

    # and all of it goes on as before
    need(sampler.get_samples(n_samples=4, seed=3) == samples, "the sampler draws other samples after failed calls")
    if ace:
        got = [dict(ace.get_ace(p["name"], q["name"], q["values"][0])) for p, q in ((y, x), (x, y))][::-1]
        need(all(map(same_effects, got, effects)), f"the estimator's answer is {got} instead of {effects} after failed calls")
    first = spec["nodes"][0]
    piece = [[first["id"], "observation", {first["values"][-1]: 1.0}]]
    jt.update_evidences([obs.evidence(jt, i, t, g) for i, t, g in piece])
    with oracle():
        want = model.posteriors(spec, lik_of(spec, piece, lik))
    same_marginals(obs.posteriors(jt), want, "evidence after failed calls")
    jt.unobserve_all()
    same_marginals(obs.posteriors(jt), prior, "all evidence withdrawn after failed calls")
    same_marginals(obs.posteriors(InferenceController.apply(bbn)), prior, "the network compiled after failed calls")
    same_marginals(obs.posteriors(InferenceController.apply_from_serde(JoinTree.from_dict(stored))), prior, "the stored tree loaded after failed calls")
    obs.same_spec(obs.bbn_spec(Factory.from_libpgm_discrete_dictionary(described)), spec, "the description imported after failed calls")
    one = gauss.do_inference("C", 2.0)
    with oracle():
        k = np.linalg.inv(E[np.ix_([1, 2], [1, 2])])
        var = E[0, 0] - E[0, 1:] @ k @ E[1:, 0]
    need(close(one.P["A"][1], var) and close(one.P["C"][0], 2.0), f"the Gaussian model gives {one.P} after failed calls")
    return {"nontrivial": len(raised) > 1 and moved, "labels": sorted(raised) + net_labels(spec)}
