"""C17 samples follow the network's distribution given the evidence."""
import itertools
import math
from collections import Counter

from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import fail, oracle
from vf.props.c16 import evidence_of
from vf.props.common import LARGE, huang, net_labels

from pybbn.sampling.sampling import LogicSampler

EXAMPLES = (110, 2200)
N = 3000
MANY = 40000
DELTA = 1e-12
RULE = (f"a random network of 2-7 nodes, evidence of probability at least 0.15 on 0-2 nodes, {N} samples; every cell of the joint of each "
        f"node with its parents (and of the whole network when small), within samples and across two of them, is tested with the Chernoff bound at false-alarm probability {DELTA} "
        f"per cell; every eighth case is a network of 1-3 nodes with rare values (probabilities down to 0.0008) and {MANY} samples; non-trivial: some node has two or more parents, or there is evidence")
ASSUMPTIONS = [f"a cell's frequency is rejected when its exact binomial tail bound is below {DELTA}"]
CORPUS = [{"net": huang(), "ev": [[7, 0]], "seed": 3}, {"net": huang(), "ev": [], "seed": 37}]
_v = ["a", "a,1=a", "b"]  # values that contain what stands between two values in a text key
CORPUS += [{"net": {"nodes": [{"id": 0, "name": "p", "values": _v, "probs": [.3, .3, .4]}, {"id": 1, "name": "q", "values": _v, "probs": [.2, .5, .3]},
                              {"id": 2, "name": "c", "values": ["x", "y"], "probs": [.1, .9, .2, .8, .3, .7, .95, .05, .5, .5, .6, .4, .7, .3, .8, .2, .9, .1]}],
                    "edges": [[0, 2], [1, 2]]}, "ev": [], "seed": 4}]
CORPUS += [{"net": x, "ev": [], "seed": 2} for x in LARGE[1:5]]


@st.composite
def rare_nets(draw):
    net = draw(gen.nets(min_nodes=1, max_nodes=3, max_joint=16, max_parents=2, plain_cpt=True, min_card=2))
    for n in net["nodes"]:
        k = len(n["values"])
        for r in range(0, len(n["probs"]), k):
            p = draw(st.sampled_from([0.004, 0.0015, 0.0008, 0.0008, None]))
            if p:
                i = draw(st.integers(0, k - 1))
                rest = 1 - n["probs"][r + i]
                n["probs"][r:r + k] = [p if j == i else n["probs"][r + j] / rest * (1 - p) for j in range(k)]
    return net


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 7)) == 0:
        return {"net": draw(rare_nets()), "ev": [], "seed": draw(st.integers(0, 2 ** 31)), "n": MANY}
    if draw(st.integers(0, 7)) == 0:
        return {"net": draw(gen.nets(min_nodes=8, max_nodes=12, max_joint=5000, max_parents=3, max_card=3)), "ev": [], "seed": draw(st.integers(0, 2 ** 31))}
    net = draw(gen.nets(min_nodes=2, max_nodes=7, max_joint=600, max_parents=4, text="own" if draw(st.booleans()) else "any"))
    k = len(net["nodes"])
    picks = draw(st.lists(st.integers(0, k - 1), max_size=2, unique=True))
    ev = [[net["nodes"][i]["id"], draw(st.integers(0, len(net["nodes"][i]["values"]) - 1))] for i in picks]
    return {"net": net, "ev": ev, "seed": draw(st.integers(0, 2 ** 31))}


def kl(p, q):
    d = 0.0
    for a, b in ((p, q), (1 - p, 1 - q)):
        if a > 0:
            if b <= 0:
                return math.inf
            d += a * math.log(a / b)
    return d


def check_cells(count, want, n, what):
    for cell, p in want.items():
        f = count.get(cell, 0) / n
        p = min(1.0, max(0.0, p))
        if p < 1e-12 and count.get(cell, 0):
            fail(f"{what}: {cell} occurs {count[cell]} times, its probability is {p}")
        if n * kl(f, p) > math.log(2 / DELTA) and abs(f - p) > 1e-9:
            fail(f"{what}: {cell} has frequency {f:.5f} in {n} samples, its probability is {p:.5f}")
    extra = set(count) - set(want)
    if extra:
        fail(f"{what}: unexpected {sorted(extra)[:3]}")


def check(case):
    spec = case["net"]
    n = case.get("n", N)
    with oracle():
        ev, lik, p = evidence_of(spec, case["ev"], 0.15)
        pa = model.parents_of(spec)
        groups = [pa[m["id"]] + [m["id"]] for m in spec["nodes"]]
        if model.joint_size(spec) <= 64:
            groups.append([m["id"] for m in spec["nodes"]])
        else:
            ids = [m["id"] for m in spec["nodes"]]
            groups += [list(c) for c in itertools.combinations(ids, 2)]
        wants = [model.cond_joint(spec, g, lik) for g in groups]
    samples = LogicSampler(obs.build(spec)).get_samples(evidence=ev, n_samples=n, seed=case["seed"])
    if len(samples) != n:
        fail(f"{len(samples)} samples instead of {n}")
    for g, want in zip(groups, wants):
        check_cells(Counter(tuple(s[i] for i in g) for s in samples), want, n, f"nodes {g} given {ev}")
    for g, want in zip(groups[:len(pa)], wants):  # one sample says nothing about the next
        if len(want) <= 12:
            for pairs, what in ((zip(samples[::2], samples[1::2]), "the next one"), (zip(samples[:n // 2], samples[n // 2:]), f"the one {n // 2} later")):
                with oracle():
                    both = {a + b: p * q for a, p in want.items() for b, q in want.items()}
                check_cells(Counter(tuple(s[i] for s in (x, y) for i in g) for x, y in pairs), both, n // 2, f"nodes {g} in a sample and in {what}")
    return {"nontrivial": bool(ev) or any(len(p) > 1 for p in pa.values()),
            "labels": net_labels(spec) + [f"evidence={len(ev)}"]}
