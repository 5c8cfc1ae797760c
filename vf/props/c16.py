"""C16 every sample is complete, possible and agrees with the evidence; sampling is reproducible and terminates."""
import json

from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import need, oracle
from vf.props.common import HUGE, LARGE, chain, elsewhere, huang, net_labels

from pybbn.sampling.sampling import LogicSampler

EXAMPLES = (750, 6000)
RULE = ("a random network (every eighth one with 12-60 nodes), evidence of probability at least 0.02 on 0-3 nodes, 0-60 samples; "
        "non-trivial: with evidence of probability below 1 and at least one sample")
ASSUMPTIONS = ["the evidence has probability at least 0.02 (rejection sampling does not end on impossible evidence)"]
CORPUS = [
    {"net": huang(), "ev": [[7, 0], [5, 1]], "n": 50, "seed": 3},
    {"net": huang(), "ev": [], "n": 0, "seed": 37},
    {"net": chain(60, True), "ev": [[0, 1]], "n": 20, "seed": 1},
]
CORPUS += [{"net": x, "ev": [], "n": 30, "seed": 2} for x in LARGE + HUGE]
P_MIN = 0.02
# seeds whose early draws come next to one
EDGE = {"nodes": [{"id": 4, "name": "a", "values": ["x", "y", "z"], "probs": [0.25, 0.5, 0.25]}], "edges": []}
CORPUS += [{"net": EDGE, "ev": [], "n": 600, "seed": s} for s in (79434, 146392, 208150)] + [{"net": chain(3), "ev": [], "n": 200, "seed": s} for s in (79434, 146392, 208150)]


def words(k):
    """A network whose ids, names and values give sets of texts something to shuffle."""
    ids = [3, 11, 2, 30, 1, 100, 7, 25, 9][:k]
    nodes = [{"id": i, "name": f"name {i}", "values": ["red", "green", "blue", "a,b"][:2 + j % 3],
              "probs": []} for j, i in enumerate(ids)]
    edges = [[ids[a], ids[b]] for b in range(k) for a in range(max(0, b - 3), b)]
    by = {n["id"]: n for n in nodes}
    for n in nodes:
        rows = 1
        for p, c in edges:
            if c == n["id"]:
                rows *= len(by[p]["values"])
        w = [(7 * x + n["id"]) % 11 + 1 for x in range(rows * len(n["values"]))]
        c = len(n["values"])
        n["probs"] = [x / sum(w[j // c * c:j // c * c + c]) for j, x in enumerate(w)]
    return {"nodes": nodes, "edges": edges}


def draws(cases):
    """Samples of several cases, for another process to repeat."""
    out = []
    for c in cases:
        ev = evidence_of(c["net"], c["ev"], P_MIN)[0]
        out.append([sorted(s.items()) for s in LogicSampler(obs.build(c["net"])).get_samples(evidence=ev, n_samples=c["n"], seed=c["seed"])])
    return out


CORPUS.append({"elsewhere": [{"net": words(9), "ev": [], "n": 40, "seed": 5}, {"net": words(7), "ev": [[3, 0], [1, 1]], "n": 30, "seed": 6},
                             {"net": words(5), "ev": [], "n": 40, "seed": 7}, {"net": huang(), "ev": [[7, 0]], "n": 40, "seed": 8}]})


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 7)) == 0:
        net = draw(gen.big_nets(12, 60 if tier == "quick" else 150))
    else:
        net = draw(gen.nets(max_nodes=8, max_joint=2000, max_parents=4))
    k = len(net["nodes"])
    picks = draw(st.lists(st.integers(0, k - 1), max_size=3, unique=True))
    ev = [[net["nodes"][i]["id"], draw(st.integers(0, len(net["nodes"][i]["values"]) - 1))] for i in picks]
    return {"net": net, "ev": ev, "n": draw(st.sampled_from([0, 1, 2, 20, 20, 60])), "seed": draw(st.integers(0, 2 ** 31))}


def evidence_of(spec, ev, p_min):
    """The longest prefix of the evidence that is likely enough, with its probability."""
    nodes = model.by_id(spec)
    out, lik, p = {}, {}, 1.0
    for i, k in ev:
        lik2 = dict(lik)
        lik2[i] = [1.0 if j == k else 0.0 for j in range(len(nodes[i]["values"]))]
        q = model.evidence_prob(spec, lik2)
        if q < p_min:
            continue
        out[i] = nodes[i]["values"][k]
        lik, p = lik2, q
    return out, lik, p


def check(case):
    if "elsewhere" in case:
        here = json.loads(json.dumps(draws(case["elsewhere"])))
        there = elsewhere("vf.props.c16", "draws", case["elsewhere"])
        need(here == there, "the same seed gives other samples in another process")
        return {"nontrivial": True, "labels": ["another-process"]}
    spec = case["net"]
    with oracle():
        ev, _, p = evidence_of(spec, case["ev"], P_MIN)
        nodes = model.by_id(spec)
        cpts = [(vs, a) for vs, a in model.factors(spec)]
        index = {i: {v: k for k, v in enumerate(n["values"])} for i, n in nodes.items()}
    bbn = obs.build(spec)
    sampler = LogicSampler(bbn)
    given = {i: obs.fresh(v) for i, v in ev.items()}
    n, seed = case["n"], case["seed"]
    samples = sampler.get_samples(evidence=given, n_samples=n, seed=seed)
    need(given == ev, f"the evidence passed in was changed to {given}")
    need(len(samples) == n, f"{len(samples)} samples instead of {n}")
    for s in samples:
        need(set(s) == set(nodes), f"a sample covers the nodes {sorted(s)} instead of {sorted(nodes)}")
        for i, v in s.items():
            need(v in index[i], f"a sample gives node {i} the value {v!r}")
        for i, v in ev.items():
            need(s[i] == v, f"a sample has {s[i]!r} for node {i}, whose evidence is {v!r}")
        for vs, a in cpts:
            need(a[tuple(index[i][s[i]] for i in vs)] > 0.0,
                 f"a sample has {({i: s[i] for i in vs})}, where the CPT of node {vs[-1]} is zero")
    need(len({id(s) for s in samples}) == len(samples), "two samples are one object")
    again = LogicSampler(obs.build(spec)).get_samples(evidence=dict(ev), n_samples=n, seed=seed)
    need(again == samples, "the same seed gives other samples")
    obs.spoil(again)
    again = sampler.get_samples(evidence=dict(ev), n_samples=n, seed=seed)
    need(again == samples, "the same sampler and seed give other samples")
    obs.spoil(again)
    again = LogicSampler(bbn).get_samples(evidence=dict(ev), n_samples=n, seed=seed)
    need(again == samples, "the same seed gives other samples after the first ones were emptied")
    if not ev:
        need(sampler.get_samples(n_samples=n, seed=seed) == samples, "no evidence differs from empty evidence")
    if n >= 20 and not ev:
        prefix = sampler.get_samples(n_samples=n // 2, seed=seed)
        need(len(prefix) == n // 2, f"{len(prefix)} samples instead of {n // 2}")
    obs.same_spec(obs.bbn_spec(bbn), spec, "network after sampling")
    return {"nontrivial": bool(ev) and p < 1 - 1e-9 and n > 0, "labels": net_labels(spec) + [f"n={n}", f"evidence={len(ev)}"]}
