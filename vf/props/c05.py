"""C05 the calibrated tables are the joint of their variables with the evidence."""
import itertools

from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import close_rel, need, oracle
from vf.props.common import CLASH, LARGE, assert_evidence, clash, hourglass, huang, lik_of, net_labels

EXAMPLES = (780, 8000)
RULE = ("a random network of 1-7 nodes (1-8 thorough), up to two rounds of evidence on 0-3 nodes each; non-trivial: some clique of "
        "two or more nodes, evidence with 0 < P(e) < 1")
CORPUS = [{"net": huang(), "rounds": [[[0, "observation", {"on": 1.0}]], [[7, "finding", {"off": 1.0}]]]}]
CORPUS += [{"net": x, "rounds": [[[n["id"], "observation", {n["values"][-1]: 1.0}] for n in x["nodes"][-2:]]]} for x in LARGE + [hourglass(9, -1), hourglass(9, 95)]]
CORPUS += [{"net": clash(s), "rounds": [CLASH]} for s in ",|"]


@st.composite
def cases(draw, tier):
    q = tier == "quick"
    net = draw(gen.mixed(gen.nets(max_nodes=7 if q else 8, max_joint=800 if q else 2500, max_parents=4), 20 if q else 40, 16))
    rounds = [draw(gen.evidence_list(net, max_nodes=3, types=("observation", "finding", "virtual", "unobserve")))
              for _ in range(draw(st.integers(1, 2)))]
    return {"net": net, "rounds": rounds}


def table(pot, ids, what):
    d = {}
    for e in pot.entries:
        need(set(e.entries) == set(ids), lambda: f"{what}: entry over {sorted(e.entries)} instead of {sorted(ids)}")
        k = tuple(e.entries[i] for i in ids)
        need(k not in d, lambda: f"{what}: entry {k} twice")
        d[k] = float(e.value)
    return d


def check(case):
    spec = case["net"]
    jt = obs.apply(spec)
    lik = {}
    for ev in case["rounds"]:
        lik = lik_of(spec, ev, lik)
        assert_evidence(jt, ev)
    with oracle():
        nodes = model.by_id(spec)
        comp = model.components(spec)
        pe = {}
        for rep in set(comp.values()):
            sub = {"nodes": [n for n in spec["nodes"] if comp[n["id"]] == rep],
                   "edges": [e for e in spec["edges"] if comp[e[1]] == rep]}
            l2 = {k: v for k, v in lik.items() if comp[k] == rep}
            pe[rep] = (sub, l2, model.evidence_prob(sub, l2))
    mass = {}
    big = False
    for c in list(jt.get_cliques()) + list(jt.get_sep_sets()):
        ids = sorted(n.id for n in c.nodes)
        what = f"table of {c.id}"
        got = table(jt.potentials[c.id], ids, what)
        with oracle():
            rep = comp[ids[0]]
            want = model.cond_joint(pe[rep][0], ids, pe[rep][1])
            combos = list(itertools.product(*[nodes[i]["values"] for i in ids]))
        need(set(got) == set(combos), f"{what}: {len(got)} entries instead of {len(combos)}")
        total = sum(got.values())
        if want is None:
            need(all(x == 0 for x in got.values()), f"{what}: not all zero under impossible evidence")
            continue
        need(total > 0, f"{what}: all zero although the evidence is possible")
        for k in combos:
            need(close_rel(got[k] / total, want[k]), lambda: f"{what}: entry {k} is {got[k] / total}, expected {want[k]}")
        m = mass.setdefault(rep, total)
        need(abs(m - total) <= 1e-9 * max(m, total), f"{what}: mass {total}, elsewhere in the tree {m}")
        big = big or len(ids) > 1
    p = 1.0
    for x in pe.values():
        p *= x[2]
    return {"nontrivial": big and 0 < p < 1 - 1e-9,
            "labels": net_labels(spec) + (["impossible"] if p == 0 else [])}
