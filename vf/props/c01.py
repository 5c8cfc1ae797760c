"""C01 exact prior marginals."""
from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import oracle, same_marginals
from vf.props.common import LARGE, chain, clash, hourglass, huang, net_labels, spider, twinstar

EXAMPLES = (540, 12000)
RULE = ("random DAGs of 1-8 discrete nodes (forests, chains, stars, loops, dense; unordered and sparse ids, shuffled "
        "node/edge insertion, 1-4 values, zero/deterministic/skewed CPTs) and networks of 12-40 nodes (120 thorough); "
        "non-trivial: at least one edge and some marginal is not uniform; distinct by the whole spec")
CORPUS = [huang(), chain(1), chain(2, True), chain(400), chain(400, True),
          {"nodes": chain(4)["nodes"][:1] + [dict(n, id=n["id"] + 7, name="m" + n["name"]) for n in chain(4)["nodes"]],
           "edges": [[a + 7, b + 7] for a, b in chain(4)["edges"]]}]
CORPUS += LARGE + [hourglass(9, -1), hourglass(9, 95), clash(","), clash("|"), spider(150), twinstar(80, 5)]


def cases(tier):
    q = tier == "quick"
    small = gen.nets(max_nodes=8 if q else 10, max_joint=2000 if q else 6000, max_parents=5)
    big = gen.big_nets(12, 40 if q else 120)
    return st.integers(0, 19).flatmap(lambda k: big if k == 19 else small)


def check(spec):
    with oracle():
        want = model.posteriors(spec)
    jt = obs.apply(spec)
    same_marginals(obs.posteriors(jt), want, "prior", rel=True)
    same_marginals(obs.potential_posteriors(jt), want, "prior potential", rel=True)
    with oracle():
        flat = all(max(d.values()) - min(d.values()) < 1e-9 for d in want.values())
    return {"nontrivial": bool(spec["edges"]) and not flat, "labels": net_labels(spec)}
