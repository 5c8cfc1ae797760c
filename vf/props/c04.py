"""C04 the join tree is a valid junction forest of the network."""
from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import need, oracle
from vf.props.common import LARGE, chain, huang, net_labels, twinstar

EXAMPLES = (610, 10000)
RULE = ("a random network (1-9 binary-ish nodes, dense and loopy shapes favoured, sometimes 12-40 nodes); non-trivial: "
        "the join tree has at least three cliques, or a clique that is not a family of the network (fill-in)")
CORPUS = [huang(), chain(60, True)]
CORPUS += LARGE + [twinstar(80, 5)]


def cases(tier):
    q = tier == "quick"
    small = gen.nets(min_nodes=1, max_nodes=9 if q else 12, max_joint=1100 if q else 4200, max_parents=5,
                     kinds=["random", "dense", "loop", "loop", "random", "forest", "tree", "star", "sink"],
                     plain_cpt=True, large=True)
    big = gen.big_nets(12, 40 if q else 100)
    return st.integers(0, 15).flatmap(lambda k: big if k == 15 else small)


def check(spec):
    jt = obs.apply(spec)
    return structure(spec, jt)


def structure(spec, jt):
    with oracle():
        ids = {n["id"] for n in spec["nodes"]}
        fams = [frozenset(p + [i]) for i, p in model.parents_of(spec).items()]
        n_comp = len(set(model.components(spec).values()))
    cl = {c.id: frozenset(n.id for n in c.nodes) for c in jt.get_cliques()}
    need(len(cl) == len(list(jt.get_cliques())), "two cliques share an id")
    for c in jt.get_cliques():
        need(len(c.nodes) == len(cl[c.id]), f"clique {c.id} lists a node twice")
        need(set(c.get_node_ids()) == set(cl[c.id]), f"clique {c.id}: node ids {c.get_node_ids()}")
    sets = list(cl.values())
    need(frozenset().union(*sets) == ids, f"cliques cover {sorted(frozenset().union(*sets))} instead of {sorted(ids)}")
    for f in fams:
        need(any(f <= s for s in sets), f"no clique contains the family {sorted(f)}")
    for i, s in enumerate(sets):
        for t in sets[i + 1:]:
            need(not (s <= t or t <= s), f"clique {sorted(s)} and clique {sorted(t)}: one contains the other")
    # edges through separation sets
    links = []
    for e in jt.get_edges():
        s = e.sep_set
        l, r = s.left.id, s.right.id
        need(l in cl and r in cl and l != r, f"separation set {s.id} does not join two cliques of the tree")
        got = frozenset(n.id for n in s.nodes)
        need(got == cl[l] & cl[r] and got,
             f"separation set between {sorted(cl[l])} and {sorted(cl[r])} is {sorted(got)}")
        links.append((l, r, got, s.id))
    need(sorted(s.id for s in jt.get_sep_sets()) == sorted(x[3] for x in links),
         "the separation sets and the edges of the tree do not match")
    nb = {i: set() for i in list(cl) + [x[3] for x in links]}
    for l, r, _, sid in links:
        nb[l].add(sid)
        nb[r].add(sid)
        nb[sid] |= {l, r}
    for i in nb:
        need(set(jt.get_neighbors(i)) == nb[i], f"neighbours of {i} are {set(jt.get_neighbors(i))} instead of {nb[i]}")

    def reach(start, ok):
        seen, todo = {start}, [start]
        while todo:
            x = todo.pop()
            for l, r, s, _ in links:
                y = r if l == x else l if r == x else None
                if y is not None and y not in seen and ok(y, s):
                    seen.add(y)
                    todo.append(y)
        return seen

    left, trees = set(cl), 0
    while left:
        left -= reach(min(left), lambda y, s: True)
        trees += 1
    need(trees == n_comp, f"{trees} trees for {n_comp} connected components")
    need(len(links) == len(cl) - trees, f"{len(links)} edges over {len(cl)} cliques in {trees} trees: not a forest")
    for v in ids:
        has = {c for c, s in cl.items() if v in s}
        need(reach(min(has), lambda y, s: v in cl[y] and v in s) == has,
             f"running intersection: the cliques with node {v} are not connected through it")
    flat = jt.get_flattened_edges()
    got = sorted(tuple(sorted((e.i.id, e.j.id))) for e in flat)
    want = sorted(tuple(sorted((c, s))) for l, r, _, s in links for c in (l, r))
    need(got == want, f"flattened edges {got} instead of {want}")
    fill = any(s not in fams for s in sets)
    return {"nontrivial": len(cl) >= 3 or fill, "labels": net_labels(spec) + (["fill-in"] if fill else [])}
