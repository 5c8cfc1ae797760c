"""C31 cliques and separation sets are sets of variables; a join tree put together edge by edge stays a forest."""
import copy
import itertools
import math

from hypothesis import strategies as st

from vf import gen
from vf.core import need, oracle

from pybbn.graph.edge import Edge, EdgeType, JtEdge
from pybbn.graph.jointree import JoinTree, PathDetector
from pybbn.graph.node import BbnNode, Clique, SepSet
from pybbn.graph.variable import Variable

EXAMPLES = (900, 12000)
RULE = ("2-8 distinct cliques over 2-9 variables (at times 25 over 14) (listed in any order) and up to 25 calls that add a clique, an edge through a separation set, an "
        "ordinary edge, or copy the tree; the tree is compared with a model after every call; non-trivial: an edge was refused "
        "because its cliques were connected through another clique")
CORPUS = [{"ids": [0, 1, 2, 3, 10], "cards": [2, 3, 1, 2, 2], "cliques": [[0, 1], [2, 1], [2, 0], [3, 2, 1], [4]],
           "ops": [["edge", 0, 1], ["edge", 1, 2], ["edge", 2, 0], ["clique", 4], ["copy"], ["edge", 3, 0], ["edge", 3, 2], ["plain", 0, 3]]},
          {"ids": [12, 1, 2, 11, 112], "cards": [2] * 5, "cliques": [[1, 2], [0], [1, 4], [3, 1], [3, 2], [0, 2]],
           "ops": [["edge", 0, 2], ["edge", 0, 3], ["edge", 3, 4], ["edge", 4, 5], ["edge", 5, 0], ["edge", 1, 5]]},
          {"ids": list(range(70)), "cards": [2] * 70, "cliques": [[k, (k + 1) % 70] for k in range(70)],
           "ops": [["many", 0, 69], ["edge", 69, 0], ["edge", 69, 68], ["copy"], ["edge", 0, 69]]},
          {"ids": list(range(40, 0, -1)), "cards": [3] * 40, "cliques": [[0, k] for k in range(1, 40)] + [list(range(40))],
           "ops": [["many", 0, 38], ["edge", 3, 9], ["edge", 39, 38], ["edge", 39, 0]]},
          {"ids": list(range(250)), "cards": [2] * 250, "cliques": [[k, (k + 1) % 250] for k in range(250)], "ops": [["many", 0, 249], ["edge", 249, 0]]}]


@st.composite
def cases(draw, tier):
    n = draw(st.sampled_from([4, 5, 6, 3, 2, 9]))
    wide = draw(st.integers(0, 11)) == 0
    if wide:
        n = 14
    ids = draw(gen.idents(n))
    cards = draw(st.lists(st.sampled_from([2, 2, 3, 1, 5]), min_size=n, max_size=n))
    m = draw(st.integers(2, 8)) if not wide else 0
    cliques = [[k, k + 1] for k in range(n - 1)] + [[0, k] for k in range(2, n)] if wide else []
    for _ in range(m):
        c = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=min(n, 5), unique=True))
        if sorted(c) not in [sorted(x) for x in cliques]:
            cliques.append(c)
    m = len(cliques)
    ops = []
    if wide and draw(st.booleans()):  # one long chain to begin with
        ops = [["edge", k, k + 1] for k in range(n - 2)]
    k = draw(st.integers(1, 25 if tier == "quick" else 50))
    raw = draw(gen.blob(3 * k))
    for x in range(k):
        what, a, b = raw[3 * x] % 16, raw[3 * x + 1] % m, raw[3 * x + 2] % m
        if what == 0:
            ops.append(["clique", a])
        elif what == 1:
            ops.append(["plain", a, b])
        elif what == 2:
            ops.append(["copy"])
        else:
            if a == b and what > 3:
                b = (a + 1) % m
            ops.append(["edge", a, b])
    rate = draw(st.sampled_from([0, 0, 64, 200]))  # how often nothing is asked after a call
    quiet = [x for x in range(k) if (raw[3 * x] + raw[3 * x + 2] * 7) % 256 < rate]
    return {"ids": ids, "cards": cards, "cliques": cliques, "ops": ops, "quiet": quiet}


def check(case):
    nodes = [BbnNode(Variable(i, f"v{i}", [f"s{k}" for k in range(c)]), []) for i, c in zip(case["ids"], case["cards"])]
    members = [[nodes[k] for k in c] for c in case["cliques"]]
    cl = [Clique(list(m)) for m in members]
    if len(cl) < 100:
        algebra(nodes, members, cl)

    with oracle():
        sets = [frozenset(case["ids"][k] for k in c) for c in case["cliques"]]
    refused = False
    trees = [(JoinTree(), set(), [])]  # tree, present cliques, links
    for step, op in enumerate(case["ops"]):
        jt, present, links = trees[-1]
        what = f"after call {step} {op}"
        if op[0] == "clique":
            need(jt.add_node(cl[op[1]]) is jt, f"{what}: add_node does not return the tree")
            present.add(op[1])
        elif op[0] == "plain":
            jt.add_edge(Edge(cl[op[1]], cl[op[2]], EdgeType.UNDIRECTED))
        elif op[0] == "copy":
            new = copy.deepcopy(jt)
            trees.append((new, set(present), list(links)))
        elif op[0] == "many":  # a long chain; looked at when it is complete
            for k in range(*op[1:]):
                jt.add_edge(JtEdge(cl[k].get_sep_set(cl[k + 1])))
                links.append((k, k + 1))
                present |= {k, k + 1}
        else:
            a, b = op[1:]
            if a != b and not sets[a] & sets[b]:
                continue  # a separation set has members
            e = JtEdge(cl[a].get_sep_set(cl[b]))
            need(jt.add_edge(e) is jt, f"{what}: add_edge does not return the tree")
            with oracle():
                ok = a != b and b not in reach(links, a)
            refused = refused or (not ok and a != b and (a, b) not in links and (b, a) not in links)
            if ok:
                links.append((a, b))
                present |= {a, b}
        for t in trees[-2:] if step not in case.get("quiet", []) else ():
            compare(*t, cl, sets, what)
    for t in trees:
        compare(*t, cl, sets, "at the end")
    with oracle():
        ends = 12 if len(trees[-1][1]) > 80 else 80
        pairs = [(a, b, b in reach(trees[-1][2], a)) for a in list(trees[-1][1])[:ends] for b in list(trees[-1][1])[-ends:]]
    for a, b, want in pairs:
        need(PathDetector(trees[-1][0], cl[a].id, cl[b].id).exists() is want, f"PathDetector: {cl[a].id} to {cl[b].id} is not {want}")
    return {"nontrivial": refused, "labels": sorted({o[0] for o in case["ops"]})}


def reach(links, a):
    seen, todo = {a}, [a]
    while todo:
        x = todo.pop()
        for p, q in links:
            y = q if p == x else p if q == x else None
            if y is not None and y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def compare(jt, present, links, cl, sets, what):
    got = {c.id: frozenset(n.id for n in c.nodes) for c in jt.get_cliques()}
    with oracle():
        want = {cl[k].id: sets[k] for k in present}
    need(got == want and len(jt.get_cliques()) == len(want), f"{what}: cliques {got} instead of {want}")
    seps = jt.get_sep_sets()
    got = sorted([sorted([s.left.id, s.right.id]), sorted(n.id for n in s.nodes)] for s in seps)
    with oracle():
        want = sorted([sorted([cl[a].id, cl[b].id]), sorted(sets[a] & sets[b])] for a, b in links)
    need(got == want, f"{what}: separation sets {got} instead of {want}")
    got = sorted(sorted([e.i.id, e.j.id]) for e in jt.get_edges())
    need(got == [w[0] for w in want], f"{what}: edges {got} instead of {[w[0] for w in want]}")
    flat = sorted(sorted([e.i.id, e.j.id]) for e in jt.get_flattened_edges())
    halves = sorted(sorted([c.id, s.id]) for s in seps for c in (s.left, s.right))
    need(flat == halves, f"{what}: flattened edges {flat} instead of {halves}")
    for c in list(jt.get_cliques()) + list(seps):
        nb = sorted(x for h in halves if c.id in h for x in h if x != c.id)
        need(sorted(jt.get_neighbors(c.id)) == nb, f"{what}: neighbours of {c.id} are {sorted(jt.get_neighbors(c.id))} instead of {nb}")
    with oracle():
        ids = sorted({i for k in present for i in sets[k]})
    need(sorted(n.id for n in jt.get_bbn_nodes()) == ids, f"{what}: variables {sorted(n.id for n in jt.get_bbn_nodes())} instead of {ids}")
    for k in {i for s in sets for i in s}:
        a, b = jt.get_bbn_node(k), jt.get_bbn_node_by_name(f"v{k}")
        if k in ids:
            need(a is not None and a is b and a.id == k and a.variable.name == f"v{k}", f"{what}: get_bbn_node({k}), get_bbn_node_by_name: {a}, {b}")
        else:
            need(a is None and b is None, f"{what}: variable {k} is found but belongs to no clique: {a}, {b}")
    need(jt.get_bbn_node(-777) is None and jt.get_bbn_node_by_name("nobody") is None, f"{what}: an unknown variable is found")


def algebra(nodes, members, cl):
    with oracle():
        sets = [frozenset(n.id for n in m) for m in members]
        size = {n.id: len(n.variable.values) for n in nodes}
        name = {n.id: n.variable.name for n in nodes}
    need(len({c.id for c in cl}) == len(cl), f"distinct cliques share an id: {[c.id for c in cl]}")
    for c, m, s in zip(cl, members, sets):
        again = Clique(list(reversed(m)))
        need(again.id == c.id and again.get_sid() == c.get_sid() and str(again) == str(c), f"clique {sorted(s)}: identity depends on the order")
        need(c.get_sid() == "-".join(sorted(name[i] for i in s)) and str(c) == "(" + ",".join(sorted(name[i] for i in s)) + ")",
             f"clique {sorted(s)}: {c.get_sid()!r}, {str(c)!r}")
        need(set(c.get_node_ids()) == s and sorted(n.id for n in c.nodes) == sorted(s), f"clique {sorted(s)}: members {c.get_node_ids()}")
        need(c.get_weight() == math.prod(size[i] for i in s), f"clique {sorted(s)}: weight {c.get_weight()}")
        for n in nodes:
            need(c.contains(n.id) is (n.id in s), f"clique {sorted(s)}: contains({n.id}) is {c.contains(n.id)}")
        need(not c.is_marked(), "a new clique is marked")
        c.mark()
        need(c.is_marked() and not again.is_marked(), "mark")
        c.unmark()
        need(not c.is_marked(), "unmark")
    seen = {}
    for (c, s), (d, t) in itertools.product(list(zip(cl, sets)), repeat=2):
        what = f"cliques {sorted(s)} and {sorted(t)}"
        need(c.is_superset(d) is (s >= t), f"{what}: is_superset is {c.is_superset(d)}")
        hit, lhs, rhs, common = c.intersects(d)
        need(hit is bool(s & t) and sorted(lhs) == sorted(s) and sorted(rhs) == sorted(t) and sorted(common) == sorted(s & t),
             f"{what}: intersects gives {(hit, lhs, rhs, common)}")
        if not s & t:
            need(all(z.is_empty and not z.nodes for z in (SepSet(c, d), c.get_sep_set(d))), f"{what}: the separation set is not empty")
            continue
        if s == t:
            continue
        for z in (c.get_sep_set(d), SepSet(c, d)):
            need(z.left is c and z.right is d, f"{what}: sides of the separation set")
            need(not z.is_empty and sorted(n.id for n in z.nodes) == sorted(s & t), f"{what}: separation set {[n.id for n in z.nodes]}")
            need(z.mass == z.get_mass() == len(s & t), f"{what}: mass {z.mass}")
            need(z.cost == z.get_cost() == c.get_weight() + d.get_weight(), f"{what}: cost {z.cost}")
            need(seen.setdefault(z.id, (s, t)) == (s, t), f"{what}: the separation set has the id of the one between {seen[z.id]}")
        need(c.id not in seen, f"clique {c.id} has the id of a separation set")
