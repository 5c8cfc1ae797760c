"""C28 potential algebra: product, marginal, quotient and normalisation of tables."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import need, oracle

from pybbn.graph.jointree import JoinTree
from pybbn.graph.node import BbnNode, Clique, SepSet
from pybbn.graph.potential import Potential, PotentialEntry, PotentialUtil
from pybbn.graph.variable import Variable

EXAMPLES = (2000, 12000)
RULE = ("random tables (with zeros, at times of very small or large entries) over 1-4 (at times 8) variables of 1-3 (14) values and random sub-scopes; multiplied, marginalised, divided, normalised and "
        "passed as messages; non-trivial: the sub-scope is a proper, non-empty subset and a table has a zero")
CORPUS = [{"cards": [2, 3], "ids": [4, 1], "a": [0, 1, 2, 3, 0, 5], "sub": [1], "b": [0.5, 0, 2], "c": [0, 0, 1], "odd": False}]


@st.composite
def cases(draw, tier):
    size = draw(st.integers(0, 19))
    n = draw(st.sampled_from([2, 3, 1, 4] if size else [5, 6, 7, 8]))
    cards = draw(st.lists(st.sampled_from([2, 2, 3, 1] if n < 5 else [2]), min_size=n, max_size=n))
    if size == 1:  # a variable of many values
        cards[draw(st.integers(0, n - 1))] = draw(st.integers(4, 14 if n < 4 else 6))
    ids = list(draw(st.permutations([0, 1, 2, 3, 4, 10, 11, 20, 100])))[:n]
    sub = list(draw(st.permutations(range(n))))[:draw(st.integers(1, n))]
    size = int(np.prod(cards))
    k = int(np.prod([cards[i] for i in sub]))
    zeros = draw(st.sampled_from([3, 10 ** 9, 2]))

    def table(m):
        return [0.0 if x % zeros == zeros - 1 else (x + 1) / 16 for x in draw(gen.blob(m))]

    unit = draw(st.sampled_from([1.0] * 12 + [1e-285, 1e-220, 1e-90, 1e-30, 1e-12, 1e12, 1e200]))
    return {"unit": unit, "cards": cards, "ids": ids, "sub": sub, "a": table(size), "b": table(k), "c": table(k),
            "odd": draw(st.sampled_from([False, True, "numbers"]))}


def as_dict(p):
    d = {}
    for e in p.entries:
        k = frozenset(e.entries.items())
        need(k not in d, f"the table lists {dict(k)} twice")
        d[k] = e.value
    return d


def same(got, want, what):
    got = as_dict(got)
    need(set(got) == set(want), f"{what}: entries {[dict(k) for k in got]} instead of {[dict(k) for k in want]}")
    for k, v in want.items():
        need(abs(got[k] - v) <= 1e-12 * abs(v) + 1e-305, f"{what}: {dict(k)} is {got[k]!r} instead of {v!r}")


def check(case):
    vals = gen.enough({True: ["", "a|b", "a"], False: ["off", "on", "x"], "numbers": [-1, -2, 0.5, 1, "1", 10 ** 20, "-1"]}[case["odd"]], max(3, *case["cards"]))
    nodes = [BbnNode(Variable(i, f"v{i}", vals[:c]), []) for i, c in zip(case["ids"], case["cards"])]
    sub = [nodes[i] for i in case["sub"]]

    def combos(ns):
        return [frozenset(zip([n.id for n in ns], c)) for c in itertools.product(*[n.variable.values for n in ns])]

    def fill(p, table):
        need(len(p.entries) == len(table), f"{len(p.entries)} entries for {len(table)} values")
        for e, v in zip(p.entries, table):
            e.value = v
        return p

    make = PotentialUtil.get_potential_from_nodes
    unit = case.get("unit", 1.0)
    case = dict(case, a=[x * unit for x in case["a"]])
    with oracle():
        cells, scells = combos(nodes), combos(sub)
        A = dict(zip(cells, case["a"]))
        B = dict(zip(scells, case["b"]))
        C = dict(zip(scells, case["c"]))
        marg = {s: sum(v for k, v in A.items() if s <= k) for s in scells}

    # fresh tables: every combination once, in the order of the product, with value 1
    p = make(nodes)
    need([frozenset(e.entries.items()) for e in p.entries] == cells, "get_potential_from_nodes: combinations or their order differ")
    same(p, {k: 1.0 for k in cells}, "get_potential_from_nodes")
    need(PotentialUtil.get_cartesian_product([n.variable.values for n in nodes])
         == list(itertools.product(*[n.variable.values for n in nodes])), "get_cartesian_product")

    # a CPT: parents first, the node itself fastest
    nodes[-1].probs = list(case["a"])
    same(PotentialUtil.get_potential(nodes[-1], nodes[:-1]), A, "get_potential")

    # product
    a, b = fill(make(nodes), case["a"]), fill(make(sub), case["b"])
    PotentialUtil.multiply(a, b)
    same(a, {k: v * next(B[s] for s in scells if s <= k) for k, v in A.items()}, "multiply")
    same(b, B, "multiply changed its smaller operand: it")

    # quotient; 0 where either side is 0
    b, c = fill(make(sub), case["b"]), fill(make(sub), case["c"])
    q = PotentialUtil.divide(b, c)
    same(q, {k: 0.0 if B[k] == 0 or C[k] == 0 else B[k] / C[k] for k in scells}, "divide")
    same(b, B, "divide changed its numerator: it")
    same(c, C, "divide changed its denominator: it")

    b, c = fill(make(sub), [x * unit for x in case["b"]]), fill(make(sub), [x * unit for x in case["c"]])
    q = PotentialUtil.divide(b, c)
    same(q, {k: 0.0 if B[k] == 0 or C[k] == 0 else B[k] / C[k] for k in scells}, f"divide (tables in units of {unit})")

    # normalisation
    a = fill(make(nodes), case["a"])
    total = sum(case["a"])
    n = PotentialUtil.normalize(a)
    need(n is a, "normalize returns another table")
    same(n, {k: v / total if total else 0.0 for k, v in A.items()}, "normalize")

    # tables next to a neutral one (a total next to 1, factors next to 1) are still computed with
    if total and unit == 1.0:
        for near in (1 + 2e-8, 1 - 3e-6):
            table = [x / total * near for x in case["a"]]
            want = sum(table)
            same(PotentialUtil.normalize(fill(make(nodes), table)), {k: v / want for k, v in zip(cells, table)}, f"normalize (total {want!r})")
            a, b = fill(make(nodes), case["a"]), fill(make(sub), [near] * len(scells))
            PotentialUtil.multiply(a, b)
            same(a, {k: v * near for k, v in A.items()}, f"multiply by a table of {near!r}")
            q = PotentialUtil.divide(fill(make(sub), case["b"]), fill(make(sub), [near] * len(scells)))
            same(q, {k: B[k] / near for k in scells}, f"divide by a table of {near!r}")
            q = PotentialUtil.divide(fill(make(sub), [x * near for x in case["b"]]), fill(make(sub), case["b"]))
            same(q, {k: B[k] * near / B[k] if B[k] else 0.0 for k in scells}, f"divide tables that differ by a factor {near!r}")

    # marginal and message passing inside a join tree
    x = Clique(list(nodes))
    jt = JoinTree()
    jt.add_potential(x, fill(make(nodes), case["a"]))
    same(PotentialUtil.marginalize_for(jt, x, sub), marg, "marginalize_for")
    same(jt.potentials[x.id], A, "marginalize_for changed the clique's table: it")
    y = Clique(list(sub) + [BbnNode(Variable(99, "w", ["0", "1"]), [])])
    s = SepSet(x, y)
    with oracle():
        ynodes = y.nodes
        ycells = combos(ynodes)
        ytab = [(k % 5) / 4 for k in range(len(ycells))]
        order = combos(s.nodes)
        old = {k: B[k] for k in order}
        new = {k: marg[k] for k in order}
        ratio = {k: 0.0 if new[k] == 0 or old[k] == 0 else new[k] / old[k] for k in order}
        Y = dict(zip(ycells, ytab))
        wantY = {k: v * next(ratio[z] for z in order if z <= k) for k, v in Y.items()}
    jt.add_potential(y, fill(make(ynodes), ytab))
    jt.add_potential(s, fill(make(s.nodes), [old[k] for k in order]))
    PotentialUtil.pass_single_message(jt, x, s, y)
    same(jt.potentials[s.id], new, "pass_single_message: separation set")
    same(jt.potentials[y.id], wantY, "pass_single_message: receiving clique")
    same(jt.potentials[x.id], A, "pass_single_message: sending clique")

    # entries
    a = fill(make(nodes), case["a"])
    for e in fill(make(sub), case["b"]).entries:
        got = [frozenset(m.entries.items()) for m in a.get_matching_entries(e)]
        need(got == [k for k in cells if frozenset(e.entries.items()) <= k], "get_matching_entries")
        d = e.duplicate()
        need(d is not e and d.entries == e.entries and d.value == e.value, "duplicate differs")
        d.add(77, "z")
        d.value = -1.0
        need(77 not in e.entries and e.value != -1.0, "changing a duplicate changes the entry")
        need(e.matches(PotentialEntry()) and not e.matches(d), "matches")
        need(e.get_entry_keys() == sorted(e.entries.items(), key=lambda t: t[0]), "get_entry_keys is not sorted by id")
    if not case["odd"]:
        d = Potential.to_dict([a])
        need(d == {"|".join(f"{i}={v}" for i, v in sorted(k)): x for k, x in A.items()}, f"to_dict is {d}")
    return {"nontrivial": 0 < len(sub) < len(nodes) and 0.0 in case["a"] + case["b"] + case["c"],
            "labels": [f"n={len(nodes)}"] + (["zero/zero"] if any(B[k] == 0 == C[k] for k in scells) else [])}
