"""C18 a network learned from data has the relative frequencies as its CPTs."""
import math
from collections import Counter
from itertools import product

import pandas as pd
from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import close, need, oracle, same_marginals

from pybbn.graph.factory import Factory
from pybbn.graph.jointree import EvidenceBuilder
from pybbn.pptc.inferencecontroller import InferenceController

EXAMPLES = (750, 6000)
RULE = ("a random data frame of 1-6 columns and 1-60 rows (at times repeated to some thousands; with any index, at times of objects or categories) with a random acyclic structure over its columns; non-trivial: a column has two or "
        "more parents, or a parent configuration that never occurs")
CORPUS = [
    {"cols": ["c", "a", "b"], "kind": "str", "rows": [[0, 0, 0], [1, 0, 1], [1, 1, 1], [0, 1, 0], [1, 1, 0]],
     "structure": [["c", ["b", "a"]], ["a", []], ["b", ["a"]]], "perm": [2, 0, 1]},
    {"cols": ["it's", 'x"y', "a b", "lambda"], "kind": "int", "rows": [[0, 1, 2, 0], [1, 1, 0, 0], [2, 0, 0, 1]],
     "structure": [["lambda", ["it's", 'x"y']], ["it's", ["a b"]], ["a b", []], ['x"y', []]], "perm": [3, 1, 0, 2]},
    {"cols": ["a", "b", "c"], "kind": "str", "rows": [[0, 0, 1], [1, 1, 1], [0, 1, 2], [2, 0, 0], [1, 0, 0]], "times": 2001,
     "structure": [["a", []], ["b", ["a"]], ["c", ["b", "a"]]], "perm": [1, 0, 2]},
    {"cols": ["a", "b", "c"], "kind": "str", "rows": [[1, 2, 2], [0, 0, 1], [0, 1, 1], [0, 1, 2], [2, 0, 0], [2, 0, 0]], "times": 30000, "once": 1,
     "structure": [["a", []], ["b", ["a"]], ["c", ["b", "a"]]], "perm": [1, 0, 2]},
    {"cols": [f"c{k}" for k in range(40)], "kind": "digits", "rows": [[(r * 7 + k * k) % 3 for k in range(40)] for r in range(9)],
     "structure": [[f"c{k}", [f"c{k - 1}"] * (k > 0)] for k in range(40)], "perm": list(range(40))},
    {"cols": [f"c{k}" for k in range(10)], "kind": "str", "rows": [[r >> k & 1 for k in range(10)] for r in range(0, 1024, 3)],
     "structure": [[f"c{k}", [f"c{j}" for j in range(9)] if k == 9 else []] for k in range(10)], "perm": list(range(10))},
    {"cols": ["a", "b", "c"], "kind": "many", "rows": [[r, (r * r) % 83, (r * 7 + r // 9) % 2] for r in list(range(150)) + list(range(0, 150, 2))],
     "structure": [["a", []], ["b", ["c"]], ["c", ["a"]]], "perm": [1, 0, 2]},
    {"cols": ["a", "b"], "kind": "many", "rows": [[r, (r * 7 + r // 9) % 2] for r in list(range(320)) + list(range(0, 320, 5))],
     "structure": [["a", []], ["b", ["a"]]], "perm": [1, 0]},
]
NAMES = ["a", "b", "c", "d", "e", "f", "x1", "x2", "x10", "it's", 'p"q', "a b", "A", "lambda", "shape", "index", "n", "v", "é", "==", "1"]
VALUES = {
    "str": ["t", "f", "maybe", "it's", "T", "", " ", "True", "1", "x,y", "[a]", "\u00e9"],
    "digits": ["10", "9", "1", "2", "100", "11", "0", "20", "3", "-1", "12", "007"],
    "int": [3, 1, 2, 10, 20, 100, 4, 30, 11, 12, 1000, 5],
    "zero": [0, 1, -1, 2, -2, 10, -10, 3, 4, 5, 6, 7],
    "float": [0.5, 2.0, -1.0, 10.25, 1e-3, 1e6, 100.0, 0.1, 20.0, 3.0, 1.5, -0.25],
    "close": [1000000, 1000001, 1000002, 999999, 10 ** 9, 10 ** 9 + 1, 2 ** 53, 2 ** 53 - 1, 1000003, 1000004, 1000005, 1000006],
    "fclose": [1.0, 1.0 + 1e-9, 0.1 + 0.2, 0.3, 1e-12, 2e-12, 1e15, 1e15 + 1, 5.0, 5.0000001, -1e-12, 0.30000001],
    "bool": [True, False],
    "many": [f"value {k}" for k in range(320)],
}


@st.composite
def cases(draw, tier):
    n = draw(st.integers(1, 6))
    cols = list(draw(st.permutations(NAMES)))[:n]
    card = draw(st.lists(st.sampled_from([2, 2, 3, 4, 1, 2, 3, 7, 12]), min_size=n, max_size=n))
    pas = draw(gen.shape(n, 5))
    for j in range(n):  # bounded CPTs
        while len(pas[j]) > 1 and math.prod(card[q] for q in pas[j]) > 300:
            pas[j] = pas[j][:-1]
    order = list(draw(st.permutations(range(n))))
    structure = [[cols[j], [cols[q] for q in draw(st.permutations(pas[j]))]] for j in order]
    m = draw(st.integers(1, 60 if tier == "quick" else 200))
    b = draw(gen.blob(n * m))
    kind = draw(st.sampled_from([k for k in VALUES if k != "many"] + ["mixed"]))
    kinds = [draw(st.sampled_from([k for k in VALUES if k != "many"])) if kind == "mixed" else kind for _ in range(n)]
    rows = [[b[r * n + j] % min(card[j], len(VALUES[kinds[j]])) for j in range(n)] for r in range(m)]
    perm = list(draw(st.permutations(range(n))))
    index = draw(st.sampled_from(["plain", "plain", "reversed", "offset", "repeated", "text", "columns"]))
    ev = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 11)).map(list), max_size=2))
    gone = draw(st.lists(st.integers(0, m - 1), min_size=1, max_size=3))
    return {"gone": gone, "cut": draw(st.integers(0, 5)), "ev": ev, "times": draw(st.sampled_from([1] * 30 + [40 if m > 20 else 1000])), "once": draw(st.integers(0, 2)), "index": index, "dtype": draw(st.sampled_from(["plain"] * 4 + ["object", "category"])), "cols": cols, "kind": kind, "kinds": kinds, "rows": rows, "structure": structure, "perm": perm}


def read(bbn, name):
    """values, parent names and CPT (indexed by parent names -> values) as stored."""
    nodes = {n.variable.name: n for n in bbn.get_nodes()}
    names = {n.id: n.variable.name for n in bbn.get_nodes()}
    node = nodes[name]
    pa = [names[e.i.id] for e in bbn.get_edges() if e.j.id == node.id]
    k = len(node.variable.values)
    combos = list(product(*[nodes[p].variable.values for p in pa]))
    need(len(node.probs) == len(combos) * k, f"CPT of {name!r} has {len(node.probs)} entries for {len(combos)} x {k}")
    cpt = {}
    for r, c in enumerate(combos):
        cpt[frozenset(zip(pa, c))] = [float(x) for x in node.probs[r * k:(r + 1) * k]]
    return list(node.variable.values), pa, cpt


def learn(cols, rows, structure, passed, df, note):
    """Learns a network and compares it with the counts."""
    with oracle():
        df0 = df.copy(deep=True)
        domain = {c: sorted({r[j] for r in rows}) for j, c in enumerate(cols)}
        recs = [dict(zip(cols, r)) for r in rows]
    bbn = Factory.from_data(passed, df)
    need(passed == structure, "the structure passed in was changed")
    with oracle():
        unchanged = df.equals(df0)
    need(unchanged, "the data frame was changed")
    names = [n.variable.name for n in bbn.get_nodes()]
    need(sorted(names) == sorted(cols), f"nodes {names}")
    need(len({n.id for n in bbn.get_nodes()}) == len(cols), "two nodes have the same id")
    need(len(bbn.get_edges()) == sum(len(p) for p in structure.values()), f"{len(bbn.get_edges())} edges")
    unseen = False
    spec_nodes, spec_edges = [], []
    for c in cols:
        values, pa, cpt = read(bbn, c)
        need(values == domain[c], f"{note}values of {c!r} are {values} instead of {domain[c]}")
        need(sorted(pa) == sorted(structure[c]), f"{note}parents of {c!r} are {pa} instead of {structure[c]}")
        with oracle():
            ps = structure[c]
            fam = Counter(tuple(r[x] for x in ps + [c]) for r in recs)
            flat = []
        for combo in product(*[domain[p] for p in ps]):
            den = sum(fam[combo + (v,)] for v in domain[c])
            unseen = unseen or den == 0
            want = [fam[combo + (v,)] / den if den else 1 / len(domain[c]) for v in domain[c]]
            got = cpt[frozenset(zip(ps, combo))]
            need(all(close(x, y) for x, y in zip(got, want)), f"{note}P({c!r} | {dict(zip(ps, combo))}) is {got} instead of {want}")
            flat += want
        spec_nodes.append({"id": c, "name": c, "values": [str(v) for v in domain[c]], "probs": flat})
        spec_edges += [[p, c] for p in ps]
    return bbn, domain, {"nodes": spec_nodes, "edges": spec_edges}, unseen


def check(case):
    cols = case["cols"]
    vals = [VALUES[k] for k in case.get("kinds") or [case["kind"]] * len(cols)]
    once = case.get("once", 0)  # so many rows are not repeated
    rows = [[vals[j][k] for j, k in enumerate(r)] for x, r in enumerate(case["rows"]) for _ in range(case.get("times", 1) if x >= once else 1)]
    structure = {c: list(p) for c, p in case["structure"]}

    with oracle():
        df = pd.DataFrame([[r[cols.index(cols[j])] for j in case["perm"]] for r in rows], columns=[cols[j] for j in case["perm"]])
        m = len(rows)
        df.index = {"reversed": range(m - 1, -1, -1), "offset": range(7, m + 7), "repeated": [k // 3 for k in range(m)],
                    "text": [f"r{k * 7 % (m + 1)}" for k in range(m)], "columns": [cols[k % len(cols)] for k in range(m)]}.get(case.get("index"), range(m))
        if case.get("dtype", "plain") != "plain":
            df = df.astype(case["dtype"])
    passed = {c: list(p) for c, p in structure.items()}
    bbn, domain, spec, unseen = learn(cols, rows, structure, passed, df, "")
    # the same through exact inference
    with oracle():
        small = model.joint_size(spec) <= 3000
        want = model.posteriors(spec) if small else None
    if small:
        jt = InferenceController.apply(bbn)
        same_marginals(obs.posteriors(jt), want, "inference on the learned network")
        for j, k in case.get("ev", []):  # observed as the data have it: a number, a truth value, a text
            c = cols[j % len(cols)]
            k %= len(domain[c])
            with oracle():
                want = model.posteriors(spec, {c: [float(x == k) for x in range(len(domain[c]))]})
            node = jt.get_bbn_node_by_name(c)
            jt.unobserve_all()
            jt.update_evidences([EvidenceBuilder().with_node(node).with_evidence(domain[c][k], 1.0).build()])
            same_marginals(obs.posteriors(jt), want, f"given that {c!r} is {domain[c][k]!r}")
    # the same objects with other contents
    with oracle():
        gone = [x % len(rows) for x in case.get("gone", [0])]
        keep = [x for x in range(len(rows)) if x not in gone]
        if not keep:
            keep, gone = [0], list(range(1, len(rows)))
        last = cols[case.get("cut", 0) % len(cols)]
        passed[last].clear()
        structure = dict(structure, **{last: []})
        rows = [rows[x] for x in keep]
        df.reset_index(drop=True, inplace=True)
        df.drop(index=sorted(set(gone)), inplace=True)
        if case.get("dtype") == "category":  # a category without rows is a value all the same
            for c in cols:
                df[c] = df[c].cat.remove_unused_categories()
    learn(cols, rows, structure, passed, df, "with rows and parents left out: ")
    return {"nontrivial": unseen or any(len(p) > 1 for p in structure.values()),
            "labels": [case["kind"], "unseen-configuration" if unseen else "all-seen"]}
