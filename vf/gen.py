"""Hypothesis strategies for JSON case specs. Every random choice is a draw."""
import random

from hypothesis import strategies as st

PLAIN = list("abcdefghijklmnopqrstuvwxyz")
WORDS = ["Smoking", "smoking", "LungCancer", "X1", "X", "X10", "x_1", "ASIA", "v", "_a", "A_Long_Identifier_With_Words", "node2", "kind", "x", "Y"]
ODD_NAMES = ["a b", "é", "x|y", "1", "A", "a", "it's", "p,q", '"q"', "x=y", "0-1", "日本", "_", "b->c", "#", "%s",
             "a--b", "{0}", "None", "id", "nodes", "->", "2", "10",
             "a very long name " * 4, "N" * 130, "\\", "a/b", "x\ny", "👍"]
CSV_NAMES = ["a b", "é", "1", "A", "a", "it's", '"q"', "x=y", "0-1", "日本", "_", "b->c", "#", "%s", "directed",
             "None", "2", "10", "a\tb", "x;y", "a very long name " * 4 + ".", "N" * 130, "\\", "a/b", "👍", "a\u2029b", "a\x0cb"]
CSV_TWINS = [("a", "A"), ("1", "01"), ("\u00e9", "e\u0301"), ("stra\u00dfe", "strasse"), ("x", "x\u200b"), ("N" * 64 + "1", "N" * 64 + "2"), ("a b", "a  b"), ("a-b", "a_b")]
TWINS = [("a", "a "), (" a", "a"), ("a\n", "a"), ("", " "), ("1", "1.0"), ("a,b", "a, b")]
POOLS = [
    ["on", "off", "maybe", "never"],
    ["off", "on", "2", "1"],
    ["0", "1", "2", "3"],
    ["true", "false", "na", "unknown"],
    ["z", "y", "x", "w"],
    ["10", "9", "1", "11"],
    ["state0", "state1", "state2", "state3"],
    ["T", "F", "NA", "Unknown"],
    ["Low", "MEDIUM", "high", "VeryHigh"],
]
ODD_POOLS = [
    ["", " ", "  ", "\t"],
    ["a=1", "a|b", "a,b", "a-b"],
    ["on", "ON", "On", "oN"],
    ["日", "本", "é", "e"],
    ["1.0", "1", "True", "01"],
    ["value " * 12, "value " * 12 + "2", "v" * 90, "-"],
    ["<5", "5-10", ">=10", "5"],
    ["a", "a,1=a", "a|1=a", "1=a"],
    ["x\u2028y", "x\x0by", "\x85", "x\x00"],
]
CSV_POOLS = [
    ["on", "ON", "On", "oN"],
    ["日", "本", "é", "e"],
    ["1.0", "1", "True", "01"],
    ["a=1", "a b", "a-b", "a;b"],
    ["directed", "undirected", "node", "edge"],
    ["v" * 90, "v" * 91, "<5", ">=10"],
    ["x\u2028y", "x\x0by", "x\x85y", "x\x1cy"],
]


def enough(pool, k):
    """k value names, beginning with the pool's."""
    if pool[0] == "0":
        return [str(i) for i in range(k)]
    if pool[0] == "state0":
        return [f"state{i}" for i in range(k)]
    return pool[:k] + [f"v{i}" for i in range(k - len(pool))]


MASK = random.Random(20240229).randbytes(4096)


def blob(n):
    """n bytes. The engine favours runs of zeros; masking turns those into an irregular pattern."""
    return st.binary(min_size=n, max_size=n).map(lambda b: bytes(x ^ MASK[i % 4096] for i, x in enumerate(b)))


@st.composite
def cpt(draw, rows, k, positive=False, kind=None):
    """rows*k probabilities, each row normalised."""
    if kind is None:
        kinds = ["generic"] * 9 + ["skew", "uniform"] if positive else ["generic"] * 9 + ["zeros"] * 3 + ["det", "skew", "uniform"]
        kind = draw(st.sampled_from(kinds))
    b = draw(blob(rows * k))
    out = []
    for r in range(rows):
        w = list(b[r * k:(r + 1) * k])
        if kind == "generic":
            w = [x + 1.0 for x in w]
        elif kind == "uniform":
            w = [1.0] * k
        elif kind == "zeros":
            w = [0.0 if x % 5 < 2 else float(x) for x in w]
            if not any(w):
                w[sum(b[r * k:(r + 1) * k]) % k] = 1.0
        elif kind == "det":
            pos = sum(w) % k
            w = [1.0 if i == pos else 0.0 for i in range(k)]
        else:
            w = [10.0 ** -(x % (6 if b[-1] % 2 else 14)) for x in w]
        s = sum(w)
        out.extend([x / s for x in w])
    if kind in ("det", "zeros") and sum(b) % 2:
        out = [int(x) if x == int(x) else x for x in out]  # 0 and 1 as people write them
    return out


@st.composite
def shape(draw, n, max_parents=3, kinds=None):
    """Parents of 0..n-1 (topological positions); list of lists of earlier positions."""
    kind = draw(st.sampled_from(kinds or ["random", "random", "random", "chain", "tree", "star", "hub", "sink", "forest",
                                          "loop", "dense", "fan"]))
    pas = []
    for j in range(n):
        if j == 0:
            pas.append([])
            continue
        if kind == "chain":
            pas.append([j - 1])
        elif kind == "tree":
            pas.append([draw(st.integers(0, j - 1))])
        elif kind == "star":
            pas.append([0])
        elif kind == "sink":
            pas.append(list(range(min(j, max_parents))) if j == n - 1 else [])
        elif kind == "hub":  # one node with children that have their own
            pas.append([draw(st.sampled_from([0, 0, 0, j - 1, max(0, j - 2)]))])
        elif kind == "forest":
            pas.append(draw(st.lists(st.integers(0, j - 1), max_size=1, unique=True)))
        elif kind == "loop":  # an undirected cycle of any length: chordless loops need fill-in
            pas.append([j - 1] if j < n - 1 else sorted({0, j - 1}))
        elif kind == "fan":  # a node that may have every other one as a parent
            pas.append(list(range(j)) if j == n - 1 and n <= 9 else draw(st.lists(st.integers(0, j - 1), max_size=1)))
        elif kind == "complete":
            pas.append(list(range(max(0, j - max_parents), j)))
        elif kind == "dense":
            pas.append(draw(st.lists(st.integers(0, j - 1), min_size=min(j, 2), max_size=max_parents, unique=True)))
        else:
            pas.append(draw(st.lists(st.integers(0, j - 1), max_size=max_parents, unique=True)))
    return pas


@st.composite
def idents(draw, n):
    """n distinct node ids in position order."""
    if draw(st.booleans()):
        return list(draw(st.permutations(range(n))))
    return draw(st.lists(st.one_of(st.integers(-3, 15), st.integers(-30, 130), st.integers(200, 10 ** 6)), min_size=n, max_size=n, unique=True))


@st.composite
def nets(draw, min_nodes=1, max_nodes=7, max_joint=1500, max_parents=3, positive=False, text="any", max_card=4,
         min_card=1, kinds=None, names_csv=False, identity_order=False, plain_cpt=False, large=False):
    n = draw(st.integers(min_nodes, max_nodes))
    if large:
        n = max(n, draw(st.integers(min_nodes, max_nodes)))
    pas = draw(shape(n, max_parents, kinds))
    ids = draw(idents(n)) if not identity_order else list(range(n))
    # cardinalities, bounded by construction
    cards = []
    size = 1
    card_choice = [c for c in [2, 2, 2, 3, 3, 4, 1] if min_card <= c <= max_card]
    wide = draw(st.integers(0, n - 1)) if max_card == 4 and draw(st.integers(0, 5)) == 0 else None
    for j in range(n):
        c = draw(st.sampled_from(card_choice)) if j != wide else draw(st.integers(5, 13))
        if size * c * min_card ** (n - 1 - j) > max_joint:
            c = max(min_card, 1)
        size *= c
        cards.append(c)
    # texts
    odd = text in ("any", "csv") and draw(st.integers(0, 3)) == 0
    if odd:
        pool = ODD_NAMES if text == "any" else CSV_NAMES
        if n <= len(pool):
            names = list(draw(st.permutations(pool)))[:n]
        else:
            names = [f"{pool[i % len(pool)]}{i}" for i in range(n)]
        if n > 1 and draw(st.integers(0, 2)) == 0:  # two names that are nearly the same
            pair = draw(st.sampled_from(CSV_TWINS + (TWINS if text == "any" else [])))
            names = [f"{x}{k}" if x in pair else x for k, x in enumerate(names)]
            names[:2] = pair
    elif n <= len(PLAIN) and draw(st.booleans()):
        names = list(draw(st.permutations(PLAIN[:n] if n > len(WORDS) or draw(st.booleans()) else WORDS)))[:n]
    else:
        names = [f"n{i}" for i in ids]
    pools = POOLS + ((ODD_POOLS if text == "any" else CSV_POOLS) if odd else [])
    if draw(st.integers(0, 2)) == 0:  # every variable with the same value names
        pools = [draw(st.sampled_from(pools))]
    if text == "any" and draw(st.integers(0, 11)) == 0:  # texts of two configurations that may read the same
        tail = f"{draw(st.sampled_from(',|'))}{draw(st.sampled_from(ids))}=a"
        pools = [["a", "a" + tail, "a" + tail * 2, "b"]]
    nodes = []
    for j in range(n):
        p = draw(st.sampled_from(pools))
        values = enough(p, cards[j]) if text != "own" else [f"{names[j]}_{k}" for k in range(cards[j])]
        rows = 1
        for q in pas[j]:
            rows *= cards[q]
        nodes.append({
            "id": ids[j],
            "name": names[j],
            "values": values,
            "probs": draw(cpt(rows, cards[j], positive, kind="generic" if plain_cpt else None)),
        })
    edges = [[ids[q], ids[j]] for j in range(n) for q in pas[j]]
    if not identity_order:
        if len(edges) > 1:
            # permuting all edges permutes the parents of a node too: read the CPT accordingly
            edges = list(draw(st.permutations(edges)))
        nodes = list(draw(st.permutations(nodes)))
    spec = {"nodes": nodes, "edges": edges}
    if draw(st.integers(0, 4)) == 0:
        spec["as"] = draw(st.sampled_from(["array", "tuple"]))
    return spec


@st.composite
def big_nets(draw, min_nodes=12, max_nodes=60):
    """Long chains, trees and sparse loops: sizes no enumeration reaches."""
    n = draw(st.integers(min_nodes, max_nodes))
    kind = draw(st.sampled_from(["chain", "tree", "forest", "loop", "window", "star", "hub"]))
    if kind == "window":
        pas = [[]]
        for j in range(1, n):
            pas.append(draw(st.lists(st.integers(max(0, j - 3), j - 1), max_size=2, unique=True)))
    else:
        pas = draw(shape(n, 3, [kind]))
    mode = draw(st.sampled_from(["fwd", "rev", "perm"]))
    ids = list(range(n)) if mode == "fwd" else list(range(n))[::-1] if mode == "rev" else list(
        draw(st.permutations(range(n))))
    cards = draw(st.lists(st.sampled_from([2, 2, 2, 3]), min_size=n, max_size=n))
    nodes = []
    for j in range(n):
        rows = 1
        for q in pas[j]:
            rows *= cards[q]
        nodes.append({
            "id": ids[j],
            "name": f"n{ids[j]}",
            "values": POOLS[j % len(POOLS)][:cards[j]],
            "probs": draw(cpt(rows, cards[j], positive=True, kind="generic")),
        })
    edges = [[ids[q], ids[j]] for j in range(n) for q in pas[j]]
    if draw(st.booleans()):
        nodes = sorted(nodes, key=lambda x: x["id"])
    return {"nodes": nodes, "edges": edges}


def mixed(small, most, share=12):
    """Every share-th network is a large sparse one of up to `most` nodes."""
    big = big_nets(10, most)
    return st.integers(1, share).flatmap(lambda k: big if k == share else small)


LIKS = [0.0, 1.0, 0.5, 0.1, 0.25, 0.9, 1e-3]
NEARLY = [1.0, 0.9999, 0.9999999, 0.99, 1 - 1e-12]  # as good as no evidence, but not quite


@st.composite
def ev_for(draw, node, types=("observation", "finding", "virtual", "unobserve"), clamp=True):
    """[id, type, {value: number}] for one node of a spec."""
    t = draw(st.sampled_from(types))
    vals = node["values"]
    k = len(vals)
    if t == "observation":
        i = draw(st.integers(0, k - 1))
        style = draw(st.integers(0, 6))
        if style == 4:  # a narrow win, of likelihoods on any scale
            hi, lo = draw(st.sampled_from([(0.5001, 0.5), (1e-9, 0.0), (3.0, 2.0), (1.0, 0.9999999), (-0.1, -0.2), (1e-300, 0.0), (100, 99)]))
            g = {v: (hi if j == i else lo) for j, v in enumerate(vals)}
        elif style <= 1 or style > 4:
            g = {vals[i]: 1.0}
        elif style == 2:
            g = {v: (1.0 if j == i else 0.0) for j, v in enumerate(vals)}
        else:  # the most likely value is taken
            g = {v: (0.75 if j == i else 0.25) for j, v in enumerate(vals)}
    elif t == "finding":
        lo = draw(st.lists(st.sampled_from([0.0, 1.0, 1.0, 0.3, 0.0, 1e-9, 2.5, -0.5]), min_size=k, max_size=k))
        g = {v: x for v, x in zip(vals, lo) if x or draw(st.booleans())}
    elif t == "virtual":
        style = draw(st.integers(0, 9))
        if style >= 8:
            lo = [(x + 1) / 257 for x in draw(blob(k))]
        else:
            pool = NEARLY if style == 7 else LIKS + ([1.5, -0.5] if clamp and style <= 1 else [])
            lo = draw(st.lists(st.sampled_from(pool), min_size=k, max_size=k))
            if style == 6:  # only the ratios matter
                scale = draw(st.sampled_from([1e-3, 1e-6, 1e-9, 1e-13]))
                lo = [x * scale for x in lo]
        g = {v: x for v, x in zip(vals, lo)}
        if draw(st.integers(0, 5)) == 0:
            g.pop(vals[draw(st.integers(0, k - 1))])
    else:
        g = {}
    return [node["id"], t, g]


@st.composite
def evidence_list(draw, spec, max_nodes=4, types=("observation", "finding", "virtual"), min_nodes=0, clamp=True):
    n = len(spec["nodes"])
    picks = draw(st.lists(st.integers(0, n - 1), min_size=min(min_nodes, n), max_size=min(max_nodes, n), unique=True))
    return [draw(ev_for(spec["nodes"][i], types, clamp)) for i in picks]
