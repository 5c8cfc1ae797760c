"""C34 the generators draw as documented: numbers of values, hyperparameters and node pairs uniformly, CPT rows from the Dirichlet distribution."""
import functools
import itertools
import math
from collections import Counter

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from vf.core import need, oracle
from vf.props.c17 import DELTA, check_cells

from pybbn.generator.bbngenerator import generate_multi_bbn, generate_singly_bbn

EXAMPLES = (60, 800)
RULE = ("random settings (2-7 nodes, 1-12 values, alpha 1-12) and 60-1500 networks for each; numbers of values, structures after 0-9 iterations and CPT entries "
        f"tested with Chernoff, DKW and empirical Bernstein bounds at false-alarm probability {DELTA}; non-trivial: more than two values or alpha above 1")
ASSUMPTIONS = ["structures are compared while their law can be computed: up to 9 iterations for 4 nodes, 3-5 for 5, 1-2 for 6 and 7"]
CORPUS = [{"kind": "multi", "n": 5, "values": 2, "alpha": 1, "times": 1500, "seed": 1, "iter": 3},
          {"kind": "singly", "n": 5, "values": 2, "alpha": 1, "times": 1500, "seed": 1, "iter": 5},
          {"kind": "multi", "n": 4, "values": 7, "alpha": 10, "times": 600, "seed": 1, "iter": 1},
          {"kind": "singly", "n": 4, "values": 2, "alpha": 2, "times": 600, "seed": 1, "iter": 1},
          {"kind": "multi", "n": 7, "values": 2, "alpha": 2, "times": 1500, "seed": 1, "iter": 0},
          {"kind": "singly", "n": 7, "values": 2, "alpha": 1, "times": 1500, "seed": 1, "iter": 0},
          {"kind": "multi", "n": 7, "values": 3, "alpha": 2, "times": 1000, "seed": 1, "iter": 0},
          {"kind": "multi", "n": 16, "values": 3, "alpha": 2, "times": 300, "seed": 1, "iter": 2},
          {"kind": "singly", "n": 12, "values": 4, "alpha": 3, "times": 400, "seed": 1, "iter": 2}]


@st.composite
def cases(draw, tier):
    n = draw(st.sampled_from([3, 4, 2, 5, 6, 7]))
    kind = draw(st.sampled_from(["singly", "multi"]))
    return {"kind": kind, "n": n, "values": draw(st.integers(1, 12 if n < 5 else 5)), "alpha": draw(st.integers(1, 12)),
            "times": draw(st.sampled_from([500, 1000, 1500] if n < 5 else [250, 60, 600])), "seed": draw(st.integers(0, 2 ** 32 - 1)),
            "iter": draw(st.sampled_from(sorted({1, 0, 2, reach(kind, n), reach(kind, n) // 2, 12})))}


def reach(kind, n):
    """Iterations whose law is computed."""
    if kind == "multi":
        return {2: 9, 3: 9, 4: 9, 5: 3, 6: 2, 7: 2}[n]
    return {2: 9, 3: 9, 4: 9, 5: 5, 6: 1, 7: 1}[n]


@functools.lru_cache(None)
def sums(k, top):
    """How k independent uniform numbers from 1 to top add up."""
    d = {0: 1.0}
    for _ in range(k):
        e = Counter()
        for s, p in d.items():
            for a in range(1, top + 1):
                e[s + a] += p / top
        d = e
    return d


def entry_cdf(x, k, top):
    """Distribution of one entry of a row of k values."""
    return sum(p / top * stats.beta.cdf(x, a, rest) for a in range(1, top + 1) for rest, p in sums(k - 1, top).items())


@functools.lru_cache(None)
def squares(k, top):
    """Expected sum of the squares of a row of k values."""
    return k * sum(p / top * a * (a + 1) / ((a + rest) * (a + rest + 1)) for a in range(1, top + 1) for rest, p in sums(k - 1, top).items())


def connected(n, edges):
    root = list(range(n))

    def find(x):
        while root[x] != x:
            x = root[x]
        return x

    for a, b in edges:
        root[find(a)] = find(b)
    return len({find(x) for x in range(n)}) == 1


def acyclic(n, edges):
    left = set(range(n))
    while left:
        free = {x for x in left if not any(b == x and a in left for a, b in edges)}
        if not free:
            return False
        left -= free
    return True


def toggle(n, s, i, j):
    """An iteration of the multi-connected generator: the edge is deleted if that does not disconnect, or added if that makes no cycle."""
    t = s ^ {(i, j)}
    return t if (connected(n, t) if (i, j) in s else acyclic(n, t)) else s


def replace(n, s, i, j):
    """An iteration of the singly-connected generator: the structures it may lead to (whichever parent is given up) for each of the two ways."""
    parents = [a for a, b in s if b == j]
    if (i, j) in s or (j, i) in s or not parents:
        return [[s], [s]]
    out = []
    for e in ((j, i), (i, j)):
        got = {(s - {(k, j)}) | {e} for k in parents}
        out.append([t if connected(n, t) else s for t in got])
    return out


def chain(n):
    return frozenset((i, i + 1) for i in range(n - 1))


@functools.lru_cache(None)
def multi_law(n, steps):
    """Exact distribution over structures."""
    pairs = list(itertools.permutations(range(n), 2))
    now, move = {chain(n): 1.0}, {}
    for _ in range(steps):
        nxt = Counter()
        for s, p in now.items():
            if s not in move:
                move[s] = Counter(toggle(n, s, i, j) for i, j in pairs)
            for t, c in move[s].items():
                nxt[t] += p * c / len(pairs)
        now = nxt
    return {tuple(sorted(s)): p for s, p in now.items()}


@functools.lru_cache(None)
def singly_law(n, steps):
    """Least and largest probability of every event (an edge, the chain, for n < 5 a structure), over all rules for the parent that is given up."""
    pairs = list(itertools.permutations(range(n), 2))
    move, seen, edge = {}, {chain(n)}, {chain(n)}
    for _ in range(steps):  # whatever can be reached by then
        for s in edge:
            move[s] = [w for i, j in pairs for w in replace(n, s, i, j)]
        edge = {t for s in edge for w in move[s] for t in w} - seen
        seen |= edge
    events = [(p,) for p in pairs] + ([tuple(sorted(s)) for s in seen] if n < 5 else [tuple(sorted(chain(n)))])
    lo = {s: np.array([float(e[0] in s if len(e) == 1 else e == tuple(sorted(s))) for e in events]) for s in seen}
    hi = dict(lo)
    for left in range(steps - 1, -1, -1):
        near = {chain(n)}
        for _ in range(left):
            near |= {t for s in near for w in move[s] for t in w}
        lo, hi = [{s: sum(op([v[t] for t in w], axis=0) for w in move[s]) / len(move[s]) for s in near} for v, op in ((lo, np.min), (hi, np.max))]
    return {e: (a, b) for e, a, b in zip(events, lo[chain(n)], hi[chain(n)])}


def check_structures(case, drawn):
    n, steps = case["n"], case["iter"]
    got = Counter(tuple(sorted(map(tuple, g.edges))) for g, _ in drawn)
    what = f"structures of {n} nodes after {steps} iterations"
    if case["kind"] == "multi":
        with oracle():
            want = multi_law(n, steps)
            edges = Counter()
            for s, p in want.items():
                for e in s:
                    edges[e] += p
        check_cells(got, want, len(drawn), what)
        for e in itertools.permutations(range(n), 2):
            check_cells({e: sum(c for s, c in got.items() if e in s)}, {e: edges[e]}, len(drawn), f"edges of {what}")
        return
    with oracle():
        want = singly_law(n, steps)
    for e, (a, b) in want.items():
        f = (sum(c for s, c in got.items() if e[0] in s) if len(e) == 1 else got[e]) / len(drawn)
        with oracle():
            p = min(max(f, a), b)
        check_cells({e: f * len(drawn)}, {e: p}, len(drawn), what)


def check(case):
    n, top, alpha, times = case["n"], case["values"], case["alpha"], case["times"]
    make = generate_singly_bbn if case["kind"] == "singly" else generate_multi_bbn
    np.random.seed(case["seed"])
    drawn = [make(n, max_iter=case["iter"], max_values=top, max_alpha=alpha) for _ in range(times)]
    with oracle():
        want = Counter()
        for k in range(1, top + 1):
            want[max(2, k)] += 1 / top
        cards = [[int(p[i]["shape"][1]) for i in range(n)] for _, p in drawn]
    check_cells(Counter(c for row in cards for c in row), want, n * times, "numbers of values")
    with oracle():
        both = {(a, b): p * q for a, p in want.items() for b, q in want.items()}
    for i, j in itertools.combinations(range(n), 2):
        check_cells(Counter((row[i], row[j]) for row in cards), both, times, f"numbers of values of nodes {i} and {j}")
    if n < 8 and case["iter"] <= reach(case["kind"], n):
        check_structures(case, drawn)
    # one entry of every row; the rows are independent draws
    entries, spread = {}, {}
    for t, (_, p) in enumerate(drawn):
        for i in range(n):
            rows = np.asarray(p[i]["params"], dtype=float)
            k = rows.shape[1]
            spread.setdefault(k, []).append(rows)
            for r, row in enumerate(rows[:12]):
                entries.setdefault((k, "first row" if r == 0 else "other rows", "even" if (t + r) % 2 else "odd"), []).append(row[(t + r) // 2 % k])
    for (k, where, _), xs in entries.items():
        m = len(xs)
        if m < 200:
            continue
        with oracle():
            xs = np.sort(xs)
            cdf = entry_cdf(xs, k, alpha)
            ks = max(np.max(np.arange(1, m + 1) / m - cdf), np.max(cdf - np.arange(m) / m))
            eps = math.sqrt(math.log(2 / DELTA) / (2 * m))
        need(ks < eps, f"{m} entries of CPT rows over {k} values ({where}) are not Dirichlet with hyperparameters from 1 to {alpha}: largest difference {ks:.4f}")
    for k, blocks in spread.items():
        with oracle():
            rows = np.concatenate(blocks)
            xs = np.square(rows).sum(axis=1)
            m = len(xs)
        if m < 50:
            continue
        for v in range(k):  # no position is favoured
            with oracle():
                log = math.log(4 / DELTA)
                eps = math.sqrt(2 * np.var(rows[:, v], ddof=1) * log / m) + 7 * log / (3 * (m - 1))
            need(abs(np.mean(rows[:, v]) - 1 / k) < eps, f"entry {v} of {m} CPT rows over {k} values is {np.mean(rows[:, v]):.5f} on average")
        with oracle():
            # empirical Bernstein bound on sums of squares, which lie between 1/k and 1
            log = math.log(4 / DELTA)
            eps = math.sqrt(2 * np.var(xs, ddof=1) * log / m) + (1 - 1 / k) * 7 * log / (3 * (m - 1))
            gap = abs(np.mean(xs) - squares(k, alpha))
        need(gap < eps, f"{m} CPT rows over {k} values have {np.mean(xs):.5f} as their mean sum of squares; with hyperparameters from 1 to {alpha} it is {squares(k, alpha):.5f}")
    return {"nontrivial": top > 2 or alpha > 1, "labels": [case["kind"], f"iter={case['iter']}", f"n={n}"]}
