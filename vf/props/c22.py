"""C22 conditioning a Gaussian model gives the Schur complement as covariance, in any order and batching."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import close, need, oracle

from pybbn.gaussian.inference import GaussianInference

EXAMPLES = (2100, 20000)
RULE = ("a random well-conditioned Gaussian over 1-7 variables and a random sequence of 0-7 batches of observations in any order; non-trivial: "
        "two or more observations, with a variable left that depends on them")
CORPUS = [
    {"H": ["A", "B", "C", "D"], "L": [[1, 0, 0, 0], [2, 1, 0, 0], [-1, 3, 1, 0], [2, 2, 1, 1]], "M": [1, -2, 3, 4],
     "batches": [[["D", 2.0], ["A", -1.0]], [["B", 0.5]]]},
    {"H": ["B", "A"], "L": [[1, 0], [2, 1]], "M": [0, 0], "scale": [0, -2], "batches": [[["A", 1.0], ["B", 2.0]]]},
    {"H": [f"x{k}" for k in range(30)], "L": [[(r * 7 + c * c * 3) % 5 - 2 for c in range(30)] for r in range(30)], "M": list(range(-10, 20)),
     "batches": [[[f"x{k}", k / 8]] for k in range(0, 24, 2)] + [[[f"x{k}", -1.5] for k in range(1, 20, 2)]]},
    {"H": ["A", "B", "C"], "L": [[1, 0, 0], [2, 1, 0], [-1, 3, 1]], "M": [1, -2, 3], "batches": [[["A", 1.75]], [["C", -0.5]]], "ints": True},
]
NAMES = ["X", "Y", "Z", "A", "B", "a b", "x1", "x10", "é", "x2", "x3", "0", "W", "x", "y", "z ", "É"]


@st.composite
def cases(draw, tier):
    d = draw(st.sampled_from([3, 4, 2, 5, 6, 7, 1, 12]))
    b = draw(gen.blob(d * d + 2 * d))
    L = [[(b[r * d + c] % 7) - 3 for c in range(d)] for r in range(d)]
    common = draw(st.sampled_from([0, 0, 0, 0, -3, 3]))
    scale = draw(st.lists(st.sampled_from([0, 0, -1, 1]), min_size=d, max_size=d)) if draw(st.integers(0, 2)) == 0 else [0] * d
    scale = [common + s for s in scale]  # units: powers of ten
    zero = draw(st.integers(0, 5)) == 0
    M = [0 if zero else ((b[d * d + k] % 41) / 4 - 5) * 10.0 ** scale[k] for k in range(d)]
    H = list(draw(st.permutations(NAMES)))[:d]
    order = list(draw(st.permutations(range(d))))
    k = draw(st.sampled_from([min(3, d), min(2, d), min(4, d), 1, 0, d, d - 1]))
    obs = [[H[i], ((b[d * d + d + i] % 61) / 8 - 4) * 10.0 ** scale[i]] for i in order[:k]]
    cut = draw(st.integers(0, 2 ** k - 1))
    batches = []
    for j, o in enumerate(obs):
        if j and not cut >> j & 1:
            batches[-1].append(o)
        else:
            batches.append([o])
    branch = draw(st.one_of(st.none(), st.tuples(st.integers(0, 7), st.integers(1, 3)).map(list)))
    case = {"H": H, "L": L, "M": M, "batches": batches, "scale": scale, "branch": branch}
    if draw(st.integers(0, 5)) == 0:  # whole numbers, as people write small models
        case.update(M=[round(m / 10.0 ** s) for m, s in zip(M, scale)], scale=[0] * d, ints=True)
        case["batches"] = [[[n, v / 10.0 ** scale[H.index(n)]] for n, v in batch] for batch in batches]
    return case


def covariance(case):
    L = np.array(case["L"], dtype=float)
    s = 10.0 ** np.array(case.get("scale", [0] * len(L)), dtype=float)
    return (L @ L.T + np.eye(len(L))) * np.outer(s, s)


def conditional(H, M, E, observed):
    """Names, mean and covariance of the unobserved variables given observed (name -> value)."""
    y = [i for i, h in enumerate(H) if h not in observed]
    z = [i for i, h in enumerate(H) if h in observed]
    v = np.array([observed[H[i]] for i in z])
    if not z:
        return [H[i] for i in y], M[y], E[np.ix_(y, y)]
    B = np.linalg.solve(E[np.ix_(z, z)], E[np.ix_(z, y)]).T
    return [H[i] for i in y], M[y] + B @ (v - M[z]), E[np.ix_(y, y)] - B @ E[np.ix_(z, y)]


def branch(case):
    """Which instance of the history gets which observations of its own."""
    k = case["branch"][0] % (len(case["batches"]) + 1)
    seen = {n for b in case["batches"][:k] for n, _ in b}
    rest = [n for n in reversed(case["H"]) if n not in seen][:case["branch"][1]]
    return k, [(n, (1.5 - i) * 10.0 ** case["scale"][case["H"].index(n)]) for i, n in enumerate(rest)]


def run(case):
    """Every instance of the history with what was observed so far."""
    with oracle():
        H, M, E = list(case["H"]), np.array(case["M"], dtype=float), covariance(case)
    kind = int if case.get("ints") else float
    g = GaussianInference(list(H), M.astype(kind), E.astype(kind))
    out = [(g, {})]
    seen = {}
    for batch in case["batches"]:
        if len(batch) == 1 and len(seen) % 2 == 0:
            g = g.do_inference(batch[0][0], batch[0][1])
        else:
            g = g.do_inferences([(n, v) for n, v in batch])
        seen = {**seen, **dict(map(tuple, batch))}
        out.append((g, seen))
    if case.get("branch"):  # other observations from an earlier instance
        k, more = branch(case)
        g, seen = out[k]
        out.append((g.do_inferences(more), {**seen, **dict(more)}))
    return H, M, E, out


def check(case):
    H, M, E, history = run(case)
    depends = False
    for k, (g, seen) in enumerate(history):
        what = f"after {k} batches ({seen})"
        with oracle():
            names, _, cov = conditional(H, M, E, seen)
            unit = np.sqrt([E[H.index(n), H.index(n)] for n in names])
            tol = 1e-7 * np.outer(unit, unit)
        need(list(g.H) == names, f"{what}: variables {list(g.H)} instead of {names}")
        got = np.asarray(g.E, dtype=float)
        need(got.shape == cov.shape, f"{what}: covariance of shape {got.shape} instead of {cov.shape}")
        need(bool((np.abs(got - cov) <= tol).all()), f"{what}: covariance {got.tolist()} instead of {cov.tolist()}")
        P = g.P
        need(set(P) == set(H), f"{what}: P covers {sorted(P)}")
        for i, n in enumerate(names):
            need(close(P[n][1], cov[i, i], tol[i, i]), f"{what}: variance of {n!r} is {P[n][1]} instead of {cov[i, i]}")
        for n, v in seen.items():
            need(P[n][0] == v and P[n][1] == 0, f"{what}: observed {n!r} = {v} is reported as {P[n]}")
        m = {d["name"]: (d["mean"], d["var"]) for d in g.marginals}
        P, old = dict(P), P
        old.clear()
        g.marginals.clear()
        need(g.P == P, f"{what}: P is {g.P} after a first result was emptied")
        need(len(g.marginals) == len(H) and m == {n: tuple(p) for n, p in P.items()}, f"{what}: marginals {m} differ from P {P}")
        need(dict(g.meta) == seen, f"{what}: recorded observations {g.meta}")
        with oracle():
            prior = {n: E[i, i] for i, n in enumerate(H)}
            depends = depends or (len(seen) > 1 and any(abs(cov[i, i] - prior[n]) > 1e-6 * prior[n] for i, n in enumerate(names)))
    g0 = history[0][0]
    need(np.array_equal(np.asarray(g0.E), E) and np.array_equal(np.asarray(g0.M), M) and list(g0.H) == H,
         "inference changed the model it started from")
    return {"nontrivial": depends, "labels": [f"batches={len(case['batches'])}", f"d={len(H)}"]}
