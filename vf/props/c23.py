"""C23 conditioning a Gaussian model gives the conditional mean."""
import numpy as np

from vf.core import fail, oracle
from vf.props import c22

EXAMPLES = (2100, 20000)
RULE = c22.RULE
CORPUS = c22.CORPUS
cases = c22.cases
ASSUMPTIONS = ["the repository's tests pin the stored mean vector to mu_y - B(z - mu_z) and the reported mean to its negation (known finding); "
               "a reported mean has to equal the conditional mean or exactly that formula"]


def pinned(H, M, E, batches):
    """The formula that the repository's tests pin, applied batch by batch: what is reported after each of them."""
    H, M, E = list(H), M.copy(), E.copy()
    out = [dict(zip(H, -M))]
    for batch in batches:
        z = [H.index(n) for n, _ in batch]
        y = [i for i in range(len(H)) if i not in z]
        v = np.array([x for _, x in batch])
        B = np.linalg.solve(E[np.ix_(z, z)], E[np.ix_(z, y)]).T
        M, E, H = M[y] - B @ (v - M[z]), E[np.ix_(y, y)] - B @ E[np.ix_(z, y)], [H[i] for i in y]
        out.append(dict(zip(H, -M)))
    return out


def check(case):
    H, M, E, history = c22.run(case)
    with oracle():
        deviating = pinned(H, M, E, case["batches"])
        if case.get("branch"):
            j, more = c22.branch(case)
            deviating.append(pinned(H, M, E, case["batches"][:j] + [more])[-1] if more else deviating[j])
    known = {}
    moved = False
    for k, (g, seen) in enumerate(history):
        with oracle():
            names, mean, _ = c22.conditional(H, M, E, seen)
        P = g.P
        for n, m in zip(names, mean):
            tol = 1e-7 * (abs(m) + np.sqrt(E[H.index(n), H.index(n)]))
            got = float(P[n][0])
            what = f"after {k} batches ({seen}): mean of {n!r} is {got}, the conditional mean is {m}"
            if abs(got - m) <= tol:
                continue
            if abs(got - deviating[k][n]) <= tol:
                known["negated-mean"] = what
                continue
            fail(what)
        with oracle():
            prior = dict(zip(H, M))
            moved = moved or (len(seen) > 1 and any(abs(m - prior[n]) > 1e-6 * np.sqrt(E[H.index(n), H.index(n)]) for n, m in zip(names, mean)))
    return {"nontrivial": moved, "labels": [f"batches={len(case['batches'])}"] + (["deviates"] if known else ["exact"]), "known": known}
