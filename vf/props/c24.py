"""C24 sampled marginals follow the reported means and variances."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from vf.core import need, oracle
from vf.props import c22

EXAMPLES = (360, 4000)
DELTA = 1e-12
RULE = ("a random Gaussian with 0-7 batches of observations, 0-4000 samples per variable, tested against the reported mean and variance with "
        f"mean, variance, serial correlation and DKW bounds at false-alarm probability {DELTA} each; non-trivial: 500 or more samples with an observed and an "
        "unobserved variable")
CORPUS = [dict(c22.CORPUS[0], size=2000, seed=1), dict(c22.CORPUS[1], size=1000, seed=1)]


@st.composite
def cases(draw, tier):
    case = draw(c22.cases(tier))
    case["size"] = draw(st.sampled_from([2000, 1000, 4000, 500, 3, 1, 0]))
    case["seed"] = draw(st.integers(0, 2 ** 32 - 1))
    return case


def check(case):
    H, _, _, history = c22.run(case)
    size = case["size"]
    both = False
    for k, (g, seen) in enumerate(history):
        what = f"after {k} batches"
        np.random.seed(case["seed"])
        got = g.sample_marginals(size) if size != 1000 else g.sample_marginals()
        need(isinstance(got, dict) and set(got) == set(H), f"{what}: samples for {sorted(got)}")
        if size >= 500:  # another call gives other draws
            more = g.sample_marginals(size)
            for n in H:
                with oracle():
                    t = stats.t.isf(DELTA / 2, size - 2)
                    a, b = np.asarray(got[n], dtype=float), np.asarray(more[n], dtype=float)
                    r = float(np.corrcoef(a, b)[0, 1]) if a.shape == b.shape else 1.0
                need(abs(r) < t / math.sqrt(size - 2 + t * t), f"{what}: the values of {n!r} from two calls are not independent draws: correlation {r}")
        P = g.P
        both = both or 0 < len(seen) < len(H)
        free = [n for n in H if n not in seen]
        for a, b in zip(free, free[1:] + free[:1]) if len(free) > 1 and size >= 500 else ():
            with oracle():
                t = stats.t.isf(DELTA / 2, size - 2)
                r = float(np.corrcoef(np.asarray(got[a], dtype=float), np.asarray(got[b], dtype=float))[0, 1])
            need(abs(r) < t / math.sqrt(size - 2 + t * t), f"{what}: samples of {a!r} and {b!r} are not independent draws: correlation {r}")
        for n in H:
            x = np.asarray(got[n], dtype=float)
            need(x.shape == (size,), f"{what}: {x.shape} samples of {n!r} instead of {size}")
            if size == 0:
                continue
            m, v = float(P[n][0]), float(P[n][1])
            if n in seen:
                need(bool((np.abs(x - seen[n]) < 0.1).all()), f"{what}: samples of {n!r}, observed {seen[n]}, range {x.min()}..{x.max()}")
                continue
            if size < 500:
                need(bool((np.abs(x - m) < 9 * math.sqrt(v)).all()), f"{what}: samples of {n!r} ~ N({m}, {v}) include {x.min()}..{x.max()}")
                continue
            with oracle():
                zbound = stats.norm.isf(DELTA / 2)
                lo, hi = stats.chi2.ppf(DELTA / 2, size - 1), stats.chi2.isf(DELTA / 2, size - 1)
                z = (x.mean() - m) / math.sqrt(v / size)
                q = x.var(ddof=1) * (size - 1) / v
                ecdf = np.arange(1, size + 1) / size
                cdf = stats.norm.cdf(np.sort(x), m, math.sqrt(v))
                ks = max(np.max(ecdf - cdf), np.max(cdf - ecdf + 1 / size))
                half = size // 2
                lags = [(x[:-1], x[1:]), (x[:half], x[half:2 * half]), (x[:half], x[::-1][:half])]
                serial = [float(np.corrcoef(a, b)[0, 1]) for a, b in lags]
                eps = math.sqrt(math.log(2 / DELTA) / (2 * size))
            need(abs(z) < zbound, f"{what}: mean of {size} samples of {n!r} is {x.mean()}, reported mean {m}, variance {v}")
            need(lo < q < hi, f"{what}: variance of {size} samples of {n!r} is {x.var(ddof=1)}, reported variance {v}")
            # for independent normal pairs, r * sqrt((n - 2) / (1 - r * r)) has Student's distribution
            for (a, b), r in zip(lags, serial):
                with oracle():
                    t = stats.t.isf(DELTA / 2, len(a) - 2)
                need(abs(r) < t / math.sqrt(len(a) - 2 + t * t), f"{what}: samples of {n!r} are not independent draws: correlation {r} within them")
            need(ks < eps, f"{what}: samples of {n!r} are not N({m}, {v}): largest difference {ks}")
    return {"nontrivial": both and size >= 500, "labels": [f"size={size}"]}
