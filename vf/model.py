"""Reference model: plain probability arithmetic on network specs.

A spec is JSON:
  {"nodes": [{"id", "name", "values", "probs"}...], "edges": [[pa, ch]...]}
Both lists are in insertion order; a CPT enumerates the parents in the order the
edges into the node were added (first parent slowest), the node itself fastest.
Nothing here imports the code under test.
"""
import itertools

import numpy as np


def parents_of(spec):
    pa = {n["id"]: [] for n in spec["nodes"]}
    for p, c in spec["edges"]:
        pa[c].append(p)
    return pa


def by_id(spec):
    return {n["id"]: n for n in spec["nodes"]}


def factors(spec):
    """List of (vars, array); one factor per node."""
    nodes = by_id(spec)
    pa = parents_of(spec)
    out = []
    for n in spec["nodes"]:
        vs = tuple(pa[n["id"]]) + (n["id"],)
        shape = [len(nodes[v]["values"]) for v in vs]
        out.append((vs, np.array(n["probs"], dtype=float).reshape(shape)))
    return out


def _multiply(f, g):
    fv, fa = f
    gv, ga = g
    vs = fv + tuple(v for v in gv if v not in fv)

    def expand(v, a):
        order = [x for x in vs if x in v]
        a = a.transpose([v.index(x) for x in order])
        return a.reshape([a.shape[order.index(x)] if x in v else 1 for x in vs])

    return vs, expand(fv, fa) * expand(gv, ga)


def _sum_out(f, v):
    vs, a = f
    i = vs.index(v)
    return vs[:i] + vs[i + 1:], a.sum(axis=i)


def joint_size(spec):
    s = 1
    for n in spec["nodes"]:
        s *= len(n["values"])
    return s


def joint(spec, likelihood=None):
    """(vars, array) of the unnormalised joint; likelihood: id -> list per value."""
    f = ((), np.array(1.0))
    for g in factors(spec):
        f = _multiply(f, g)
    for v, lik in (likelihood or {}).items():
        f = _multiply(f, ((v,), np.array(lik, dtype=float)))
    return f


def marginal(f, keep):
    """Sums everything out but `keep` and orders the axes as `keep`."""
    vs, a = f
    for v in [x for x in vs if x not in keep]:
        vs, a = _sum_out((vs, a), v)
    return a.transpose([vs.index(k) for k in keep])


def eliminate(spec, keep, likelihood=None):
    """Variable elimination (min weight): unnormalised marginal over `keep`."""
    fs = factors(spec) + [((v,), np.array(l, dtype=float)) for v, l in (likelihood or {}).items()]
    card = {n["id"]: len(n["values"]) for n in spec["nodes"]}
    todo = {n["id"] for n in spec["nodes"]} - set(keep)
    while todo:
        def cost(v):
            scope = set()
            for vs, _ in fs:
                if v in vs:
                    scope |= set(vs)
            c = 1
            for x in scope:
                c *= card[x]
            return c, v
        v = min(todo, key=cost)
        todo.discard(v)
        f = ((), np.array(1.0))
        rest = []
        for g in fs:
            if v in g[0]:
                f = _multiply(f, g)
            else:
                rest.append(g)
        rest.append(_sum_out(f, v) if v in f[0] else f)
        fs = rest
    f = ((), np.array(1.0))
    for g in fs:
        f = _multiply(f, g)
    return f[1].transpose([f[0].index(k) for k in keep])


def components(spec):
    """Weakly connected components: id -> representative."""
    rep = {n["id"]: n["id"] for n in spec["nodes"]}

    def find(x):
        while rep[x] != x:
            x = rep[x]
        return x

    for p, c in spec["edges"]:
        rep[find(p)] = find(c)
    return {i: find(i) for i in rep}


def posteriors(spec, likelihood=None):
    """name -> value -> probability, by enumeration (or elimination when large).

    A component of the network whose evidence has probability zero gets all
    zeros; the other components are unaffected by it.
    """
    comp = components(spec)
    out = {}
    subs = {}
    for n in spec["nodes"]:
        subs.setdefault(comp[n["id"]], []).append(n)
    for rep, nodes in subs.items():
        ids = {n["id"] for n in nodes}
        sub = {"nodes": nodes, "edges": [e for e in spec["edges"] if e[1] in ids]}
        lik = {k: v for k, v in (likelihood or {}).items() if k in ids}
        small = joint_size(sub) <= 20000 and len(nodes) <= 24
        j = joint(sub, lik) if small else None
        table = None if small else bucket_tree(sub, lik)
        for n in nodes:
            a = marginal(j, [n["id"]]) if small else table[n["id"]]
            s = a.sum()
            a = a / s if s != 0 else a * 0.0
            out[n["name"]] = {v: float(p) for v, p in zip(n["values"], a)}
    return out


def _prod(fs):
    f = ((), np.array(1.0))
    for g in fs:
        f = _multiply(f, g)
    return f


def bucket_tree(spec, likelihood=None):
    """All unnormalised single-variable marginals by two passes over a bucket tree (no division)."""
    fs = factors(spec) + [((v,), np.array(l, dtype=float)) for v, l in (likelihood or {}).items()]
    nbr = {n["id"]: set() for n in spec["nodes"]}
    for vs, _ in fs:
        for v in vs:
            nbr[v] |= set(vs) - {v}
    order = []
    todo = set(nbr)
    while todo:  # min degree
        v = min(todo, key=lambda x: (len(nbr[x]), x))
        todo.discard(v)
        order.append(v)
        for a in nbr[v]:
            nbr[a] |= nbr[v]
            nbr[a] -= {a, v}
    pos = {v: i for i, v in enumerate(order)}
    own = {v: [] for v in order}
    for f in fs:
        own[min(f[0], key=pos.get)].append(f)
    kids = {v: [] for v in order}
    up = {}
    for v in order:
        up[v] = _sum_out(_prod(own[v] + [up[u] for u in kids[v]]), v)
        if up[v][0]:
            kids[min(up[v][0], key=pos.get)].append(v)
    down = {}
    out = {}
    for v in reversed(order):
        base = own[v] + ([down[v]] if v in down else [])
        out[v] = marginal(_prod(base + [up[u] for u in kids[v]]), [v])
        for u in kids[v]:
            f = _prod(base + [up[w] for w in kids[v] if w != u])
            keep = [x for x in f[0] if x in up[u][0]]
            down[u] = (tuple(keep), marginal(f, keep))
    return out


def evidence_prob(spec, likelihood):
    if joint_size(spec) <= 20000 and len(spec["nodes"]) <= 24:
        return float(joint(spec, likelihood)[1].sum())
    return float(eliminate(spec, [], likelihood))


def cond_joint(spec, ids, likelihood=None):
    """Normalised joint over ids as dict tuple(values) -> p (None if impossible)."""
    nodes = by_id(spec)
    if joint_size(spec) <= 20000 and len(spec["nodes"]) <= 24:
        a = marginal(joint(spec, likelihood), ids)
    else:
        a = eliminate(spec, ids, likelihood)
    s = a.sum()
    if s == 0:
        return None
    a = a / s
    vals = [nodes[i]["values"] for i in ids]
    return {
        combo: float(a[idx])
        for combo, idx in zip(
            itertools.product(*vals), itertools.product(*[range(len(v)) for v in vals])
        )
    }


def do_prob(spec, x, x_val, y, y_val):
    """P(y | do(x)) by truncated factorisation, ids."""
    nodes = by_id(spec)
    f = ((), np.array(1.0))
    for vs, a in factors(spec):
        if vs[-1] == x:
            continue
        f = _multiply(f, (vs, a))
    sel = np.zeros(len(nodes[x]["values"]))
    sel[nodes[x]["values"].index(x_val)] = 1.0
    f = _multiply(f, ((x,), sel))
    a = marginal(f, [y])
    return float(a[nodes[y]["values"].index(y_val)] / a.sum())


# ---------------------------------------------------------------- evidence
def normalise_evidence(values, etype, given):
    """Likelihood vector that evidence of a type stands for.

    given: value -> number (values that are not mentioned count as 0).
    """
    vec = [float(given.get(v, 0.0)) for v in values]
    if etype == "virtual":
        return [min(1.0, max(0.0, x)) for x in vec]
    if etype == "finding":
        vec = [1.0 if x > 0 else 0.0 for x in vec]
        return vec if any(vec) else [1.0] * len(vec)
    if etype == "observation":
        top = max(vec)
        if vec.count(top) != 1:
            raise ValueError("ambiguous observation")
        return [1.0 if x == top else 0.0 for x in vec]
    if etype == "unobserve":
        return [1.0] * len(vec)
    raise ValueError(etype)


def is_observed(vec):
    return vec.count(1.0) == 1 and vec.count(0.0) == len(vec) - 1
