"""Bits shared by several checks."""
import json
import os
import subprocess
import sys

from vf import model, obs
from vf.core import HarnessError, oracle

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def elsewhere(module, function, arg):
    """The result of a function of a check in another process, with another hash seed."""
    code = (f"import sys; sys.path.insert(0, {VERIF!r}); from vf.runner import setup_paths; setup_paths(); import json\n"
            f"from {module} import {function} as f; print(json.dumps(f(json.load(sys.stdin))))")
    env = dict(os.environ, PYTHONHASHSEED="4242" if os.environ.get("PYTHONHASHSEED") != "4242" else "4243")
    p = subprocess.run([sys.executable, "-c", code], input=json.dumps(arg), env=env, capture_output=True, text=True, timeout=300)
    if p.returncode:
        raise HarnessError(f"another process ended with {p.returncode}: {p.stderr[-2000:]}")
    return json.loads(p.stdout)


def lik_of(spec, ev, start=None):
    """Applies an evidence list to a likelihood map (id -> vector)."""
    nodes = model.by_id(spec)
    out = dict(start or {})
    for i, t, g in ev:
        out[i] = model.normalise_evidence(nodes[i]["values"], t, g)
    return out


def assert_evidence(jt, ev):
    jt.update_evidences([obs.evidence(jt, i, t, g) for i, t, g in ev])


def net_labels(spec):
    with oracle():
        labels = ["forest" if len(set(model.components(spec).values())) > 1 else "connected"]
        if len(spec["nodes"]) > 10:
            labels.append("large")
        if any(sorted(p) != p for p in model.parents_of(spec).values()):
            labels.append("parents-not-in-id-order")
        if len(spec["edges"]) >= len(spec["nodes"]) > 2:
            labels.append("loopy")
        if any(p == 0.0 for n in spec["nodes"] for p in n["probs"]):
            labels.append("zeros")
        return labels


def differs(p, q, tol=1e-6):
    return any(abs(p[n][v] - q[n][v]) > tol for n in p for v in p[n])


def chain(n, reverse=False):
    ids = list(range(n))[::-1] if reverse else list(range(n))
    nodes = [{"id": ids[j], "name": f"n{ids[j]}", "values": ["x", "y"],
              "probs": [.2, .8] if j == 0 else [.9, .1, .3, .7]} for j in range(n)]
    return {"nodes": sorted(nodes, key=lambda d: d["id"]), "edges": [[ids[j - 1], ids[j]] for j in range(1, n)]}


def clash(sep):
    """Different configurations of the nodes 0 and 1 that read the same when written one after the other."""
    pair = {"values": ["x", f"x{sep}1=y", "y"]}, {"values": ["y", f"y{sep}1=y", "z"]}
    two = [k / 10 for k in range(1, 10)]
    return {"nodes": [dict(pair[0], id=0, name="a", probs=[.3, .5, .2]), dict(pair[1], id=1, name="b", probs=[.9, .1, 0, .2, .7, .1, .6, .3, .1]),
                      {"id": 2, "name": "c", "values": ["t", "f"], "probs": [x for p in two for x in (p, 1 - p)]},
                      {"id": 3, "name": "d", "values": ["t", "f"], "probs": [x for p in two[::-1] for x in (p * p, 1 - p * p)]}],
            "edges": [[0, 1], [0, 2], [1, 2], [0, 3], [1, 3]]}


CLASH = [[2, "observation", {"t": 1.0}], [3, "virtual", {"t": 0.8, "f": 0.1}]]


def huang():
    def nd(i, name, probs):
        return {"id": i, "name": name, "values": ["on", "off"], "probs": probs}

    return {
        "nodes": [
            nd(0, "a", [.5, .5]), nd(1, "b", [.5, .5, .4, .6]), nd(2, "c", [.7, .3, .2, .8]),
            nd(3, "d", [.9, .1, .5, .5]), nd(4, "e", [.3, .7, .6, .4]),
            nd(5, "f", [.01, .99, .01, .99, .01, .99, .99, .01]), nd(6, "g", [.8, .2, .1, .9]),
            nd(7, "h", [.05, .95, .95, .05, .95, .05, .95, .05]),
        ],
        "edges": [[0, 1], [0, 2], [1, 3], [2, 4], [3, 5], [4, 5], [2, 6], [4, 7], [6, 7]],
    }


def wide(parents, card, own, kids=0):
    """A node of `own` values with `parents` parents of `card` values each and `kids` binary children."""
    def probs(rows, k):
        out = []
        for r in range(rows):
            w = [(r * 31 + i * 37 + 11 * k) % 97 + 1 for i in range(k)]
            out += [x / sum(w) for x in w]
        return out

    def nd(i, k, rows):
        return {"id": i, "name": f"n{i}", "values": [f"s{j}" for j in range(k)], "probs": probs(rows, k)}

    nodes = [nd(i, card, 1) for i in range(parents)] + [nd(parents, own, card ** parents)]
    nodes += [nd(parents + 1 + j, 2, own) for j in range(kids)]
    return {"nodes": nodes, "edges": [[i, parents] for i in range(parents)] + [[parents, parents + 1 + j] for j in range(kids)]}


def hourglass(k, top):
    """k children of one node (its id is top) that are the parents of another: two large cliques that share k variables."""
    one = wide(k, 2, 2)
    nodes = [dict(n, probs=[(3 + n["id"]) / 16, (13 - n["id"]) / 16, (9 - n["id"] / 2) / 16, (7 + n["id"] / 2) / 16]) for n in one["nodes"][:k]]
    first = {"id": top, "name": "top", "values": ["s0", "s1"], "probs": [0.25, 0.75]}
    return {"nodes": nodes + [one["nodes"][k], first], "edges": one["edges"] + [[top, i] for i in range(k)]}


def spider(leg, legs=2):
    """A centre with one short and some long arms: clusters that meet in it lie far apart in every list."""
    flip = [.9, .1, .2, .8]
    top = leg * legs + 7
    nodes = [{"id": top, "name": "top", "values": ["x", "y"], "probs": [.3, .7]}, {"id": 0, "name": "n0", "values": ["x", "y"], "probs": flip}]
    nodes += [{"id": i, "name": f"n{i}", "values": ["x", "y"], "probs": flip} for i in range(1, leg * legs + 1)]
    return {"nodes": nodes, "edges": [[top, 0]] + [[top if i % leg == 0 else i + 1, i] for i in range(1, leg * legs + 1)]}


def twinstar(leaves, card):
    """A triangle, eliminated first, whose other two nodes come last, after their many leaves: they form no new cluster."""
    row = [.5, .25, .125, .0625, .0625] if card == 5 else [1 / card] * card
    nodes = [{"id": 0, "name": "v", "values": ["a", "b"], "probs": [.9, .1, .2, .8, .3, .7, .4, .6]}, {"id": 1, "name": "u", "values": ["a", "b"], "probs": [.3, .7]},
             {"id": 2, "name": "w", "values": ["a", "b"], "probs": [.6, .4, .1, .9]}]
    nodes += [{"id": k, "name": f"l{k}", "values": [str(x) for x in range(card)], "probs": row + row[::-1]} for k in range(3, leaves + 3)]
    return {"nodes": nodes, "edges": [[1, 2], [1, 0], [2, 0]] + [[1 + k % 2, k] for k in range(3, leaves + 3)]}


# sizes that random small networks do not reach: many cliques, parents, values, children
def narrow(n):
    """A binary node with n parents, of which only the first and the last two have a choice."""
    nodes = [{"id": i, "name": f"n{i}", "values": ["x", "y"] if i in (0, n - 2, n - 1) else ["x"], "probs": [.3, .7] if i in (0, n - 2, n - 1) else [1.0]} for i in range(n)]
    nodes.append({"id": n, "name": f"n{n}", "values": ["u", "v"], "probs": [q for r in range(8) for q in ((r * r + 1) / 60, 1 - (r * r + 1) / 60)]})
    return {"nodes": nodes, "edges": [[i, n] for i in range(n)]}


LARGE = [narrow(14), chain(70, True), wide(3, 6, 5), wide(9, 2, 3), wide(1, 40, 40), wide(0, 1, 120), wide(0, 1, 3, 40), spider(70)]


# and sizes at which only files and descriptions are tried: a table of 16384 entries, thousands of values, of nodes
HUGE = [wide(13, 2, 2), wide(0, 1, 3000), chain(1500)]


def huge(spec):
    return len(spec["nodes"]) > 500 or any(len(n["probs"]) > 2000 for n in spec["nodes"])
