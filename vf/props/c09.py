"""C09 CSV round trip keeps the network."""
import os
import tempfile

from hypothesis import strategies as st

from vf import gen, model, obs
from vf.core import oracle, same_marginals
from vf.props.c08 import later
from vf.props.common import HUGE, LARGE, huang, huge, net_labels

from pybbn.graph.dag import Bbn
from pybbn.pptc.inferencecontroller import InferenceController

EXAMPLES = (700, 6000)
RULE = ("a random network of 1-7 nodes whose names and values have no comma, bar, line break or surrounding white space, written to CSV "
        "and read back (twice); non-trivial: a node with two or more parents")
ASSUMPTIONS = ["the CSV format has no quoting: names and values are non-empty and free of ',', '|', line breaks and surrounding blanks"]
CORPUS = [{"net": huang()}]
CORPUS += [{"net": x} for x in LARGE + HUGE]


@st.composite
def cases(draw, tier):
    return {"net": draw(gen.mixed(gen.nets(max_nodes=7, max_joint=1000, max_parents=4, text="csv"), 30 if tier == "quick" else 100))}


def check(case):
    spec = case["net"]
    bbn = obs.build(spec)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "bbn.csv")
        obs.stale(path, spec)
        Bbn.to_csv(bbn, path)
        back = Bbn.from_csv(path)
        obs.same_spec(obs.bbn_spec(back), spec, "reloaded network")
        later(bbn, spec, path, Bbn.to_csv, Bbn.from_csv)
        Bbn.to_csv(back, path)
        obs.same_spec(obs.bbn_spec(Bbn.from_csv(path)), spec, "network after a second round trip")
    obs.same_spec(obs.bbn_spec(bbn), spec, "network after serialisation")
    with oracle():
        multi = any(len(p) > 1 for p in model.parents_of(spec).values())
        want = None if huge(spec) else model.posteriors(spec)
    if want:
        same_marginals(obs.posteriors(InferenceController.apply(back)), want, "priors of the reloaded network")
    return {"nontrivial": multi, "labels": net_labels(spec)}
