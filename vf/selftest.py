"""The oracles checked against each other: enumeration, variable elimination and two-pass message passing."""


def run(examples=150):
    import numpy as np
    from hypothesis import HealthCheck, given, seed, settings, strategies as st

    from vf import gen, model

    @seed(1)
    @settings(max_examples=examples, deadline=None, database=None, suppress_health_check=list(HealthCheck))
    @given(st.data())
    def agree(data):
        net = data.draw(gen.nets())
        nodes = model.by_id(net)
        lik = {i: model.normalise_evidence(nodes[i]["values"], t, g)
               for i, t, g in data.draw(gen.evidence_list(net))}
        joint, beliefs = model.joint(net, lik), model.bucket_tree(net, lik)
        for i in nodes:
            a = model.marginal(joint, [i])
            assert np.allclose(a, model.eliminate(net, [i], lik), atol=1e-12)
            b = beliefs[i]
            if a.sum() > 0 and b.sum() > 0:
                assert np.allclose(a / a.sum(), b / b.sum(), atol=1e-10)

    agree()
    print("oracles agree")
    return 0
