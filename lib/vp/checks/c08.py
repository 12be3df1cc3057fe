"""C08: a cost code means the same cost on every route (decoder comparison monitor)."""
import math

import numpy as np
import torch as pt

from vp import gen, ref

RULE = ("every well-formed code of a grid of kinds, powers, norms and label weights on every "
        "route accepting it (direct decoder, two-step parser, robust model, five estimators), "
        "probed by evaluating the decoded cost on random points; malformed mutations of random "
        "codes must be refused; non-trivial when the code is decoded and probed or refused")
REQUIRED = ["direct", "two_step", "model", "estimator", "omitted", "refused_direct",
            "refused_parse", "refused_model", "probes"]
POWERS, NORMS = ["1", "2", "1.0", "2.0", "3", "0.5"], ["1", "2", "inf", "2.0", "3"]
KAPPAS = [None, "1.0", "0", "inf", "1e4", "0.25"]


def cases(tier, seed):
    n = 240 if tier == "quick" else 3000
    return [{"kind": ["decode", "decode", "model", "bad", "bad", "estimator"][k % 6], "k": k // 6}
            for k in range(n)]


def make_code(rng, fields=None, kind=None, sampled=False):
    kind = kind or str(rng.choice(["NC", "NLC"]))
    if sampled:
        power, norm = [("1", "1"), ("1", "2"), ("1", "inf"), ("2", "2"), ("2.0", "2.0")][
            int(rng.integers(5))]
    else:
        power, norm = str(rng.choice(POWERS)), str(rng.choice(NORMS))
    fields = fields or int(rng.choice([3, 4, 5]))
    kappa = str(rng.choice([k for k in KAPPAS if k and (not sampled or k not in ("0", "inf"))]))
    f = [kind, power, norm]
    if fields >= 4:
        f = ["t"] + f
    if fields == 5:
        f = f + [kappa]
    return "-".join(f)


def probe(mon, cost, spec, rng, what, code):
    """The decoded cost is the documented one on random points."""
    m, d = 5, 3
    x, z = pt.tensor(rng.normal(size=(m, d))), pt.tensor(rng.normal(size=(m, d)))
    y, zy = pt.tensor(rng.normal(size=(m, 1))), pt.tensor(rng.normal(size=(m, 1)))
    with mon.under_test("evaluating a decoded cost"):
        got = cost(x, z, y, zy) if spec[0] == "NLC" else cost(x, z)
    want = ref.cost(spec, x, z, y, zy)
    mon.close(ref.np64(got).reshape(-1), ref.np64(want), 1e-12 * (1 + ref.np64(want)),
              "cost decoded by %s" % what, code=code)
    mon.check(float(cost.power) == spec[1], "power decoded by %s" % what, code=code,
              got=float(cost.power))
    mon.saw("probes", m)


def mutate(rng, code):
    f = code.split("-")
    how = str(rng.choice(["kind", "engine", "number", "empty", "text"]))
    k0 = 0 if len(f) == 3 else 1
    if how == "kind":
        f[k0] = str(rng.choice(["XX", "nc", "NLCC", "LNC", "", "N"]))
    elif how == "engine":
        if len(f) == 3:
            f = ["x"] + f
        f[0] = str(rng.choice(["x", "T", "jx", "tt", "", "np"]))
    elif how == "number":
        f[k0 + 1 + int(rng.integers(len(f) - k0 - 1))] = str(rng.choice(["a", "2,0", "1..0", "--"]))
    elif how == "empty":
        f[k0 + 1] = ""
    else:
        return str(rng.choice(["", "t", "NC", "t-NC", "garbage", "a-b"]))
    return "-".join(f)


def decode_two(code, labels):
    from skwdro.base.cost_decoder import parse_code_torch, cost_from_parse_torch
    return cost_from_parse_torch(parse_code_torch(code, labels))


def small_model(code, rng, labels, post=True):
    problem = gen.Problem("mse" if labels else "logcosh", 2, rng).to(pt.float64)
    x = rng.normal(size=(4, 2))
    y = problem.make_labels(rng, 4)
    xi, yi = gen.tens(x, pt.float64), gen.tens(y, pt.float64)
    model = gen.robust(problem, pt.tensor(.25, dtype=pt.float64), xi, yi, post_sample=post,
                       cost_spec=code, n_samples=3, n_iter=(1, 2))
    return model, xi, yi


def run(case, mon, rng):
    from skwdro.base.cost_decoder import cost_from_str
    if case["kind"] == "decode":
        code = make_code(rng)
        spec = ref.parse(code, True)
        if len(code.split("-")) >= 4:
            with mon.under_test("decoding a cost"):
                c = cost_from_str(code)
            probe(mon, c, spec, rng, "the direct decoder", code)
            mon.saw("direct")
        with mon.under_test("parsing a cost"):
            c = decode_two(code, bool(rng.random() < .5))
        probe(mon, c, spec, rng, "the two-step parser", code)
        mon.saw("two_step")
        labels = bool(rng.random() < .5)
        with mon.under_test("parsing an omitted code"):
            c = decode_two(None, labels)
        probe(mon, c, ref.parse(None, labels), rng, "the default", None)
        mon.saw("omitted")
        mon.nontrivial(code, labels)
    elif case["kind"] == "model":
        labels = bool(rng.random() < .6)
        code = make_code(rng, kind=None if labels else "NC", sampled=True)
        if rng.random() < .2:
            code = None
        with mon.under_test("building a robust model from a code"):
            model, xi, yi = small_model(code, rng, labels, bool(rng.random() < .5))
        probe(mon, model.cost, ref.parse(code, labels), rng, "the robust model", code)
        mon.saw("model")
        mon.nontrivial(code, labels)
    elif case["kind"] == "bad":
        code = mutate(rng, make_code(rng))
        mon.raises(lambda: cost_from_str(code), "malformed code accepted by the direct decoder",
                   code=code)
        mon.saw("refused_direct")
        if code.count("-") in (2, 3, 4) or rng.random() < .5:
            mon.raises(lambda: decode_two(code, False),
                       "malformed code accepted by the two-step parser", code=code)
            mon.saw("refused_parse")
            mon.raises(lambda: small_model(code, rng, True),
                       "malformed code accepted by the robust model", code=code)
            mon.saw("refused_model")
        mon.nontrivial(code)
    else:
        from skwdro import linear_models as lm, operations_research as orr
        which = case["k"] % 5
        cls, solver, kw = [
            (lm.LogisticRegression, "entropic_torch_post", {}),
            (lm.LinearRegression, "entropic_torch_post", {}),
            (orr.NewsVendor, "entropic_torch_post", {}),
            (orr.Portfolio, "entropic_torch_post", {}),
            (orr.Weber, "entropic_torch_post", {})][which]
        labels = which in (0, 1, 4)
        code = make_code(rng, fields=int(rng.choice([4, 5])), kind=None if labels else "NC",
                         sampled=True)
        n = 8
        X = np.abs(rng.normal(size=(n, 2))) if which != 2 else np.abs(rng.normal(size=(n, 1)))
        y = np.where(np.arange(n) % 2, 1., -1.) if which == 0 else np.abs(rng.normal(size=n)) + .1
        e = cls(rho=.25, cost=code, solver=solver, n_iter=2, n_zeta_samples=2, random_state=1, **kw)
        from vp.watch import Watch
        with Watch() as w, mon.under_test("fitting an estimator with a cost code"):
            e.fit(X, y) if labels else e.fit(X)
        if not mon.check(len(w.models) == 1, "an estimator trained several robust models"):
            return
        probe(mon, w.models[0].cost, ref.parse(code, labels), rng, "estimator %s" % cls.__name__, code)
        mon.saw("estimator")
        bad = mutate(rng, code)
        b = cls(rho=.25, cost=bad, solver=solver, n_iter=2, n_zeta_samples=2, **kw)
        mon.raises(lambda: b.fit(X, y) if labels else b.fit(X),
                   "malformed code accepted by an estimator", code=bad, which=cls.__name__)
        mon.nontrivial(cls.__name__, code)
