"""C03: radius zero is empirical risk, a negative radius is refused."""
import numpy as np
import torch as pt

from vp import gen, ref

RULE = ("random problems, costs, reductions and sampling schemes at radius zero (fresh, given or "
        "stored samples, arbitrary lambda), their values and gradients compared with the ordinary "
        "loss in float64; negative radii on robust models and all five estimators must be refused; "
        "non-trivial when the ordinary loss differs from the loss at the samples")
REQUIRED = ["value_post", "value_pre_given", "value_pre_stored", "grad_compared",
            "negative_model", "negative_estimator"]


def cases(tier, seed):
    n = 180 if tier == "quick" else 1800
    out = [{"kind": "value", "scheme": ["post", "pre_given", "pre_stored"][k % 3]}
           for k in range(n)]
    out += [{"kind": "negative_model", "scheme": ["post", "pre"][k % 2]} for k in range(n // 9)]
    out += [{"kind": "negative_estimator", "which": k % 5} for k in range(40)]
    return out


def run(case, mon, rng):
    if case["kind"] == "negative_estimator":
        from skwdro import linear_models as lm, operations_research as orr
        cls = [lm.LogisticRegression, lm.LinearRegression, orr.NewsVendor, orr.Portfolio,
               orr.Weber][case["which"]]
        rho = -float(np.exp(rng.uniform(-60, 5)))
        mon.raises(lambda: cls(rho=rho), "a negative radius was accepted by an estimator",
                   which=cls.__name__, rho=rho)
        mon.saw("negative_estimator")
        mon.nontrivial(cls.__name__, rho)
        return
    dtype = pt.float32 if rng.random() < .2 else pt.float64
    d, m, n = int(rng.integers(1, 6)), int(rng.integers(1, 8)), int(rng.integers(1, 8))
    problem = gen.Problem(str(rng.choice(gen.LABELLED + gen.UNLABELLED)), d, rng).to(dtype)
    code = str(rng.choice(gen.CODES_PLAIN + (gen.CODES_LABEL if problem.labels else [])))
    x = rng.normal(size=(m, d)) * float(rng.choice([1., 30.]))
    y = problem.make_labels(rng, m)
    xi, yi = gen.tens(x, dtype), gen.tens(y, dtype)
    l2 = float(rng.choice([0., 0.5])) or None
    red = [None, "mean", "sum", "none"][int(rng.integers(4))]
    kw = dict(cost_spec=code, n_samples=n, reduction=red, l2reg=l2, seed=int(rng.integers(99)),
              epsilon=gen.dyadic(rng, 1e-6, 5.), sigma=gen.dyadic(rng, 1e-2, 5.),
              imp_samp=bool(rng.random() < .5), n_iter=(1, 2))
    z, zy = gen.draw_around(rng, code, x, y, n, 1.)
    z, zy = gen.tens(z, dtype), gen.tens(zy, dtype)

    if case["kind"] == "negative_model":
        rho = -float(np.exp(rng.uniform(-60, 3)))
        post = case["scheme"] == "post"

        def attempt():
            # either building or evaluating must refuse
            model = gen.robust(problem, pt.tensor(rho, dtype=dtype), xi, yi, post_sample=post, **kw)
            return model(xi, yi) if post else model(xi, yi, z, zy)
        mon.raises(attempt, "a negative radius was accepted by a robust model", rho=rho,
                   scheme=case["scheme"], types=(ValueError, AssertionError))
        mon.saw("negative_model")
        mon.nontrivial(problem.name, rho)
        return

    scheme = case["scheme"]
    model = gen.robust(problem, pt.tensor(0., dtype=dtype), xi, yi,
                       post_sample=scheme == "post", **kw)
    if rng.random() < .5:
        gen.fill_lambda(model, gen.dyadic(rng, 1e-2, 50.))
    if scheme == "post":
        v = model(xi, yi)
    elif scheme == "pre_given":
        v = model(xi, yi, z, zy)
    else:
        model(xi, yi, z, zy)
        v = model(xi, yi)
    mon.saw("value_" + scheme)
    params, f = problem.reference()
    L = f(gen.d64(xi), gen.d64(yi))
    Lz = f(gen.d64(z).reshape(n * m, d), None if zy is None else gen.d64(zy).reshape(n * m, -1))
    if l2:
        L = L + .5 * l2 * sum((p ** 2).sum() for p in params)
    want = ref.reduce(L, red)
    u = 1e-6 if dtype == pt.float32 else 1e-14
    mag = problem.magnitude(xi, yi)
    tol = 20 * u * mag * (m if red == "sum" else 1)
    mon.close(ref.np64(v).reshape(-1), ref.np64(want).reshape(-1), tol,
              "value at radius zero is not the empirical risk", problem=problem.name,
              scheme=scheme, red=red, m=m)
    if red == "none":
        mon.check(tuple(v.shape) == (m,), "shape of the unreduced value at radius zero",
                  got=tuple(v.shape))
    for p in problem.params():
        p.grad = None
    with mon.under_test("backward at radius zero"):
        v.sum().backward()
    want.sum().backward()
    for k, (p, q) in enumerate(zip(problem.params(), params)):
        got = np.zeros(tuple(p.shape)) if p.grad is None else ref.np64(p.grad)
        wnt = np.zeros(tuple(q.shape)) if q.grad is None else ref.np64(q.grad)
        mon.close(got, wnt, tol * m + 50 * u * mag * m,
                  "gradient at radius zero is not that of the empirical risk",
                  problem=problem.name, param=k)
    mon.saw("grad_compared")
    if float((Lz.mean() - f(gen.d64(xi), gen.d64(yi)).mean()).abs()) > 1e-9:
        mon.nontrivial(problem.name, scheme, red, code, float(v.sum()))
