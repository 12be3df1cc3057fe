"""C01: the robust value equals the entropic dual formula (reference-model monitor)."""
import numpy as np
import torch as pt

from vp import gen, ref

RULE = ("random user problems (10 labelled, 4 unlabelled losses), cost codes, reductions, dtypes "
        "and regimes (ordinary, tiny epsilon, large losses, lambda zero, one sample, one point, tiny "
        "and large radii, many points, many samples, many coordinates); "
        "non-trivial when the per-point samples give at least two different integrands or the "
        "regime is an extreme one; each robust value is recomputed in float64 from the points "
        "actually handed to the loss")
REQUIRED = ["values_pre", "values_post", "reduction_sum", "reduction_none", "labelled",
            "unlabelled", "float32", "points_seen"] + [
    "regime_" + r for r in ("tiny_rho", "big_rho", "many_points", "many_samples", "many_coords")]

REGIMES = ["plain", "plain", "tiny_eps", "large_loss", "lambda_zero", "one_sample", "one_point",
           "big_lambda", "tiny_rho", "big_rho", "many_points", "many_samples", "many_coords"]


def cases(tier, seed):
    n = 338 if tier == "quick" else 2600
    return [{"kind": "pre" if k % 2 else "post", "regime": REGIMES[(k // 2) % len(REGIMES)],
             "dtype": "f32" if k % 5 == 0 else "f64"} for k in range(n)]


def draw(case, rng):
    """Configuration shared with the gradient check."""
    name = str(rng.choice(gen.LABELLED + gen.UNLABELLED))
    d = int(rng.integers(1, 6))
    m = int(rng.integers(1, 9))
    n = int(rng.integers(1, 14))
    scale = 1.
    eps = gen.dyadic(rng, 1e-2, 2.)
    lam = gen.dyadic(rng, 1e-2, 30.)
    rho = gen.dyadic(rng, 1e-3, 3.)
    sigma = gen.dyadic(rng, 1e-2, 1.5)
    r = case["regime"]
    if r == "tiny_eps":
        eps = gen.dyadic(rng, 1e-7, 1e-4)
    elif r == "large_loss":
        scale = 60.
    elif r == "lambda_zero":
        lam = 0.
    elif r == "one_sample":
        n = 1
    elif r == "one_point":
        m = 1
    elif r == "big_lambda":
        lam = gen.dyadic(rng, 1e2, 1e4)
    elif r == "tiny_rho":
        rho = gen.dyadic(rng, 1e-9, 1e-3)
    elif r == "big_rho":
        rho = gen.dyadic(rng, 3., 1e3)
    elif r == "many_points":
        m = int(rng.integers(60, 300))
    elif r == "many_samples":
        n = int(rng.integers(60, 400))
    elif r == "many_coords":
        d = int(rng.integers(12, 70))
    problem = gen.Problem(name, d, rng)
    code = str(rng.choice(gen.CODES_PLAIN + (gen.CODES_LABEL if problem.labels else [])))
    if rng.random() < 0.08:
        code = None
    dtype = gen.DT[case["dtype"]]
    problem.to(dtype)
    x = rng.normal(size=(m, d)) * scale
    y = problem.make_labels(rng, m, scale)
    l2 = float(rng.choice([0., 0., 0.25, 1.5])) or None
    red = [None, "mean", "sum", "none"][int(rng.integers(4))]
    return problem, code, dict(d=d, m=m, n=n, eps=eps, lam=lam, rho=rho, sigma=sigma, l2=l2,
                               red=red, dtype=dtype, x=x, y=y)


def evaluate(case, problem, code, c, rng, red, mon=None):
    """Build the model, evaluate it and return (value, model, xi, yi, zeta, zeta_labels)."""
    xi, yi = gen.tens(c["x"], c["dtype"]), gen.tens(c["y"], c["dtype"])
    post = case["kind"] == "post"
    # samples given by the caller need not be as many as the model would draw
    asked = c["n"] if post else int(rng.integers(1, 14))
    model = gen.robust(problem, pt.tensor(c["rho"], dtype=c["dtype"]), xi, yi, post_sample=post,
                       cost_spec=code, n_samples=asked, seed=int(rng.integers(1000)),
                       reduction=red, epsilon=c["eps"], sigma=c["sigma"], l2reg=c["l2"],
                       imp_samp=False, n_iter=(1, 2))
    gen.fill_lambda(model, c["lam"])
    problem.rec.clear()
    if post:
        v = model(xi, yi)
        z, zy = problem.seen()
    else:
        kind = ref.parse(code, problem.labels)[0]
        z_, zy_ = gen.draw_around(rng, kind, c["x"], c["y"], c["n"], c["sigma"])
        z, zy = gen.tens(z_, c["dtype"]), gen.tens(zy_, c["dtype"])
        v = model(xi, yi, z, zy)
    return v, model, xi, yi, z, zy


def pieces(problem, code, c, xi, yi, z, zy, model):
    """Reference losses and costs shaped (n, m), with a rounding budget."""
    m, d = c["m"], c["d"]
    spec = ref.parse(code, problem.labels)
    z64 = gen.d64(z).reshape(-1, d)
    zy64 = None if zy is None else gen.d64(zy).reshape(-1, problem.ydim)
    params, f = problem.reference()
    L = f(z64, zy64).reshape(-1, m)
    if c["l2"]:
        L = L + .5 * c["l2"] * sum((p ** 2).sum() for p in params)
    C = ref.cost(spec, gen.d64(xi)[None], z64.reshape(-1, m, d),
                 None if yi is None else gen.d64(yi)[None],
                 None if zy is None else zy64.reshape(-1, m, problem.ydim))
    return params, L, C, spec


def run(case, mon, rng):
    problem, code, c = draw(case, rng)
    v, model, xi, yi, z, zy = evaluate(case, problem, code, c, rng, c["red"])
    m, n = c["m"], c["n"]
    f32 = c["dtype"] == pt.float32
    if case["kind"] == "post":
        ok = mon.check(z is not None and z.shape[0] == n * m,
                       "the loss was not evaluated at the requested number of samples",
                       seen=None if z is None else tuple(z.shape), n=n, m=m)
        if not ok:
            return
        mon.saw("points_seen", n * m)
    mon.saw("values_" + case["kind"])
    mon.saw("regime_" + case["regime"])
    mon.saw("labelled" if problem.labels else "unlabelled")
    mon.saw("reduction_%s" % (c["red"] or "default"))
    if f32:
        mon.saw("float32")
    _, L, C, spec = pieces(problem, code, c, xi, yi, z, zy, model)
    lam, eps = float(model.lam.detach()), float(model.epsilon.detach())
    rho_term = lam * float(np.float64(c["rho"])) ** spec[1]
    with pt.no_grad():
        want = rho_term + ref.reduce(ref.dual_terms(L, C, lam, eps), c["red"])
    tol = ref.budget(L, C, lam, eps, rho_term, f32)
    tol += (3e-6 if f32 else 1e-14) * problem.magnitude(gen.d64(z), gen.d64(zy))
    if c["red"] == "sum":
        tol *= m
    mon.check(v.dtype == c["dtype"], "dtype of the robust value", got=str(v.dtype))
    if c["red"] == "none":
        mon.check(tuple(v.shape) == (m,), "shape of the unreduced robust value",
                  got=tuple(v.shape), m=m)
    else:
        mon.check(v.numel() == 1, "shape of the reduced robust value", got=tuple(v.shape))
    mon.close(ref.np64(v).reshape(-1), ref.np64(want).reshape(-1), tol,
              "robust value differs from the dual formula",
              problem=problem.name, code=code, red=c["red"], n=n, m=m, lam=lam, eps=eps,
              rho=c["rho"], kind=case["kind"])
    spread = float((L - lam * C).detach().std()) if L.numel() > 1 else 0.
    if spread > 0 or case["regime"] != "plain":
        mon.nontrivial(problem.name, code, case["kind"], c["red"], n, m,
                       [round(float(t), 9) for t in ref.np64(v).reshape(-1)[:3]])
