"""C02: importance sampling changes the proposal, not the estimand (reference-model monitor)."""
import numpy as np
import torch as pt

from vp import gen, ref

RULE = ("random differentiable problems with squared-Euclidean costs (plain, label-aware, default), "
        "pre- and post-sampled, with zero-gradient points in some cases; the same model is run with "
        "importance sampling on and off under one seed and the points handed to the loss are "
        "compared; non-trivial when some displacement is non-zero or a gradient vanishes")
REQUIRED = ["translated_batches", "untranslated_batches", "labelled_translated", "weights_checked",
            "pre", "post", "small_epsilon", "small_radius", "many_points"]
PROBLEMS = ["mse", "mse3", "huber", "margin", "bce", "mlp", "functional", "quadpoint", "logcosh",
            "mlp_plain", "functional_plain", "ce"]


def cases(tier, seed):
    n = 240 if tier == "quick" else 2400
    return [{"kind": "pre" if k % 2 else "post", "flat": (k // 2) % 6 == 0} for k in range(n)]


def run(case, mon, rng):
    dtype = pt.float64
    d, m, n = int(rng.integers(1, 6)), int(rng.integers(1, 8)), int(rng.integers(1, 12))
    if rng.random() < .1:
        m = int(rng.integers(60, 150))
        mon.saw("many_points")
    name = "quadpoint" if case["flat"] else str(rng.choice(PROBLEMS))
    problem = gen.Problem(name, d, rng).to(dtype)
    codes = ["t-NC-2-2", None] + (["t-NLC-2-2-1.0", "t-NLC-2-2-8.0", "t-NLC-2-2-0.25"]
                                  if problem.labels else [])
    code = codes[int(rng.integers(len(codes)))]
    spec = ref.parse(code, problem.labels)
    x = rng.normal(size=(m, d))
    if case["flat"]:
        # the gradient of the loss vanishes at one data point
        with pt.no_grad():
            problem.params()[0].copy_(pt.tensor(x[int(rng.integers(m))]))
    y = problem.make_labels(rng, m)
    xi, yi = gen.tens(x, dtype), gen.tens(y, dtype)
    rho, eps = gen.dyadic(rng, 1e-2, 2.), gen.dyadic(rng, 1e-2, 2.)
    if rng.random() < .2:
        eps = gen.dyadic(rng, 1e-6, 1e-2)
        mon.saw("small_epsilon")
    if rng.random() < .1:
        rho = gen.dyadic(rng, 1e-8, 1e-2)
        mon.saw("small_radius")
    sigma, lam = gen.dyadic(rng, 5e-2, 1.5), gen.dyadic(rng, 5e-2, 20.)
    l2 = float(rng.choice([0., 0.5])) or None
    red = [None, "sum", "none"][int(rng.integers(3))]
    seed = int(rng.integers(1000))
    post = case["kind"] == "post"
    z0, zy0 = gen.draw_around(rng, spec[0], x, y, n, sigma)
    z0, zy0 = gen.tens(z0, dtype), gen.tens(zy0, dtype)

    def evaluate(imp_samp):
        model = gen.robust(problem, pt.tensor(rho, dtype=dtype), xi, yi, post_sample=post,
                           cost_spec=code, n_samples=n, seed=seed, reduction=red, epsilon=eps,
                           sigma=sigma, l2reg=l2, imp_samp=imp_samp, n_iter=(1, 2))
        gen.fill_lambda(model, lam)
        problem.rec.clear()
        v = model(xi, yi) if post else model(xi, yi, z0, zy0)
        a, b = problem.seen()
        if not mon.check(a is not None and a.shape[0] == n * m,
                         "the loss was not evaluated once per sample and data point",
                         seen=None if a is None else tuple(a.shape), imp_samp=imp_samp):
            return None
        return v, a.reshape(n, m, d), None if b is None else b.reshape(n, m, -1)

    off, on = evaluate(False), evaluate(True)
    if off is None or on is None:
        return
    mon.saw(case["kind"])
    _, z_off, zy_off = off
    v, z, zy = on
    disp = z - z_off
    mon.check(bool(pt.isfinite(z).all()), "translated samples are not finite", case=name)
    size = 1. + float(z.abs().max())
    mon.close(ref.np64(disp - disp[:1]), np.zeros(disp.shape), 1e-12 * size,
              "samples of one data point are translated differently", code=code)
    shift = disp.mean(0, keepdim=True)
    logw = ((z - xi - shift) ** 2 - (z - xi) ** 2).sum(-1) / (2 * sigma ** 2)
    moved = float(shift.abs().max()) > 1e-12 * size
    if problem.labels:
        ldisp = zy - zy_off
        lsize = 1. + float(zy.abs().max())
        mon.close(ref.np64(ldisp - ldisp[:1]), np.zeros(ldisp.shape), 1e-12 * lsize,
                  "labels of one data point are translated differently", code=code)
        lshift = ldisp.mean(0, keepdim=True)
        if spec[0] == "NC":
            mon.close(ref.np64(ldisp), np.zeros(ldisp.shape), 0.,
                      "labels moved although the cost leaves them exact", code=code)
        else:
            logw = logw + ((zy - yi - lshift) ** 2 - (zy - yi) ** 2).sum(-1) / (2 * sigma ** 2)
            if float(lshift.abs().max()) > 1e-12 * lsize:
                mon.saw("labelled_translated")
                moved = True
    mon.saw("translated_batches" if moved else "untranslated_batches")
    params, f = problem.reference()
    with pt.no_grad():
        L = f(z.reshape(-1, d), None if zy is None else zy.reshape(n * m, -1)).reshape(n, m)
        if l2:
            L = L + .5 * l2 * sum((p ** 2).sum() for p in params)
        C = ref.cost(spec, xi[None], z, None if yi is None else yi[None], zy)
        rho_term = lam * rho ** 2
        want = rho_term + ref.reduce(ref.dual_terms(L, C, lam, eps, logw), red)
        tol = ref.budget(L, C, lam, eps, rho_term, False) \
            + 1e-12 * eps * (1 + float(logw.abs().max())) \
            + 1e-11 * eps * size ** 2 / sigma ** 2 + 1e-13 * problem.magnitude(z, zy)
    mon.close(ref.np64(v).reshape(-1), ref.np64(want).reshape(-1), tol * (m if red == "sum" else 1),
              "robust value with importance sampling differs from the reweighted dual formula",
              problem=name, code=code, n=n, m=m, lam=lam, eps=eps, sigma=sigma, moved=moved)
    mon.saw("weights_checked", n * m)
    if moved or case["flat"]:
        mon.nontrivial(name, code, case["kind"], n, m, float(v.sum()))
