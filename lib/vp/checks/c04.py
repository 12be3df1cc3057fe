"""C04: gradients of the robust value are adversarial expectations (reference-model monitor)."""
import numpy as np
import torch as pt

from vp import gen, ref
from vp.checks import c01, c02

RULE = ("same generator as C01 with random frozen parameter subsets; gradients of lambda and of "
        "every parameter after backward are compared with autograd through the float64 reference "
        "formula on the observed samples; with importance sampling the displaced samples "
        "and their weights count as fixed; non-trivial when the adversarial weights are not uniform")
REQUIRED = ["lambda_grads", "param_grads", "frozen_params", "labelled", "unlabelled",
            "displaced_grads"]


def cases(tier, seed):
    n = 220 if tier == "quick" else 2200
    return [{"kind": "pre" if k % 2 else "post",
             "regime": ["plain", "plain", "plain", "one_sample", "one_point", "lambda_zero",
                        "tiny_eps", "big_lambda", "tiny_rho", "many_points",
                        "many_samples", "many_coords"][(k // 2) % 12],
             "dtype": "f32" if k % 7 == 0 and (k // 2) % 12 < 5 else "f64"} for k in range(n)] + \
        [{"kind": "displaced", "post": k % 2 == 0} for k in range(n // 3)]


def displaced(case, mon, rng):
    """Gradients with importance sampling, the displaced samples being constants."""
    dtype, d = pt.float64, int(rng.integers(1, 5))
    m, n = int(rng.integers(1, 7)), int(rng.integers(1, 10))
    name = str(rng.choice(c02.PROBLEMS + gen.SHIPPED))
    problem = gen.Problem(name, d, rng).to(dtype)
    codes = ["t-NC-2-2", None] + (["t-NLC-2-2-1.0", "t-NLC-2-2-8.0"] if problem.labels else [])
    code = codes[int(rng.integers(len(codes)))]
    spec = ref.parse(code, problem.labels)
    x = rng.normal(size=(m, d))
    y = problem.make_labels(rng, m)
    xi, yi = gen.tens(x, dtype), gen.tens(y, dtype)
    rho, eps = gen.dyadic(rng, 1e-2, 2.), gen.dyadic(rng, 5e-2, 2.)
    sigma, lv = gen.dyadic(rng, 5e-2, 1.5), gen.dyadic(rng, 1e-1, 20.)
    l2 = float(rng.choice([0., 0.5])) or None
    red = [None, "sum", "none"][int(rng.integers(3))]
    seed = int(rng.integers(1000))
    z0, zy0 = gen.draw_around(rng, spec[0], x, y, n, sigma)
    given = () if case["post"] else (gen.tens(z0, dtype), gen.tens(zy0, dtype))
    out = []
    for imp in (False, True):
        model = gen.robust(problem, pt.tensor(rho, dtype=dtype), xi, yi, cost_spec=code,
                           post_sample=case["post"], n_samples=n, seed=seed, reduction=red,
                           epsilon=eps, sigma=sigma, l2reg=l2, imp_samp=imp, n_iter=(1, 2))
        gen.fill_lambda(model, lv)
        problem.rec.clear()
        v = model(xi, yi, *given)
        a, b = problem.seen()
        if not mon.check(a is not None and a.shape[0] == n * m,
                         "the loss was not evaluated at the requested number of samples"):
            return
        out.append((a.reshape(n, m, d), None if b is None else b.reshape(n, m, -1)))
    (z_off, zy_off), (z, zy) = out
    for q in list(problem.params()) + [model.lam]:
        q.grad = None
    with mon.under_test("backward through the robust value"):
        v.sum().backward()
    shift = (z - z_off).mean(0, keepdim=True)
    logw = ((z - xi - shift) ** 2 - (z - xi) ** 2).sum(-1) / (2 * sigma ** 2)
    if problem.labels and spec[0] == "NLC":
        ls = (zy - zy_off).mean(0, keepdim=True)
        logw = logw + ((zy - yi - ls) ** 2 - (zy - yi) ** 2).sum(-1) / (2 * sigma ** 2)
    params, f = problem.reference()
    L = f(z.reshape(-1, d), None if zy is None else zy.reshape(n * m, -1)).reshape(n, m)
    if l2:
        L = L + .5 * l2 * sum((q ** 2).sum() for q in params)
    C = ref.cost(spec, xi[None], z, None if yi is None else yi[None], zy)
    lam = gen.d64(model.lam).clone().requires_grad_(True)
    want = lam * rho ** 2 + ref.reduce(ref.dual_terms(L, C, lam, eps, logw), red)
    want.sum().backward()
    mag = problem.magnitude(gen.d64(z), gen.d64(zy))
    size = 1. + float(z.abs().max())
    rel = 1e-10 + 1e-13 * (1. + (mag + lv * float(C.abs().max())) / eps
                           + float(logw.detach().abs().max()) + size ** 2 / sigma ** 2)
    if not rel < 1e-3:
        return
    mult = 3. * (m if red in ("sum", "none") else 1)
    mon.close(ref.np64(model.lam.grad).reshape(-1), ref.np64(lam.grad).reshape(-1),
              rel * (rho ** 2 + float(C.abs().max())) * mult,
              "gradient of lambda with importance sampling", problem=name, code=code)
    for k, (q, r) in enumerate(zip(problem.params(), params)):
        wnt = ref.np64(r.grad) if r.grad is not None else np.zeros(tuple(r.shape))
        got = ref.np64(q.grad) if q.grad is not None else np.zeros(tuple(q.shape))
        mon.close(got, wnt, rel * mag * mult,
                  "gradient of a model parameter with importance sampling", problem=name,
                  code=code, param=k)
    mon.saw("displaced_grads")
    if float(shift.abs().max()) > 1e-9 * size:
        mon.nontrivial("displaced", name, code, float(v.sum()))


def run(case, mon, rng):
    if case["kind"] == "displaced":
        displaced(case, mon, rng)
        return
    problem, code, c = c01.draw(case, rng)
    red = ["mean", "sum", "none"][int(rng.integers(3))]
    frozen = [bool(rng.random() < .25) for _ in problem.params()]
    if all(frozen):
        frozen = [False] * len(frozen)
    for p, fz in zip(problem.params(), frozen):
        p.requires_grad_(not fz)
    v, model, xi, yi, z, zy = c01.evaluate(case, problem, code, c, rng, red)
    if z is None or z.numel() != c["n"] * c["m"] * c["d"]:
        mon.check(False, "the loss was not evaluated at the requested number of samples")
        return
    for p in list(problem.params()) + [model.lam]:
        p.grad = None
    with mon.under_test("backward through the robust value"):
        v.sum().backward()
    params, L, C, spec = c01.pieces(problem, code, c, xi, yi, z, zy, model)
    lam = gen.d64(model.lam).clone().requires_grad_(True)
    eps = float(model.epsilon.detach())
    rho_term = lam * float(c["rho"]) ** spec[1]
    want = rho_term + ref.reduce(ref.dual_terms(L, C, lam, eps), red)
    want.sum().backward()
    f32 = c["dtype"] == pt.float32
    u = 1.2e-7 if f32 else 2.3e-16
    lv = float(lam.detach())
    mag = problem.magnitude(gen.d64(z), gen.d64(zy))
    size = mag + lv * float(C.abs().max()) + 1.
    rel = 1e-11 + 300 * u * (1. + size / eps)
    mult = c["m"] if red in ("sum", "none") else 1
    if rel > 1e-2:
        rel = None   # single precision cannot resolve the weights: values only
    mon.saw("labelled" if problem.labels else "unlabelled")
    if rel is not None:
        cs = float(c["rho"]) ** spec[1] + float(C.abs().max())
        if mon.check(model.lam.grad is not None, "lambda received no gradient"):
            mon.close(ref.np64(model.lam.grad).reshape(-1), ref.np64(lam.grad).reshape(-1),
                      rel * cs * mult * 3, "gradient of lambda", problem=problem.name, code=code,
                      red=red, lam=lv, eps=eps)
            mon.saw("lambda_grads")
    for k, (p, q, fz) in enumerate(zip(problem.params(), params, frozen)):
        if fz:
            mon.check(p.grad is None or not bool(p.grad.any()),
                      "a frozen parameter received a gradient", param=k, problem=problem.name)
            mon.check(not p.requires_grad, "a frozen parameter was unfrozen", param=k)
            mon.saw("frozen_params")
            continue
        if rel is None:
            continue
        wnt = ref.np64(q.grad) if q.grad is not None else np.zeros(tuple(q.shape))
        got = ref.np64(p.grad) if p.grad is not None else np.zeros(tuple(p.shape))
        mon.close(got, wnt, rel * mag * mult * 3, "gradient of a model parameter",
                  problem=problem.name, code=code, red=red, param=k, eps=eps, lam=lv)
        mon.saw("param_grads")
    w = ((L - lv * C) / eps).detach()
    w = pt.softmax(w, 0)
    if float((w - w.mean(0)).abs().max()) > 1e-3:
        mon.nontrivial(problem.name, code, case["kind"], red, c["n"], c["m"], float(v.sum()))
