"""C12: built-in losses return their documented per-point values (reference-model monitor)."""
import numpy as np
import torch as pt

from vp import gen, ref

RULE = ("random parameters, constants, L2 weights, batches with zero to two leading axes, ordinary "
        "and extreme scales, both dtypes, for the five built-in losses; every per-point value is "
        "compared with the documented formula in float64 numpy; non-trivial when the values are "
        "not all equal or the batch has one point")
REQUIRED = ["logistic", "quadratic", "newsvendor", "portfolio", "weber", "regularised", "extreme",
            "sample_axis", "float32", "kinks", "predictions"]
KINDS = ["logistic", "quadratic", "newsvendor", "portfolio", "weber"]


def cases(tier, seed):
    n = 400 if tier == "quick" else 5000
    return [{"kind": KINDS[k % 5], "axes": (k // 5) % 3, "scale": (k // 15) % 4 == 3}
            for k in range(n)]


def randomise(mod, rng, scale=1.):
    with pt.no_grad():
        for p in mod.parameters():
            p.copy_(pt.tensor(rng.normal(size=tuple(p.shape)) * scale))


def run(case, mon, rng):
    from skwdro.base import losses_torch as L
    from skwdro.base.losses_torch.portfolio import SimplePortfolio
    kind = case["kind"]
    dtype = pt.float32 if rng.random() < .3 else pt.float64
    u = 1.2e-7 if dtype == pt.float32 else 2.3e-16
    d = gen.size(rng, 1, 7, 100)
    shape = tuple(int(k) for k in rng.integers(1, 6, size=case["axes"] + 1))
    big = 1.
    if case["scale"]:
        big = float(10. ** rng.integers(2, 12 if dtype == pt.float64 else 6))
        mon.saw("extreme")
    l2 = float(rng.choice([0., .0625, .25, 3., 2. ** -9])) if kind in ("logistic", "quadratic", "newsvendor") else 0.
    arg = [None, 0.][int(rng.integers(2))] if l2 == 0 else l2
    x = pt.tensor(rng.normal(size=shape + (d,)) * big, dtype=dtype)
    xn = ref.np64(x)
    if dtype == pt.float32:
        mon.saw("float32")
    if case["axes"]:
        mon.saw("sample_axis")
    if l2:
        mon.saw("regularised")
    size = float(np.abs(xn).max()) + 1.
    if kind in ("logistic", "quadratic"):
        bias = bool(rng.random() < .5)
        cls = L.LogisticLoss if kind == "logistic" else L.QuadraticLoss
        with mon.under_test("building a loss"):
            loss = cls(None, d=d, l2reg=arg, fit_intercept=bias).to(dtype)
        if kind == "logistic" and rng.random() < .1:
            # the untrained logistic model is the zero model
            pass
        else:
            randomise(loss, rng)
        w = ref.np64(loss.theta).reshape(-1)
        b = float(ref.np64(loss.intercept).reshape(-1)[0]) if bias else 0.
        mon.check(bias or loss.intercept is None, "an intercept although none was requested")
        mon.check(w.size == d, "number of coefficients", got=w.size, d=d)
        lin = xn @ w + b
        if kind == "logistic":
            y = pt.tensor(rng.choice([-1., 1.], size=shape + (1,)), dtype=dtype)
            want = np.logaddexp(0., -ref.np64(y)[..., 0] * lin)
            with mon.under_test("predicting"):
                pr = loss.predict(x)
            mon.close(ref.np64(pr)[..., 0], np.tanh(lin), 50 * u * size * (1 + np.abs(w).sum()),
                      "prediction of the logistic loss")
            mon.saw("predictions")
        else:
            y = pt.tensor(rng.normal(size=shape + (1,)) * big, dtype=dtype)
            want = (lin - ref.np64(y)[..., 0]) ** 2
            with mon.under_test("predicting"):
                pr = loss.regression(x)
            mon.close(ref.np64(pr)[..., 0], lin, 50 * u * size * (1 + np.abs(w).sum() + abs(b)),
                      "prediction of the squared-error loss")
            mon.saw("predictions")
        want = want + .5 * l2 * (w ** 2).sum()
        mag = (1 + np.abs(w).sum() + abs(b)) * size
        tol = 60 * u * (mag if kind == "logistic" else (mag + float(y.abs().max())) ** 2) \
            + 60 * u * l2 * (w ** 2).sum()
        args = (x, y)
    elif kind == "newsvendor":
        k, uu = float(np.float32(rng.uniform(.5, 6))), float(np.float32(rng.uniform(.5, 9)))
        x = x.abs()
        with mon.under_test("building a loss"):
            loss = L.NewsVendorLoss_torch(None, k=k, u=uu, l2reg=arg).to(dtype)
        randomise(loss, rng, big)
        if rng.random() < .3:
            with pt.no_grad():
                list(loss.parameters())[0].copy_(x.reshape(-1)[:1])
            mon.saw("kinks")
        t = float(ref.np64(loss.theta).reshape(-1)[0])
        xn = ref.np64(x)
        want = k * t - uu * np.minimum(t, xn).mean(-1) + .5 * l2 * t ** 2
        tol = 60 * u * ((k + uu) * (abs(t) + size) + l2 * t ** 2)
        args = (x,) if rng.random() < .5 else (x, None)
    elif kind == "portfolio":
        eta, alpha = float(np.float32(rng.choice([0., rng.uniform(0, 3)]))), \
            float(np.float32(rng.uniform(.05, 1.) if rng.random() < .7
                             else 10. ** rng.uniform(-4, -1)))
        with mon.under_test("building a loss"):
            loss = SimplePortfolio(d, risk_aversion=eta, risk_level=alpha).to(dtype)
        randomise(loss, rng)
        w = ref.np64(loss.assets.weight).reshape(-1)
        mon.check(w.size == d and (w >= 0).all() and abs(w.sum() - 1) < 20 * u * d,
                  "portfolio weights leave the simplex", w=w)
        r = xn @ w
        tau = float(loss.tau.detach())
        want = -r + eta * (tau + np.maximum(-r - tau, 0) / alpha)
        tol = 60 * u * (size + abs(tau)) * (1 + eta + eta / alpha)
        args = (x,)
    else:
        shape = shape[-1:]
        x = x.reshape(-1, d)[:shape[0]]
        xn = ref.np64(x)
        with mon.under_test("building a loss"):
            loss = L.SimpleWeber(d).to(dtype)
        randomise(loss, rng, big)
        if rng.random() < .2:
            with pt.no_grad():
                loss.pos.copy_(x[0])
            mon.saw("kinks")
        y = pt.tensor(rng.uniform(0, 3, size=shape + (1,)), dtype=dtype)
        p = ref.np64(loss.pos)
        want = ref.np64(y)[..., 0] * np.sqrt(((xn - p) ** 2).sum(-1))
        tol = 60 * u * 3 * (size + np.abs(p).sum()) * d
        args = (x, y)
    with mon.under_test("evaluating a built-in loss"):
        v = loss(*args) if rng.random() < .5 or not hasattr(loss, "value") else loss.value(*args)
    mon.saw(kind)
    mon.check(tuple(v.shape) == shape + (1,), "shape of a built-in loss", kind=kind,
              got=tuple(v.shape), want=shape + (1,))
    if v.numel() == want.size:
        mon.close(ref.np64(v).reshape(want.shape), want, tol, "value of the %s loss" % kind,
                  d=d, l2=l2, scale=big)
        mon.check(bool(pt.isfinite(v).all()), "a built-in loss is not finite", kind=kind)
    if want.size == 1 or float(np.ptp(want)) > 0:
        mon.nontrivial(kind, shape, d, l2, float(np.sum(want)))
