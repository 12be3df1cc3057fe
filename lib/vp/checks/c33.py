"""C33: importance sampling moves the samples along the loss gradient (event monitor)."""
import math

import numpy as np
import torch as pt

from vp import gen, ref

RULE = ("twin robust models, one with importance sampling and one without, share seed and data; "
        "an observer in the user's loss records where each of them is evaluated; the difference "
        "is compared with the gradient of the loss at the data over 2 lambda (labels: over "
        "2 lambda kappa for label-aware costs, zero for plain ones); losses with a vanishing, "
        "infinite or undefined gradient must leave every sample in place; the displacement is "
        "also asked directly with small thresholds; non-trivial when samples moved")
REQUIRED = ["moved", "plain", "aware", "unlabelled", "labels_moved", "labels_kept", "untranslated",
            "lambda_zero", "thresholds", "clipped", "not_clipped", "same_shift", "not_square",
            "default_cost", "steep", "large_lambda", "other_batch", "label_gradient", "data_gradient"]


def cases(tier, seed):
    n = 160 if tier == "quick" else 2600
    return [{"kind": "twin", "hostile": k % 5 == 4} for k in range(n)] + \
        [{"kind": "threshold"} for _ in range(n // 2)]


def grads(prob, x, y):
    _, f = prob.reference()
    x = x.detach().double().requires_grad_(True)
    args = [x]
    if y is not None:
        y = y.detach().double().requires_grad_(True)
        args.append(y)
    g = pt.autograd.grad(f(x, y).sum(), args)
    return g[0], (g[1] if y is not None else None)


def setting(rng):
    name = str(rng.choice([n for n in gen.LABELLED + gen.UNLABELLED]))
    d = int(rng.integers(1, 5))
    prob = gen.Problem(name, d, rng).to(pt.float64)
    codes = [None, "t-NC-2-2"] + (["t-NLC-2-2-0.5", "t-NLC-2-2-1.0", "t-NLC-2-2-8.0"]
                                  if prob.labels else [])
    code = codes[int(rng.integers(len(codes)))]
    return prob, d, code, ref.parse(code, prob.labels)


def batch(prob, d, rng):
    m = int(rng.integers(1, 7))
    return gen.tens(rng.normal(size=(m, d)), pt.float64), \
        gen.tens(prob.make_labels(rng, m), pt.float64)


def twin(case, mon, rng):
    prob, d, code, spec = setting(rng)
    x, y = batch(prob, d, rng)
    square = rng.random() > .1
    if not square:
        code = "t-NC-1-2"
        mon.saw("not_square")
    if code is None:
        mon.saw("default_cost")
    rho, lam = gen.dyadic(rng, .05, 2.), gen.dyadic(rng, .05, 5.)
    if rng.random() < .1:
        lam = gen.dyadic(rng, 1e2, 1e5)
        mon.saw("large_lambda")
    n, seed = int(rng.integers(1, 8)), int(rng.integers(10000))
    kw = dict(cost_spec=code, n_samples=n, seed=seed, sigma=gen.dyadic(rng, .05, 1.),
              epsilon=gen.dyadic(rng, .1, 2.), n_iter=(1, 2))
    if prob.name in ("mse", "mse3", "weighted", "functional") and rng.random() < .4:
        with pt.no_grad():                         # gradients of a million and more
            for p in prob.params():
                p.mul_(gen.dyadic(rng, 1e2, 1e4))
        mon.saw("steep")
    hostile = case["hostile"] and square
    zero_lam = False
    if hostile:
        how = int(rng.integers(5))
        if how == 0:                               # the loss is flat at one data point
            if not zero_gradient(prob, rng):
                hostile = False
        elif how == 1:
            lam, zero_lam = 0., True
        elif how == 2:
            with pt.no_grad():
                prob.params()[0].reshape(-1)[0] = math.inf
        else:                                      # only one of the two gradients is defined
            prob, x, y = one_sided(how == 3, d, len(x), rng)
            code = ["t-NC-2-2", "t-NLC-2-2-0.5", "t-NLC-2-2-8.0"][int(rng.integers(3))]
            kw["cost_spec"] = code
            mon.saw("label_gradient" if how == 3 else "data_gradient")
    models = [gen.robust(prob, pt.tensor(rho, dtype=pt.float64), x, y, imp_samp=s, **kw)
              for s in (True, False)]
    seen = []
    if rng.random() < .4 and prob.name != "one_sided":
        x, y = batch(prob, d, rng)
        mon.saw("other_batch")
    for mod in models:
        gen.fill_lambda(mod, lam)
        prob.rec.clear()
        with mon.under_test("evaluating"):
            with pt.no_grad():
                mod(x, y)
        px, py = prob.seen()
        m = len(x)
        if len(px) > n * m:     # evaluations at the data themselves come after the samples
            px, py = px[:n * m], None if py is None else py[:n * m]
        seen.append((px.reshape(n, m, -1), None if py is None else py.reshape(n, m, -1)))
    sx = seen[0][0] - seen[1][0]
    sy = None if y is None else seen[0][1] - seen[1][1]
    gx, gy = grads(prob, x, y)
    info = dict(problem=prob.name, code=str(code), lam=lam)
    u = 1e-9 * (1. + float(seen[1][0].abs().max()))
    bad = lam == 0. or not bool(pt.isfinite(gx).all()) or bool((gx.abs().sum(-1) == 0).any()) \
        or (gy is not None and (not bool(pt.isfinite(gy).all())
                                or bool((gy.abs().sum(-1) == 0).any())))
    if not square or bad:
        mon.close(ref.np64(sx), 0. * ref.np64(sx), u, "samples moved without a direction", **info)
        if sy is not None:
            mon.close(ref.np64(sy), 0. * ref.np64(sy), u, "labels moved without a direction",
                      **info)
        mon.saw("untranslated" if square else "not_square")
        if zero_lam:
            mon.saw("lambda_zero")
        mon.nontrivial("still", prob.name, float(seen[1][0].abs().sum()))
        return
    want = (.5 * gx / lam).expand_as(sx)
    tol = 1e-6 * (1. + float(want.abs().max())) + u
    mon.close(ref.np64(sx), ref.np64(want), tol, "samples are not moved along the loss gradient",
              **info)
    mon.saw("moved")
    mon.saw("same_shift")
    if sy is not None:
        if spec[0] == "NLC":
            wy = (.5 * gy / lam / spec[3]).expand_as(sy)
            mon.saw("aware")
            mon.saw("labels_moved")
        else:
            wy = 0. * sy
            mon.saw("plain")
            mon.saw("labels_kept")
        mon.close(ref.np64(sy), ref.np64(wy), 1e-6 * (1. + float(wy.abs().max())) + u,
                  "labels are not moved as the cost prescribes", **info)
    else:
        mon.saw("unlabelled")
    mon.nontrivial(prob.name, str(code), lam, float(want.abs().sum()))


class Root(pt.nn.Module):
    """Squared error plus the root of the label or of the prediction."""
    reduction = 'none'

    def __init__(self, on_label):
        super().__init__()
        self.on_label = on_label

    def forward(self, pred, target):
        return (pred - target) ** 2 + (target if self.on_label else pred).abs().sqrt()


def one_sided(on_label, d, m, rng):
    """A loss whose gradient in the labels, or in the data, is undefined at one point."""
    prob = gen.Problem("weighted", d, rng).to(pt.float64)
    prob.name = "one_sided"
    prob.loss.inner = prob._raw_loss = Root(on_label)
    x, y = rng.normal(size=(m, d)), rng.normal(size=(m, 1))
    k = int(rng.integers(m))
    if on_label:
        y[k] = 0.
    else:
        x[k] = 0.
    return prob, gen.tens(x, pt.float64), gen.tens(y, pt.float64)


def zero_gradient(prob, rng):
    """Make the gradient with respect to the data vanish everywhere, for a linear transform."""
    tr = prob.transform.inner
    if not hasattr(tr, "weight"):
        return False
    with pt.no_grad():
        tr.weight.zero_()
    return True


def threshold(case, mon, rng):
    prob, d, code, spec = setting(rng)
    x, y = batch(prob, d, rng)
    lam, thr = gen.dyadic(rng, .05, 5.), gen.dyadic(rng, .05, 5.)
    model = gen.robust(prob, pt.tensor(.5, dtype=pt.float64), x, y, cost_spec=code, n_iter=(1, 2))
    gen.fill_lambda(model, lam)
    with mon.under_test("computing displacements"):
        dx, dy = model.get_optimal_displacement(x, y, thr)
    gx, gy = grads(prob, x, y)
    for got, g, what in ((dx, gx, "data"), (dy, gy, "labels")):
        if g is None:
            mon.check(got is None, "a displacement of labels that do not exist")
            continue
        size = g.norm(dim=-1, keepdim=True)
        ok = (size > 1e-12).reshape(-1)
        if not bool(ok.any()):
            continue
        want = (g / size * size.clamp(max=thr) / lam)[ok]
        mon.close(ref.np64(got).reshape(len(x), -1)[ok.numpy()], ref.np64(want),
                  1e-6 * (1. + float(want.abs().max())),
                  "the displacement of the %s is not the clipped gradient over lambda" % what,
                  problem=prob.name, threshold=thr, lam=lam)
        mon.saw("thresholds")
        mon.saw("clipped" if bool((size > thr).any()) else "not_clipped")
    mon.nontrivial("threshold", prob.name, lam, thr)


def run(case, mon, rng):
    {"twin": twin, "threshold": threshold}[case["kind"]](case, mon, rng)
