"""C29: the starting dual guess follows the loss sensitivity and the radius."""
import math

import numpy as np
import torch as pt

from vp import gen, ref
from vp.watch import Watch

RULE = ("random losses, costs, radii and batches (other batches than the one the model was built "
        "on); the guess returned and the dual variable afterwards are compared with the documented "
        "expression on reference gradients in float64; in training runs the dual variable of the "
        "first evaluation after the warm-up is compared the same way; the loss is scaled to "
        "observe the scaling of the guess; non-trivial when the guess is positive")
REQUIRED = ["direct", "held", "power1", "power2", "labelled", "unlabelled", "zero_radius",
            "trained_post", "trained_pre", "scaled", "l2", "other_batch", "repeated", "float32",
            "single_point", "many_points", "tiny_radius", "no_warm_up"]


def cases(tier, seed):
    n = 160 if tier == "quick" else 3000
    t = 24 if tier == "quick" else 300
    return [{"kind": "direct", "f32": k % 4 == 3} for k in range(n)] + \
        [{"kind": "train", "post": k % 2 == 0} for k in range(t)] + \
        [{"kind": "scale"} for _ in range(n // 4)]


def guess(prob, spec, rho, x, y):
    """Documented starting point, from independent float64 gradients."""
    _, f = prob.reference()
    x = x.detach().double().requires_grad_(True)
    args = [x]
    if y is not None:
        y = y.detach().double().requires_grad_(True)
        args.append(y)
    g = pt.autograd.grad(f(x, y).sum(), args)
    size = ref.cost(spec, g[0], pt.zeros_like(g[0]), *((g[1], pt.zeros_like(g[1]))
                                                       if y is not None else ()))
    p, rn = spec[1], len(x) * rho ** spec[1]
    if p == 1.:
        return 1. / rn
    q = p / (p - 1.)
    return float(((size * rn) ** (q - 1.)).sum() ** (1. / q)) / (p * rn)


def setting(rng, dtype):
    name = str(rng.choice(gen.LABELLED + gen.UNLABELLED))
    d = int(rng.integers(1, 5))
    prob = gen.Problem(name, d, rng).to(dtype)
    if prob.labels:
        code = [None, "t-NC-2-2", "t-NLC-2-2-0.5", "t-NLC-2-2-8.0", "t-NC-1-2", "t-NC-1-1",
                "t-NLC-1-inf-4.0", "t-NLC-2-2"][int(rng.integers(8))]
    else:
        code = [None, "t-NC-2-2", "t-NC-1-2", "t-NC-1-inf"][int(rng.integers(4))]
    return prob, d, code, ref.parse(code, prob.labels)


def batch(prob, d, rng, dtype):
    m = int(rng.integers(60, 150)) if rng.random() < .1 else int(rng.integers(1, 8))
    x = rng.normal(size=(m, d)) * float(np.exp(rng.uniform(-1, 1)))
    return gen.tens(x, dtype), gen.tens(prob.make_labels(rng, m), dtype)


def direct(case, mon, rng):
    dtype = pt.float32 if case["f32"] else pt.float64
    if case["f32"]:
        mon.saw("float32")
    prob, d, code, spec = setting(rng, dtype)
    x0, y0 = batch(prob, d, rng, dtype)
    zero = rng.random() < .1
    tiny = rng.random() < .15
    rho = 0. if zero else gen.dyadic(rng, 1e-5, 1e-3) if tiny else gen.dyadic(rng, 1e-3, 5.)
    l2 = float(rng.choice([0., 2.]))
    model = gen.robust(prob, pt.tensor(rho, dtype=dtype), x0, y0, cost_spec=code, l2reg=l2,
                       post_sample=bool(rng.random() < .5), n_samples=3,
                       imp_samp=bool(rng.random() < .5), n_iter=(1, 2))
    if l2:
        mon.saw("l2")
    shape = tuple(model.lam.shape)
    for turn in range(3):
        gen.fill_lambda(model, gen.dyadic(rng, .1, 10.))
        x, y = (x0, y0) if turn == 0 else batch(prob, d, rng, dtype)
        with mon.under_test("computing the starting guess"):
            got = model.get_initial_guess_at_dual(x, y)
        lam = float(model.lam.detach().reshape(-1)[0])
        if zero:
            mon.check(lam == 0. and (got is None or float(got) == 0.),
                      "the guess is not zero at radius zero", lam=lam)
            mon.saw("zero_radius")
            continue
        want = guess(prob, spec, rho, x, y)
        info = dict(problem=prob.name, code=str(code), rho=rho, m=len(x))
        tol = (2e-4 if case["f32"] else 1e-5) * want + 1e-30
        if case["f32"]:      # gradients lost to rounding
            tol += 1e-5 * math.sqrt(prob.magnitude(x, y)) / rho
        mon.check(math.isfinite(lam) and lam >= 0., "the guess is not a finite non-negative number",
                  got=lam, **info)
        mon.close(float(got), want, tol, "the guess is not the documented expression", **info)
        mon.close(lam, float(got), 1e-6 * abs(float(got)),
                  "the dual variable does not hold the guess", **info)
        mon.check(tuple(model.lam.shape) == shape, "the guess changed the shape of the variable")
        mon.saw("direct")
        mon.saw("held")
        mon.saw("power%d" % spec[1])
        mon.saw("labelled" if prob.labels else "unlabelled")
        if turn == 1:
            mon.saw("other_batch")
        if turn == 2:
            mon.saw("repeated")
        if len(x) == 1:
            mon.saw("single_point")
        if len(x) > 50:
            mon.saw("many_points")
        if tiny:
            mon.saw("tiny_radius")
        if lam > 0:
            mon.nontrivial(prob.name, str(code), rho, lam)


def train(case, mon, rng):
    from skwdro.base.problems import EmpiricalDistributionWithLabels, EmpiricalDistributionWithoutLabels
    from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
    from skwdro.solvers.optim_cond import OptCondTorch
    dtype = pt.float32
    prob, d, code, spec = setting(rng, dtype)
    x, y = batch(prob, d, rng, dtype)
    rho = gen.dyadic(rng, 1e-2, 1.)
    pre = int(rng.integers(0, 4))
    if pre == 0:
        mon.saw("no_warm_up")
    post = case["post"]
    model = gen.robust(prob, pt.tensor(rho), x, y, cost_spec=code, post_sample=post, n_samples=4,
                       n_iter=(pre, 2), learning_rate=1e-3, adapt=None,
                       epsilon=gen.dyadic(rng, .1, 1.), imp_samp=False)
    first = []

    def on_eval(watch, mod, ev, out):
        # first evaluation after the last warm-up step, inside or ahead of the next step
        if not first and watch.steps() == pre:
            first.append((ev["lam"], guess(prob, spec, rho, x, y)))
    dist = EmpiricalDistributionWithoutLabels(m=len(x), samples=x.numpy()) if y is None else \
        EmpiricalDistributionWithLabels(m=len(x), samples_x=x.numpy(), samples_y=y.numpy())
    with Watch(on_eval=on_eval) as w:
        with mon.under_test("training"):
            solve_dual_wdro(model, dist, OptCondTorch(2, tol_theta=0., tol_lambda=0.))
    if not mon.check(len(first) == 1, "no evaluation after the warm-up", steps=w.steps()):
        return
    lam, want = first[0]
    mon.close(lam, want, 1e-3 * want + 1e-5 * math.sqrt(prob.magnitude(x, y)) / rho,
              "training does not start from the guess", problem=prob.name, code=str(code),
              post=post)
    mon.saw("trained_post" if post else "trained_pre")
    if want > 0:
        mon.nontrivial("train", prob.name, str(code), want)


class Scaled:
    def __init__(self, fn, c):
        self.fn, self.c = fn, c

    def __call__(self, pred, target, reduction='none'):
        return self.c * self.fn(pred, target, reduction=reduction)


def scale(case, mon, rng):
    import torch.nn.functional as F
    from skwdro.torch import robustify
    d, m = int(rng.integers(1, 4)), int(rng.integers(1, 6))
    lin = pt.nn.Linear(d, 1).double()
    x, y = pt.tensor(rng.normal(size=(m, d))), pt.tensor(rng.normal(size=(m, 1)))
    rho, c = gen.dyadic(rng, 1e-2, 2.), gen.dyadic(rng, .1, 10.)
    code = ["t-NC-2-2", "t-NLC-2-2-1.0", None][int(rng.integers(3))]
    got = []
    for k in (1., c):
        mod = robustify(Scaled(F.mse_loss, k), lin, pt.tensor(rho).double(), x, y, cost_spec=code)
        with mon.under_test("computing the starting guess"):
            got.append(float(mod.get_initial_guess_at_dual(x, y)))
    mon.close(got[1], c * got[0], 1e-5 * c * got[0], "the guess is not linear in the loss",
              code=str(code), c=c)
    mon.saw("scaled")
    if got[0] > 0:
        mon.nontrivial("scale", c, got[0])


def run(case, mon, rng):
    {"direct": direct, "train": train, "scale": scale}[case["kind"]](case, mon, rng)
