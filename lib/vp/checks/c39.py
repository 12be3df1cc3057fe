"""C39: the built-in optimisers advance models like their published namesakes (twin monitor)."""
import numpy as np
import torch as pt

from vp import gen
from vp.core import Skip

RULE = ("two robust models are built alike; one keeps its built-in optimiser, the other gets the "
        "optimiser the documentation names, assembled from its published implementation, and both "
        "are driven by the same objective gradients or by the same random gradients; parameters "
        "and dual variable are compared after every step; non-trivial when several steps moved "
        "the parameters")
REQUIRED = ["steps", "adamw", "prodigy", "mechanic", "lbfgs", "default_rate", "given_rate",
            "objective_gradients", "random_gradients", "annealed", "beyond_schedule",
            "dual_at_zero", "radius_zero", "gradients_cleared", "step_pair", "step_number",
            "unknown_refused"]
NAMES = ["adamw", "prodigy", "mechanic", "lbfgs"]


def cases(tier, seed):
    n = 120 if tier == "quick" else 1600
    return [{"kind": "drive", "opt": NAMES[k % 4], "fake": (k // 4) % 3 == 0 and k % 4 != 3}
            for k in range(n)] + [{"kind": "refuse"}] * 4


class Twin:
    """The documented optimiser over the same parameters as a model."""

    def __init__(self, name, model, n_iter, rate):
        theta = [p for p in model.primal_loss.parameters() if p.requires_grad]
        lam = [p for p in model.parameters() if p.requires_grad
               and not any(p is q for q in theta)]
        self.clocks = []
        if name == "adamw":
            self.opts = [pt.optim.AdamW(theta + lam, lr=5e-2 if rate is None else rate,
                                        betas=(.99, .999), weight_decay=0., amsgrad=True)]
        elif name == "lbfgs":
            self.opts = [pt.optim.LBFGS(theta + lam, lr=1. if rate is None else rate, max_iter=1,
                                        max_eval=10, tolerance_grad=1e-4, tolerance_change=1e-6,
                                        history_size=30)]
        else:
            pre, train = (int(.3 * n_iter), n_iter) if isinstance(n_iter, int) else n_iter
            self.opts = []
            for ps, span in ((theta, pre + train), (lam, train)):
                if not ps:
                    continue
                if name == "mechanic":
                    from mechanic_pytorch import mechanize
                    self.opts.append(mechanize(pt.optim.Adam)(ps, lr=1., weight_decay=0.))
                else:
                    from prodigyopt import Prodigy
                    o = Prodigy(ps, lr=1., weight_decay=0, safeguard_warmup=True,
                                use_bias_correction=True)
                    self.opts.append(o)
                    self.clocks.append(pt.optim.lr_scheduler.CosineAnnealingLR(o, T_max=span))

    def step(self, closure=None):
        for o in self.opts:
            o.step(closure) if closure is not None else o.step()
        for c in self.clocks:
            c.step()

    def zero_grad(self):
        for o in self.opts:
            o.zero_grad()


def trained(model):
    return [p for p in model.parameters() if p.requires_grad]


def refuse(mon, rng):
    p = gen.Problem("mse", 2, rng).to(pt.float64)
    x = pt.tensor(rng.normal(size=(3, 2)))
    y = gen.tens(p.make_labels(rng, 3), pt.float64)
    bad = str(rng.choice(["adam", "Prodigy", "sgd", "none"]))
    mon.raises(lambda: gen.robust(p, pt.tensor(.3).double(), x, y, adapt=bad, n_iter=(1, 2)),
               "an unknown adaptive optimiser is accepted", name=bad)
    mon.saw("unknown_refused")


def run(case, mon, rng):
    if case["kind"] == "refuse":
        return refuse(mon, rng)
    name, fake = case["opt"], case["fake"]
    d = int(rng.integers(1, 4))
    kind = str(rng.choice(["mse", "huber", "logcosh", "mlp", "quadpoint"]))
    m = int(rng.integers(2, 6))
    X = rng.normal(size=(m, d))
    if rng.random() < .5:
        n_iter = int(rng.integers(3, 20))
        mon.saw("step_number")
    else:
        n_iter = (int(rng.integers(0, 8)), int(rng.integers(2, 15)))
        mon.saw("step_pair")
    rho = 0. if rng.random() < .12 else gen.dyadic(rng, .05, 1.)
    rate = None
    if name in ("adamw", "lbfgs"):
        rate = None if rng.random() < .4 else float(10. ** rng.uniform(-3, -.5))
        mon.saw("default_rate" if rate is None else "given_rate")
    lam0, seed, n = float(rng.uniform(.05, 3.)), int(rng.integers(1000)), int(rng.integers(1, 5))
    state = int(rng.integers(2 ** 31))
    eps, sigma = gen.dyadic(rng, .1, 1.), gen.dyadic(rng, .05, .5)
    models, Y = [], None
    for _ in range(2):
        r = np.random.default_rng(state)
        problem = gen.Problem(kind, d, r, spy=False).to(pt.float64)
        Y = problem.make_labels(r, m) if Y is None else Y
        kw = {} if name == "lbfgs" else {"adapt": None if name == "adamw" else name}
        if rate is not None:
            kw["learning_rate"] = rate
        with mon.under_test("building a model"):
            model = gen.robust(problem, pt.tensor(rho).double(), gen.tens(X, pt.float64),
                               gen.tens(Y, pt.float64), post_sample=name != "lbfgs", seed=seed,
                               cost_spec="t-NC-2-2", n_samples=n, epsilon=eps, sigma=sigma,
                               n_iter=n_iter, imp_samp=False, **kw)
        if rho > 0:
            gen.fill_lambda(model, lam0)
        models.append(model)
    a, b = models
    xi, yi = gen.tens(X, pt.float64), gen.tens(Y, pt.float64)
    zetas = ()
    if name == "lbfgs":
        z, zy = gen.draw_around(rng, "NC", X, Y, n, sigma)
        zetas = (gen.tens(z, pt.float64), gen.tens(zy, pt.float64))
    ours, twin = a.optimizer, Twin(name, b, n_iter, rate)
    mon.saw(name)
    if rho == 0:
        mon.saw("radius_zero")
    span = n_iter if isinstance(n_iter, int) else sum(n_iter)
    count = int(rng.integers(2, span + 6))
    scale = 10. ** rng.uniform(-2, 2)
    first = [p.detach().clone() for p in trained(a)]
    with mon.under_test("driving the optimiser"):
        for k in range(count):
            if name == "lbfgs":
                def closure(model, opt):
                    def f():
                        opt.zero_grad()
                        v = model(xi, yi, *zetas)
                        v.backward()
                        return v
                    return f
                ours.step(closure(a, ours))
                twin.step(closure(b, twin))
                mon.saw("objective_gradients")
            else:
                ours.zero_grad()
                twin.zero_grad()
                mon.check(all(p.grad is None or not p.grad.any() for p in trained(a)),
                          "clearing the gradients left some")
                mon.saw("gradients_cleared")
                if fake:
                    for p, q in zip(trained(a), trained(b)):
                        g = pt.tensor(rng.normal(size=tuple(p.shape)) * scale)
                        p.grad, q.grad = g.clone(), g.clone()
                    mon.saw("random_gradients")
                else:
                    for model in models:
                        pt.manual_seed(seed + k)
                        model(xi, yi).backward()
                    mon.saw("objective_gradients")
                ours.step()
                twin.step()
            with pt.no_grad():
                if rho > 0:   # both loops keep the dual variable non-negative
                    if float(b.lam) <= 0:
                        mon.saw("dual_at_zero")
                    for model in models:
                        model.lam.data.clamp_(0., None)
            A, B = [pt.cat([p.detach().reshape(-1) for p in trained(q)]).numpy() for q in models]
            if not np.isfinite(B).all() or np.abs(B).max() > 1e3:
                raise Skip("diverged")
            if not mon.close(A, B, 1e-6 * (1. + np.abs(B).max()),
                             "a step of the built-in optimiser is not that of its namesake",
                             optimiser=name, step=k, n_iter=n_iter, rate=rate, rho=rho):
                return
            mon.check(rho > 0 or float(a.lam) == 0., "the dual variable moved at radius zero")
            mon.saw("steps")
            if name == "prodigy":
                mon.saw("annealed")
                if k + 1 > span:
                    mon.saw("beyond_schedule")
    moved = max(float((p.detach() - q).abs().max()) for p, q in zip(trained(a), first))
    if moved > 0:
        mon.nontrivial(name, kind, count, rho, moved)
