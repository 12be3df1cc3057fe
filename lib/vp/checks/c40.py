"""C40: the warm-up of training follows the empirical risk (twin monitor)."""
import copy

import numpy as np
import torch as pt

from vp import est, gen
from vp.core import Skip
from vp.watch import Watch

RULE = ("robust models around random user losses are trained by the solver with their own "
        "optimiser or a registered one; the parameters met at every warm-up step and at the "
        "first robust evaluation are compared with those the same optimiser reaches on the "
        "average loss, in single and in double precision; default regressions with ordinary schedules "
        "must have reached the least-squares risk; non-trivial when the warm-up moved the "
        "parameters")
REQUIRED = ["warm_steps", "handed_over", "lbfgs", "sgd", "adam", "given_rate", "default_rate",
            "small_radius", "large_radius", "radius_zero", "no_warm_up", "schedule_int",
            "labelled", "unlabelled", "many_points", "adamw", "prodigy", "mechanic",
            "post_sgd", "post_adam", "regressions_pre", "regressions_post", "regressions", "default_options"]
MAX_SKIPPED = .4


def cases(tier, seed):
    n = 20 if tier == "quick" else 150
    out = [{"kind": "model", "opt": o, "post": p} for _ in range(n)
           for o, p in (("lbfgs", 0), ("lbfgs", 0), ("sgd", 0), ("adam", 0), ("sgd", 1),
                        ("adam", 1), ("adamw", 1), ("prodigy", 1), ("mechanic", 1))]
    return out + [{"kind": "regression", "post": k % 20 == 0} for k in range(2 * n)]


def emp(X, Y):
    from skwdro.base.problems import (EmpiricalDistributionWithLabels,
                                      EmpiricalDistributionWithoutLabels)
    return EmpiricalDistributionWithoutLabels(m=len(X), samples=X) if Y is None else \
        EmpiricalDistributionWithLabels(m=len(X), samples_x=X, samples_y=Y)


def optimiser(name, params, rate):
    if name == "sgd":
        return pt.optim.SGD(params, lr=rate)
    if name == "adam":
        return pt.optim.Adam(params, lr=rate)
    if name == "adamw":
        return pt.optim.AdamW(params, lr=5e-2 if rate is None else rate, betas=(.99, .999),
                              weight_decay=0., amsgrad=True)
    if name == "mechanic":
        from mechanic_pytorch import mechanize
        return mechanize(pt.optim.Adam)(params, lr=1., weight_decay=0.)
    if name == "prodigy":
        from prodigyopt import Prodigy
        return Prodigy(params, lr=1., weight_decay=0, safeguard_warmup=True,
                       use_bias_correction=True)
    return pt.optim.LBFGS(params, lr=1. if rate is None else rate, max_iter=1, max_eval=10,
                          tolerance_grad=1e-4, tolerance_change=1e-6, history_size=30)


def path(problem, X, Y, name, rate, steps, span, dtype):
    """Parameters of the optimiser on the empirical risk, before each step and at the end."""
    loss, tr = copy.deepcopy(problem.loss), copy.deepcopy(problem.transform)
    ps = []
    for mod in (loss, tr):
        if isinstance(mod, pt.nn.Module):
            mod.to(dtype)
            ps += list(mod.parameters())
    x, y = gen.tens(X, dtype), gen.tens(Y, dtype)
    opt = optimiser(name, ps, rate)
    clock = pt.optim.lr_scheduler.CosineAnnealingLR(opt, T_max=span) if name == "prodigy" else None

    def closure():
        opt.zero_grad()
        h = x if tr is None else tr(x)
        args = (h,) if y is None else (h, y)
        v = loss(*args) if isinstance(loss, pt.nn.Module) else loss(*args, reduction='none')
        v = v.mean()
        v.backward()
        return v.item()

    def now():
        return pt.cat([p.detach().reshape(-1).double() for p in ps]).numpy()
    out = [now()]
    for _ in range(steps):
        if name in ("lbfgs", "sgd", "adam"):
            opt.step(closure)
        else:
            closure()
            opt.step()
        if clock is not None:
            clock.step()
        out.append(now())
    return out


def met(w, warm):
    """Parameters at the first evaluation after each of the first warm steps."""
    seen, done = {}, 0
    for kind, ev in w.events:
        if kind == "step":
            done += 1
        elif kind == "eval" and done <= warm:
            seen.setdefault(done, ev["theta"].numpy())
    return seen


def model_case(case, mon, rng):
    from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
    from skwdro.solvers.optim_cond import OptCondTorch
    name = str(rng.choice(["mse", "huber", "margin", "mlp", "quadpoint", "logcosh", "mse3",
                           "functional", "functional_plain"]))
    d, m = int(rng.integers(1, 5)), gen.size(rng, 2, 12, 150, .1)
    problem = gen.Problem(name, d, rng, spy=False)
    X = rng.normal(size=(m, d)).astype(np.float32).astype(float)
    Y = problem.make_labels(rng, m)
    Y = None if Y is None else Y.astype(np.float32).astype(float)
    rho = [0., .01, .3, 3., 50.][int(rng.choice(5, p=[.1, .2, .3, .2, .2]))]
    if rng.random() < .4:
        n_iter = int(rng.integers(4, 40))
        mon.saw("schedule_int")
    else:
        n_iter = (int(rng.integers(0, 12)), int(rng.integers(1, 4)))
    warm = int(.3 * n_iter) if isinstance(n_iter, int) else n_iter[0]
    opt, post = case["opt"], bool(case["post"])
    own = opt in ("lbfgs", "adamw", "prodigy", "mechanic")
    rate = None if own and rng.random() < .5 or opt in ("prodigy", "mechanic") else \
        float(rng.choice([.02, .1, .3]))
    span = warm + (n_iter if isinstance(n_iter, int) else n_iter[1])
    twins = [path(problem, X, Y, opt, rate, warm, span, t) for t in (pt.float32, pt.float64)]
    code = "t-%s-%s" % ("NLC" if problem.labels and rng.random() < .5 else "NC",
                        str(rng.choice(["2-2", "1-2"])))
    with mon.under_test("building a model"):
        model = gen.robust(problem, pt.tensor(rho), gen.tens(X, pt.float32),
                           gen.tens(Y, pt.float32), post_sample=post, cost_spec=code,
                           n_samples=int(rng.integers(1, 6)), seed=int(rng.integers(1000)),
                           n_iter=n_iter, epsilon=gen.dyadic(rng, .05, 1.),
                           imp_samp=code.endswith("2-2") and rng.random() < .5,
                           adapt=opt if opt in ("prodigy", "mechanic") else None,
                           **({} if rate is None or not own else {"learning_rate": rate}))
    if not own:
        model.optimizer = optimiser(opt, [p for p in model.parameters() if p.requires_grad], rate)
    w = Watch()
    with w:
        with mon.under_test("training"):
            solve_dual_wdro(model, emp(X, Y), OptCondTorch(2, 0., 0.))
    seen = met(w, warm)
    mon.saw("post_" + opt if post and not own else opt)
    mon.saw("default_rate" if rate is None else "given_rate")
    mon.saw("radius_zero" if rho == 0 else "large_radius" if rho >= 3 else "small_radius")
    mon.saw("labelled" if problem.labels else "unlabelled")
    if m > 50:
        mon.saw("many_points")
    if warm == 0:
        mon.saw("no_warm_up")
    for k in range(warm + 1):
        a, b = twins[0][k], twins[1][k]
        size = 1. + np.abs(b).max()
        if not np.isfinite(b).all() or size > 1e3 or np.abs(a - b).max() > 1e-4 * size:
            if k == 0:
                raise Skip("diverged")
            break   # rounding decides from here on
        if not mon.check(k in seen, "no evaluation after a warm-up step", step=k, warm=warm):
            return
        if not mon.close(np.sort(seen[k]), np.sort(a), 1e-3 * size,
                         "the warm-up does not follow the empirical risk", step=k, optimiser=opt,
                         rho=rho, problem=name, n_iter=n_iter):
            return
        mon.saw("handed_over" if k == warm else "warm_steps")
    move = float(np.abs(twins[1][0] - twins[1][min(k, warm)]).max())
    if move > 0:
        mon.nontrivial(name, opt, rho, move)


def regression(case, mon, rng):
    """Default regressions: the warm-up alone must have solved the least squares."""
    post = case["post"]
    d = int(rng.integers(1, 6))
    X, y = est.data("linreg", rng, m=int(rng.integers(12, 60)) + 4 * d, d=d)
    icpt = bool(rng.random() < .6)
    o = {"solver": "entropic_torch_" + ("post" if post else "pre"), "rho": float(rng.choice([.01, .3, 1., 10.])),
         "fit_intercept": icpt, "random_state": int(rng.integers(1000)),
         "cost": str(rng.choice(est.COSTS["linreg"]))}
    if rng.random() < .3 or post:
        mon.saw("default_options")
        o.pop("cost")
        warm = None
    else:
        warm = int(rng.integers(25, 60))
        o["n_iter"] = (warm, 2)
    e = est.make("linreg", **o)
    w = Watch()
    with w:
        with mon.under_test("fitting a regression"):
            e.fit(X, y)
    if warm is None:
        n_iter = w.models[0].n_iter
        warm = int(.3 * n_iter) if isinstance(n_iter, int) else n_iter[0]
    seen = met(w, warm)
    if not mon.check(warm in seen and 0 in seen, "no evaluation after the warm-up", warm=warm):
        return
    A = np.hstack([X, np.ones((len(X), 1))]) if icpt else X

    def risk(theta):
        return float(((A @ theta[:A.shape[1]] - y) ** 2).mean())
    best = risk(np.linalg.lstsq(A, y, rcond=None)[0])
    start, end = risk(seen[0]), risk(seen[warm])
    mon.check(end <= best + .01 * max(start - best, 0.) + 1e-4 * (1. + best),
              "the warm-up does not solve the least squares", start=start, end=end, best=best,
              warm=warm, rho=o["rho"], post=post)
    mon.saw("regressions")
    mon.saw("regressions_post" if post else "regressions_pre")
    if start > best:
        mon.nontrivial("regression", start, end)


def run(case, mon, rng):
    pt.manual_seed(int(rng.integers(2**31)))
    (model_case if case["kind"] == "model" else regression)(case, mon, rng)
