"""C31: training approaches the minimum of the robust objective (optimality monitor)."""
import copy

import numpy as np
import scipy.optimize as so
import torch as pt

from vp import est, gen
from vp.core import Skip
from vp.watch import Watch

RULE = ("well-scaled convex problems are trained by the library with a fixed step size and enough "
        "steps; the robust objective at the trained point, on one fixed set of draws, is compared "
        "with the value an independent bounded quasi-Newton method reaches from there and from "
        "the start; non-trivial when training had a gap to close")
REQUIRED = ["models", "estimators", "gap_closed", "better_than_start", "independent_runs",
            "lambda_moved", "labelled", "unlabelled"] + ["est_%s" % k for k in est.KINDS]
MAX_SKIPPED = .3
CONVEX = ["mse", "mse3", "huber", "margin", "weighted", "ce", "quadpoint", "bce", "functional"]
# single runs may stall on unlucky draws: the share of the gap left is judged by the median of three


def cases(tier, seed):
    n = 27 if tier == "quick" else 225
    e = 2 if tier == "quick" else 18
    return [{"kind": "model", "name": CONVEX[k % len(CONVEX)], "cost": 2} for k in range(n)] + \
        [{"kind": "est", "est": k, "cost": 3} for _ in range(e) for k in est.KINDS]


def objective(model, args):
    """(f, x0, bounds): the value and gradient of the robust objective on one set of draws."""
    model = copy.deepcopy(model).double()
    model.imp_samp = False
    args = tuple(a if a is None else a.double() for a in args)
    lam = model.lam
    ps = [p for p in model.primal_loss.parameters()]
    every = ps + [lam]
    for p in every:
        p.requires_grad_(True)

    def put(v):
        k = 0
        with pt.no_grad():
            for p in every:
                p.copy_(pt.tensor(v[k:k + p.numel()]).reshape(p.shape))
                k += p.numel()

    def f(v):
        put(v)
        pt.manual_seed(5)
        o = model(*args)
        gs = pt.autograd.grad(o, every, allow_unused=True)
        g = pt.cat([(pt.zeros_like(p) if q is None else q).reshape(-1)
                    for p, q in zip(every, gs)])
        return float(o.detach()), g.detach().double().numpy()
    n = sum(p.numel() for p in ps)
    return f, n


def point(theta, lam):
    return np.append(np.asarray(theta, float), lam)


def judge(mon, f, n, start, end, info):
    v0, v1 = f(start)[0], f(end)[0]
    if not np.isfinite([v0, v1]).all():
        raise Skip("diverged")
    best = v1
    for x0 in (end, start):
        r = so.minimize(f, x0, jac=True, method="L-BFGS-B",
                        bounds=[(None, None)] * n + [(0., None)], options={"maxiter": 400})
        best = min(best, float(r.fun))
        mon.saw("independent_runs")
    if best < -1e3:
        raise Skip("unbounded on these draws")    # every draw further away than the radius
    gap, room = v1 - best, v0 - best
    size = abs(v0) + abs(best)
    mon.check(v1 <= v0 + .1 * size + .1, "training ends above its start", start=v0, end=v1,
              best=best, **info)
    mon.saw("better_than_start")
    if abs(end[-1] - start[-1]) > 1e-3:
        mon.saw("lambda_moved")
    # share of the way left, beyond what a fixed step leaves
    return max(0., gap - .03 * size - .03) / room if room > .05 * size + .1 else None, v1


def model_case(case, mon, rng):
    from skwdro.base.problems import EmpiricalDistributionWithLabels as WL
    from skwdro.base.problems import EmpiricalDistributionWithoutLabels as NL
    from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
    from skwdro.solvers.optim_cond import OptCondTorch
    d, m = int(rng.integers(1, 4)), int(rng.integers(8, 16))
    prob = gen.Problem(case["name"], d, rng, spy=False)
    x = pt.tensor(rng.normal(size=(m, d)), dtype=pt.float32)
    y = gen.tens(prob.make_labels(rng, m), pt.float32)
    code = str(rng.choice(["t-NC-2-2", "t-NC-1-2", "t-NC-1-1"] +
                          (["t-NLC-2-2-1.0", "t-NLC-1-2-0.5"] if prob.labels else [])))
    model = gen.robust(prob, pt.tensor(float(rng.choice([.3, .6]))), x, y, cost_spec=code,
                       n_samples=24, epsilon=float(rng.choice([.3, 1.])),                        n_iter=(30, 400), adapt=None, learning_rate=.05, imp_samp=False,
                       seed=int(rng.integers(1000)))
    first = []

    def on_eval(watch, mod, ev, out):
        if not first and watch.steps() == 30:
            first.append(point(start_theta, ev["lam"]))
    start_theta = pt.cat([p.detach().reshape(-1) for p in model.primal_loss.parameters()]).numpy()
    dist = NL(m=m, samples=x.numpy()) if y is None else \
        WL(m=m, samples_x=x.numpy(), samples_y=y.numpy())
    with Watch(on_eval=on_eval):
        with mon.under_test("training"):
            solve_dual_wdro(model, dist, OptCondTorch(2, tol_theta=0., tol_lambda=0.))
    if not first:
        raise Skip("no warm-up")
    f, n = objective(model, (x, y))
    end = point(pt.cat([p.detach().reshape(-1) for p in model.primal_loss.parameters()]).numpy(),
                float(model.lam.detach()))
    left, v = judge(mon, f, n, first[0], end, dict(problem=case["name"], code=code))
    mon.saw("models")
    mon.saw("labelled" if prob.labels else "unlabelled")
    return left, v


OPTS = {"logistic": dict(cost="t-NC-1-2", fit_intercept=True),
        "linreg": dict(cost="t-NC-1-2", fit_intercept=True),
        "newsvendor": dict(cost="t-NC-1-2", solver="entropic_torch_post"),
        "portfolio": dict(cost="t-NC-1-2"), "weber": dict(cost="t-NC-1-2")}


def est_case(case, mon, rng):
    kind = case["est"]
    X, y = est.data(kind, rng, m=14, d=2 if kind in ("logistic", "linreg", "portfolio") else None)
    o = dict(rho=float(rng.choice([.3, .6])), solver="entropic_torch", n_zeta_samples=24,
             n_iter=(30, 500), learning_rate=.05, solver_reg=float(rng.choice([.3, 1.])),
             random_state=int(rng.integers(1000)))
    o.update(OPTS[kind])
    e = est.make(kind, **o)
    with Watch(keep_points=True) as w:
        with mon.under_test("fitting"):
            est.fit(e, X, y)
    ev = w.evals()
    if len(w.models) != 1 or len(ev) < 60:
        raise Skip("stopped early")
    model = w.models[0]
    xs = ev[-1]["x"]
    ys = None
    if y is not None:
        ys = pt.tensor(np.asarray(y, np.float32).reshape(len(X), 1))
    f, n = objective(model, (xs, ys))
    start = point(ev[0]["theta"].numpy(), ev[30]["lam"])
    end = point(ev[-1]["theta"].numpy(), ev[-1]["lam"])
    left, v = judge(mon, f, n, start, end, dict(est=kind, options={k: str(q) for k, q in o.items()}))
    mon.saw("estimators")
    mon.saw("est_%s" % kind)
    return left, v


def run(case, mon, rng):
    one = model_case if case["kind"] == "model" else est_case
    left, seen, values = [], 0, []
    for _ in range(3):
        try:
            share, v = one(case, mon, rng)
        except Skip:
            continue
        seen += 1
        values.append(v)
        if share is not None:
            left.append(share)
    if not seen:
        raise Skip("nothing to judge")
    if len(left) == 3:
        mon.check(np.median(left) <= .2, "training stays away from the minimum", left=left,
                  what=case.get("name", case.get("est")))
        mon.saw("gap_closed")
        mon.nontrivial(case["kind"], values)
