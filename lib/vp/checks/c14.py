"""C14: the dual variable stays non-negative and results stay coherent (trace monitor)."""
import numpy as np
import torch as pt

from vp import est, gen
from vp.core import Skip
from vp.watch import Watch

RULE = ("random fits of every estimator and entropic solver, and of robust models around random "
        "user losses trained by the solver with Prodigy, Mechanic, AdamW, L-BFGS and plain SGD "
        "with ordinary to very large steps, and user loops over mini-batches"
        " around the model's own adaptive optimizer; the dual variable is read at every evaluation of the "
        "objective; non-trivial when the dual variable moved")
REQUIRED = ["evaluations", "runs_post", "runs_pre", "radius_zero", "hit_zero", "estimators",
            "models", "finite_runs", "adamw", "prodigy", "mechanic", "lbfgs", "sgd", "loops",
            "loop_hit_zero"]
MAX_SKIPPED = .6


def cases(tier, seed):
    n = 2 if tier == "quick" else 24
    out = [{"kind": "estimator", "est": e, "solver": s} for _ in range(2 * n) for e in est.KINDS
           for s in est.SOLVERS[e] if s != "dedicated"]
    out += [{"kind": "model", "opt": o, "post": p} for _ in range(6 * n)
            for o, p in (("prodigy", 1), ("mechanic", 1), ("adamw", 1), ("lbfgs", 0), ("sgd", 0),
                         ("sgd", 1))]
    out += [{"kind": "loop", "opt": o} for _ in range(10 * n) for o in ("prodigy", "mechanic")]
    return out


def loop(case, mon, rng):
    """A user's own training loop around the adaptive optimizer the model carries."""
    name = str(rng.choice(["mse", "huber", "margin", "mlp", "quadpoint", "logcosh"]))
    d, m = int(rng.integers(1, 4)), int(rng.integers(4, 12))
    problem = gen.Problem(name, d, rng, spy=False)
    X = gen.tens(rng.normal(size=(m, d)), pt.float32)
    Y = gen.tens(problem.make_labels(rng, m), pt.float32)
    rho = float(rng.choice([.3, 4., 40.]))
    model = gen.robust(problem, pt.tensor(rho), X, Y, n_samples=int(rng.integers(1, 8)),
                       seed=int(rng.integers(1000)), adapt=case["opt"],
                       n_iter=(2, 30), cost_spec="t-NC-%s" % str(rng.choice(["2-2", "1-2"])))
    with mon.under_test("the starting guess"):
        model.get_initial_guess_at_dual(X, Y)
    seen = []
    for it in range(35):
        model.optimizer.zero_grad()
        k = rng.permutation(m)[:max(2, m // 2)]
        v = model(X[k], None if Y is None else Y[k])
        if not bool(pt.isfinite(v)):
            raise Skip("diverged")
        v.backward()
        try:
            model.optimizer.step()
        except RuntimeError as err:
            if "overflow" in str(err) or "inf" in str(err):
                raise Skip("the optimizer overflowed")
            raise
        lam = float(model.lam.detach())
        if not np.isfinite(lam):
            raise Skip("diverged")
        if not mon.check(lam >= 0., "negative dual variable in a user's loop", lam=lam, step=it):
            break
        if lam == 0.:
            mon.saw("loop_hit_zero")
        seen.append(lam)
    mon.saw("loops")
    mon.saw(case["opt"])
    if len(set(seen)) > 1:
        mon.nontrivial("loop", case["opt"], seen[:5])


def judge(mon, w, warm, rho):
    """Every evaluation after the starting guess; stops at the first non-finite value."""
    steps, seen, moved, finite = 0, 0, set(), True
    for kind, ev in w.events:
        if kind == "step":
            steps += 1
        if kind != "eval":
            continue
        value = float(ev["value"].double().sum())
        if not np.isfinite(value) or not np.isfinite(ev["theta"].numpy()).all():
            finite = False
            break
        if steps < warm:
            continue
        seen += 1
        lam = ev["lam"]
        if not mon.check(lam >= 0., "negative dual variable during training", lam=lam,
                         step=steps - warm):
            break
        mon.check(np.isfinite(lam), "dual variable not finite during training", lam=lam)
        moved.add(lam)
        if lam == 0. and rho > 0:
            mon.saw("hit_zero")
    mon.saw("evaluations", seen)
    return finite, moved


def run(case, mon, rng):
    pt.manual_seed(int(rng.integers(2**31)))
    if case["kind"] == "loop":
        return loop(case, mon, rng)
    if case["kind"] == "estimator":
        kind, solver = case["est"], case["solver"]
        X, y = est.data(kind, rng)
        o = est.random_options(kind, rng, solver)
        e = est.make(kind, **o)
        w = Watch()
        with w:
            try:
                est.fit(e, X, y)
            except RuntimeError as err:
                if "overflow" in str(err) or "inf" in str(err):
                    raise Skip("the optimizer overflowed")
                raise
        n_iter, rho = o["n_iter"], o["rho"]
        warm = int(.3 * n_iter) if isinstance(n_iter, int) else n_iter[0]
        result = {"coef": e.coef_, "dual": np.asarray(e.dual_var_, dtype=float).reshape(-1)}
        post = any(not getattr(m, "presample", False) for m in w.models)
        mon.saw("estimators")
    else:
        from skwdro.base.problems import (EmpiricalDistributionWithLabels,
                                          EmpiricalDistributionWithoutLabels)
        from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
        from skwdro.solvers.optim_cond import OptCondTorch
        post = bool(case["post"])
        name = str(rng.choice(["mse", "huber", "margin", "mlp", "quadpoint", "logcosh"]))
        d, m = int(rng.integers(1, 4)), int(rng.integers(2, 12))
        problem = gen.Problem(name, d, rng, spy=False)
        X, Y = rng.normal(size=(m, d)), problem.make_labels(rng, m)
        code = "t-%s-%s" % ("NLC" if problem.labels and rng.random() < .5 else "NC",
                            str(rng.choice(["2-2", "1-2"])))
        rho = float(rng.choice([0., .02, .3, 2.]))
        n_iter = (int(rng.integers(0, 5)), int(rng.integers(3, 25)))
        warm = n_iter[0]
        lr = float(rng.choice([.05, .5, 5.]))
        model = gen.robust(problem, pt.tensor(rho), gen.tens(X, pt.float32),
                           gen.tens(Y, pt.float32), post_sample=post, cost_spec=code,
                           n_samples=int(rng.integers(1, 8)), seed=int(rng.integers(1000)),
                           n_iter=n_iter, learning_rate=lr, imp_samp=code.endswith("2-2"),
                           adapt=case["opt"] if case["opt"] in ("prodigy", "mechanic") else None)
        if case["opt"] == "sgd":
            model.optimizer = pt.optim.SGD([p for p in model.parameters() if p.requires_grad],
                                           lr=lr)
        mon.saw(case["opt"])
        emp = EmpiricalDistributionWithoutLabels(m=m, samples=X) if Y is None else \
            EmpiricalDistributionWithLabels(m=m, samples_x=X, samples_y=Y)
        metric = str(rng.choice(["grad", "param"]))
        w = Watch()
        with w:
            try:
                r = solve_dual_wdro(model, emp, OptCondTorch(2, 0., 0., metric=metric))
            except RuntimeError as err:
                if "overflow" in str(err) or "inf" in str(err):
                    raise Skip("the optimizer overflowed")
                raise
        result = {"coef": r.coef, "dual": np.asarray(r.dual_var, dtype=float).reshape(-1)}
        mon.saw("models")
    finite, moved = judge(mon, w, warm, rho)
    mon.saw("runs_post" if post else "runs_pre")
    dual = result["dual"]
    mon.check(dual.size == 1, "the dual variable of the result is not one number", size=dual.size)
    mon.check(not (dual < 0).any(), "negative dual variable in the result", dual=dual)
    if rho == 0.:
        mon.check((dual == 0).all(), "dual variable of the result at radius zero", dual=dual)
        mon.saw("radius_zero")
    coef = np.asarray(result["coef"], dtype=float)
    last = w.evals()[-1] if w.evals() else None
    if finite and last is not None and not np.isfinite(coef).all() \
            and case["kind"] == "model" and post:
        # the last step follows the last evaluation: its gradient may have overflowed
        raise Skip("diverged in the last step")
    if finite and last is not None and not np.isfinite(coef).all() and post:
        raise Skip("diverged in the last step")
    if not finite:
        raise Skip("diverged")
    mon.saw("finite_runs")
    mon.check(np.isfinite(coef).all(), "a finite run returned non-finite parameters", coef=coef)
    mon.check(np.isfinite(dual).all(), "a finite run returned a non-finite dual variable",
              dual=dual)
    if len(moved) > 1 or rho == 0.:
        mon.nontrivial(case["kind"], case.get("est", case.get("opt")), sorted(moved)[:5], coef)
