"""C15: training runs the configured schedule and reports its final state (trace monitor)."""
import numpy as np
import torch as pt

from vp import est, gen
from vp.core import Skip
from vp.watch import Watch, flat

RULE = ("robust models around recording user losses and all estimators, trained by the library's "
        "solver with random schedules, optimizers, stopping rules and an objective made NaN at a "
        "chosen step; the log of evaluations and steps is checked against the schedule; "
        "non-trivial when parameters moved")
REQUIRED = ["steps", "gradients_matched", "schedule_int", "schedule_pair", "stopped_by_rule",
            "stopped_by_nan", "fixed_samples", "fresh_samples", "centred_samples", "results",
            "estimators", "closure_steps", "plain_steps", "scaled_samples",
            "configurations", "displaced_samples", "training_data", "training_labels",
            "long_schedules"]
MAX_SKIPPED = .4


def cases(tier, seed):
    n = 5 if tier == "quick" else 60
    out = []
    for _ in range(n):
        out += [{"kind": "model", "opt": o, "post": p, "end": e}
                for o, p in (("prodigy", 1), ("mechanic", 1), ("adamw", 1), ("sgd", 1),
                             ("lbfgs", 0), ("sgd", 0))
                for e in ("schedule", "schedule", "rule", "nan")
                if not (e == "nan" and o in ("prodigy", "mechanic", "lbfgs"))]
        out += [{"kind": "estimator", "est": e, "solver": s} for e in est.KINDS
                for s in est.SOLVERS[e] if s != "dedicated"]
    return out


def emp(X, Y):
    from skwdro.base.problems import (EmpiricalDistributionWithLabels,
                                      EmpiricalDistributionWithoutLabels)
    if Y is None:
        return EmpiricalDistributionWithoutLabels(m=len(X), samples=X)
    return EmpiricalDistributionWithLabels(m=len(X), samples_x=X, samples_y=Y)


def split(n_iter):
    return (int(.3 * n_iter), n_iter) if isinstance(n_iter, int) else n_iter


def longer(rng, mon):
    mon.saw("long_schedules")
    return int(rng.integers(20, 60)) if rng.random() < .5 else (
        int(rng.integers(0, 30)), int(rng.integers(20, 50)))


def same(a, b):
    return a.shape == b.shape and bool((a == b).all())


def grads_match(mon, ev_grads, got, what, step):
    for p, g in ev_grads:
        h = got.get(id(p))
        g = pt.zeros_like(p) if g is None else g
        h = pt.zeros_like(p) if h is None else h
        scale = float(g.abs().max()) if g.numel() else 0.
        mon.close(h.double().numpy(), g.double().numpy(), 1e-5 * scale + 1e-12, what, step=step)


def match_steps(mon, w, X):
    """Every step uses the gradient of an evaluation at the current parameters, on all data."""
    last, before, inside, k = None, None, [], 0
    for kind, ev in w.events:
        if kind == "eval":
            if ev["grad"]:
                last = ev
                inside.append(ev)
        elif kind == "before":
            before, inside = ev, []
        elif kind == "step":
            used = inside[-1] if inside else last
            if not mon.check(used is not None, "a step without any gradient", step=k):
                return
            mon.check(same(used["theta"], before["theta"]) and used["lam"] == before["lam"],
                      "a step used a gradient taken at other parameters", step=k,
                      lam=(used["lam"], before["lam"]))
            mon.check(used["x"] is not None and tuple(used["x"].shape) == X.shape and
                      bool(np.allclose(used["x"].numpy(), X, atol=1e-5)),
                      "a step used a gradient on other data than the full data", step=k)
            grads_match(mon, used.get("grads", []), (ev if inside else before)["grads"],
                        "the gradient used by a step is not that of its evaluation", k)
            mon.saw("closure_steps" if inside else "plain_steps")
            mon.saw("gradients_matched")
            k += 1
    mon.saw("steps", k)


def typical(code, sigma, rng):
    """Typical distance of a coordinate of a sample of scale sigma from its centre."""
    from skwdro.base.costs_torch import NormCost
    from skwdro.base.samplers.torch import NoLabelsCostSampler
    power, p = (float(v) for v in code.split("-")[2:4])
    with pt.random.fork_rng():
        z, _ = NoLabelsCostSampler(NormCost(p=p, power=power), pt.zeros(1, 1), pt.tensor(sigma),
                                   int(rng.integers(1 << 30))).sample(4000)
    return float(z.abs().median())


def settings(model):
    out = {k: float(pt.as_tensor(getattr(model, k)).detach().double())
           for k in ("rho", "epsilon", "n_samples")}
    out["imp_samp"] = bool(model.imp_samp)
    out["pre"] = bool(model.presample)
    out["sigma"] = float(pt.as_tensor(model.sampler.sigma).double())
    out["frozen"] = [not p.requires_grad for p in model.primal_loss.parameters()]
    return out


def model_case(case, mon, rng):
    from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
    from skwdro.solvers.optim_cond import OptCondTorch
    post, opt, end = bool(case["post"]), case["opt"], case["end"]
    name = str(rng.choice(["mse", "huber", "margin", "mlp", "quadpoint", "logcosh", "ce"]))
    d, m = gen.size(rng, 1, 4, 20, .05), gen.size(rng, 2, 10, 150, .05)
    problem = gen.Problem(name, d, rng, spy=True)
    X, Y = rng.normal(size=(m, d)), problem.make_labels(rng, m)
    labelled_cost = problem.labels and rng.random() < .5
    code = "t-%s-%s" % ("NLC" if labelled_cost else "NC", str(rng.choice(["2-2", "1-2"])))
    rho = float(rng.choice([0., .05, .3, 5., 60.], p=[.3, .3, .3, .05, .05]))
    if rng.random() < .5:
        n_iter = int(rng.integers(2, 15))
        mon.saw("schedule_int")
    else:
        n_iter = (int(rng.integers(0, 5)), int(rng.integers(2, 12)))
        mon.saw("schedule_pair")
    if rng.random() < (.35 if end == "rule" else .12):
        n_iter = longer(rng, mon)
    pre, train = split(n_iter)
    lr = .02 if opt == "sgd" else (.3 if opt == "lbfgs" else .05)
    seed = None if rng.random() < .4 else int(rng.integers(1000))
    isamp = code.endswith("2-2") and rng.random() < (.3 if post else .6)
    n = int(rng.integers(1, 6)) if rng.random() < .6 else 40
    model = gen.robust(problem, pt.tensor(rho), gen.tens(X, pt.float32), gen.tens(Y, pt.float32),
                       post_sample=post, cost_spec=code, n_samples=n, seed=seed, n_iter=n_iter,
                       learning_rate=lr, imp_samp=isamp, sigma=.2,
                       adapt=opt if opt in ("prodigy", "mechanic") else None)
    if opt == "sgd":
        model.optimizer = pt.optim.SGD([p for p in model.parameters() if p.requires_grad], lr=lr)
    metric = str(rng.choice(["grad", "param"]))
    stop_at = int(rng.integers(0, train))

    calls = []

    class Rule(OptCondTorch):
        def __call__(self, loss, it):
            calls.append((it, flat(loss), float(loss.lam.detach().reshape(-1)[0])))
            if end == "rule":
                return it == stop_at
            return super().__call__(loss, it)

    points = []
    state = {"recorded": 0}

    def on_eval(w, mod, ev, out):
        points.append(problem.seen() if problem.rec.calls else (None, None))
        problem.rec.clear()
        if end != "nan" or w.steps() < pre:
            return None
        if post:
            hit = w.steps() == pre + stop_at
        else:
            hit = not ev["in_step"] and w.steps() == pre + stop_at + 1
        if hit and not state["recorded"]:
            state["recorded"] = 1
            return out * float("nan")
        return None

    start = flat(model)
    config = settings(model)
    problem.rec.clear()
    w = Watch(keep_points=True, on_eval=on_eval, grads=True, model=model)
    with w:
        with mon.under_test("training"):
            r = solve_dual_wdro(model, emp(X, Y), Rule(2, 0., 0., metric=metric))
    values = [float(e["value"].double().sum()) for e in w.evals()]
    if end != "nan" and not np.isfinite(values).all():
        raise Skip("diverged")
    after = settings(model)
    mon.check(after == config, "training changed the configuration of the model", before=config,
              after=after)
    mon.saw("configurations")
    steps = w.steps()
    if end == "schedule":
        mon.check(steps == pre + train, "number of optimization steps", got=steps,
                  want=pre + train, n_iter=n_iter, opt=opt)
        mon.check([c[0] for c in calls] == list(range(train)),
                  "iterations shown to the stopping rule", got=[c[0] for c in calls][:30])
    elif end == "rule":
        mon.check(steps == pre + stop_at + 1, "the stopping rule did not end the run",
                  got=steps, want=pre + stop_at + 1, n_iter=n_iter)
        mon.saw("stopped_by_rule")
    elif state["recorded"]:
        mon.check(pre + stop_at <= steps <= pre + stop_at + 1,
                  "a non-finite objective did not end the run", got=steps,
                  want=pre + stop_at + 1)
        mon.saw("stopped_by_nan")
    if end != "nan":
        match_steps(mon, w, X)
    # the rule sees the parameters as they are after each step
    after = [ev for k, ev in w.events if k == "step"]
    if len(after) == steps and len(calls) <= steps:
        for (it, th, la), ev in zip(calls, after[pre:]):
            mon.check(same(th, ev["theta"]), "the stopping rule saw other parameters", it=it)
    # samples
    robust_evals = []
    by_grad = {True: [], False: []}
    done = 0
    k = 0
    for kind, ev in w.events:
        if kind == "step":
            done += 1
        if kind == "eval":
            if done >= pre and points[k][0] is not None:
                robust_evals.append(points[k])
                by_grad[ev["grad"]].append((ev["lam"], points[k][0]))
            k += 1
    if rho > 0 and robust_evals and not isamp:
        sets = [p[0] for p in robust_evals]
        if all(s.shape[0] == n * m for s in sets):
            for s in sets:
                dev = (s.reshape(n, m, d) - gen.tens(X, pt.float32)).abs().max()
                mon.check(0 < float(dev) < 3., "samples are not drawn around the data",
                          dev=float(dev))
            mon.saw("centred_samples")
            if n * m * d >= 160:
                want = typical(code, .2, rng)
                for s in sets:
                    got = float((s.reshape(n, m, d) - gen.tens(X, pt.float32)).abs().median())
                    mon.check(.5 * want < got < 2. * want,
                              "samples are not drawn at the configured scale", got=got, want=want,
                              post=post, code=code)
                mon.saw("scaled_samples")
            if not post:
                mon.check(all(same(s, sets[0]) for s in sets),
                          "the samples of a pre-sampled run changed")
                mon.saw("fixed_samples")
            elif seed is None and len(sets) > 1:
                mon.check(not any(same(a, b) for a, b in zip(sets, sets[1:])),
                          "a post-sampled run without seed repeated its samples")
                mon.saw("fresh_samples")
        else:
            mon.check(False, "number of samples per point during training",
                      got=[s.shape[0] for s in sets][:5], want=n * m)
    if isamp and not post and rho > 0 and by_grad[False]:
        # the samples are fixed: those of the plain evaluations are not displaced
        base = by_grad[False][0][1]
        for lam, s in by_grad[True]:
            if s.shape[0] >= base.shape[0] and lam > 0:
                move = float((s[:base.shape[0]] - base).abs().max())
                mon.check(move > 0, "a training evaluation dropped the importance sampling")
                if move < 1e-3 or opt == "lbfgs":
                    break  # where the loss is flat the next moves may vanish
                mon.saw("displaced_samples")
    # result
    final = flat(model).numpy()
    coef = np.asarray(r.coef, dtype=float).reshape(-1)
    nan_end = end == "nan" and state["recorded"]
    mon.check(coef.shape == final.shape and np.array_equal(coef, final, equal_nan=True),
              "reported coefficients are not the final parameters", got=coef, want=final)
    rl = float(r.robust_loss)
    if nan_end:
        mon.check(np.isnan(rl), "reported robust loss after a NaN objective", got=rl)
    else:
        mon.close(rl, values[-1], 1e-6 * (1 + abs(values[-1])),
                  "reported robust loss is not the last objective value")
    mon.saw("results")
    if not np.array_equal(start.numpy(), final, equal_nan=True) or name == "functional_plain":
        mon.nontrivial(name, opt, post, end, n_iter, rl if np.isfinite(rl) else "nan")


def training_data(kind, X, y):
    """The points and labels an estimator should be trained on."""
    X = np.asarray(X, dtype=float)
    if kind == "logistic":
        names = np.unique(y)
        if len(names) == 2:
            return X, np.where(np.asarray(y) == names[1], 1., -1.)[:, None]
        return X, (np.asarray(y)[:, None] == names[None]).astype(float)
    if kind in ("linreg", "weber"):
        return X, np.asarray(y, dtype=float).reshape(len(X), -1)
    return X, None


def estimator_case(case, mon, rng):
    from skwdro.solvers.optim_cond import OptCondTorch
    kind, solver = case["est"], case["solver"]
    X, y = est.data(kind, rng)
    o = est.random_options(kind, rng, solver)
    o["opt_cond"] = OptCondTorch(2, 0., 0.)
    if rng.random() < .15:
        o["n_iter"] = longer(rng, mon)
    e = est.make(kind, **o)
    w = Watch(keep_points=True)
    with w:
        try:
            est.fit(e, X, y)
        except RuntimeError as err:
            if "overflow" in str(err):
                raise Skip("the optimizer overflowed")
            raise
    values = [float(v["value"].double().sum()) for v in w.evals()]
    if not np.isfinite(values).all():
        raise Skip("diverged")
    want = sum(split(o["n_iter"]))
    mon.check(w.steps() == want, "number of optimization steps of an estimator", got=w.steps(),
              want=want, est=kind, solver=solver, n_iter=o["n_iter"])
    mon.saw("steps", w.steps())
    mon.close(float(e.robust_loss_), values[-1], 1e-6 * (1 + abs(values[-1])),
              "robust loss of an estimator is not the last objective value", est=kind)
    model = w.models[-1]
    tx, ty = training_data(kind, X, y)
    for ev in w.evals():
        if ev["x"] is None or ev["m"] != len(X):
            continue
        mon.check(np.allclose(ev["x"].numpy(), tx, rtol=1e-5, atol=1e-5),
                  "an estimator is trained on other data than given", est=kind, solver=solver)
        if ty is not None and ev["y"] is not None:
            mon.check(ev["y"].numel() == ty.size and np.allclose(
                ev["y"].numpy().reshape(ty.shape), ty, rtol=1e-5, atol=1e-5),
                "an estimator is trained on other labels than given", est=kind, solver=solver)
            mon.saw("training_labels")
        mon.saw("training_data")
    mon.check(len(w.models) == 1, "number of robust models trained by one fit", n=len(w.models))
    if o["rho"] > 0:
        mon.close(np.asarray(e.dual_var_, dtype=float).reshape(-1),
                  np.array([float(model.lam.detach().reshape(-1)[0])]), 0.,
                  "dual variable of an estimator is not the final one", est=kind)
    if kind in ("logistic", "linreg"):
        final = flat(model).numpy()
        got = np.concatenate([np.asarray(e.coef_, dtype=float).reshape(-1)] + (
            [np.asarray(e.intercept_, dtype=float).reshape(-1)] if o["fit_intercept"] else []))
        mon.check(np.array_equal(got, final), "coefficients of an estimator are not the final "
                  "parameters", est=kind, got=got, want=final)
    mon.saw("estimators")
    mon.nontrivial(kind, solver, o["n_iter"], values[-1])


def run(case, mon, rng):
    pt.manual_seed(int(rng.integers(2**31)))
    (model_case if case["kind"] == "model" else estimator_case)(case, mon, rng)
