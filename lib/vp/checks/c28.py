"""C28: options take effect as documented (monitor of the objective built and trained)."""
import math

import numpy as np
import torch as pt

from vp import est, gen, ref
from vp.core import Skip
from vp.watch import Watch

RULE = ("robust models are built, and estimators fitted, with random combinations of options, "
        "given or omitted; the objective observed at work is compared with the options: radius, "
        "sample counts, epsilon, sigma, seed, reduction, schedule, L2 weight, cost, sampling mode "
        "and importance sampling; non-trivial when an objective was compared")
REQUIRED = ["built", "default_epsilon", "given_epsilon", "default_sigma", "given_sigma",
            "zero_radius", "impsamp_on", "impsamp_off", "impsamp_refused", "draws", "reductions",
            "l2", "post", "pre", "points_counted", "trained", "learning_rate", "seeds_differ",
            "default_cost", "cost_values", "default_schedule", "given_schedule",
            "default_learning_rate", "floor_epsilon"] + ["omitted_" + k for k in est.KINDS] + [
    "%s_%s" % (k, s) for k in est.KINDS for s in est.SOLVERS[k] if s != "dedicated"]
MAX_SKIPPED = .3
# (epsilon, sigma) of the estimators when nothing is given; None for the radius-dependent default
DEFAULTS = {"logistic": (None, None), "linreg": (None, None), "newsvendor": (.01, None),
            "portfolio": (1e-3, None), "weber": (1e-2, 1e-2)}


# other documented defaults of the estimators
PLAIN = {
    "logistic": dict(rho=1e-2, l2_reg=0., fit_intercept=True, cost="t-NLC-2-2", solver_reg=None,
                     sampler_reg=None, solver="entropic_torch", n_zeta_samples=10, random_state=0),
    "linreg": dict(rho=1e-2, l2_reg=0., fit_intercept=True, cost="t-NLC-2-2", solver_reg=None,
                   sampler_reg=None, solver="entropic_torch", n_zeta_samples=10, random_state=0),
    "newsvendor": dict(rho=1e-2, k=5, u=7, cost="t-NC-1-2", l2_reg=0., solver_reg=.01,
                       n_zeta_samples=10, random_state=0),
    "portfolio": dict(rho=1e-2, eta=0., alpha=.95, C=None, d=None, cost="t-NC-1-1",
                      solver="dedicated", solver_reg=1e-3, n_zeta_samples=10, random_state=0),
    "weber": dict(rho=1e-1, kappa=10., solver_reg=1e-2, sampler_reg=1e-2, l2_reg=0.,
                  n_zeta_samples=10, cost="t-NLC-2-2", solver="entropic_torch", random_state=0),
}


def cases(tier, seed):
    n = 96 if tier == "quick" else 1600
    e = 6 if tier == "quick" else 90
    return [{"kind": "build", "post": k % 2 == 0} for k in range(n)] + \
        [{"kind": "fit", "est": k, "solver": s} for _ in range(e) for k in est.KINDS
         for s in est.SOLVERS[k] if s != "dedicated"] + [{"kind": "kappa"}] * 2 + \
        [{"kind": "default", "est": k} for _ in range(3 if tier == "quick" else 12)
         for k in est.KINDS]


def default_epsilon(rho, power):
    return max(1e-2 * .5 ** power * rho ** (power - 1.), 1e-7)


def default_sigma(rho):
    return .5 * rho if rho > 0 else .5


def same_cost(mon, cost, code, labels, rng, d, dy):
    spec = ref.parse(code, labels)
    x, z = (pt.tensor(rng.normal(size=(5, d))) for _ in range(2))
    y, zy = ((pt.tensor(rng.normal(size=(5, dy))) for _ in range(2)) if labels else (None, None))
    got = cost.value(x, z, y, zy) if labels else cost.value(x, z, None, None)
    want = ref.cost(spec, x, z, y, zy)
    mon.close(gen.ref.np64(got).reshape(-1), want.numpy().reshape(-1),
              1e-5 * (1. + float(want.abs().max())), "the cost is not the one asked for",
              code=str(code))
    mon.close(float(cost.power), spec[1], 0., "the power of the cost is not the one asked for")
    mon.saw("cost_values")
    return spec


def draws_of(code_cost, x, y, sigma, seed, n):
    from skwdro.base.samplers.torch import LabeledCostSampler, NoLabelsCostSampler
    s = pt.tensor(sigma).to(x)
    sam = NoLabelsCostSampler(code_cost, x, s, seed) if y is None else \
        LabeledCostSampler(code_cost, x, y, s, seed)
    return sam.sample(n)


def build(case, mon, rng):
    name = str(rng.choice(gen.LABELLED + gen.UNLABELLED))
    d, m = int(rng.integers(1, 4)), int(rng.integers(2, 7))
    prob = gen.Problem(name, d, rng)
    x = pt.tensor(rng.normal(size=(m, d)), dtype=pt.float32)
    y = gen.tens(prob.make_labels(rng, m), pt.float32)
    code = None if rng.random() < .15 else str(rng.choice(
        gen.CODES_PLAIN + (gen.CODES_LABEL if prob.labels else [])))
    if code is None:
        mon.saw("default_cost")
    spec = ref.parse(code, prob.labels)
    rho = 0. if rng.random() < .15 else gen.dyadic(rng, 1e-3, 2.)
    if rho > 0 and spec[1] == 2 and rng.random() < .1:
        rho = gen.dyadic(rng, 1e-6, 2e-5)
        mon.saw("floor_epsilon")
    if rho == 0:
        mon.saw("zero_radius")
    kw = {}
    if rng.random() < .5:
        kw["epsilon"] = gen.dyadic(rng, 1e-3, 2.)
        mon.saw("given_epsilon")
    else:
        mon.saw("default_epsilon")
    if rng.random() < .5:
        kw["sigma"] = gen.dyadic(rng, 1e-2, 2.)
        mon.saw("given_sigma")
    else:
        mon.saw("default_sigma")
    n = 10
    if rng.random() < .8:
        n = kw["n_samples"] = int(rng.integers(1, 25))
    seed = 42
    if rng.random() < .7:
        seed = kw["seed"] = int(rng.integers(0, 10000))
    red = None
    if rng.random() < .6:
        red = kw["reduction"] = [None, "mean", "sum", "none"][int(rng.integers(4))]
    l2 = 0.
    if rng.random() < .4:
        l2 = kw["l2reg"] = float(rng.choice([.25, 1., 4.]))
    isamp = True
    if rng.random() < .5:
        isamp = kw["imp_samp"] = bool(rng.random() < .4)
    n_iter = None
    if rng.random() < .6:
        n_iter = kw["n_iter"] = est.fast_iters(rng, "")
        mon.saw("given_schedule")
    else:
        mon.saw("default_schedule")
    adapt = "prodigy"
    if rng.random() < .6:
        adapt = kw["adapt"] = [None, "prodigy", "mechanic"][int(rng.integers(3))]
    lr = None
    if rng.random() < .5:
        lr = kw["learning_rate"] = float(rng.choice([1e-5, 1e-3, .2, 3.]))
    if not case["post"] or rng.random() < .5:
        kw["post_sample"] = case["post"]
    if code is not None or rng.random() < .5:
        kw["cost_spec"] = code
    with mon.under_test("building a robust model"):
        model = gen.robust(prob, pt.tensor(rho), x, y, **kw)
    mon.saw("built")
    mon.saw("post" if case["post"] else "pre")
    info = dict(code=str(code), rho=rho, options={k: str(v) for k, v in kw.items()})
    f = float(model.rho.detach())
    mon.close(f, rho, 1e-6 * rho, "the radius is not the one given", **info)
    want = kw.get("epsilon", default_epsilon(rho, spec[1]))
    mon.close(float(model.epsilon.detach()), want, 1e-5 * want, "epsilon is not as documented",
              **info)
    mon.check(model.n_samples == n, "the sample count is not the one given",
              got=model.n_samples, want=n)
    mon.check(bool(model.presample) is not case["post"],
              "the sampling mode is not the one asked for")
    can = spec[1] == 2 and spec[2] == 2
    mon.check(bool(model.imp_samp) == (isamp and can), "importance sampling is not as asked",
              got=model.imp_samp, asked=isamp, possible=can, **info)
    mon.saw("impsamp_on" if isamp and can else "impsamp_refused" if isamp else "impsamp_off")
    it = n_iter if n_iter is not None else ((200, 2800) if case["post"] else (100, 10))
    mon.check(tuple(np.ravel(model.n_iter)) == tuple(np.ravel(it)),
              "the step schedule is not the one given", got=str(model.n_iter), want=str(it))
    same_cost(mon, model.cost, code, prob.labels, rng, d, prob.ydim)
    # first draws: those of a sampler with the same scale and seed
    sigma = kw.get("sigma", default_sigma(rho))
    with mon.under_test("drawing"):
        z, zy = model.generate_zetas(7)
    wz, wzy = draws_of(model.cost, x, y, sigma, seed, 7)
    mon.close(ref.np64(z), ref.np64(wz), 1e-5 * (1. + ref.np64(wz).__abs__().max()),
              "the draws are not those of the scale and seed given", **info)
    if zy is not None:
        mon.close(ref.np64(zy), ref.np64(wzy), 1e-5 * (1. + ref.np64(wzy).__abs__().max()),
                  "the label draws are not those of the scale and seed given", **info)
    if sigma > 1e-3:
        other = gen.robust(prob, pt.tensor(rho), x, y, **dict(kw, seed=seed + 1))
        oz, _ = other.generate_zetas(7)
        mon.check(not np.array_equal(ref.np64(oz), ref.np64(z)), "two seeds give the same draws")
        mon.saw("seeds_differ")
    mon.saw("draws")
    # the optimiser of the model
    groups = model.optimizer.param_groups
    if not case["post"] or adapt is None:
        base = (1. if not case["post"] else 5e-2) if lr is None else lr
        mon.check(all(abs(g["lr"] - base) < 1e-9 for g in groups),
                  "the learning rate is not the one given", got=groups[0]["lr"], want=base)
        mon.saw("learning_rate" if lr is not None else "default_learning_rate")
    # one evaluation: points seen by the loss, reduction and L2 weight
    gen.fill_lambda(model, 1. if rho > 0 else 0.)
    model.imp_samp = False
    prob.rec.clear()
    with mon.under_test("evaluating"):
        with pt.no_grad():
            v = model(x, y) if case["post"] else model(x, y, z, zy)
    px, _ = prob.seen()
    if px is not None:
        k = 1 if rho == 0 else n if case["post"] else 7
        mon.check(len(px) == k * m, "the loss was not evaluated at every sample",
                  got=len(px), want=k * m)
        mon.saw("points_counted")
    mon.check(tuple(v.shape) == ((m,) if red == "none" else ()),
              "the reduction is not the one asked for", got=tuple(v.shape), asked=str(red))
    if not case["post"] or rho == 0:
        p, q = model, gen.robust(prob, pt.tensor(rho), x, y, **dict(kw, l2reg=0., reduction="none"))
        q.imp_samp = False
        gen.fill_lambda(q, 1. if rho > 0 else 0.)
        with pt.no_grad():
            w = q(x, y) if case["post"] else q(x, y, z, zy)
        theta2 = sum(float((t.detach().double() ** 2).sum()) for t in prob.params())
        lead = rho ** spec[1]
        each = w.double().numpy().reshape(-1) - lead + .5 * l2 * theta2
        want = {"none": each, "sum": each.sum()}.get(red, each.mean()) + lead
        size = 1. + np.abs(each).sum() + prob.magnitude(x, y) + l2 * theta2
        mon.close(v.double().numpy(), want, 1e-4 * size if rho > 0 else 1e-5 * size,
                  "the reduction or the L2 weight is not the one given", red=str(red), l2=l2,
                  **info)
        mon.saw("reductions")
        if l2:
            mon.saw("l2")
        assert p is model
    mon.nontrivial("build", name, str(code), rho, float(v.reshape(-1)[0]))


def fitted(case, mon, rng):
    kind, solver = case["est"], case["solver"]
    X, y = est.data(kind, rng)
    if kind == "logistic" and rng.random() < .3:
        X, y = est.data(kind, rng, classes=3)
    o = est.random_options(kind, rng, solver)
    default_iters = False
    if rng.random() < .1 and kind == "weber":
        del o["n_iter"]
        default_iters = True
    for k in ("n_zeta_samples", "random_state", "cost"):
        if rng.random() < .2:
            o.pop(k)
    if kind in ("logistic", "linreg", "weber") and rng.random() < .5:
        o["sampler_reg"] = o["solver_reg"] if "solver_reg" in o and rng.random() < .4 \
            else float(rng.choice([.05, .5]))
    if kind != "portfolio" and rng.random() < .4:
        o["l2_reg"] = float(rng.choice([.02, .1, 1.]))
    e = est.make(kind, **o)
    cost = e.get_params(deep=False)["cost"]
    seen = {}

    def first(watch, mod, ev, out):
        seen["last_sampler"] = mod.sampler
        if "rho" not in seen:
            s = mod.sampler
            seen.update(rho=ev["rho"], eps=float(mod.epsilon.detach()), n=mod.n_samples,
                        presample=bool(mod.presample), isamp=bool(mod.imp_samp),
                        n_iter=mod.n_iter, lr=[g.get("lr") for g in mod.optimizer.param_groups],
                        opt=type(mod.optimizer).__name__, sampler=s)
    with Watch(on_eval=first) as w:
        with mon.under_test("fitting"):
            try:
                est.fit(e, X, y)
            except RuntimeError as err:
                if "overflow" in str(err):
                    raise Skip("the optimizer overflowed")
                raise
    if not mon.check(len(w.models) == 1, "the fit does not train one robust objective",
                     got=len(w.models)):
        return
    model = w.models[0]
    mon.saw("trained")
    info = dict(est=kind, solver=solver, options={k: str(v) for k, v in o.items()})
    rho = float(e.rho)
    labels = y is not None
    spec = same_cost(mon, model.cost, cost, labels, rng, X.shape[1],
                     1 if kind != "logistic" or len(set(y)) == 2 else 3)
    mon.close(seen["rho"], rho, 1e-6 * rho, "the radius is not the one given", **info)
    eps0, sig0 = DEFAULTS[kind]
    eps = o.get("solver_reg", eps0)
    eps = default_epsilon(rho, spec[1]) if eps is None else eps
    mon.close(seen["eps"], eps, 1e-5 * eps, "epsilon is not as documented", **info)
    mon.check(seen["n"] == o.get("n_zeta_samples", 10), "the sample count is not the one given",
              got=seen["n"], **info)
    post = "pre" not in solver if kind == "portfolio" else solver == "entropic_torch_post" \
        if kind == "newsvendor" else "pre" not in solver
    mon.check(seen["presample"] is not post, "the solver's name does not select the sampling",
              **info)
    can = spec[1] == 2 and spec[2] == 2
    asked = post if kind in ("logistic", "linreg") else True
    mon.check(seen["isamp"] == (asked and can), "importance sampling is not as documented",
              got=seen["isamp"], **info)
    it = o.get("n_iter", 300 if kind == "weber" else None)
    if it is not None:
        mon.check(tuple(np.ravel(seen["n_iter"])) == tuple(np.ravel(it)),
                  "the step schedule is not the one given", got=str(seen["n_iter"]), **info)
        pre, train = it if not np.isscalar(it) else (int(.3 * it), it)
        mon.check(w.steps() <= pre + train, "more steps were taken than scheduled",
                  got=w.steps(), **info)
    lr = o.get("learning_rate")
    if lr is not None:
        mon.check(all(v is not None and abs(v - lr) < 1e-9 for v in seen["lr"]),
                  "the learning rate is not the one given", got=seen["lr"], **info)
        mon.saw("learning_rate")
    # scale of the sampler, from its own densities relative to a sampler of that scale
    sigma = o.get("sampler_reg", sig0)
    sigma = default_sigma(rho) if sigma is None else sigma
    xs = pt.tensor(X, dtype=pt.float32)
    if kind == "newsvendor":
        xs = xs.mean(dim=1, keepdim=True)
    for s in {id(s): s for s in (seen["sampler"], seen["last_sampler"])}.values():
        scale_check(mon, rng, model, s, spec, sigma, info)
    # weight of the L2 term: the loss at the data minus the textbook loss of the public model
    theta2 = sum(float((t.detach().double() ** 2).sum()) for t in model.primal_loss.parameters())
    l2 = o.get("l2_reg", 0.)
    if 1e-3 < theta2 < 1e6:
        flat = model.primal_loss
        yt = None if y is None else pt.tensor(
            np.asarray(e.y_, dtype=np.float32).reshape(len(X), -1) if kind == "logistic"
            else np.asarray(y, np.float32).reshape(len(X), -1))
        with pt.no_grad():
            a = flat.value(xs.unsqueeze(0), None if yt is None else yt.unsqueeze(0)).double()
            keep, flat.l2reg = flat.l2reg, None
            b = flat.value(xs.unsqueeze(0), None if yt is None else yt.unsqueeze(0)).double()
            flat.l2reg = keep
        mon.close(float((a - b).mean()), .5 * l2 * theta2,
                  1e-4 * (l2 * theta2 + float(b.abs().max())) + 1e-6,
                  "the L2 weight is not the one given", **info)
        if l2:
            mon.saw("l2")
    if default_iters:
        mon.saw("default_schedule")
    mon.saw("%s_%s" % (kind, solver))
    mon.nontrivial("fit", kind, solver, seen["eps"], rho, float(model.lam.detach().reshape(-1)[0]))


def scale_check(mon, rng, model, sampler, spec, sigma, info):
    """Typical cost-distance of fresh draws against draws of a sampler of scale sigma."""
    n = 400
    with pt.no_grad():
        z, _ = sampler.sample(n)
    mean = z.double().median(dim=0).values
    spread = (z.double() - mean).abs().median(dim=0).values.median()
    x0 = pt.zeros(z.shape[1:], dtype=pt.float32)
    from skwdro.base.samplers.torch import NoLabelsCostSampler
    from skwdro.base.costs_torch import NormCost
    plain = NormCost(p=spec[2], power=spec[1])
    w, _ = NoLabelsCostSampler(plain, x0, pt.tensor(sigma), int(rng.integers(1 << 30))).sample(n)
    ref_spread = (w.double() - w.double().median(dim=0).values).abs().median(dim=0).values.median()
    ratio = float(spread / ref_spread)
    mon.check(.55 < ratio < 1.8, "sigma is not as documented", ratio=ratio, sigma=sigma, **info)


def defaults(case, mon, rng):
    """Leaving options out is the same as giving their documented defaults."""
    kind = case["est"]
    X, y = est.data(kind, rng)
    o = {}
    if kind == "newsvendor" or (kind == "portfolio" and rng.random() < .7):
        o["solver"] = str(rng.choice(est.SOLVERS[kind]))
    if o.get("solver") != "dedicated" and not (kind == "portfolio" and not o):
        o["n_iter"] = est.fast_iters(rng, "")
        if rng.random() < .7:
            o["learning_rate"] = .05
    keep = [k for k in PLAIN[kind] if k not in o and rng.random() < .7]
    got = est.make(kind, **o).get_params(deep=False)
    for k, v in PLAIN[kind].items():
        if k not in o:
            mon.check(got[k] == v and (got[k] is None) == (v is None),
                      "an omitted option has another value than documented", est=kind, option=k,
                      got=got[k], want=v)
    a, b = (est.make(kind, **o), est.make(kind, **dict(o, **{k: PLAIN[kind][k] for k in keep})))
    with mon.under_test("fitting with omitted options"):
        try:
            est.fit(a, X, y)
            est.fit(b, X, y)
        except RuntimeError as err:
            if "overflow" in str(err):
                raise Skip("the optimizer overflowed")
            raise
    mon.close(np.asarray(a.coef_, float), np.asarray(b.coef_, float), 0.,
              "omitting options is not the same as giving their defaults", est=kind, given=keep)
    mon.saw("omitted_" + kind)
    mon.nontrivial("default", kind, a.coef_, X)


def run(case, mon, rng):
    if case["kind"] == "default":
        return defaults(case, mon, rng)
    if case["kind"] == "build":
        return build(case, mon, rng)
    if case["kind"] == "fit":
        return fitted(case, mon, rng)
    X, y = est.data("weber", rng)
    a, b = (est.make("weber", kappa=k, n_iter=(2, 12)).fit(X, y) for k in (.01, 1e3))
    mon.check(not np.array_equal(a.coef_, b.coef_) or math.isnan(a.coef_.sum()),
              "the location estimator ignores kappa")
    mon.nontrivial("kappa", a.coef_)
