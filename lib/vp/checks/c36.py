"""C36: robust models assembled by hand obey the same rules (reference-model monitor)."""
import numpy as np
import torch as pt
import torch.nn as nn

from vp import ref

RULE = ("robust models are assembled from built-in, wrapped and user-written losses, ground costs "
        "of any order and power and a user-written sampler that logs its calls; random sequences "
        "of evaluations, sampler resets and option changes are compared, value and gradients, "
        "with the dual formula on the logged samples; non-trivial when an evaluation was compared")
REQUIRED = ["values", "kept_centre", "reset_centre", "hyper_gradients", "no_hyper_gradients",
            "asked_count", "default_count", "frozen", "unfrozen", "hyper_frozen", "built_samplers",
            "default_samplers", "refused_labels", "swapped_sampler", "changed_settings",
            "reduction_sum", "reduction_none", "no_sampler", "pi0", "optimizer_handles",
            "sampler_iteration", "loss_logistic",
            "loss_quadratic", "loss_newsvendor", "loss_wrapped", "loss_user", "pre", "post"]
LOSSES = ["logistic", "quadratic", "newsvendor", "wrapped", "user"]


def cases(tier, seed):
    n = 240 if tier == "quick" else 3000
    return [{"kind": "values", "loss": LOSSES[k % 5], "post": (k // 5) % 4 != 0}
            for k in range(n)] + \
        [{"kind": w, "loss": LOSSES[k % 5], "post": (k // 5) % 2 == 0}
         for w in ("handles", "samplers") for k in range(n // 5)]


def make_user():
    """User code against the library's extension points (imported late)."""
    from skwdro.base.losses_torch import Loss
    from skwdro.base.samplers.torch.base_samplers import BaseSampler

    class Logged(BaseSampler):
        """Uniform perturbations of the centre; everything asked of it is logged."""

        def __init__(self, xi, yi, rng, spread=.5):
            super().__init__(None)
            self.rng, self.spread = rng, spread
            self.centre = (xi, yi)
            self.resets, self.draws = [], []

        def reset_mean(self, xi, xi_labels):
            self.centre = (xi, xi_labels)
            self.resets.append((xi, xi_labels))

        def around(self, t, n):
            if t is None:
                return None
            u = self.rng.uniform(-1, 1, size=(n,) + tuple(t.shape)) * self.spread
            return t.unsqueeze(0) + pt.tensor(u, dtype=t.dtype)

        def sample(self, n_samples):
            out = tuple(self.around(t, n_samples) for t in self.centre)
            self.draws.append((n_samples,) + out)
            return out

        @property
        def produces_labels(self):
            return self.centre[1] is not None

        def log_prob(self, zeta, zeta_labels):
            raise AssertionError("no density was needed")

        def log_prob_recentered(self, xi, xi_labels, zeta, zeta_labels):
            raise AssertionError("no density was needed")

    class Cosine(Loss):
        """An unlabelled loss of the user's."""

        def __init__(self, sampler, d, l2reg=None):
            super().__init__(sampler, False, l2reg=l2reg)
            self.w = nn.Parameter(pt.zeros(d))

        def value(self, xi, xi_labels=None):
            assert xi_labels is None
            return self.regularize(pt.cos(xi @ self.w).unsqueeze(-1) * 2.)

        @classmethod
        def default_sampler(cls, xi, xi_labels, epsilon, seed):
            return None

        @property
        def theta(self):
            return self.w

        @property
        def intercept(self):
            return None
    return Logged, Cosine


def build_loss(name, d, l2, bias, sampler, rng):
    """(loss, labelled, parameters in a fixed order)."""
    from skwdro.base import losses_torch as L
    _, Cosine = make_user()
    if name == "logistic":
        loss = L.LogisticLoss(sampler, d=d, l2reg=l2, fit_intercept=bias)
    elif name == "quadratic":
        loss = L.QuadraticLoss(sampler, d=d, l2reg=l2, fit_intercept=bias)
    elif name == "newsvendor":
        loss = L.NewsVendorLoss_torch(sampler, k=3., u=5., l2reg=l2)
    elif name == "user":
        loss = Cosine(sampler, d, l2)
    else:
        loss = L.WrappedPrimalLoss(nn.MSELoss(reduction="none"), nn.Linear(d, 1), sampler, True,
                                   l2reg=l2)
    loss = loss.double()
    with pt.no_grad():
        for p in loss.parameters():
            p.copy_(pt.tensor(rng.normal(size=tuple(p.shape))))
    return loss


LABELLED = {"logistic": True, "quadratic": True, "newsvendor": False, "wrapped": True,
            "user": False}


def reference_loss(name, params, z, zy, l2):
    """Per-point values (n, m), written from the documentation."""
    if name in ("logistic", "quadratic", "wrapped"):
        lin = z @ params[0].reshape(-1) + (params[1].reshape(()) if len(params) > 1 else 0.)
        if name == "logistic":
            out = pt.nn.functional.softplus(-zy[..., 0] * lin)
        else:
            out = (lin - zy[..., 0]) ** 2
        pen = (params[0] ** 2).sum()
        if name == "wrapped":
            pen = sum((p ** 2).sum() for p in params)
    elif name == "newsvendor":
        t = params[0].reshape(())
        out = 3. * t - 5. * pt.minimum(t, z).mean(-1)
        pen = t ** 2
    else:
        out = 2. * pt.cos(z @ params[0])
        pen = (params[0] ** 2).sum()
    return out + (.5 * l2 * pen if l2 else 0.)


class Setup:
    def __init__(self, case, rng, mon, hyper=False, adapt=None):
        from skwdro.base.costs_torch import NormCost, NormLabelCost
        from skwdro.solvers import DualLoss, DualPostSampledLoss, DualPreSampledLoss
        Logged, _ = make_user()
        self.name, self.post, self.rng = case["loss"], case["post"], rng
        self.labels = LABELLED[self.name]
        self.d, self.m = int(rng.integers(1, 5)), int(rng.integers(1, 7))
        self.l2 = [None, .5, 2. ** -9][int(rng.integers(3))]
        self.bias = bool(rng.random() < .5)
        self.xi, self.yi = self.batch()
        power = float(rng.choice([1., 1.5, 2., 3.]))
        p = float(rng.choice([1., 2., 3., np.inf]))
        kappa = float(rng.choice([0., .5, 4.]))
        labelled_cost = self.labels and rng.random() < .7
        self.spec = ("NLC" if labelled_cost else "NC", power, p, kappa)
        self.red = [None, "mean", "sum", "none"][int(rng.integers(4))]
        self.n = int(rng.integers(1, 7))
        self.hyper = hyper
        with mon.under_test("assembling a robust model"):
            self.cost = NormLabelCost(p, power, kappa) if labelled_cost else NormCost(p, power)
            self.sampler = Logged(self.xi, self.yi, rng)
            self.loss = build_loss(self.name, self.d, self.l2, self.bias, self.sampler, rng)
            cls = (DualLoss if rng.random() < .5 else DualPostSampledLoss) if self.post \
                else DualPreSampledLoss
            kw = {} if not self.post else {"adapt": adapt}
            self.model = cls(self.loss, self.cost, self.n,
                             pt.tensor(float(rng.uniform(.05, 2.)), dtype=pt.double),
                             pt.tensor(float(rng.uniform(.1, 2.)), dtype=pt.double),
                             n_iter=int(rng.integers(1, 9)), reduction=self.red,
                             gradient_hypertuning=hyper, imp_samp=False, **kw)
        with pt.no_grad():
            self.model.lam.fill_(float(rng.choice([0., .3, 2., 9.])))
        mon.saw("loss_" + self.name)
        mon.saw("post" if self.post else "pre")
        mon.saw("reduction_%s" % (self.red or "default"))

    def batch(self):
        xi = pt.tensor(self.rng.normal(size=(self.m, self.d)))
        if not self.labels:
            return xi, None
        y = self.rng.choice([-1., 1.], size=(self.m, 1)) if self.name == "logistic" \
            else self.rng.normal(size=(self.m, 1))
        return xi, pt.tensor(y)

    def info(self):
        return dict(loss=self.name, post=self.post, cost=self.spec, reduction=self.red)

    def reference(self, xi, yi, z, zy):
        """Value and leaves of the formula: (value, [parameters], lambda, rho, epsilon)."""
        ps = [p.detach().clone().double().requires_grad_(True) for p in self.loss.parameters()]
        lam, rho, eps = (t.detach().clone().double().reshape(()).requires_grad_(True)
                         for t in (self.model.lam, self.model.rho, self.model.epsilon))
        z = z.reshape(-1, xi.shape[0], self.d)
        L = reference_loss(self.name, ps, z, zy, self.l2)
        C = ref.cost(self.spec, xi[None], z, None if yi is None else yi[None], zy)
        inner = eps * (pt.logsumexp((L - lam * C) / eps, 0) - np.log(len(L)))
        return lam * rho ** self.spec[1] + ref.reduce(inner, self.red), ps, lam, rho, eps, L, C


def values(case, mon, rng):
    s = Setup(case, rng, mon, hyper=bool(rng.random() < .5))
    model, info = s.model, s.info()
    mon.check(model.rho.requires_grad == s.hyper and model.epsilon.requires_grad == s.hyper,
              "radius or regularisation tuned without being asked", **info)
    z = zy = None
    for step in range(int(rng.integers(2, 6))):
        if rng.random() < .3:
            with pt.no_grad():
                model.rho.fill_(float(rng.uniform(.05, 3.)))
                model.epsilon.fill_(float(rng.uniform(.05, 3.)))
                model.lam.fill_(float(rng.uniform(0., 5.)))
                for p in s.loss.parameters():
                    p.add_(pt.tensor(rng.normal(size=tuple(p.shape)) * .3))
            if s.post:
                s.n = model.n_samples = int(rng.integers(1, 7))
            mon.saw("changed_settings")
        if rng.random() < .2:
            Logged, _ = make_user()
            new = Logged(s.sampler.centre[0], s.sampler.centre[1], rng, .9)
            with mon.under_test("replacing the sampler"):
                if rng.random() < .5:
                    del model.sampler
                model.sampler = new
            mon.check(model.sampler is new and s.loss.sampler is new,
                      "the new sampler is not the one in use", **info)
            s.sampler = new
            mon.saw("swapped_sampler")
        xi, yi = s.batch()
        model.zero_grad()
        if s.post:
            reset = bool(rng.random() < .6)
            centre = s.sampler.centre
            nd, nr = len(s.sampler.draws), len(s.sampler.resets)
            with mon.under_test("evaluating"):
                v = model(xi, yi) if reset and rng.random() < .5 else \
                    model(xi, yi, reset_sampler=reset)
            draws, resets = s.sampler.draws[nd:], s.sampler.resets[nr:]
            if not mon.check(len(draws) == 1, "not one draw per evaluation", draws=len(draws),
                             **info):
                return
            mon.check(draws[0][0] == s.n, "not the configured number of samples",
                      asked=draws[0][0], want=s.n, **info)
            if reset:
                mon.check(len(resets) >= 1 and pt.equal(s.sampler.centre[0], xi)
                          and (yi is None) == (s.sampler.centre[1] is None)
                          and (yi is None or pt.equal(s.sampler.centre[1].reshape(yi.shape), yi)),
                          "the sampler was not recentred at the batch", **info)
                mon.saw("reset_centre")
            else:
                mon.check(not resets and s.sampler.centre is centre,
                          "the sampler was recentred although told not to", **info)
                mon.saw("kept_centre")
            z, zy = draws[0][1:]
        else:
            k = int(rng.integers(1, 6))
            fresh = z is None or rng.random() < .6 or z.shape[1] != len(xi)
            if fresh:
                z, zy = (None if t is None else s.sampler.around(t, k) for t in (xi, yi))
            nd = len(s.sampler.draws)
            with mon.under_test("evaluating"):
                v = model(xi, yi, z, zy) if fresh else model(xi, yi)
            mon.check(len(s.sampler.draws) == nd, "a pre-sampled model drew samples", **info)
        want, ps, lam, rho, eps, L, C = s.reference(xi, yi, z, zy)
        size = 1. + float(L.abs().max()) + float(lam) * float(C.abs().max()) \
            + float(lam * rho ** s.spec[1])
        size *= len(xi) if s.red == "sum" else 1
        ok = mon.close(ref.np64(v), ref.np64(want), 1e-10 * size + 3e-6 * float(eps) *
                       (len(xi) if s.red == "sum" else 1),
                       "the value is not the dual formula on the drawn samples", step=step, **info)
        mon.saw("values")
        if not ok:
            return
        w = pt.tensor(rng.normal(size=tuple(v.shape))) if v.dim() else pt.tensor(1.).double()
        (v * w).sum().backward()
        (want * w).sum().backward()
        g = [p.grad for p in s.loss.parameters()]
        for got, p in zip(g, ps):
            gs = 1. + float(p.grad.abs().max())
            mon.close(0. * ref.np64(p.grad) if got is None else ref.np64(got), ref.np64(p.grad),
                      1e-7 * gs * size / float(eps), "gradient of a parameter", **info)
        mon.close(float(model.lam.grad), float(lam.grad), 1e-7 * size / float(eps),
                  "gradient of the dual variable", **info)
        if s.hyper:
            if mon.check(model.rho.grad is not None and model.epsilon.grad is not None,
                         "no gradient for the radius or the regularisation", **info):
                mon.close(float(model.rho.grad), float(rho.grad), 1e-8 * size,
                          "gradient of the radius", **info)
                mon.close(float(model.epsilon.grad), float(eps.grad),
                          1e-7 * size / float(eps) + 5e-6 * (len(xi) if s.red == "sum" else 1)
                          * (1. + float(w.abs().max())) * max(1, v.numel()),
                          "gradient of the regularisation", **info)
                mon.saw("hyper_gradients")
        else:
            mon.check(model.rho.grad is None and model.epsilon.grad is None,
                      "gradient for a radius or regularisation that is not tuned", **info)
            mon.saw("no_hyper_gradients")
        mon.nontrivial(s.name, s.spec, ref.np64(v))


def handles(case, mon, rng):
    """Handles of a model: samples on demand, freezing, optimizer, proxies."""
    hyper = bool(rng.random() < .5)
    s = Setup(case, rng, mon, hyper=hyper, adapt=[None, "prodigy", "mechanic"][
        int(rng.integers(3))])
    model, info = s.model, s.info()
    ps = list(s.loss.parameters())
    asked = [None, 0, -3, int(rng.integers(1, 9))][int(rng.integers(4))]
    with mon.under_test("asking for samples"):
        out = model.generate_zetas() if asked is None and rng.random() < .5 \
            else model.generate_zetas(asked)
    want = s.n if asked is None or asked <= 0 else asked
    mon.saw("default_count" if asked is None or asked <= 0 else "asked_count")
    last = s.sampler.draws[-1]
    mon.check(last[0] == want and same_draws(out, last[1:]),
              "not the requested samples of the sampler", asked=asked, got=last[0], **info)
    k = int(rng.integers(1, 5))
    with mon.under_test("asking the loss for samples"):
        out = s.loss.sample_pi0(k)
    last = s.sampler.draws[-1]
    mon.check(last[0] == k and same_draws(out, last[1:]),
              "the loss does not sample its sampler", **info)
    mon.saw("pi0")
    # iterating over a sampler gives one sample of every point at a time
    with mon.under_test("iterating over a sampler"):
        it = iter(s.sampler)
        pair = next(it)
    mon.check(s.sampler.draws[-1][0] == 1 and same_draws(pair, s.sampler.draws[-1][1:]),
              "iterating does not draw one sample", **info)
    mon.saw("sampler_iteration")
    # proxies
    with mon.under_test("reading the parameters"):
        theta, inter = model.theta, model.intercept
    mon.close(ref.np64(theta).reshape(-1),
              np.concatenate([ref.np64(p).reshape(-1) for p in ps])
              if s.name == "wrapped" else ref.np64(ps[0]).reshape(-1), 0.,
              "theta is not the model's parameters", **info)
    if s.name in ("logistic", "quadratic"):
        mon.check((inter is None) != s.bias and (inter is None or inter is ps[1]),
                  "intercept of the model", **info)
    elif s.name != "wrapped":
        mon.check(inter is None, "an intercept out of nowhere", **info)
    mon.check(model.presample == (not s.post), "presample flag", **info)
    mon.check(list(model.iterations) == list(range(model.n_iter)), "iterations", **info)
    model.n_iter = (3, 5)
    mon.check(list(model.iterations) == list(range(5)), "iterations of a pair", **info)
    if not s.post:
        mon.check(model.current_samples == (None, None), "samples before any evaluation", **info)
    # what is optimised, and replacing the optimizer
    with mon.under_test("reading the optimizer"):
        opt = model.optimizer
        held = {id(p) for g in opt.param_groups for p in g["params"]}
    tuned = {id(p) for p in ps} | {id(model.lam)}
    free = {id(model.rho), id(model.epsilon)}
    mon.check(tuned <= held and (held - tuned) <= free,
              "the optimizer does not hold the parameters and the dual variable",
              missing=len(tuned - held), extra=len(held - tuned - free), **info)
    mine = pt.optim.SGD(model.parameters(), lr=.1)
    with mon.under_test("replacing the optimizer"):
        model.optimizer = mine
    mon.check(model.optimizer is mine, "the new optimizer is not the one in use", **info)
    model.optimizer = None
    mon.raises(lambda: model.optimizer, "a missing optimizer is not reported",
               types=(AttributeError,), **info)
    mon.saw("optimizer_handles")
    # freezing
    before = (model.rho.requires_grad, model.epsilon.requires_grad)
    with mon.under_test("freezing"):
        model.freeze()
    mon.check(not any(p.requires_grad for p in ps) and not model.lam.requires_grad,
              "freeze() left a parameter tuned", **info)
    mon.check((model.rho.requires_grad, model.epsilon.requires_grad) == before,
              "freeze() touched the radius or the regularisation", **info)
    mon.saw("frozen")
    with mon.under_test("unfreezing"):
        model.freeze(True)
    mon.check(all(p.requires_grad for p in ps) and model.lam.requires_grad,
              "freeze(True) left a parameter frozen", **info)
    mon.check((model.rho.requires_grad, model.epsilon.requires_grad) == before,
              "freeze(True) touched the radius or the regularisation", **info)
    mon.saw("unfrozen")
    flag = bool(rng.random() < .5)
    with mon.under_test("freezing everything"):
        model.freeze(flag, include_hyper=True)
    mon.check(all(p.requires_grad == flag for p in model.parameters()),
              "freezing everything left something out", **info)
    mon.saw("hyper_frozen")
    mon.nontrivial(s.name, s.spec, ref.np64(theta), want)


def same_draws(a, b):
    return all((u is None and v is None) or (u is not None and v is not None and pt.equal(u, v))
               for u, v in zip(a, b))


def samplers(case, mon, rng):
    """Samplers the model builds itself, and those its loss suggests."""
    from skwdro.base.costs_torch import NormCost, NormLabelCost
    from skwdro.base.samplers import torch as S
    s = Setup(case, rng, mon)
    info = s.info()
    p, power = [(1., 1.), (2., 1.), (np.inf, 1.), (2., 2.)][int(rng.integers(4))]
    cost = NormLabelCost(p, power, float(rng.choice([.5, 4.]))) \
        if s.labels else NormCost(p, power)
    s.model.cost = cost
    sigma, seed = float(rng.uniform(.05, 2.)), int(rng.integers(1000))
    xi, yi = s.batch()
    k = int(rng.integers(1, 5))
    if s.labels:
        mon.raises(lambda: s.model.init_sampler(xi, None, sigma, seed),
                   "missing labels are not reported", types=(AssertionError,), **info)
    else:
        mon.raises(lambda: s.model.init_sampler(xi, pt.ones(s.m, 1), sigma, seed),
                   "unexpected labels are not reported", types=(AssertionError,), **info)
    mon.saw("refused_labels")
    with mon.under_test("building the sampler of a cost"):
        made = s.model.init_sampler(xi, yi, sigma, seed)
        got = made.sample(k)
    mon.check(s.model.sampler is made and s.loss.sampler is made,
              "the sampler built is not the one in use", **info)
    mon.check(made.produces_labels == s.labels, "labels produced by the sampler", **info)
    twin = S.LabeledCostSampler(cost, xi, yi, sigma, seed=seed) if s.labels \
        else S.NoLabelsCostSampler(cost, xi, sigma, seed=seed)
    mon.check(same_draws(got, twin.sample(k)), "the sampler built is not that of the cost",
              sigma=sigma, **info)
    mon.saw("built_samplers")
    if s.post:
        with mon.under_test("evaluating with the sampler built"):
            pt.manual_seed(seed)
            v = float(s.model(xi, yi).sum())
        mon.check(np.isfinite(v), "the sampler built gives no value", **info)
    # the sampler a loss suggests: Gaussian around the data, of the given scale
    if s.name in ("logistic", "quadratic", "newsvendor"):
        scale = pt.tensor(sigma, dtype=pt.double)
        with mon.under_test("asking a loss for its sampler"):
            own = s.model.default_sampler(xi, yi, scale, seed) if rng.random() < .5 \
                else s.loss.default_sampler(xi, yi, scale, seed)
            got = own.sample(400)
        mon.check(own.produces_labels == s.labels, "labels produced by the suggested sampler",
                  **info)
        for what, t, c in (("data", got[0], xi), ("labels", got[1], yi)):
            if c is None:
                mon.check(t is None, "labels out of nowhere", **info)
                continue
            if not mon.check(t is not None and t.numel() == 400 * c.numel(),
                             "shape of the suggested %s" % what, **info):
                continue
            z = ref.np64((t.reshape(400, *c.shape) - c) / sigma).reshape(-1)
            # p < 1e-12 for the mean, and for the spread
            mon.check(abs(z.mean()) * np.sqrt(z.size) < 7.2,
                      "the suggested %s are not centred at the data" % what, **info)
            mon.check(abs((z ** 2).mean() - 1.) * np.sqrt(z.size / 2.) < 9.,
                      "the suggested %s have another scale" % what,
                      spread=float((z ** 2).mean()), **info)
        pt.manual_seed(seed)
        first = own.sample(2)
        again = s.loss.default_sampler(xi, yi, scale, seed).sample(2)
        mon.check(same_draws(first, again), "the seed of the suggested sampler is ignored", **info)
        mon.saw("default_samplers")
    # no sampler at all is reported
    s.loss.sampler = None
    mon.raises(lambda: s.model.sampler, "a missing sampler is not reported",
               types=(ValueError,), **info)
    mon.raises(lambda: s.model.generate_zetas(2), "a missing sampler is not reported",
               types=(ValueError,), **info)
    mon.saw("no_sampler")
    mon.nontrivial(s.name, p, power, sigma, seed)


def run(case, mon, rng):
    {"values": values, "handles": handles, "samplers": samplers}[case["kind"]](case, mon, rng)
