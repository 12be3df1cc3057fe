"""C09: reference samples follow the law the cost prescribes (statistical monitor, p < 1e-9)."""
import math

import numpy as np
import torch as pt
from scipy import stats

from vp import ref

RULE = ("random batches, costs, scales and built-in samplers; several thousand draws per case are "
        "standardised with the configured scale or covariance and tested (Kolmogorov-Smirnov, "
        "means, variances, cross-correlations between coordinates, points, labels and successive "
        "draws, all at p < 1e-9), before and after recentring; seeds are compared exactly; "
        "non-trivial when at least 2000 standardised residuals were tested")
REQUIRED = ["residuals", "label_residuals", "exact_labels", "recentred", "seed_pairs", "laplace",
            "gaussian", "covariance", "switch_labels", "model_sampler",
            "several_descriptions", "rare_switches", "model_seeds"]
COSTS = [("NC", 1., 1.), ("NC", 1., 2.), ("NC", 1., math.inf), ("NC", 2., 2.),
         ("NLC", 1., 1.), ("NLC", 1., 2.), ("NLC", 1., math.inf), ("NLC", 2., 2.)]
COV = ["nn", "nid", "nb", "newsvendor", "portfolio_n", "portfolio_l"]
Z9 = 6.2    # two-sided normal quantile of 1e-9 (with a margin)


def cases(tier, seed):
    r = 4 if tier == "quick" else 40
    out = []
    for k in range(r):
        out += [{"kind": "cost", "cost": 1, "c": c, "labels": lab, "route": (k + c) % 2}
                for c in range(len(COSTS)) for lab in (0, 1) if lab or COSTS[c][0] == "NC"]
        out += [{"kind": "cov", "which": w, "how": h}
                for w in COV for h in ("sigma", "tril", "cov", "prec")]
    return out


def gaussian(mon, r, what, law="norm"):
    """r: (n, q) residuals, supposedly iid standard, rows independent."""
    n, q = r.shape
    if not mon.check(bool(np.isfinite(r).all()), what + " is not finite"):
        return
    flat = r.ravel()
    pv = stats.kstest(flat, law).pvalue
    mon.check(pv > 1e-9, what + " does not follow the prescribed law", p=pv, law=law,
              sd=float(flat.std()), mean=float(flat.mean()))
    sd = 1. if law == "norm" else math.sqrt(2.)
    mz = np.abs(r.mean(0)) * math.sqrt(n) / sd
    mon.check(float(mz.max()) < Z9 + .3, what + " is not centred on its data point",
              z=float(mz.max()))
    if n > 500:
        c = np.corrcoef(np.c_[r[:-1], r[1:]].T) if q > 0 else np.eye(1)
        off = np.abs(c - np.diag(np.diag(c))).max()
        mon.check(off * math.sqrt(n - 1) < 8.5, what + " draws are correlated", r=float(off))
    mon.check(len(np.unique(flat)) > .98 * flat.size, what + " repeats draws",
              distinct=len(np.unique(flat)), total=int(flat.size))


def cost_case(case, mon, rng):
    from skwdro.base.costs_torch import NormCost, NormLabelCost
    from skwdro.base.samplers.torch import LabeledCostSampler, NoLabelsCostSampler
    kind, power, p = COSTS[case["c"]]
    kappa = float(rng.choice([.5, 1., 4., 1e3, 1e7]))
    if kind == "NLC" and rng.random() < .15:
        kappa = math.inf
    cost = NormCost(p=p, power=power) if kind == "NC" else \
        NormLabelCost(p=p, power=power, kappa=kappa)
    d, e, m = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 4))
    n = 3000
    sigma = float(np.float32(np.exp(rng.uniform(np.log(.05), np.log(5.)))))
    dtype = pt.float64
    seed = int(rng.integers(10000))

    def batch():
        x = pt.tensor(rng.normal(size=(m, d)) * 10, dtype=dtype)
        y = pt.tensor(rng.normal(size=(m, e)) * 10, dtype=dtype) if case["labels"] else None
        return x, y
    x, y = batch()
    law = "laplace" if (power, p) == (1., 1.) else "norm"
    mon.saw("laplace" if law == "laplace" else "gaussian")

    def make(x, y, s):
        if y is None:
            return NoLabelsCostSampler(cost, x, sigma, seed=s)
        return LabeledCostSampler(cost, x, y, sigma, seed=s)
    if case["route"]:
        # the sampler of a robust model
        from vp import gen
        pr = gen.Problem("mse" if case["labels"] else "logcosh", d, rng).to(dtype)
        if case["labels"]:
            y = y[:, :1]
            e = 1
        code = "t-%s-%g-%g" % (kind, power, p) + ("" if kind == "NC" else "-%r" % kappa)
        model = gen.robust(pr, pt.tensor(.5, dtype=dtype), x, y, cost_spec=code, n_samples=2,
                           seed=seed, sigma=sigma, n_iter=(1, 2), imp_samp=False)
        s = model.sampler
        mon.saw("model_sampler")
        draws = {}
        for k in (0, 1, 42, seed + 43):
            draws[k] = gen.robust(pr, pt.tensor(.5, dtype=dtype), x, y, cost_spec=code, n_samples=2,
                                  seed=k, sigma=sigma, n_iter=(1, 2),
                                  imp_samp=False).generate_zetas()[0]
        mon.check(all(not pt.equal(draws[a], draws[b]) for a in draws for b in draws if a < b),
                  "models of different seeds draw the same samples")
        mon.saw("model_seeds")
        pt.manual_seed(seed)
    else:
        s = make(x, y, seed)

    def judge(s, x, y, tag):
        z, zy = s.sample(n)
        mon.check(tuple(z.shape) == (n, m, d), "shape of the samples" + tag, got=tuple(z.shape))
        r = ref.np64((z - x) / sigma).reshape(n, m * d)
        cols = r
        if y is not None:
            mon.check(tuple(zy.shape) == (n, m, e), "shape of the label samples" + tag,
                      got=tuple(zy.shape))
            if kind == "NC" or math.isinf(kappa):
                mon.check(bool((zy == y).all()), "labels are not left exact" + tag)
                mon.saw("exact_labels")
            else:
                ls = sigma / kappa if power == 1 else sigma
                rl = ref.np64((zy - y) / ls).reshape(n, m * e)
                gaussian(mon, rl, "label samples" + tag, law)
                mon.saw("label_residuals", rl.size)
                cols = np.c_[r, rl]
        else:
            mon.check(zy is None, "labels drawn although there are none")
        gaussian(mon, r, "samples" + tag, law)
        if cols.shape[1] > r.shape[1]:
            c = np.corrcoef(cols.T)
            off = np.abs(c - np.eye(len(c))).max()
            mon.check(off * math.sqrt(n) < 8.5, "labels and data are correlated" + tag,
                      r=float(off))
        mon.saw("residuals", r.size)
        return z, zy
    z, zy = judge(s, x, y, "")
    # equal seeds, equal draws
    if not case["route"]:
        a, b = make(x, y, seed).sample(5), make(x, y, seed).sample(5)
        c = make(x, y, seed + 1).sample(5)
        mon.check(pt.equal(a[0], b[0]) and (y is None or pt.equal(a[1], b[1])),
                  "equal seeds give different draws")
        mon.check(not pt.equal(a[0], c[0]), "different seeds give equal draws")
        u = make(x, y, None)
        v = make(x, y, None)
        mon.check(not pt.equal(u.sample(5)[0], v.sample(5)[0]),
                  "unseeded samplers repeat the same draws")
        mon.saw("seed_pairs")
    for _ in range(int(rng.integers(1, 3))):
        x, y = batch()
        if case["route"] and y is not None:
            y = y[:, :1]
        s.reset_mean(x, y)
        mon.saw("recentred")
    judge(s, x, y, " after recentring")
    s.reset_mean(x, y)
    a = s.sample(4)[0]
    s.reset_mean(x, y)
    mon.check(pt.equal(a, s.sample(4)[0]), "a seeded sampler recentred twice draws differently")
    mon.nontrivial(kind, power, p, kappa, sigma, m, d, float(z.sum()))


def spd(rng, d):
    a = rng.normal(size=(d, d))
    return a @ a.T + .5 * np.eye(d)


def cov_args(rng, d, how, prefix=""):
    """Keyword arguments and the implied covariance."""
    if how == "sigma":
        s = float(np.float32(np.exp(rng.uniform(-2, 1))))
        return {prefix + "sigma": s}, s ** 2 * np.eye(d)
    c = spd(rng, d)
    if how == "cov":
        c32 = c.astype(np.float32).astype(float)
        c32 = (c32 + c32.T) / 2
        return {prefix + "cov": pt.tensor(c32, dtype=pt.float32)}, c32
    if how == "tril":
        t = np.linalg.cholesky(c).astype(np.float32).astype(float)
        return {prefix + "tril": pt.tensor(t, dtype=pt.float32)}, t @ t.T
    q = np.linalg.inv(c)
    q = ((q + q.T) / 2).astype(np.float32).astype(float)
    return {prefix + "prec": pt.tensor(q, dtype=pt.float32)}, np.linalg.inv(q)


def make_cov_sampler(which, x, y, kw, lkw, p, seed):
    from skwdro.base.samplers import torch as S
    if which == "nn":
        return S.ClassificationNormalNormalSampler(x, y, seed=seed, **kw, **lkw)
    if which == "nid":
        return S.ClassificationNormalIdSampler(x, y, seed=seed, **kw)
    if which == "nb":
        return S.ClassificationNormalBernouilliSampler(p, x, y, seed=seed, **kw)
    cls = {"newsvendor": S.NewsVendorNormalSampler, "portfolio_n": S.PortfolioNormalSampler,
           "portfolio_l": S.PortfolioLaplaceSampler}[which]
    return cls(x, seed=seed, **kw)


def cov_case(case, mon, rng):
    which = case["which"]
    d, m, n = int(rng.integers(1, 4)), int(rng.integers(1, 4)), 3000
    e = 1 if which == "nb" else int(rng.integers(1, 3))
    seed = int(rng.integers(10000))
    kw, C = cov_args(rng, d, case["how"])
    lkw, CL = cov_args(rng, e, str(rng.choice(["sigma", "tril", "cov", "prec"])), "l_")
    p = float(rng.uniform(.1, .9) if rng.random() < .5 else rng.choice([0., .01, .99, 1.]))
    if which == "nb" and not .1 <= p <= .9:
        mon.saw("rare_switches")
    if rng.random() < .3:
        # when several descriptions are given, the first of the documented order wins
        order = ["sigma", "tril", "cov", "prec"]
        for k in order[order.index(case["how"]) + 1:]:
            kw.update(cov_args(rng, d, k)[0])
        if case["how"] != "prec":
            mon.saw("several_descriptions")

    def batch():
        x = pt.tensor(rng.normal(size=(m, d)), dtype=pt.float32)
        y = pt.tensor(rng.choice([-1., 1.], size=(m, e)) if which == "nb"
                      else rng.normal(size=(m, e)), dtype=pt.float32)
        return x, (y if which in ("nn", "nid", "nb") else None)
    x, y = batch()
    s = make_cov_sampler(which, x, y, kw, lkw, p, seed)
    mon.saw("covariance")

    def judge(x, y, tag):
        z, zy = s.sample(n)
        mon.check(tuple(z.shape) == (n, m, d), "shape of the samples" + tag, got=tuple(z.shape))
        W = np.linalg.inv(np.linalg.cholesky(C))
        r = (ref.np64(z) - ref.np64(x)) @ W.T
        gaussian(mon, r.reshape(n, m * d), "covariance samples" + tag)
        mon.saw("residuals", r.size)
        if y is None:
            mon.check(zy is None, "labels drawn although there are none")
        elif which == "nid":
            mon.check(tuple(zy.shape) == (n, m, e) and bool((zy == y).all()),
                      "labels are not left exact" + tag)
            mon.saw("exact_labels")
        elif which == "nb":
            mon.check(bool((zy.abs() == 1).all()), "switched labels leave their two values" + tag)
            keep = (ref.np64(zy * y) > 0).reshape(n, m)
            pv = [max(stats.binomtest(int(k), n, q).pvalue for q in (p, 1. - p))
                  for k in keep.sum(0)]
            mon.check(min(pv) > 1e-10, "switch frequency of the labels" + tag, p=p,
                      f=keep.mean(0))
            if m > 1 and .1 <= p <= .9:
                c = np.corrcoef(keep.T.astype(float))
                mon.check(np.abs(c - np.eye(m)).max() * math.sqrt(n) < 8.5,
                          "label switches are correlated" + tag)
            mon.saw("switch_labels", n * m)
        else:
            W = np.linalg.inv(np.linalg.cholesky(CL))
            r = (ref.np64(zy) - ref.np64(y)) @ W.T
            gaussian(mon, r.reshape(n, m * e), "covariance label samples" + tag)
            mon.saw("label_residuals", r.size)
        return z
    z = judge(x, y, "")
    a = make_cov_sampler(which, x, y, kw, lkw, p, seed).sample(4)
    b = make_cov_sampler(which, x, y, kw, lkw, p, seed).sample(4)
    mon.check(pt.equal(a[0], b[0]) and (y is None or pt.equal(a[1], b[1])),
              "equal seeds give different draws")
    mon.saw("seed_pairs")
    x, y = batch()
    s.reset_mean(x, y)
    mon.saw("recentred")
    judge(x, y, " after recentring")
    s.reset_mean(x, y)
    a = s.sample(4)
    b = make_cov_sampler(which, x, y, kw, lkw, p, seed).sample(4)
    mon.close(ref.np64(a[0]), ref.np64(b[0]), 2e-2 * (1. + float(np.abs(C).max())),
              "a recentred sampler forgets its seed")
    s.reset_mean(x, y)
    mon.check(pt.equal(a[0], s.sample(4)[0]), "a seeded sampler recentred twice draws differently")
    mon.nontrivial(which, case["how"], m, d, float(z.double().sum()))


def run(case, mon, rng):
    (cost_case if case["kind"] == "cost" else cov_case)(case, mon, rng)
