"""C10: reported sampler log-densities are those of the sampling law (reference-model monitor)."""
import math

import numpy as np
import torch as pt

from vp import gen, ref
from vp.checks import c09

RULE = ("random samplers (every cost and built-in covariance sampler), centres, query points and "
        "labels; log-densities and recentred log-densities compared with scipy's; non-trivial "
        "when query and centre differ")
REQUIRED = ["densities", "recentred", "labelled", "covariance", "laplace", "exact_label_mass",
            "switch_labels", "after_reset"]


def cases(tier, seed):
    r = 8 if tier == "quick" else 90
    out = []
    for _ in range(r):
        out += [{"kind": "cost", "c": c, "labels": lab} for c in range(len(c09.COSTS))
                for lab in (0, 1) if lab or c09.COSTS[c][0] == "NC"]
        out += [{"kind": "cov", "which": w, "how": h}
                for w in c09.COV for h in ("sigma", "tril", "cov", "prec")]
        out += [{"kind": "double_sigma", "which": w} for w in c09.COV]
    return out


def indep(law, z, c, scale):
    r = (ref.np64(z) - ref.np64(c)) / scale
    if law == "laplace":
        return -(np.abs(r) + math.log(2 * scale)).sum(-1)
    return -(.5 * r ** 2 + .5 * math.log(2 * math.pi) + math.log(scale)).sum(-1)


def multi(z, c, C):
    r = ref.np64(z) - ref.np64(c)
    q = np.einsum("nmi,ij,nmj->nm", r, np.linalg.inv(C), r)
    return -.5 * (q + np.linalg.slogdet(C)[1] + C.shape[0] * math.log(2 * math.pi))


def compare(mon, s, x, y, z, zy, cx, cy, law, law_rec, tol, what):
    """law(): reference at the sampler's centre; law_rec(): at the given centre."""
    n, m = z.shape[:2]
    with mon.under_test("log-density"):
        lp = s.log_prob(z, zy)
        lr = s.log_prob_recentered(cx.unsqueeze(0), None if cy is None else cy.unsqueeze(0), z, zy)
    mon.check(tuple(lp.shape) == (n, m, 1), "shape of the log-density", got=tuple(lp.shape),
              want=(n, m, 1), sampler=what)
    mon.check(tuple(lr.shape) == (n, m, 1), "shape of the recentred log-density",
              got=tuple(lr.shape), want=(n, m, 1), sampler=what)
    w, wr = law(), law_rec()
    mon.close(ref.np64(lp).reshape(n, m), w, tol * (1 + np.abs(np.where(np.isfinite(w), w, 0))),
              "log-density", sampler=what)
    mon.close(ref.np64(lr).reshape(n, m), wr,
              tol * (1 + np.abs(np.where(np.isfinite(wr), wr, 0))),
              "recentred log-density", sampler=what)
    mon.saw("densities", n * m)
    mon.saw("recentred", n * m)


def cost_case(case, mon, rng):
    from skwdro.base.costs_torch import NormCost, NormLabelCost
    from skwdro.base.samplers.torch import LabeledCostSampler, NoLabelsCostSampler
    kind, power, p = c09.COSTS[case["c"]]
    kappa = float(rng.choice([.5, 1., 4., 100.]))
    if kind == "NLC" and rng.random() < .15:
        kappa = math.inf
    cost = NormCost(p=p, power=power) if kind == "NC" else \
        NormLabelCost(p=p, power=power, kappa=kappa)
    dtype = pt.float64 if rng.random() < .7 else pt.float32
    d, e, m, n = [gen.size(rng, 1, 5, 50) for _ in range(4)]
    sigma = float(np.float32(np.exp(rng.uniform(-2, 2))))
    law = "laplace" if (power, p) == (1., 1.) else "norm"
    if law == "laplace":
        mon.saw("laplace")

    def t(*shape):
        return pt.tensor(rng.normal(size=shape) * sigma * 2, dtype=dtype)

    def ints(*shape):
        return pt.tensor(rng.integers(-3, 4, size=shape).astype(float), dtype=dtype)
    x, cx = t(m, d), t(m, d)
    exact = kind == "NC" or math.isinf(kappa)
    y = cy = zy = None
    if case["labels"]:
        mon.saw("labelled")
        y, cy = ints(m, e), ints(m, e)
        s = LabeledCostSampler(cost, x, y, sigma, seed=3)
    else:
        s = NoLabelsCostSampler(cost, x, sigma, seed=3)
    if rng.random() < .4:
        x = t(m, d)
        if y is not None:
            y = ints(m, e)
        s.reset_mean(x, y)
        mon.saw("after_reset")
    z = x + t(n, m, d)
    if y is not None:
        if exact:
            zy = y.expand(n, m, e).clone()
            cy = y.clone()
            if rng.random() < .4:
                zy[int(rng.integers(n)), int(rng.integers(m)), int(rng.integers(e))] += 1.
        else:
            zy = y + t(n, m, e)

    def dens(cx, cy):
        v = indep(law, z, cx, sigma)
        if y is not None:
            if exact:
                mon.saw("exact_label_mass")
                # one verdict for the whole query: the labels are jointly exact or not
                v = v + (0. if bool((zy == cy).all()) else -np.inf)
            else:
                v = v + indep(law, zy, cy, sigma / kappa if power == 1 else sigma)
        return v
    compare(mon, s, x, y, z, zy, cx, cy, lambda: dens(x, y), lambda: dens(cx, cy),
            1e-11 if dtype == pt.float64 else 2e-5 * (1 + (kappa if np.isfinite(kappa) else 0)),
            "%s-%g-%g" % (kind, power, p))
    mon.nontrivial(case["c"], case["labels"], sigma, kappa, n, m, d, float(z.double().sum()))


def cov_case(case, mon, rng):
    which = case["which"]
    d, m, n = int(rng.integers(1, 5)), gen.size(rng, 1, 5, 50), gen.size(rng, 1, 5, 50)
    e = 1 if which == "nb" else int(rng.integers(1, 3))
    kw, C = c09.cov_args(rng, d, case["how"])
    lkw, CL = c09.cov_args(rng, e, str(rng.choice(["sigma", "tril", "cov", "prec"])), "l_")
    p = float(rng.uniform(.1, .9))
    lab = which in ("nn", "nid", "nb")

    def t(*shape):
        return pt.tensor(rng.normal(size=shape), dtype=pt.float32)

    def labels():
        return pt.tensor(rng.choice([-1., 1.], size=(m, e)), dtype=pt.float32) if lab else None
    x, cx, y, cy = t(m, d), t(m, d), labels(), labels()
    s = c09.make_cov_sampler(which, x, y, kw, lkw, p, 3)
    if rng.random() < .4:
        x, y = t(m, d), labels()
        s.reset_mean(x, y)
        mon.saw("after_reset")
    z = x + t(n, m, d)
    zy = None
    if which == "nn":
        zy = y + t(n, m, e)
    elif which == "nid":
        zy = y.expand(n, m, e).clone()
        cy = y.clone()
    elif which == "nb":
        zy = pt.tensor(rng.choice([-1., 1.], size=(n, m, e)), dtype=pt.float32)
    mon.saw("covariance")
    if lab:
        mon.saw("labelled")
    if which == "nb":
        # discrete labels: compare differences between queries, insensitive to the base measure
        mon.saw("switch_labels")
        with mon.under_test("log-density"):
            lp = ref.np64(s.log_prob(z, zy)).reshape(n, m)
            lr = ref.np64(s.log_prob_recentered(cx[None], cy[None], z, zy)).reshape(n, m)
        for got, c, k, what in ((lp, x, y, "log-density"), (lr, cx, cy, "recentred log-density")):
            keep = ref.np64(zy * k).reshape(n, m) > 0
            base = multi(z, c, C)
            options = []
            for q in (p, 1 - p):
                w = base + np.where(keep, math.log(q), math.log(1 - q))
                r = got - w
                options.append(float(np.abs(r - r.mean()).max()))
            mon.check(min(options) < 1e-3 * (1 + float(np.abs(base).max())),
                      what + " of switched labels", gap=min(options), p=p)
        mon.saw("densities", n * m)
    else:
        def dens(c, k):
            v = multi(z, c, C)
            return v + multi(zy, k, CL) if which == "nn" else v
        cond = max(np.linalg.cond(C), np.linalg.cond(CL))
        compare(mon, s, x, y, z, zy, cx, cy, lambda: dens(x, y), lambda: dens(cx, cy),
                2e-5 * (1 + cond), which)
    mon.nontrivial(which, case["how"], n, m, d, float(z.double().sum()))


def double_sigma(case, mon, rng):
    """Double-precision data with a scalar scale."""
    which = case["which"]
    m, d = 3, 2
    lab = which in ("nn", "nid", "nb")
    x = pt.tensor(rng.normal(size=(m, d)))
    y = pt.tensor(rng.choice([-1., 1.], size=(m, 1))) if lab else None
    s = c09.make_cov_sampler(which, x, y, {"sigma": .5}, {"l_sigma": .5}, .5, 3)
    z, zy = s.sample(2)
    zy = None if zy is None else zy.to(x)
    try:
        lp = s.log_prob(z.to(x), zy)
    except RuntimeError as e:
        mon.check(False, "covariance sampler with a scalar scale has no log-density for double "
                  "precision data", sampler=which, message=str(e)[:200])
        return
    mon.check(tuple(lp.shape) == (2, m, 1), "shape of the log-density", got=tuple(lp.shape))


def run(case, mon, rng):
    {"cost": cost_case, "cov": cov_case, "double_sigma": double_sigma}[case["kind"]](
        case, mon, rng)
