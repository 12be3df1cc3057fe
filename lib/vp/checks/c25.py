"""C25: decision estimators return feasible decisions and honest scores (reference model)."""
import math

import numpy as np

from vp import est
from vp.core import Skip

RULE = ("newsvendor, portfolio and location estimators are fitted with every solver, then "
        "evaluated and scored on other data; the value is recomputed from the public decision "
        "with the textbook loss; non-trivial when an evaluation was judged")
REQUIRED = ["evaluated", "scored", "simplex", "float32", "new_data", "single_row", "refused",
            "default_weights", "wide_demand"] + [
    "%s_%s" % (k, s) for k in ("newsvendor", "portfolio", "weber") for s in est.SOLVERS[k]]
MAX_SKIPPED = .4


def cases(tier, seed):
    n = 12 if tier == "quick" else 130
    return [{"kind": "fit", "est": e, "solver": s} for k in range(n)
            for e in ("newsvendor", "portfolio", "weber") for s in est.SOLVERS[e]] \
        + [{"kind": "refuse"}] * 2


def loss(kind, e, X, w):
    """Average textbook loss of the public decision, and a size for its rounding."""
    if kind == "newsvendor":
        t = float(np.ravel(e.coef_)[0])
        v = e.k * t - e.u * np.minimum(t, X)
        return v.mean(), 1. + abs(e.k * t) + abs(e.u) * (np.abs(X).max() + abs(t))
    if kind == "weber":
        dist = np.sqrt(((X - e.coef_) ** 2).sum(axis=1))
        return (w * dist).mean(), 1. + np.abs(w).max() * (np.abs(X).max() + np.abs(e.coef_).max())
    r = X @ np.ravel(e.coef_)
    tau = float(np.ravel(e.tau_)[0])
    v = -r + e.eta * (tau + np.maximum(-r - tau, 0.) / e.alpha)
    return v.mean(), 1. + (1. + e.eta / e.alpha) * (np.abs(X).max() + abs(tau))


def run(case, mon, rng):
    if case["kind"] == "refuse":
        for k in ("newsvendor", "portfolio", "weber"):
            X, y = est.data(k, rng)
            mon.raises(lambda: est.fit(est.make(k, solver="no such solver"), X, y),
                       "an unknown solver is accepted", types=(NotImplementedError,), est=k)
            mon.raises(lambda: est.make(k, rho=-.5), "a negative radius is accepted",
                       types=(ValueError,), est=k)
            mon.raises(lambda: est.fit(est.make(k, solver="entropic"), X, y),
                       "the withdrawn solver is accepted", types=(DeprecationWarning,), est=k)
            bad = X.copy()
            bad[0, 0] = np.nan
            mon.raises(lambda: est.fit(est.make(k, solver="entropic_torch", n_iter=3), bad, y),
                       "missing values are accepted", types=(ValueError,), est=k)
        for o in ({"eta": -1.}, {"alpha": 0.}, {"alpha": 1.5}, {"solver_reg": -1.},
                  {"n_zeta_samples": -1}):
            mon.raises(lambda: est.make("portfolio", **o), "an invalid risk option is accepted",
                       types=(ValueError,), option=str(o))
        mon.raises(lambda: est.make("portfolio", C=np.eye(7), d=np.ones(7)).fit(
            rng.normal(size=(5, 2))), "a support of another dimension is accepted",
            types=(ValueError,))
        mon.saw("refused")
        return
    kind, solver = case["est"], case["solver"]
    X, y = est.data(kind, rng)
    if kind == "newsvendor" and rng.random() < .2:
        X = np.abs(X + rng.normal(size=(len(X), 3)) * .1)
        mon.saw("wide_demand")
    o = est.random_options(kind, rng, solver)
    if kind == "newsvendor":
        o["k"], o["u"] = float(rng.choice([1., 5.])), float(rng.choice([4., 7., 9.]))
    if kind == "portfolio" and rng.random() < .5:
        o["alpha"] = float(10. ** rng.uniform(-2.5, 0.))
    e = est.make(kind, **o)
    with mon.under_test("fitting"):
        try:
            est.fit(e, X, y)
        except RuntimeError as err:
            if "overflow" in str(err):
                raise Skip("the optimizer overflowed")
            raise
    c = np.asarray(e.coef_, float)
    if not (np.abs(c) < 1e6).all():
        raise Skip("diverged")
    if kind == "portfolio":
        if not mon.check(c.shape == (X.shape[1],) or c.shape == (1, X.shape[1]),
                         "there is not one weight per asset", got=c.shape, solver=solver):
            return
        mon.check((c >= -1e-6).all(), "a portfolio weight is negative", got=c)
        mon.close(c.sum(), 1., 1e-5, "the portfolio weights do not sum to one", got=c)
        mon.saw("simplex")
    elif kind == "weber":
        if not mon.check(c.shape == (2,), "the location does not have the problem's dimension",
                         got=c.shape):
            return
    else:
        mon.check(c.size == 1, "the order is not one number", got=c.shape)
    lam = np.asarray(e.dual_var_, float)
    mon.check(lam.size == 1 and np.isfinite(lam).all() and (lam >= -1e-7).all(),
              "the dual variable is not a non-negative number", got=lam)
    for how in ("train", "new", "single", "float32"):
        if how == "train":
            T, w = X, y
        else:
            T, w = est.data(kind, rng, m=1 if how == "single" else int(rng.integers(2, 30)),
                            d=X.shape[1])
            if kind == "newsvendor":
                T = T * np.ones((1, X.shape[1]))
            mon.saw({"single": "single_row", "float32": "float32"}.get(how, "new_data"))
        if how == "float32":
            T = T.astype(np.float32)
            w = None if w is None else w.astype(np.float32)
        args = (T,) if kind != "weber" else (T, w)
        if kind == "weber" and rng.random() < .4:
            args, w = (T,), np.ones(len(T))
            mon.saw("default_weights")
        if kind == "newsvendor" and T.shape[1] > 1:
            # the entropic estimators evaluate each demand, the dedicated one too
            pass
        with mon.under_test("evaluating"):
            v = e.eval(*args)
            s = e.score(*args)
        mon.check(isinstance(v, (float, np.floating)) and math.isfinite(v),
                  "the evaluation is not a finite plain number", got=str(type(v)), est=kind,
                  solver=solver)
        want, size = loss(kind, e, T.astype(float), None if w is None else w.astype(float))
        mon.close(v, want, 2e-5 * size, "the evaluation is not the average loss of the decision",
                  est=kind, solver=solver, how=how)
        mon.saw("evaluated")
        mon.check(s == -v, "the score is not minus the evaluation", score=s, value=v)
        mon.saw("scored")
    mon.saw("%s_%s" % (kind, solver))
    mon.nontrivial(kind, solver, c)
