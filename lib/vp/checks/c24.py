"""C24: robust regressor predictions are affine in the fitted coefficients (reference model)."""
import numpy as np

from vp import est, gen
from vp.core import Skip

RULE = ("regressors are fitted with every solver, feature counts from one, with and without "
        "intercept; predictions are recomputed from the public coefficients, point by point; "
        "non-trivial when the predictions of a fitted regressor were judged")
REQUIRED = ["predicted", "no_intercept", "with_intercept", "one_feature", "pointwise", "score",
            "clean_data", "float32", "refused"] + ["solver_" + s for s in est.SOLVERS["linreg"]]
MAX_SKIPPED = .3


def cases(tier, seed):
    n = 84 if tier == "quick" else 1000
    return [{"kind": "fit", "solver": est.SOLVERS["linreg"][k % 4]} for k in range(n)] + \
        [{"kind": "clean", "solver": est.SOLVERS["linreg"][k % 4], "cost": 9}
         for k in range(n // 10)] + [{"kind": "refuse"}] * 2


def clean(case, mon, rng):
    """Noiseless data at a tiny radius: the median fit explains most of the variance."""
    solver = case["solver"]
    scores = []
    for k in range(1 if solver == "dedicated" else 7):
        d, icpt = int(rng.integers(1, 4)), bool(rng.random() < .5)
        X = rng.normal(size=(30, d))
        b = rng.normal(size=d)
        b = b / np.linalg.norm(b) * rng.uniform(.5, 1.5)
        y = X @ b + (rng.uniform(-1., 1.) if icpt else 0.)
        o = {"rho": 1e-3, "solver": solver, "fit_intercept": icpt}
        if solver != "dedicated":
            o["n_iter"] = (100, 300)
        try:
            with mon.under_test("fitting a regressor"):
                try:
                    e = est.make("linreg", **o).fit(X, y)
                except RuntimeError as err:
                    if "overflow" not in str(err):
                        raise
                    raise Skip("overflow")
        except Skip:
            scores.append(-np.inf)
            continue
        ok = np.isfinite(np.asarray(e.coef_, float)).all()
        scores.append(e.score(X, y) if ok else -np.inf)
    if np.mean(np.isfinite(scores)) < .5:
        raise Skip("diverged")
    scores = [v for v in scores if np.isfinite(v)]
    mon.check(np.median(scores) >= .5, "noiseless data are not fitted at a tiny radius",
              scores=scores, solver=solver)
    mon.saw("clean_data")
    mon.nontrivial("clean", solver, scores)


def run(case, mon, rng):
    if case["kind"] == "refuse":
        X, y = est.data("linreg", rng)
        mon.raises(lambda: est.make("linreg", solver="no such solver").fit(X, y),
                   "an unknown solver is accepted", types=(NotImplementedError,))
        mon.raises(lambda: est.make("linreg", rho=-.1), "a negative radius is accepted",
                   types=(ValueError,))
        mon.raises(lambda: est.make("linreg", rho=.1).fit(X, y[:-1]),
                   "data of different lengths are accepted", types=(ValueError,))
        mon.raises(lambda: est.make("linreg").predict(X), "an unfitted regressor predicts",
                   types=(Exception,))
        mon.saw("refused")
        return
    solver = case["solver"]
    d = gen.size(rng, 1, 6, 30)
    icpt = bool(rng.random() < .5)
    if case["kind"] == "clean":
        return clean(case, mon, rng)
    X, y = est.data("linreg", rng, d=d)
    o = est.random_options("linreg", rng, solver)
    o["fit_intercept"] = icpt
    e = est.make("linreg", **o)
    with mon.under_test("fitting a regressor"):
        try:
            e.fit(X, y)
        except RuntimeError as err:
            if "overflow" in str(err):
                raise Skip("the optimizer overflowed")
            raise
    coef = np.asarray(e.coef_, float)
    if not np.isfinite(coef).all():
        raise Skip("diverged")
    if not mon.check(coef.shape == (d,), "there is not one coefficient per feature",
                     got=coef.shape, solver=solver):
        return
    b = np.asarray(e.intercept_, float)
    mon.check(b.size == 1, "the intercept is not one number", got=b.shape)
    b = float(b.ravel()[0])
    if icpt:
        mon.saw("with_intercept")
    else:
        mon.check(abs(b) <= (1e-6 if solver == "dedicated" else 0.) * (1. + np.abs(y).max()),
                  "there is an intercept although none was asked for", got=b, solver=solver)
        mon.saw("no_intercept")
    T = np.concatenate([X, rng.normal(size=(15, d)) * 5., np.zeros((1, d))])
    with mon.under_test("predicting"):
        out = np.asarray(e.predict(T))
    if not mon.check(out.shape == (len(T),), "the predictions are not one number per point",
                     got=out.shape, solver=solver):
        return
    tol = 1e-5 * (1. + np.abs(T).sum(axis=1) * np.abs(coef).max() + abs(b))
    mon.close(out, T @ coef + b, tol, "the predictions do not follow from the coefficients",
              solver=solver)
    mon.saw("predicted")
    k = int(rng.integers(len(T)))
    mon.close(np.asarray(e.predict(T[k:k + 1]))[0], out[k], tol[k],
              "the prediction of a point depends on the other points")
    mon.saw("pointwise")
    T32 = T.astype(np.float32)
    mon.close(np.asarray(e.predict(T32), float), T32.astype(float) @ coef + b, 10 * tol + 1e-4,
              "single-precision points are predicted differently")
    mon.saw("float32")
    res, tot = np.sum((y - e.predict(X)) ** 2), np.sum((y - y.mean()) ** 2)
    mon.close(e.score(X, y), 1. - res / tot, 1e-6 * (1. + res / tot),
              "the score is not the coefficient of determination")
    mon.saw("score")
    if d == 1:
        mon.saw("one_feature")
    mon.saw("solver_" + solver)
    mon.nontrivial(case["kind"], solver, coef)
