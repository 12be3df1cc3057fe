"""C23: robust classifier predictions are consistent (reference model of the decision rule)."""
import numpy as np
from scipy.special import expit, softmax

from vp import est
from vp.core import Skip

RULE = ("classifiers are fitted on binary and multiclass data with many label types, feature "
        "counts, solvers and intercept settings; probabilities and predictions are recomputed "
        "from the public coefficients, and a twin is fitted on renamed labels; non-trivial when "
        "the predictions of a fitted classifier were judged")
REQUIRED = ["binary", "multiclass", "renamed", "strings", "negative", "booleans", "no_intercept",
            "one_feature", "origin", "dedicated", "separated", "refused", "pointwise", "score",
            "both_classes", "integers", "floats", "shuffled_columns",
            "near_boundary", "many_classes"]
MAX_SKIPPED = .3

NAMES2 = {"integers": [0, 1], "negative": [-1, 1], "strings": ["cat", "dog"],
          "booleans": [False, True], "floats": [1., 4.], "integers2": [3, 11],
          "strings2": ["Zebra", "apple"], "negative2": [-7, -2]}
NAMES3 = {"integers": [0, 1, 2], "negative": [-3, 0, 5], "strings": ["a", "bb", "c"],
          "floats": [-1., 0., 1.], "strings2": ["10", "2", "3"], "integers2": [1, 2, 4]}


def cases(tier, seed):
    n = 84 if tier == "quick" else 840
    out = []
    for k in range(n):
        s = est.SOLVERS["logistic"][k % 4]
        out.append({"kind": "fit", "solver": s,
                    "classes": 2 if s == "dedicated" or (k // 4) % 3 else [3, 4, 8, 11][k // 12 % 4]})
    out += [{"kind": "separated", "solver": est.SOLVERS["logistic"][k % 4], "cost": 3,
             "classes": 2 if k % 8 < 4 or k % 4 == 3 else 3} for k in range(n // 5)]
    out += [{"kind": "refuse"}] * 2
    return out


def naming(rng, classes, mon):
    table = NAMES2 if classes == 2 else NAMES3
    key = str(rng.choice(sorted(table)))
    names = np.array(table[key] if classes <= 3 else np.sort(rng.choice(20, classes, False)))
    mon.saw(key.rstrip("2") if classes <= 3 else "integers")
    return names


def judge(mon, e, X, names, icpt, d, classes, exact):
    K = classes
    P = np.asarray(e.predict_proba(X))
    if not np.isfinite(np.asarray(e.coef_)).all():
        raise Skip("diverged")
    n = len(X)
    if not mon.check(P.shape == (n, K), "the probabilities are not a row per point",
                     got=P.shape, want=(n, K)):
        return None
    mon.check((P >= 0).all() and (P <= 1).all(), "a probability is outside [0, 1]")
    mon.close(P.sum(axis=1), np.ones(n), 1e-5, "the probabilities of a point do not sum to one")
    mon.check(np.array_equal(np.asarray(e.classes_), names), "the classes are not the labels",
              got=list(e.classes_), want=list(names))
    coef = np.asarray(e.coef_, float)
    want_shape = (d,) if K == 2 else (K, d)
    if not mon.check(coef.shape == want_shape, "the coefficients have an unexpected shape",
                     got=coef.shape, want=want_shape):
        return None
    b = 0. if e.intercept_ is None else np.asarray(e.intercept_, float)
    if not icpt:
        mon.check(np.all(b == 0.), "there is an intercept although none was asked for", got=b)
    if K == 2:
        z = X @ coef + b
        want = np.stack([expit(-z), expit(z)], axis=1)
        with mon.under_test("the probability of the second class"):
            P1 = np.asarray(e.predict_proba_2Class(X))
        mon.close(P1, expit(z), 1e-5, "the probability of the second class is off")
    else:
        z = X @ coef.T + b
        want = softmax(z, axis=1)
    size = 1. + np.abs(coef).max() * (1. + np.abs(X).max()) + np.abs(b).max()
    mon.close(P, want, 1e-5 if exact else 4e-6 * size,
              "the probabilities do not follow from the coefficients", classes=K)
    out = np.asarray(e.predict(X))
    if not mon.check(out.shape == (n,), "the predictions are not one label per point",
                     got=out.shape):
        return None
    srt = np.sort(P, axis=1)
    clear = srt[:, -1] - srt[:, -2] > (3e-6 * size if K == 2 else 1e-4)
    if K == 2 and (clear & (srt[:, -1] < .501)).any():
        mon.saw("near_boundary")
    top = names[np.argmax(P, axis=1)]
    mon.check(np.array_equal(out[clear], top[clear]),
              "the predicted class is not the most probable one", classes=K,
              off=int((out[clear] != top[clear]).sum()), judged=int(clear.sum()))
    mon.check(np.isin(out, names).all(), "a prediction is not one of the labels",
              labels=list(names), got=list(out[:5]))
    mon.check(out.dtype.kind == names.dtype.kind, "the predictions have another type",
              got=str(out.dtype), want=str(names.dtype))
    if len(set(out.tolist())) > 1:
        mon.saw("both_classes")
    return P, out


def boundary(e, K, d, rng):
    """Points just on either side of the decision boundary of a binary classifier."""
    if K != 2 or not np.abs(np.asarray(e.coef_)).max() > 1e-3:
        return np.zeros((0, d))
    w = np.asarray(e.coef_, float).reshape(-1)
    b = 0. if e.intercept_ is None else float(np.ravel(e.intercept_)[0])
    x = rng.normal(size=(12, d))
    off = rng.choice([-1., 1.], size=12) * 10. ** rng.uniform(-4, -2.5, size=12)
    return x - ((x @ w + b - off) / (w @ w))[:, None] * w


def run(case, mon, rng):
    if case["kind"] == "refuse":
        X, y = est.data("logistic", rng, classes=3)
        mon.raises(lambda: est.make("logistic", solver="dedicated").fit(X, y),
                   "the dedicated solver accepts three classes", types=(NotImplementedError,))
        mon.raises(lambda: est.make("logistic", solver="entropic_torch", n_iter=3).fit(
            X, np.zeros(len(X))), "a single class is accepted", types=(ValueError,))
        mon.raises(lambda: est.make("logistic", solver="no such solver").fit(
            X, y), "an unknown solver is accepted", types=(NotImplementedError,))
        mon.saw("refused")
        return
    K, solver = case["classes"], case["solver"]
    d = int(rng.integers(1, 6))
    names = naming(rng, K, mon)
    icpt = bool(rng.random() < .6)
    if case["kind"] == "separated":
        d, icpt = 2, False
        m = 30
        codes = np.arange(m) % K
        rng.shuffle(codes)
        ang = 2 * np.pi * np.arange(K) / K + rng.uniform(0, 6)
        X = 3. * np.c_[np.cos(ang), np.sin(ang)][codes] + .3 * rng.normal(size=(m, 2))
        o = {"rho": 1e-3, "solver": solver, "fit_intercept": False}
        if solver != "dedicated":
            o["n_iter"] = (50, 250)
    else:
        m = int(rng.integers(max(8, 2 * K), 40))
        X, codes = est.data("logistic", rng, m=m, d=d, classes=K)
        codes = (codes > 0).astype(int) if K == 2 else codes
        o = est.random_options("logistic", rng, solver)
        o["fit_intercept"] = icpt
    if d == 1:
        mon.saw("one_feature")
    y = names[codes]
    e = est.make("logistic", **o)
    try:
        with mon.under_test("fitting a classifier"):
            e.fit(X, y)
    except RuntimeError as err:
        if "overflow" in str(err):
            raise Skip("the optimizer overflowed")
        raise
    if not np.isfinite(np.asarray(e.coef_)).all():
        raise Skip("diverged")
    T = np.concatenate([X, rng.normal(size=(20, d)) * 3., boundary(e, K, d, rng)])
    with mon.under_test("predicting"):
        got = judge(mon, e, T, names, icpt, d, K, K == 2)
    if got is None:
        return
    P, out = got
    mon.saw("binary" if K == 2 else "multiclass")
    if K > 6:
        mon.saw("many_classes")
    if solver == "dedicated":
        mon.saw("dedicated")
    # one point at a time, and in another order
    k = int(rng.integers(len(T)))
    with mon.under_test("predicting one point"):
        mon.close(np.asarray(e.predict_proba(T[k:k + 1]))[0], P[k], 1e-5,
                  "the prediction of a point depends on the other points")
        mon.check(np.asarray(e.predict(T[k:k + 1]))[0] == out[k] or abs(P[k].max() - .5) < 1e-4,
                  "the prediction of a point depends on the other points")
    perm = rng.permutation(len(T))
    mon.close(np.asarray(e.predict_proba(T[perm])), P[perm], 1e-5,
              "the prediction of a point depends on the order of the points")
    mon.saw("pointwise")
    mon.close(e.score(X, y), np.mean(np.asarray(e.predict(X)) == y), 1e-12,
              "the score is not the accuracy")
    mon.saw("score")
    if not icpt:
        mon.saw("no_intercept")
        P0 = np.asarray(e.predict_proba(np.zeros((1, d))))
        mon.close(P0, np.full((1, K), 1. / K), 1e-6, "the origin is decided without intercept")
        mon.saw("origin")
    if case["kind"] == "separated":
        if np.abs(np.asarray(e.coef_)).max() > 1e3:
            raise Skip("diverged")
        acc = np.mean(np.asarray(e.predict(X)) == y)
        mon.check(acc >= .9, "well separated training points are not recognised", accuracy=acc,
                  solver=solver, classes=K)
        mon.saw("separated")
    else:
        other = naming(rng, K, mon)
        e2 = est.make("logistic", **o)
        with mon.under_test("fitting on renamed labels"):
            e2.fit(X, other[codes])
            P2, out2 = np.asarray(e2.predict_proba(T)), np.asarray(e2.predict(T))
        tol = 1e-9 if solver != "dedicated" else 1e-6
        mon.close(P2, P, tol, "renaming the labels changes the probabilities",
                  labels=list(names), other=list(other), solver=solver)
        sure = np.abs(np.sort(P, axis=1)[:, -1] - np.sort(P, axis=1)[:, -2]) > 1e-4
        mon.check(np.array_equal(np.searchsorted(other, out2[sure]),
                                 np.searchsorted(names, out[sure])),
                  "renaming the labels does not rename the predictions",
                  labels=list(names), other=list(other))
        mon.saw("renamed")
        if solver == "dedicated" and d > 1:
            perm = rng.permutation(d)
            e3 = est.make("logistic", **o).fit(X[:, perm], y)
            # the solver stops at a tolerance that far points amplify: judged on the average
            gap = np.abs(np.asarray(e3.predict_proba(T[:, perm])) - P).mean()
            mon.check(gap <= 2e-2, "permuting the features changes the predictions", gap=gap)
            mon.saw("shuffled_columns")
    mon.nontrivial(case["kind"], solver, K, P[0])
