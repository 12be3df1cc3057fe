"""C35: the container and memory layout of the data do not matter (metamorphic monitor)."""
import numpy as np

from vp import est
from vp.core import Skip
from vp.watch import Watch

RULE = ("the same data, exactly representable in single precision and as integers where needed, "
        "are handed over as lists, tuples, data frames, other orders, strides, views, types and "
        "read-only arrays; the data and first value of the objective and the answers of the "
        "fitted estimator must be those obtained with a plain array; non-trivial when two "
        "containers were compared")
SHAPES = ["list", "tuple", "frame", "fortran", "strided", "reversed", "columns", "single", "half",
          "integer", "small_integer", "object", "read_only", "matrix_like", "column_labels"]
REQUIRED = ["fit_" + s for s in SHAPES] + ["ask_" + s for s in SHAPES if s != "column_labels"] + [
    "objective_data", "bitwise"] + ["est_%s_%s" % (k, s) for k in est.KINDS
                                    for s in est.SOLVERS[k]]
MAX_SKIPPED = .3
ROUNDING = ("fortran", "frame", "columns", "matrix_like")   # other memory order, other summation


class Like:
    """An array-like that only offers the array protocol."""

    def __init__(self, a):
        self.a = a
        self.shape = a.shape

    def __len__(self):
        return len(self.a)

    def __array__(self, dtype=None, copy=None):
        return np.array(self.a, dtype=dtype)


def cases(tier, seed):
    n = 1 if tier == "quick" else 8
    return [{"est": k, "solver": s, "shape": c} for _ in range(n) for k in est.KINDS
            for s in est.SOLVERS[k] for c in SHAPES
            if c != "column_labels" or k in ("logistic", "linreg", "weber")]


def wrap(shape, X, y):
    """The same numbers in another container; y stays an array unless said otherwise."""
    if shape in ("list", "tuple"):
        f = list if shape == "list" else tuple
        return f(f(r) for r in X.tolist()), y if y is None else f(y.tolist())
    if shape == "frame":
        import pandas as pd
        return pd.DataFrame(X, columns=["c%d" % k for k in range(X.shape[1])]), \
            y if y is None else pd.Series(y)
    if shape == "fortran":
        return np.asfortranarray(X), y
    if shape == "strided":
        return np.repeat(X, 3, axis=0)[::3], y if y is None else np.repeat(y, 2)[::2]
    if shape == "reversed":
        return X[::-1].copy()[::-1], y if y is None else y[::-1].copy()[::-1]
    if shape == "columns":
        return np.repeat(X, 2, axis=1)[:, ::2], y
    if shape in ("single", "half", "integer", "small_integer", "object"):
        t = {"single": np.float32, "half": np.float16, "integer": np.int64,
             "small_integer": np.int8, "object": object}[shape]
        return X.astype(t), y
    if shape == "read_only":
        X, y = X.copy(), None if y is None else y.copy()
        X.flags.writeable = False
        if y is not None:
            y.flags.writeable = False
        return X, y
    if shape == "matrix_like":
        return Like(X), y
    return X, y.reshape(-1, 1)


def observe(kind, o, X, y, mon, what):
    seen = {}

    def first(watch, mod, ev, out):
        if "x" not in seen:
            seen["x"] = ev["x"].double().numpy()
            seen["value"] = np.asarray(ev["value"].double())
    e = est.make(kind, **o)
    with Watch(keep_points=True, on_eval=first):
        with mon.under_test("fitting on " + what):
            try:
                est.fit(e, X, y)
            except RuntimeError as err:
                if "overflow" in str(err):
                    raise Skip("the optimizer overflowed")
                raise
    return e, seen


def answers(kind, e, P, q, mon, what):
    out = {}
    with mon.under_test("asking with " + what):
        if hasattr(e, "predict"):
            out["predict"] = np.asarray(e.predict(P))
        if hasattr(e, "predict_proba"):
            out["predict_proba"] = np.asarray(e.predict_proba(P))
        if hasattr(e, "eval"):
            out["eval"] = np.asarray(e.eval(P, q) if kind == "weber" else e.eval(P))
        if kind != "logistic":
            out["score"] = np.asarray(e.score(P, q) if kind == "linreg" else e.score(P))
    return out


def run(case, mon, rng):
    kind, solver, shape = case["est"], case["solver"], case["shape"]
    classes = 3 if kind == "logistic" and solver != "dedicated" and rng.random() < .3 else 2
    X, y = est.data(kind, rng, m=int(rng.integers(5, 13)), classes=classes,
                    d=1 if kind == "newsvendor" else None)
    X = np.clip(np.round(X * 3.), -60., 60.)
    if kind != "logistic" and y is not None:
        y = np.round(y * 8.) / 8. + .125
    o = est.random_options(kind, rng, solver)
    info = dict(est=kind, solver=solver, container=shape, options={k: str(v) for k, v in o.items()})
    a, sa = observe(kind, o, X, y, mon, "an array")
    wx, wy = wrap(shape, X, y)
    b, sb = observe(kind, o, wx, wy, mon, shape)
    if sa:
        if mon.check(bool(sb), "no objective was evaluated", **info):
            mon.close(sb["x"], sa["x"], 0., "the objective is given other data", **info)
            size = 1. + np.abs(sa["value"]).max()
            mon.close(sb["value"], sa["value"], 1e-4 * size if np.isfinite(size) else 0.,
                      "the objective starts elsewhere", **info)
            mon.saw("objective_data")
    if not np.all(np.isfinite(np.asarray(a.coef_, float))):
        raise Skip("the fit diverged")
    ca, cb = (np.asarray(e.coef_, dtype=float).reshape(-1) for e in (a, b))
    if solver == "dedicated":
        mon.close(cb, ca, 1e-5 * (1. + np.abs(ca).max()), "the container changes the fit", **info)
    elif shape not in ROUNDING:
        mon.check(np.array_equal(ca, cb), "the container changes the fit", got=cb, want=ca, **info)
        mon.saw("bitwise")
    else:
        mon.check(ca.shape == cb.shape, "the container changes the shape of the fit", **info)
    mon.saw("fit_" + shape)
    if shape != "column_labels":
        P, q = est.data(kind, rng, m=int(rng.integers(1, 7)) if kind != "linreg" else 5,
                        d=X.shape[1])
        P = np.clip(np.round(P * 3.), -60., 60.)
        wp, wq = wrap(shape, P, q)
        r, s = answers(kind, a, P, q, mon, "an array"), answers(kind, a, wp, wq, mon, shape)
        for k in r:
            if r[k].dtype.kind in "fc" and k != "predict" or kind == "linreg":
                size = 1. + float(np.abs(r[k]).max())
                tol = 1e-5 * size * (1. + np.abs(ca).max() * 200.) \
                    if k != "predict_proba" else 1e-4 * (1. + np.abs(ca).max())
                if shape == "half":
                    # the answer may be worked out in the precision of the data
                    tol = max(tol, 1e-2 * size * (1. + np.abs(ca).sum()) * (1. + np.abs(P).max()))
                mon.close(s[k], r[k], tol, "the container changes an answer", method=k, **info)
            else:
                p = a.predict_proba(P)
                top = np.sort(p, axis=1)
                sure = top[:, -1] - top[:, -2] > (1e-3 if shape != "half" else .2)
                mon.check(r[k].shape == s[k].shape and np.array_equal(r[k][sure], s[k][sure]),
                          "the container changes an answer", method=k, **info)
        mon.saw("ask_" + shape)
    mon.saw("est_%s_%s" % (kind, solver))
    mon.nontrivial(kind, solver, shape, X, ca)
