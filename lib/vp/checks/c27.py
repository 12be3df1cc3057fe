"""C27: solver results map positions to names consistently (reference model)."""
import numpy as np

RULE = ("functions returning random tuples, mappings, results and invalid objects are wrapped "
        "and called, also nested and interleaved; fields and unpacking are compared with the "
        "legacy return; non-trivial when a result was compared")
REQUIRED = ["one", "two", "three", "four", "mapping", "passed_through", "refused", "unpacked",
            "no_shared_state", "extra_names", "arguments", "direct", "solvers"]
FIELDS = ("coef", "intercept", "dual_var", "robust_loss")
ORDER = {1: ("coef",), 2: ("coef", "dual_var"), 3: ("coef", "intercept", "dual_var"),
         4: ("coef", "intercept", "dual_var", "robust_loss")}


def cases(tier, seed):
    n = 60 if tier == "quick" else 800
    return [{"kind": ["tuple", "mapping", "through", "invalid", "direct"][k % 5]}
            for k in range(n)] + [{"kind": "solvers"}] * 4


def value(rng):
    return [lambda: rng.normal(size=int(rng.integers(1, 5))), lambda: float(rng.normal()),
            lambda: None, lambda: (1, 2), lambda: 0., lambda: np.zeros((2, 2)),
            lambda: "text"][int(rng.integers(7))]()


def run(case, mon, rng):
    from skwdro.solvers.result import SolverResult, wrap_solver_result
    kind = case["kind"]
    if kind == "tuple":
        kept = []
        for _ in range(6):
            n = int(rng.integers(1, 5))
            legacy = tuple(value(rng) for _ in range(n))
            calls = []

            def solver(*args, **kwargs):
                "doc text"
                calls.append((args, kwargs))
                return legacy
            w = wrap_solver_result(solver)
            mon.check(w.__name__ == "solver" and w.__doc__ == "doc text",
                      "the wrapped solver lost its name or text")
            marker = object()
            with mon.under_test("a wrapped solver"):
                r = w(1, marker, key=marker)
            mon.check(calls == [((1, marker), {"key": marker})],
                      "the arguments did not reach the solver")
            mon.saw("arguments")
            mon.check(isinstance(r, SolverResult), "the result is not a result object")
            for f in FIELDS:
                want = legacy[ORDER[n].index(f)] if f in ORDER[n] else None
                mon.check(getattr(r, f) is want, "a position reached the wrong name", field=f,
                          entries=n)
            kept.append((r, legacy))
            mon.saw(["one", "two", "three", "four"][n - 1])
        for r, legacy in kept:
            for _ in range(2):
                got = tuple(r)
                mon.check(len(got) == len(legacy) and all(a is b for a, b in zip(got, legacy)),
                          "unpacking differs from the legacy return", want=len(legacy),
                          got=len(got))
                mon.saw("unpacked")
        mon.saw("no_shared_state")
        mon.nontrivial(kind, [len(x) for _, x in kept])
    elif kind == "mapping":
        names = list(rng.permutation(["coef", "intercept", "dual_var", "robust_loss", "tau",
                                      "extra"]))[:int(rng.integers(1, 7))]
        names = [str(x) for x in names]
        legacy = {k: value(rng) for k in names}
        with mon.under_test("a wrapped solver"):
            r = wrap_solver_result(lambda: dict(legacy))()
        for k, v in legacy.items():
            mon.check(getattr(r, k) is v, "a mapping lost a name", field=k)
        for f in FIELDS:
            if f not in legacy:
                mon.check(getattr(r, f) is None, "an absent field has a value", field=f)
        if set(names) - set(FIELDS):
            mon.saw("extra_names")
        got = tuple(r)
        mon.check(len(got) == len(names) and all(a is legacy[k] for a, k in zip(got, names)),
                  "unpacking a mapping does not follow its order")
        mon.saw("mapping")
        mon.nontrivial(kind, names)
    elif kind == "through":
        inner = SolverResult(coef=value(rng), dual_var=value(rng))
        with mon.under_test("a wrapped solver"):
            r = wrap_solver_result(wrap_solver_result(lambda: inner))()
        mon.check(r is inner, "a result is not passed through unchanged")
        legacy = tuple(value(rng) for _ in range(int(rng.integers(2, 5))))
        once = wrap_solver_result(lambda: legacy)
        r1, r2 = once(), wrap_solver_result(once)()
        mon.check(all(a is b for a, b in zip(r1, r2)) and len(tuple(r1)) == len(tuple(r2)),
                  "wrapping twice changes the result")
        mon.check(r1 is not r2, "two calls share a result")
        r1.coef = "changed"
        mon.check(r2.coef is legacy[0], "results of different calls share state")
        mon.saw("passed_through")
        mon.nontrivial(kind, len(legacy))
    elif kind == "invalid":
        for bad in (None, [1., 2.], 3., "text", np.zeros(3), {1, 2}, object()):
            mon.raises(lambda: wrap_solver_result(lambda: bad)(),
                       "an invalid return is accepted",
                       returned=str(type(bad)))
        for bad in ((), tuple(range(5)), tuple(range(9))):
            mon.raises(lambda: wrap_solver_result(lambda: bad)(),
                       "a tuple of the wrong length is accepted", entries=len(bad))

        def failing():
            raise KeyError("inside")
        mon.raises(lambda: wrap_solver_result(failing)(), "the solver's error is hidden",
                   types=(KeyError,))
        mon.saw("refused")
        mon.nontrivial(kind)
    elif kind == "direct":
        a = SolverResult(coef=1, intercept=2, dual_var=3, robust_loss=4, extra=5)
        mon.check(tuple(a) == (1, 2, 3), "a plain result does not unpack to its first fields")
        mon.check(a.extra == 5 and a.robust_loss == 4, "a plain result lost a field")
        b = SolverResult()
        mon.check(tuple(b) == (None, None, None) and b.robust_loss is None,
                  "an empty result has values")
        c, d, e = SolverResult(coef="x", dual_var="z")
        mon.check((c, d, e) == ("x", None, "z"), "a partial result unpacks differently")
        mon.saw("direct")
        mon.nontrivial(kind)
    else:
        from skwdro.solvers import specific_solvers as sp
        X = rng.normal(size=(10, 2))
        y = np.where(X[:, 0] + rng.normal(size=10) > 0, 1., -1.)
        y[:2] = [1., -1.]
        with mon.under_test("a dedicated solver"):
            rs = [(sp.WDROLogisticSpecificSolver(rho=.1, X=X, y=y, fit_intercept=bool(k)), 4)
                  for k in range(2)]
            rs += [(sp.WDROLinRegSpecificSolver(rho=.1, X=X, y=y, fit_intercept=True), 3),
                   (sp.WDRONewsvendorSpecificSolver(rho=.1, samples=np.abs(X[:, :1])), 2),
                   (sp.WDROPortfolioSpecificSolver(C=np.zeros((1, 2)), d=np.zeros((1, 1)), m=2,
                                                   p=1, samples=X), 4)]
        for r, n in rs:
            got = tuple(r)
            mon.check(len(got) == n and all(a is getattr(r, f) for a, f in zip(got, ORDER[n])),
                      "a dedicated solver's result unpacks differently", want=n, got=len(got))
        mon.saw("solvers")
        mon.nontrivial(kind, X[0])
