"""C06: samples are redrawn around the current batch, or kept, as configured."""
import numpy as np
import torch as pt

from vp import gen, ref

RULE = ("random histories of batches of changing sizes placed far apart; an observer in the loss "
        "records the samples of every evaluation and checks their count, their centre and their "
        "spread against the batch just given; pre-sampled histories mix given and omitted samples "
        "and are compared with the reference value on the samples given last; non-trivial when "
        "the history has at least two different batches")
REQUIRED = ["post_batches", "post_values", "size_changes", "repeated_batches", "pre_given", "pre_reused",
            "pre_refused", "count_changes", "labelled"]


def cases(tier, seed):
    n = 160 if tier == "quick" else 1600
    return [{"kind": ["post", "pre"][k % 2]} for k in range(n)]


def run(case, mon, rng):
    dtype = pt.float64
    d = int(rng.integers(1, 5))
    names = ["mse", "mse3", "huber", "mlp", "ce", "functional", "quadpoint", "logcosh"]
    problem = gen.Problem(str(rng.choice(names)), d, rng).to(dtype)
    code = str(rng.choice(gen.CODES_PLAIN + (gen.CODES_LABEL[:5] if problem.labels else [])))
    spec = ref.parse(code, problem.labels)
    n = gen.size(rng, 1, 9, 200, .05)
    sigma, rho = gen.dyadic(rng, .01, .2), gen.dyadic(rng, .01, 1.)
    lam, eps = gen.dyadic(rng, .1, 3.), gen.dyadic(rng, .05, 1.)
    history = []
    for k in range(int(rng.integers(2, 6))):
        m = gen.size(rng, 1, 8, 150, .05)
        x = rng.normal(size=(m, d)) + 1000. * (k + 1) * rng.choice([-1., 1.])
        y = problem.make_labels(rng, m)
        history.append((gen.tens(x, dtype), gen.tens(y, dtype)))
    x0, y0 = history[0]
    post = case["kind"] == "post"
    imp = bool(rng.random() < .3)
    model = gen.robust(problem, pt.tensor(rho, dtype=dtype), x0, y0, post_sample=post,
                       cost_spec=code, n_samples=n, seed=int(rng.integers(1000)), epsilon=eps,
                       sigma=sigma, imp_samp=imp and post, n_iter=(1, 2))
    gen.fill_lambda(model, lam)
    translated = imp and spec[1:3] == (2., 2.)
    if problem.labels:
        mon.saw("labelled")
    params, f = problem.reference()

    def want(xi, yi, z, zy):
        nn, m = z.shape[:2]
        with pt.no_grad():
            L = f(z.reshape(-1, d), None if zy is None else zy.reshape(nn * m, -1)).reshape(nn, m)
            C = ref.cost(spec, xi[None], z, None if yi is None else yi[None], zy)
            t = lam * rho ** spec[1]
            return float(t + ref.dual_terms(L, C, lam, eps).mean()), \
                ref.budget(L, C, lam, eps, t, False) + 1e-13 * problem.magnitude(z, zy)
    if post:
        values = {}
        visits = [int(rng.integers(len(history))) for _ in range(7)] + [0, len(history) - 1]
        last_m = None
        for k in visits:
            xi, yi = history[k]
            m = xi.shape[0]
            if rng.random() < .15:
                n = int(rng.integers(1, 9))
                model.n_samples = n
                values = {}
                mon.saw("count_changes")
            problem.rec.clear()
            with mon.under_test("evaluating on another batch"):
                v = float(model(xi, yi).detach())
            mon.saw("post_batches")
            if last_m is not None and last_m != m:
                mon.saw("size_changes")
            last_m = m
            z, zy = problem.seen()
            if not mon.check(z is not None and z.shape[0] == n * m,
                             "number of samples differs from the configured one",
                             got=None if z is None else z.shape[0], n=n, m=m):
                return
            z = z.reshape(n, m, d)
            if not translated:
                gap = (z - xi).abs()
                mon.check(float(gap.max()) <= 45 * sigma,
                          "samples are not centred on the current batch", code=code,
                          gap=float(gap.max()), sigma=sigma)
                mon.check(float(gap.max()) > 0., "samples coincide with the batch", code=code)
                if problem.labels:
                    lgap = float((zy.reshape(n, m, -1) - yi).abs().max())
                    scale = 0. if spec[0] == "NC" else (
                        sigma if spec[1] == 2 else sigma / spec[3])
                    mon.check(lgap <= 45 * scale,
                              "label samples are not centred on the current labels", code=code,
                              gap=lgap, scale=scale)
                w, tol = want(xi, yi, z, zy if zy is None else zy.reshape(n, m, -1))
                mon.close(v, w, tol, "value is not that of the samples drawn for the batch",
                          code=code)
                mon.saw("post_values")
            if k in values:
                mon.saw("repeated_batches")
                mon.close(v, values[k], 1e-12 * (1 + abs(values[k])),
                          "re-evaluating a batch with a fixed seed changes the value", code=code)
            values[k] = v
        mon.nontrivial(problem.name, code, visits, list(values.values()))
        return
    xi, yi = history[-1]
    mon.raises(lambda: model(xi, yi), "a pre-sampled model without samples was evaluated",
               types=(ValueError,))
    mon.saw("pre_refused")
    stored = None
    seen = []
    for _ in range(8):
        give = stored is None or rng.random() < .45
        if give:
            xi, yi = history[int(rng.integers(len(history)))]
            k = int(rng.integers(1, 9))
            z, zy = gen.draw_around(rng, spec[0], ref.np64(xi),
                                    None if yi is None else ref.np64(yi), k, sigma)
            stored = (xi, yi, gen.tens(z, dtype), gen.tens(zy, dtype))
            with mon.under_test("evaluating on given samples"):
                v = model(xi, yi, stored[2], stored[3])
            mon.saw("pre_given")
        else:
            with mon.under_test("evaluating on the stored samples"):
                v = model(stored[0], stored[1])
            mon.saw("pre_reused")
        w, tol = want(*stored)
        mon.close(float(v.detach()), w, tol,
                  "value is not that of the samples given last", code=code, given=give)
        kept = model.current_samples
        mon.check(kept[0] is not None and pt.equal(kept[0], stored[2]),
                  "the stored samples are not those given last")
        seen.append(round(w, 6))
    mon.nontrivial(problem.name, code, seen)
