"""C13: wrapping a user loss preserves its per-point values (reference-model monitor)."""
import numpy as np
import torch as pt
import torch.nn as nn
import torch.nn.functional as F

from vp import gen, ref

RULE = ("random user losses and transforms (module and functional, labelled or not, several "
        "outputs, self-reducing) wrapped by the robust-model builder; values for points laid out "
        "along zero to three axes are compared point by point with the user's own modules in "
        "float64, and with permuted, split and repeated layouts; non-trivial when points differ")
REQUIRED = ["points", "axes_0", "axes_1", "axes_2", "axes_3", "permuted", "split", "repeated",
            "refused", "labelled", "unlabelled", "functional", "regularised", "float32", "listed_labels"]


def cases(tier, seed):
    n = 300 if tier == "quick" else 4000
    return [{"kind": "wrap", "axes": k % 4} for k in range(n)] + \
        [{"kind": "refuse"} for _ in range(n // 15)]


def refuse(mon, rng):
    from skwdro.torch import robustify
    d, m = 2, 4
    xi, yi = pt.randn(m, d), pt.randn(m, 1)
    red = str(rng.choice(["mean", "sum"]))
    mod = [nn.MSELoss, nn.L1Loss, nn.SmoothL1Loss, nn.BCEWithLogitsLoss, nn.SoftMarginLoss][
        int(rng.integers(5))](reduction=red)
    post = bool(rng.random() < .5)
    mon.raises(lambda: robustify(mod, nn.Linear(d, 1), pt.tensor(.1), xi, yi, post),
               "a loss with a reduction was accepted", loss=type(mod).__name__, red=red)
    mon.raises(lambda: robustify(3., nn.Linear(d, 1), pt.tensor(.1), xi, yi, post),
               "a loss that cannot be called was accepted")
    mon.saw("refused", 2)
    mon.nontrivial(type(mod).__name__, red, post)


def run(case, mon, rng):
    if case["kind"] == "refuse":
        return refuse(mon, rng)
    dtype = pt.float32 if rng.random() < .25 else pt.float64
    d = gen.size(rng, 1, 6, 60)
    name = str(rng.choice(gen.LABELLED + gen.UNLABELLED))
    problem = gen.Problem(name, d, rng, spy=bool(rng.random() < .5)).to(dtype)
    l2 = float(rng.choice([0., .5, 2.]))
    x0 = rng.normal(size=(3, d))
    y0 = problem.make_labels(rng, 3)
    if name == "functional_plain" and problem.transform is None:
        l2 = 0.
    model = gen.robust(problem, pt.tensor(.25, dtype=dtype), gen.tens(x0, dtype),
                       gen.tens(y0, dtype), l2reg=l2 or [None, 0.][int(rng.integers(2))],
                       post_sample=bool(rng.random() < .5), n_iter=(1, 2), n_samples=2)
    prim = model.primal_loss
    shape = tuple(gen.size(rng, 1, 6, 80, .05) for _ in range(case["axes"]))
    N = int(np.prod(shape)) if shape else 1
    pts = gen.tens(rng.normal(size=(N, d)) * float(rng.choice([1., 20.])), dtype)
    labs = gen.tens(problem.make_labels(rng, N), dtype)
    params, f = problem.reference()
    with pt.no_grad():
        want = f(gen.d64(pts), gen.d64(labs))
        if l2:
            want = want + .5 * l2 * sum((p ** 2).sum() for p in params)
    want = ref.np64(want)
    u = 1.2e-7 if dtype == pt.float32 else 2.3e-16
    tol = 200 * u * problem.magnitude(pts, labs) * (1 + l2)

    def call(p, q, shp):
        with mon.under_test("evaluating the primal loss"), pt.no_grad():
            a = p.reshape(shp + (d,))
            if q is None:
                return prim.value(a) if rng.random() < .5 else prim(a, None)
            b = q.reshape(shp + (q.shape[-1],))
            return prim.value(a, b) if rng.random() < .5 else prim(a, b)
    mon.saw("axes_%d" % case["axes"])
    mon.saw("labelled" if problem.labels else "unlabelled")
    if name.startswith("functional"):
        mon.saw("functional")
    if l2:
        mon.saw("regularised")
    if dtype == pt.float32:
        mon.saw("float32")
    v = call(pts, labs, shape)
    mon.saw("points", N)
    if case["axes"] >= 2:
        if not mon.check(tuple(v.shape) == shape + (1,), "shape of the wrapped loss",
                         got=tuple(v.shape), want=shape + (1,), problem=name):
            return
        mon.close(ref.np64(v).reshape(-1), want, tol, "value of the wrapped loss", problem=name,
                  shape=shape, l2=l2)
        if labs is not None:
            # labels may also come as a plain list
            with mon.under_test("evaluating the primal loss on listed labels"), pt.no_grad():
                vl = prim.value(pts.reshape(shape + (d,)), labs)
            mon.close(ref.np64(vl).reshape(-1), want, tol,
                      "value of the wrapped loss with listed labels", problem=name, shape=shape)
            mon.saw("listed_labels")
        # relayouts
        perm = rng.permutation(N)
        vp = call(pts[perm], None if labs is None else labs[perm], shape)
        mon.close(ref.np64(vp).reshape(-1), ref.np64(v).reshape(-1)[perm], tol,
                  "permuting points does not permute the values", problem=name)
        mon.saw("permuted")
        k = int(rng.integers(N))
        one = call(pts[k:k + 1], None if labs is None else labs[k:k + 1], (1, 1))
        mon.close(ref.np64(one).reshape(-1), ref.np64(v).reshape(-1)[k:k + 1], tol,
                  "the value of a point depends on the others", problem=name)
        mon.saw("split")
        rep = call(pts.repeat(2, 1), None if labs is None else labs.repeat(2, 1), (2,) + shape)
        mon.close(ref.np64(rep).reshape(-1), np.tile(ref.np64(v).reshape(-1), 2), tol,
                  "repeating points does not repeat the values", problem=name)
        mon.saw("repeated")
    elif case["axes"] == 1:
        mon.close(float(v.double().mean()), float(want.mean()), tol,
                  "average of the wrapped loss over a plain batch", problem=name, m=N)
    else:
        mon.check(v.numel() == 1, "shape of the wrapped loss at one point", got=tuple(v.shape))
        mon.close(float(v.double().reshape(-1)[0]), float(want[0]), tol,
                  "value of the wrapped loss at one point", problem=name)
    if N == 1 or float(np.ptp(want)) > 0:
        mon.nontrivial(name, shape, l2, float(want.sum()))
