"""C07: ground costs return the documented power of a weighted norm (reference-model monitor)."""
import math

import numpy as np
import torch as pt

from vp import gen, ref

RULE = ("random costs of both kinds (norm orders 1, 1.5, 2, 3, 7, inf; powers 0.5 to 4; label "
        "weights 0, small, large, infinite), points of scales 1e-6 to 1e6, broadcast shapes and "
        "both dtypes, compared with a float64 reference and with the metric axioms on observed "
        "values; non-trivial when the two points differ")
REQUIRED = ["values", "plain", "labelled", "kappa_limits", "triangles", "broadcasts", "refused",
            "float32", "called"]
P = [1., 2., math.inf, 1.5, 3., 7.]
POW = [1., 2., .5, 1.5, 3., 4.]
KAPPA = [0., 1e-6, .3, 1., 2.5, 1e4, 1e8, math.inf]


def cases(tier, seed):
    n = 400 if tier == "quick" else 6000
    return [{"kind": ["plain", "label", "label"][k % 3], "ik": (k // 3) % len(KAPPA)}
            for k in range(n)]


def run(case, mon, rng):
    from skwdro.base.costs_torch import NormCost, NormLabelCost
    p, power = P[int(rng.integers(len(P)))], POW[int(rng.integers(len(POW)))]
    dtype = pt.float32 if rng.random() < .25 else pt.float64
    label = case["kind"] == "label"
    kappa = KAPPA[case["ik"]] if rng.random() < .7 else float(np.exp(rng.uniform(-8, 8)))
    if label:
        mon.raises(lambda: NormLabelCost(p=p, power=power, kappa=-float(np.exp(rng.uniform(-9, 5)))),
                   "negative kappa accepted")
        mon.saw("refused")
        c = NormLabelCost(p=p, power=power, kappa=kappa)
    else:
        c = NormCost(p=p, power=power)
    spec = ("NLC" if label else "NC", power, p, kappa)
    d, e = gen.size(rng, 1, 7, 120), gen.size(rng, 1, 4, 30)
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    scale = 10. ** rng.integers(-6, 7) if dtype == pt.float64 else 10. ** rng.integers(-2, 3)
    shapes = [((m,), (m,)), ((1, m), (n, m)), ((n, m), (1, m)), ((n, m), (n, m)), ((), (m,)),
              ((n, 1), (1, m)), ((m,), (n, m)), ((2, 1, m), (2, n, m))]
    sa, sb = shapes[int(rng.integers(len(shapes)))]

    def point(shape, k):
        return pt.tensor(rng.normal(size=shape + (k,)) * scale, dtype=dtype)
    x, z, w = point(sa, d), point(sb, d), point(sb, d)
    y, zy, wy = (point(sa, e), point(sb, e), point(sb, e)) if label else (None,) * 3
    if rng.random() < .15 and sa == sb:
        z = x.clone()                      # only labels differ
    if label and rng.random() < .15 and sa == sb:
        zy = y.clone()
    if label and rng.random() < .3:
        # labels in plus or minus one
        y, zy, wy = [pt.sign(t) for t in (y, zy, wy)]
    mon.saw("labelled" if label else "plain")
    if label and (kappa == 0 or math.isinf(kappa)):
        mon.saw("kappa_limits")
    if dtype == pt.float32:
        mon.saw("float32")
    keep = [t.clone() for t in (x, z) + ((y, zy) if label else ())]

    def call(a, b, la, lb):
        with mon.under_test("evaluating a cost"):
            return c(a, b, la, lb) if rng.random() < .5 else c.value(a, b, la, lb)
    v = call(x, z, y, zy)
    mon.saw("called")
    mon.check(all(pt.equal(s, t) for s, t in zip(keep, (x, z) + ((y, zy) if label else ()))),
              "the cost changed its arguments")

    def d64(t):
        return None if t is None else t.double()
    want = ref.cost(spec, d64(x), d64(z), d64(y), d64(zy))
    if sa != sb:
        mon.saw("broadcasts")
    u = (2e-6 if dtype == pt.float32 else 4e-15) * (1 + power)
    tiny = 1e-37 if dtype == pt.float32 else 1e-300   # below this numbers lose digits
    top = float(want.max()) if want.numel() else 0.
    mon.check(v.dtype == dtype, "dtype of the cost", got=str(v.dtype))
    mon.close(ref.np64(v.squeeze(-1)), ref.np64(want), tiny + 8 * u * np.abs(ref.np64(want)),
              "cost value", p=p, power=power, kappa=kappa, d=d, shapes=[sa, sb])
    mon.check(tuple(v.shape) == tuple(want.shape) + (1,), "shape of the cost",
              got=tuple(v.shape), want=tuple(want.shape) + (1,))
    mon.saw("values", int(want.numel()))
    mon.check(bool((v >= 0).all()), "negative cost")
    back = call(z, x, zy, y)
    mon.close(ref.np64(back), ref.np64(v), tiny + 8 * u * np.abs(ref.np64(v)), "cost symmetry",
              p=p, power=power, kappa=kappa)
    mon.close(ref.np64(call(z, z, zy, zy)), np.zeros(tuple(sb) + (1,)), 0., "cost at equality",
              p=p, power=power, kappa=kappa)
    xw, wz = call(x, w, y, wy), call(w, z, wy, zy)
    r = 1. / power
    lhs, rhs = ref.np64(v) ** r, ref.np64(xw) ** r + ref.np64(wz) ** r
    mon.check(bool((lhs <= rhs * (1 + 40 * u) + tiny ** r).all()), "triangle inequality", p=p,
              power=power, kappa=kappa)
    mon.saw("triangles", lhs.size)
    if top > 0:
        mon.nontrivial(spec[0], p, power, kappa, d, e, sa, sb, float(v.double().sum()))
