"""C11: the point-mass distribution behaves as a point mass."""
import numpy as np
import torch as pt

RULE = ("random locations, batch ranks, sample shapes and expansions of the point-mass "
        "distribution; every draw, moment, log-density and shape is compared with the location; "
        "non-trivial when the shape has at least one batch or sample axis")
REQUIRED = ["draws", "expanded", "at_location", "off_location", "moments", "gradients"]


def cases(tier, seed):
    n = 300 if tier == "quick" else 4000
    return [{"kind": "dirac"} for _ in range(n)]


def run(case, mon, rng):
    from skwdro.distributions import Dirac
    batch = tuple(int(k) for k in rng.integers(1, 4, size=int(rng.integers(0, 3))))
    event = tuple(int(k) for k in rng.integers(1, 4, size=int(rng.integers(1, 3))))
    dtype = pt.float64 if rng.random() < .5 else pt.float32
    loc = pt.tensor(rng.normal(size=batch + event) * 10. ** rng.integers(-3, 6), dtype=dtype)
    va = [None, True, False][int(rng.integers(3))]
    loc_g = loc.clone().requires_grad_(True)
    with mon.under_test("building a point mass"):
        dist = Dirac(loc, len(batch), va)
    mon.check(tuple(dist.batch_shape) == batch and tuple(dist.event_shape) == event,
              "batch or event shape", got=[tuple(dist.batch_shape), tuple(dist.event_shape)],
              want=[batch, event])

    def judge(dist, loc, tag):
        for q in (dist.mean, dist.mode):
            mon.check(pt.equal(q, loc), "mean or mode is not the location" + tag)
        mon.check(tuple(dist.variance.shape) == tuple(loc.shape)
                  and not bool(dist.variance.any()), "variance is not zero" + tag)
        mon.check(not bool(dist.stddev.any()), "standard deviation is not zero" + tag)
        mon.saw("moments")
        shape = tuple(int(k) for k in rng.integers(1, 4, size=int(rng.integers(0, 3))))
        form = [pt.Size(shape), list(shape), shape][int(rng.integers(3))]
        with mon.under_test("drawing from a point mass"):
            s = dist.rsample(form)
            t = dist.sample(pt.Size(shape))
        for v in (s, t):
            mon.check(tuple(v.shape) == shape + tuple(loc.shape), "shape of the draws" + tag,
                      got=tuple(v.shape), want=shape + tuple(loc.shape))
            mon.check(bool((v == loc).all()), "a draw is not the location" + tag)
        mon.check(s.dtype == loc.dtype, "dtype of the draws" + tag)
        mon.saw("draws", int(s.numel()))
        with mon.under_test("log-density of a point mass"):
            at = dist.log_prob(s)
            off = s.clone()
            k = tuple(int(rng.integers(a)) for a in off.shape)
            off[k] += float(rng.choice([-1., 1.])) * (abs(float(off[k])) * .25 + 1e-3)
            away = dist.log_prob(off)
            # two deviations that cancel each other
            cancel = s.clone().reshape(-1)
            if cancel.numel() > 1:
                cancel[0] += 1.
                cancel[1] -= 1.
            else:
                cancel[0] += 1.
            both = dist.log_prob(cancel.reshape(s.shape))
        mon.check(bool((at == 0).all()), "log-density at the location is not zero" + tag)
        mon.check(bool((away == -np.inf).any()), "log-density off the location" + tag,
                  got=away, size=tuple(s.shape))
        mon.check(bool((both == -np.inf).any()), "log-density off the location (cancelling)" + tag)
        mon.saw("at_location")
        mon.saw("off_location")
        return shape
    shape = judge(dist, loc, "")
    # expansion
    grown = tuple(int(k) for k in rng.integers(1, 4, size=int(rng.integers(0, 2)))) + batch
    with mon.under_test("expanding a point mass"):
        big = dist.expand([pt.Size(grown), list(grown)][int(rng.integers(2))])
    mon.check(tuple(big.batch_shape) == grown and tuple(big.event_shape) == event,
              "shapes of the expansion", got=[tuple(big.batch_shape), tuple(big.event_shape)],
              want=[grown, event])
    judge(big, loc.expand(grown + event), " after expansion")
    mon.check(tuple(dist.batch_shape) == batch and pt.equal(dist.mean, loc),
              "expanding changed the original")
    mon.saw("expanded")
    # draws stay differentiable with respect to the location
    g = Dirac(loc_g, len(batch), va)
    g.rsample(pt.Size((3,))).sum().backward()
    mon.check(loc_g.grad is not None and bool((loc_g.grad == 3.).all()),
              "gradient of the draws with respect to the location")
    mon.saw("gradients")
    if batch or shape:
        mon.nontrivial(batch, event, shape, grown, float(loc.double().sum()))
