"""C26: hybrid optimisers respect each group's geometry (reference optimiser)."""
import numpy as np
import torch as pt

RULE = ("a hybrid optimiser over random mixtures of groups is driven by random gradient "
        "sequences, huge ones included; after every step all parameters are compared with a "
        "float64 reference; non-trivial when several steps were compared")
REQUIRED = ["steps", "plain", "max", "mwu", "mwu_simplex", "non_neg", "bound", "sgd", "adam",
            "huge_gradients", "several_groups", "several_tensors", "alone", "touched_zero",
            "clipped", "refused", "float32", "momentum", "no_gradient", "extreme_weights"]
RULES = ["plain", "max", "mwu", "mwu_simplex", "non_neg", "bound"]


def cases(tier, seed):
    n = 320 if tier == "quick" else 6000
    return [{"kind": "drive", "opt": ["sgd", "adam"][k % 2], "k": k} for k in range(n)] + \
        [{"kind": "refuse"}] * 4


class RefSGD:
    def __init__(self, lr, momentum=0., **_):
        self.lr, self.mu, self.buf = lr, momentum, None

    def __call__(self, p, g):
        if self.mu:
            self.buf = g.copy() if self.buf is None else self.mu * self.buf + g
            g = self.buf
        return p - self.lr * g


class RefAdam:
    def __init__(self, lr, betas=(.9, .999), **_):
        self.lr, self.b, self.t, self.m, self.v = lr, betas, 0, 0., 0.

    def __call__(self, p, g):
        self.t += 1
        self.m = self.b[0] * self.m + (1 - self.b[0]) * g
        self.v = self.b[1] * self.v + (1 - self.b[1]) * g * g
        mh = self.m / (1 - self.b[0] ** self.t)
        vh = self.v / (1 - self.b[1] ** self.t)
        return p - self.lr * mh / (np.sqrt(vh) + 1e-8)


def reference(rule, step, p, g):
    """One step of the documented geometry."""
    if rule == "max":
        # ascend: the step of the underlying optimiser on the opposite of the parameter
        return -step(-p, g)
    if rule in ("mwu", "mwu_simplex"):
        new = np.exp(step(np.log(p), g))
        return new / new.sum() if rule == "mwu_simplex" else new
    if rule == "non_neg":
        return np.maximum(step(p, g), 0.)
    if rule == "bound":
        return step(p, np.clip(g, -100., 100.))
    return step(p, g)


def run(case, mon, rng):
    from skwdro.solvers.hybrid_opt import HybridAdam, HybridSGD
    if case["kind"] == "refuse":
        p = pt.nn.Parameter(pt.tensor([.5, -.1]))
        rule = str(rng.choice(["mwu", "mwu_simplex"]))
        o = HybridSGD([{"params": [p], rule: True}], lr=.1)
        p.grad = pt.ones(2)
        mon.raises(o.step, "a multiplicative step from a non-positive point is accepted")
        q = pt.nn.Parameter(pt.tensor([.5, .1]))
        o = HybridSGD([{"params": [q], "mwu": True, "non_neg": True}], lr=.1)
        q.grad = pt.ones(2)
        mon.raises(o.step, "two rules for one group are accepted")
        mon.saw("refused")
        return
    dt = pt.float64 if rng.random() < .8 else pt.float32
    if dt == pt.float32:
        mon.saw("float32")
    n_groups = int(rng.integers(1, 6))
    kw = {"lr": float(rng.choice([1e-3, .05, .4]))}
    if case["opt"] == "sgd":
        cls, ref = HybridSGD, RefSGD
        if rng.random() < .4:
            kw["momentum"] = .9
            mon.saw("momentum")
    else:
        cls, ref = HybridAdam, RefAdam
        if rng.random() < .3:
            kw["betas"] = (.5, .9)
    groups, state = [], []
    for g in range(n_groups):
        rule = str(rng.choice(RULES))
        if g == 0:
            rule = RULES[case["k"] // 2 % len(RULES)]
        n_t = int(rng.integers(1, 4))
        lr = kw["lr"] * float(rng.choice([1., .5, 2.]))
        tens = []
        for _ in range(n_t):
            shape = tuple(int(s) for s in rng.integers(1, 4, size=int(rng.integers(0, 3))))
            v = rng.normal(size=shape)
            if rule in ("mwu", "mwu_simplex", "non_neg"):
                v = np.abs(v) + .05
            if rule == "mwu" and rng.random() < .3:
                v = v * 10. ** rng.uniform(-20, 12, size=shape)
                mon.saw("extreme_weights")
            if rule == "mwu_simplex":
                v = v / v.sum()
            p = pt.nn.Parameter(pt.tensor(v, dtype=dt))
            tens.append(p)
            state.append((rule, p, ref(**dict(kw, lr=lr))))
        if n_t > 1:
            mon.saw("several_tensors")
        groups.append({"params": tens, "lr": lr, **({} if rule == "plain" else {rule: True})})
    if n_groups > 1:
        mon.saw("several_groups")
    else:
        mon.saw("alone")
    mon.saw(case["opt"])
    with mon.under_test("building a hybrid optimiser"):
        opt = cls(groups, **kw)
    huge = rng.random() < .35
    tol = 1e-9 if dt == pt.float64 else 3e-5
    skipping = rng.random() < .25
    want = [p.detach().double().numpy().copy() for _, p, _ in state]
    for it in range(int(rng.integers(2, 9))):
        for k, (rule, p, step) in enumerate(state):
            g = rng.normal(size=tuple(p.shape))
            if huge and rule in ("plain", "bound", "non_neg", "max"):
                g = g * 10. ** rng.uniform(0, 4)
                mon.saw("huge_gradients")
            if skipping and rule in ("plain", "max", "mwu", "non_neg") and rng.random() < .5:
                p.grad = None
                mon.saw("no_gradient")
                if rule == "non_neg":
                    want[k] = np.maximum(want[k], 0.)
                continue
            if rule == "bound" and np.abs(g).max() > 100.:
                mon.saw("clipped")
            p.grad = pt.tensor(g, dtype=dt)
            g = p.grad.double().numpy().copy()
            want[k] = reference(rule, step, want[k], g)
        with mon.under_test("a hybrid step"):
            opt.step()
        for k, (rule, p, _) in enumerate(state):
            got = p.detach().double().numpy()
            size = 1. + np.abs(want[k])
            if rule in ("mwu", "mwu_simplex"):     # a step in the logarithm
                size = np.abs(want[k]) * (1. + np.abs(np.log(want[k])))
            mon.close(got, want[k], tol * size * (1. + (1e2 if huge else 0.)),
                      "a %s group is not where its geometry leads" % rule, opt=case["opt"],
                      groups=n_groups, step=it)
            if rule in ("mwu", "mwu_simplex"):
                mon.check((got > 0).all(), "a multiplicative group is not positive")
            if rule == "mwu_simplex":
                mon.close(got.sum(), 1., 1e-6, "a simplex group does not sum to one")
            if rule == "non_neg":
                mon.check((got >= 0).all(), "a non-negative group is negative")
                if (got == 0).any():
                    mon.saw("touched_zero")
            mon.saw(rule)
            want[k] = got.copy()      # errors do not accumulate
        mon.saw("steps")
    mon.nontrivial(case["opt"], [s[0] for s in state], want[0])
