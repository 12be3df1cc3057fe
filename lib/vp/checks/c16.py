"""C16: the stopping rule fires exactly when its criterion is met (reference-model monitor)."""
import numpy as np
import torch as pt

from vp import gen
from vp.checks.c15 import emp
from vp.core import Skip

RULE = ("a robust model is walked through random sequences of parameters and gradients (decaying, "
        "oscillating, constant, growing), and real training runs are observed; the answer of the "
        "rule at every iteration is compared with a small reference machine, over all settings, "
        "several runs per instance; non-trivial when the answers of a run differ")
REQUIRED = ["answers", "fired", "not_fired", "budget", "second_run", "live", "refused",
            "metric_grad", "metric_param", "mode_rel", "mode_abs", "order_inf", "disabled",
            "omitted", "still", "wide"]
AND = ["both", "theta_and_lambda", "t&l", "lambda_and_theta", "l&t"]
OR = ["one", "theta_or_lambda", "tUl", "lambda_or_theta", "lUt"]
THETA, LAM = ["theta", "t"], ["lambda", "l"]


def cases(tier, seed):
    n = 320 if tier == "quick" else 4000
    names = AND + OR + THETA * 3 + LAM * 3
    return [{"kind": "walk", "monitoring": names[k % len(names)],
             "metric": ["grad", "param"][(k // len(names)) % 2]} for k in range(n)] + \
        [{"kind": "live", "metric": ["grad", "param"][k % 2]} for k in range(n // 16)] + \
        [{"kind": "refuse"} for _ in range(max(4, n // 80))]


class Machine:
    """Reference: one monitored quantity."""

    def __init__(self, metric, mode, tol, order):
        self.metric, self.mode, self.tol, self.order = metric, mode, tol, order
        self.first, self.prev, self.close_call = None, None, False

    def norm(self, v):
        v = np.abs(np.asarray(v, dtype=np.float64).reshape(-1))
        if np.isinf(self.order):
            return float(v.max())
        return float((v ** self.order).sum() ** (1. / self.order))

    def see(self, value, grad):
        self.close_call = False
        if self.tol <= 0:
            return False
        if self.metric == "grad":
            u = self.norm(grad)
        else:
            prev, self.prev = self.prev, np.array(value, dtype=np.float64)
            if prev is None:
                return False
            u = self.norm(self.prev - prev)
        if self.first is None:
            self.first = u
            return False
        bound = self.tol * (self.first if self.mode == "rel" else 1.)
        self.close_call = abs(u - bound) <= 1e-4 * (abs(bound) + 1e-12) + self.slack()
        if u == bound == 0.:    # nothing ever moved: exact, and not below
            self.close_call = False
        return u < bound

    def slack(self):
        # float32 differences of parameters carry an absolute rounding error
        return 1e-6 * (float(np.abs(self.prev).max()) + 1.) if self.metric == "param" else 0.


def answer(monitoring, t, l):
    if monitoring in AND:
        return t and l
    if monitoring in OR:
        return t or l
    return t if monitoring in THETA else l


def decisive(monitoring, mt, ml):
    if monitoring in THETA:
        return not mt.close_call
    if monitoring in LAM:
        return not ml.close_call
    return not (mt.close_call or ml.close_call)


def settings(case, rng):
    order = [1, 2, 3, "inf"][int(rng.integers(4))]
    mode = str(rng.choice(["rel", "abs"]))
    # "both" with a disabled part: the text does not say which way, so it is not generated
    tols = [float(rng.choice([1e-3, .05, .3, 1.5])) for _ in range(2)]
    mon_ = case.get("monitoring") or str(rng.choice(AND + OR + THETA + LAM))
    if mon_ not in AND and rng.random() < .3:
        tols[int(rng.integers(2))] = float(rng.choice([0., -1.]))
    return order, mode, tols, mon_


def walk(case, mon, rng):
    from skwdro.solvers.optim_cond import OptCondTorch
    order, mode, (tt, tl), what = settings(case, rng)
    metric = case["metric"]
    named = dict(monitoring=what, mode=mode, metric=metric)
    if rng.random() < .25:      # documented defaults of the options left out
        for key, v in (("monitoring", "theta"), ("mode", "rel"), ("metric", "grad")):
            if rng.random() < .6:
                named.pop(key)
                what, mode, metric = (v if key == k else old for k, old in
                                      (("monitoring", what), ("mode", mode), ("metric", metric)))
        mon.saw("omitted")
    d = int(rng.integers(1, 5)) if rng.random() < .8 else int(rng.integers(60, 200))
    if d > 50:
        mon.saw("wide")
    problem = gen.Problem("mlp" if rng.random() < .4 else "mse", d, rng, spy=False)
    T = int(rng.integers(4, 14))
    cap = int(rng.choice([5, 8, 100]))
    model = gen.robust(problem, pt.tensor(.1), pt.zeros(2, d), pt.zeros(2, 1), n_samples=2,
                       n_iter=cap if rng.random() < .5 else (3, cap))
    rule = OptCondTorch(order, tt, tl, **named)
    mon.saw("metric_" + metric)
    mon.saw("mode_" + mode)
    if order == "inf":
        mon.saw("order_inf")
    if min(tt, tl) <= 0:
        mon.saw("disabled")
    params = list(model.primal_loss.parameters())
    answers = set()
    for run_no in range(int(rng.integers(1, 4))):
        if run_no:
            rule.reset()
            mon.saw("second_run")
        mt = Machine(metric, mode, tt, float(order))
        ml = Machine(metric, mode, tl, 1.)
        rates = [rng.choice([.3, .7, 1., 1.3]) for _ in range(2)]
        sizes = [float(rng.choice([.02, 1., 10.])) for _ in range(2)]
        if rng.random() < .1:
            sizes[int(rng.integers(2))] = 0.
            mon.saw("still")
        pos = [rng.normal(size=sum(p.numel() for p in params)), np.abs(rng.normal(size=1)) + 1.]
        for it in range(T):
            kick = [rng.normal(size=p.size) * s * r ** it * rng.choice([1., 1., .01])
                    for p, s, r in zip(pos, sizes, rates)]
            # each piece of the state is written in single precision, as training does
            pos = [np.float32(p + k).astype(np.float64) for p, k in zip(pos, kick)]
            pos[1] = np.abs(pos[1])
            g = [np.float32(rng.normal(size=p.size) * s * r ** it).astype(np.float64)
                 for p, s, r in zip(pos, sizes, rates)]
            with pt.no_grad():
                k = 0
                for p in params:
                    v = pt.tensor(pos[0][k:k + p.numel()], dtype=pt.float32).reshape(p.shape)
                    p.copy_(v)
                    p.grad = pt.tensor(g[0][k:k + p.numel()], dtype=pt.float32).reshape(p.shape)
                    k += p.numel()
                model.lam.fill_(float(pos[1][0]))
                model.lam.grad = pt.full_like(model.lam, float(g[1][0]))
            with mon.under_test("the stopping rule"):
                got = rule(model, it)
            t, l = mt.see(pos[0], g[0]), ml.see(pos[1], g[1])
            want = answer(what, t, l) or it >= cap
            if it >= cap:
                mon.saw("budget")
            if it >= cap or decisive(what, mt, ml):
                mon.check(bool(got) == want, "the stopping rule %s" % (
                    "did not fire" if want else "fired too early"), it=it, run=run_no,
                    monitoring=what, metric=metric, mode=mode, order=order, tols=(tt, tl),
                    cap=cap)
                mon.saw("answers")
                mon.saw("fired" if want else "not_fired")
                answers.add(want)
    if len(answers) > 1:
        mon.nontrivial(what, metric, mode, order, tt, tl, pos[0][:3])


def live(case, mon, rng):
    """The rule inside a real run: its inputs are read at the moment it is asked."""
    from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
    from skwdro.solvers.optim_cond import OptCondTorch
    order, mode, (tt, tl), what = settings(case, rng)
    metric = case["metric"]
    d, m = int(rng.integers(1, 4)), int(rng.integers(3, 9))
    problem = gen.Problem(str(rng.choice(["mse", "margin", "mlp"])), d, rng, spy=False)
    X, Y = rng.normal(size=(m, d)), problem.make_labels(rng, m)
    post = bool(rng.random() < .5)
    log = []

    class Rule(OptCondTorch):
        def __call__(self, loss, it):
            th = np.concatenate([p.detach().numpy().reshape(-1) for p in
                                 loss.primal_loss.parameters()]).astype(float)
            gr = np.concatenate([p.grad.numpy().reshape(-1) if p.grad is not None else
                                 np.zeros(p.numel()) for p in
                                 loss.primal_loss.parameters()]).astype(float)
            la = loss.lam.detach().numpy().reshape(-1).astype(float).copy()
            lg = loss.lam.grad.numpy().reshape(-1).astype(float).copy() \
                if loss.lam.grad is not None else np.zeros(1)
            out = super().__call__(loss, it)
            log.append((it, th, gr, la, lg, bool(out)))
            return out
    rule = Rule(order, tt, tl, monitoring=what, mode=mode, metric=metric)
    for run_no in range(2):
        del log[:]
        model = gen.robust(problem, pt.tensor(.1), gen.tens(X, pt.float32),
                           gen.tens(Y, pt.float32), post_sample=post, n_samples=3,
                           n_iter=(2, int(rng.integers(6, 25))), imp_samp=False,
                           adapt=None, learning_rate=.1, seed=3)
        r = solve_dual_wdro(model, emp(X, Y), rule)
        if not np.isfinite(float(r.robust_loss)):
            raise Skip("diverged")
        mt, ml = Machine(metric, mode, tt, float(order)), Machine(metric, mode, tl, 1.)
        for it, th, gr, la, lg, out in log:
            t, l = mt.see(th, gr), ml.see(la, lg)
            want = answer(what, t, l)
            if decisive(what, mt, ml):
                mon.check(out == want, "the stopping rule %s in a real run" % (
                    "did not fire" if want else "fired too early"), it=it, run=run_no,
                    monitoring=what, metric=metric, mode=mode)
                mon.saw("answers")
        mon.saw("live")
    if len(log) > 1:
        mon.nontrivial("live", what, metric, mode, len(log), float(log[-1][1].sum()))


def refuse(mon, rng):
    from skwdro.solvers.optim_cond import OptCondTorch
    problem = gen.Problem("mse", 2, rng, spy=False)
    model = gen.robust(problem, pt.tensor(.1), pt.zeros(2, 2), pt.zeros(2, 1), n_samples=2)

    def ask(**kw):
        order = kw.pop("order", 2)
        rule = OptCondTorch(order, 1e-3, 1e-3, **kw)
        for it in range(4):
            for p in model.parameters():
                p.grad = pt.ones_like(p)
            rule(model, it)
    bad = str(rng.choice(["thetas", "x", "", "lambda or theta"]))
    mon.raises(lambda: ask(monitoring=bad), "unknown monitored variable accepted", value=bad)
    mon.raises(lambda: ask(metric=bad), "unknown metric accepted", value=bad)
    mon.raises(lambda: ask(mode=bad), "unknown mode accepted", value=bad)
    mon.raises(lambda: ask(order=-float(rng.uniform(0, 2))), "a negative norm order was accepted")
    mon.raises(lambda: ask(order="infinite"), "an unknown norm name was accepted")
    mon.saw("refused", 5)
    mon.nontrivial("refuse", bad)


def run(case, mon, rng):
    if case["kind"] == "walk":
        walk(case, mon, rng)
    elif case["kind"] == "live":
        live(case, mon, rng)
    else:
        refuse(mon, rng)
