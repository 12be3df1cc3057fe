From e1e817639bdf7e5f25ec2ce55bad86a47831c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:24 +0000
Subject: [PATCH 01/31] fix: forget earlier runs when a stopping rule instance
 is reused

The default stopping rule is one object shared by all estimators of a class.
Its memory of the first gradient was never cleared, so a fit could stop
earlier or later depending on what had been fitted before in the process.
---
 skwdro/solvers/entropic_dual_torch.py | 2 ++
 skwdro/solvers/optim_cond.py          | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 92999c2..4818657 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -97,6 +97,8 @@ def solve_dual_wdro(loss: _DualLoss, p_hat: Distribution, opt: OptCondTorch):
     optim_ = optim_presample if loss.presample else optim_postsample
 
     opt_cond: OptCondTorch = opt
+    # The same instance may have monitored another run beforehand.
+    opt_cond.reset()
 
     losses = optim_(optimizer, xi, xi_labels, loss, opt_cond)
     theta = detach_tensor(loss.theta)
diff --git a/skwdro/solvers/optim_cond.py b/skwdro/solvers/optim_cond.py
index ac34ee9..7524d4f 100644
--- a/skwdro/solvers/optim_cond.py
+++ b/skwdro/solvers/optim_cond.py
@@ -108,7 +108,13 @@ class OptCondTorch:
         self.max_iter: int = 0 if max_iter is None else max_iter
 
         self.verbose = verbose
+        self.reset()
 
+    def reset(self) -> None:
+        r"""
+        Forget the observations of any previous run, so that the same instance
+        may monitor a new one.
+        """
         self.l_mem: Optional[pt.Tensor] = None
         self.t_mem: Optional[pt.Tensor] = None
         self.l_0: Optional[pt.Tensor] = None
-- 
2.43.0


From 92989d11946c04315556aedf10bc59fa3f243253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:37 +0000
Subject: [PATCH 02/31] fix: make the stopping rule remember past values of the
 dual variable

With metric='param' the rule stored the parameter itself, which the optimizer
updates in place, so the observed change of lambda was always zero.
---
 skwdro/solvers/optim_cond.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skwdro/solvers/optim_cond.py b/skwdro/solvers/optim_cond.py
index 7524d4f..6cbad04 100644
--- a/skwdro/solvers/optim_cond.py
+++ b/skwdro/solvers/optim_cond.py
@@ -153,7 +153,8 @@ class OptCondTorch:
             return self.get_flat_grad(dual_loss.primal_loss)
 
         def lam() -> pt.Tensor:
-            return dual_loss.lam
+            # Copied: the optimizer updates the parameter in place.
+            return dual_loss.lam.detach().clone()
 
         def lamgrad() -> pt.Tensor:
             return maybe_flatten_grad_else_raise(dual_loss._lam)
-- 
2.43.0


From 31bf219ee462f4749dd81d67910f2f00af067c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:02 +0000
Subject: [PATCH 03/31] fix: average the inner expectation before summing over
 data points

With reduction='sum' the logarithm of the number of samples was subtracted
once instead of once per data point, so the robust objective was too large
by epsilon * (m - 1) * log(n_samples).
---
 skwdro/solvers/_dual_interfaces/dual_loss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/dual_loss.py b/skwdro/solvers/_dual_interfaces/dual_loss.py
index 0270bf1..00116de 100644
--- a/skwdro/solvers/_dual_interfaces/dual_loss.py
+++ b/skwdro/solvers/_dual_interfaces/dual_loss.py
@@ -126,10 +126,10 @@ class _DualFormulation(_SampleDisplacer):
                 integrand /= self.epsilon  # -> (n_samples, m, 1)
 
             # Expectation on the zeta samples (collapse 1st dim)
+            log_n = pt.log(pt.tensor(zeta.size(0)))
             second_term = self.reduce_loss_batch(
-                pt.logsumexp(integrand, 0)
-            )  # -> (m, 1)
-            second_term -= pt.log(pt.tensor(zeta.size(0)))  # -> (m, 1)
+                pt.logsumexp(integrand, 0) - log_n
+            )  # -> (m, 1) reduced on its first dimension
             return first_term + self.epsilon * second_term  # (1,)
         elif self.rho.isnan().any():
             return pt.tensor(pt.nan, requires_grad=True)
-- 
2.43.0


From 5e6ba72e2a54a5e2ca21250d53d33aa6568af86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:02 +0000
Subject: [PATCH 04/31] fix: let a pre-sampled dual loss of radius zero reuse
 its samples

The (1, m, 1) batch of losses was reduced without dropping its first axis,
which failed an assertion as soon as the stored samples were reused.
---
 skwdro/solvers/oracle_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index 0fd4ec4..d56b032 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -526,7 +526,7 @@ class DualPreSampledLoss(_DualLoss):
                         # (1, m, d') or None
                         xi_labels.unsqueeze(0) if xi_labels is not None else None
                     )  # (1, m, 1)
-                    primal_loss = self.reduce_loss_batch(batched_pl)
+                    primal_loss = self.reduce_loss_batch(batched_pl.squeeze(0))
                     return first_term + primal_loss
                 else:
                     # Reuse the same samples as last forward pass
-- 
2.43.0


From 3f68e94c3c992b6e01c3652cde4d1aaef59fba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:20 +0000
Subject: [PATCH 05/31] fix: put frozen parameters and module modes back after
 sample gradients

Computing gradients with respect to the samples ended by un-freezing every
parameter and by putting the whole primal model in training mode. Parameters
frozen by the user started to train, and layers in evaluation mode left it.
---
 skwdro/solvers/_dual_interfaces/_impsamp_interface.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
index d8a7812..ce9abb5 100644
--- a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
+++ b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
@@ -107,6 +107,7 @@ class _SampleDisplacer(_SampledDualLoss):
         disps: (1, m, d), (1, m, d')
         """
         model = self.primal_loss
+        training_modes = [(mod, mod.training) for mod in model.modules()]
         model.eval()  # Deactivate batch-norms & dropouts
         thetas = {k: v.detach() for k, v in model.named_parameters()}
         _internal_states = {k: v.detach() for k, v in model.named_buffers()}
@@ -155,7 +156,8 @@ class _SampleDisplacer(_SampledDualLoss):
             )
         )
         psg = per_sample_grad_func(xi, xi_labels, thetas, _internal_states)
-        model.train()
+        for mod, mode in training_modes:
+            mod.training = mode  # Put every module back in its own mode
         assert isinstance(psg[0], pt.Tensor)
         if xi_labels is None:
             return psg[0], None
@@ -192,6 +194,7 @@ class _SampleDisplacer(_SampledDualLoss):
         """
 
         # Freeze the parameters before differentiation wrt xi
+        requires_grad = [(param, param.requires_grad) for param in self.parameters()]
         self.freeze()
 
         # "Dual" samples for forward pass, to get the gradients wrt them
@@ -200,8 +203,10 @@ class _SampleDisplacer(_SampledDualLoss):
             maybe_unsqueeze(xi_labels)
         )
 
-        # Unfreeze the parameters to allow training
-        self.freeze(rg=True)
+        # Unfreeze the parameters to allow training, except for those that
+        # were already frozen
+        for param, rg in requires_grad:
+            param.requires_grad = rg
         return grad_xi, grad_xi_labels
 
     def displace_samples(
-- 
2.43.0


From 3d7b5339f8130d707775a4f588fe9540e492930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:48 +0000
Subject: [PATCH 06/31] fix: let train() put a robust model in training mode

train() left the model in evaluation mode by default, and train(True), which
is also what a parent module calls, silently replaced the robust objective by
the plain empirical risk.
---
 skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
index 403ac8a..b772c48 100644
--- a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
+++ b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
@@ -292,8 +292,8 @@ class _DualLossBase(nn.Module, ABC):
         self.erm_mode = True
         return super().eval()
 
-    def train(self, mode: bool = False):
-        self.erm_mode = mode
+    def train(self, mode: bool = True):
+        self.erm_mode = False
         return super().train(mode)
 
 
-- 
2.43.0


From 99a5088ffad3ac403c81af7e712793f7e4da8ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:54 +0000
Subject: [PATCH 07/31] fix: recentre the log-density of labelled samplers

The recentred log-density of samplers with labels ignored the new centre, so
the importance sampling correction of every labelled problem was zero.
---
 skwdro/base/samplers/torch/base_samplers.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/skwdro/base/samplers/torch/base_samplers.py b/skwdro/base/samplers/torch/base_samplers.py
index d354928..74fdd40 100644
--- a/skwdro/base/samplers/torch/base_samplers.py
+++ b/skwdro/base/samplers/torch/base_samplers.py
@@ -213,9 +213,14 @@ class LabeledSampler(BaseSampler, ABC):
             zeta_labels: Optional[pt.Tensor]
     ) -> pt.Tensor:
         assert zeta_labels is not None and xi_labels is not None
-        # TODO: FIX
-        lp_zeta = self._format_logprobs(self.data_s, zeta)
-        lp_zeta_labels = self._format_logprobs(self.labels_s, zeta_labels)
+        lp_zeta = self._format_logprobs(
+            self.data_s, zeta - xi + self.data_s.mean)
+        # The labels may come without their trailing dimension
+        mean_labels = self.labels_s.mean
+        lp_zeta_labels = self._format_logprobs(
+            self.labels_s,
+            zeta_labels - xi_labels.reshape(-1, *mean_labels.shape) + mean_labels
+        )
         lp = lp_zeta + lp_zeta_labels
         return lp
 
-- 
2.43.0


From 1933f0fa63a4fcda1ba0c2cd8b6bb4e8a3e1e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:35 +0000
Subject: [PATCH 08/31] fix: keep the dual variable non-negative with every
 optimizer

Only the composite optimizer projected lambda on the non-negative reals. With
L-BFGS or AdamW lambda became negative, where the dual value bounds nothing
and can decrease without limit.
---
 skwdro/solvers/entropic_dual_torch.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 4818657..918b5e1 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -42,6 +42,15 @@ def extract_data(dist: Distribution):
         return xi, None
 
 
+def project_dual_variable(loss: _DualLoss):
+    """
+    Put the dual variable back in the non-negative reals, which is not done by
+    all the optimizers.
+    """
+    with pt.no_grad():
+        loss.lam.clamp_(0., None)
+
+
 @wrap_solver_result
 def solve_dual_wdro(loss: _DualLoss, p_hat: Distribution, opt: OptCondTorch):
     r"""
@@ -192,6 +201,7 @@ def optim_presample(
     for iteration in loss.iterations:
         # Do not resample, only step according to BFGS-style algo
         optimizer.step(closure)
+        project_dual_variable(loss)
         if opt_cond.metric == 'grad':
             _is = loss.imp_samp
             losses.append(closure())
@@ -267,6 +277,7 @@ def optim_postsample(
         objective.backward()
         # Perform the stochastic step
         optimizer.step()
+        project_dual_variable(loss)
         losses.append(objective.item())
 
     # Init lambda
@@ -287,6 +298,7 @@ def optim_postsample(
         objective.backward()
         # Perform the stochastic step
         optimizer.step()
+        project_dual_variable(loss)
         losses.append(objective.item())
         if math.isnan(losses[-1]):
             warn(
-- 
2.43.0


From 453e26d4791ce0f76bd86ffdf402bb04f5b1cc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:38 +0000
Subject: [PATCH 09/31] fix: let the newsvendor loss run without labels and
 with its L2 term

The loss takes no labels but asserted that some were given, and it ignored
the l2reg argument that its constructor accepts.
---
 skwdro/base/losses_torch/newsvendor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skwdro/base/losses_torch/newsvendor.py b/skwdro/base/losses_torch/newsvendor.py
index aedb15b..9c14a78 100644
--- a/skwdro/base/losses_torch/newsvendor.py
+++ b/skwdro/base/losses_torch/newsvendor.py
@@ -68,10 +68,10 @@ class NewsVendorLoss_torch(Loss):
         xi_labels : NoneType
             placeholder, do not touch
         """
-        assert xi_labels is not None
+        del xi_labels
         returns = self.k * self.theta
         costs = self.u * pt.minimum(self.theta, xi).mean(dim=-1, keepdim=True)
-        return returns - costs
+        return self.regularize(returns - costs)
 
     @property
     def theta(self) -> pt.Tensor:
-- 
2.43.0


From f5c8f52ce552d2c828da538d6df2b85d746915df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:38 +0000
Subject: [PATCH 10/31] fix: predict probabilities without intercept and with a
 single feature

Without intercept the probabilities were computed with None as an intercept,
and with one feature the coefficients lost their only axis so that the
probabilities had the wrong shape.
---
 skwdro/linear_models/_logistic_regression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 0283a74..e526a42 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -311,7 +311,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                 .weight
                 .detach()
                 .cpu()
-                .squeeze()
+                .squeeze(0)
                 .numpy()
             )
 
@@ -383,7 +383,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
         X = check_array(X)
 
         if not hasattr(self, "wdro_loss_") or len(self.classes_) <= 2:
-            p = expit(X.dot(self.coef_) + self.intercept_)
+            p = self.predict_proba_2Class(X)
             return np.vstack((1 - p, p)).T
         else:
             return self.wdro_loss_.primal_loss.transform(
-- 
2.43.0


From da47f515b9f7f20ae2bc7490bf2375eefef8c49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:38 +0000
Subject: [PATCH 11/31] fix: return class probabilities and flat labels for
 several classes

With more than two classes predict_proba returned the raw scores of the
linear model, and predict returned a column instead of a vector.
---
 skwdro/linear_models/_logistic_regression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index e526a42..f6db9e9 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -388,7 +388,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
         else:
             return self.wdro_loss_.primal_loss.transform(
                 pt.from_numpy(X).to(self.wdro_loss_.rho)
-            ).detach().cpu().numpy()
+            ).softmax(dim=-1).detach().cpu().numpy()
 
     def predict(self, X):
         """ Robust prediction.
@@ -419,7 +419,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
             _p = proba >= np.max(proba, axis=1, keepdims=True)
             out = self.le_.inverse_transform(
                 _p.astype('uint8')
-            )
+            ).ravel()
         else:
             raise ValueError(
                 "The label encoder type {type(self.le_)} is not supported."
-- 
2.43.0


From 0c4b25239aabb0c869d229389fab4ec4b0301f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:54 +0000
Subject: [PATCH 12/31] fix: honour fit_intercept=False in the entropic linear
 regression

The linear model was always built with a bias, whatever fit_intercept was.
---
 skwdro/linear_models/_linear_regression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index 7656530..4914251 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -181,7 +181,7 @@ class LinearRegression(BaseEstimator, RegressorMixin):
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
             _wdro_loss = dualize_primal_loss(
                 nn.MSELoss(reduction="none"),
-                nn.Linear(d, 1),
+                nn.Linear(d, 1, bias=self.fit_intercept),
                 pt.tensor(self.rho),
                 pt.Tensor(emp.samples_x),
                 pt.Tensor(emp.samples_y),
@@ -207,6 +207,8 @@ class LinearRegression(BaseEstimator, RegressorMixin):
                 _wdro_loss.primal_loss.transform.weight)  # type: ignore
             self.intercept_ = maybe_detach_tensor(
                 _wdro_loss.primal_loss.transform.bias)  # type: ignore
+            if self.intercept_ is None:
+                self.intercept_ = np.zeros(1)
         elif self.solver == "dedicated":
             self.coef_, self.intercept_, self.dual_var_ = spS.WDROLinRegSpecificSolver(
                 rho=self.rho,
-- 
2.43.0


From c3d2c8a3e4e707aa6e73036cfb3c1d326bda0c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:31 +0000
Subject: [PATCH 13/31] fix: do not overwrite opt_cond=None when fitting

Fitting replaced the option given by the user by a new object, so clones made
afterwards had different options and shared that object.
---
 skwdro/linear_models/_linear_regression.py   | 7 ++++---
 skwdro/linear_models/_logistic_regression.py | 7 ++++---
 skwdro/operations_research/_newsvendor.py    | 7 ++++---
 skwdro/operations_research/_portfolio.py     | 7 ++++---
 skwdro/operations_research/_weber.py         | 7 ++++---
 5 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index 4914251..1744f57 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -175,8 +175,9 @@ class LinearRegression(BaseEstimator, RegressorMixin):
         elif "torch" in self.solver:
             assert isinstance(self.cost_, TorchCost)
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = (
+                OptCondTorch(2) if self.opt_cond is None else self.opt_cond
+            )
 
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
             _wdro_loss = dualize_primal_loss(
@@ -201,7 +202,7 @@ class LinearRegression(BaseEstimator, RegressorMixin):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 _wdro_loss,
                 emp,
-                self.opt_cond  # type: ignore
+                opt_cond
             )
             self.coef_ = detach_tensor(
                 _wdro_loss.primal_loss.transform.weight)  # type: ignore
diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index f6db9e9..bcddeea 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -261,8 +261,9 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                 self.solver in ("entropic_torch", "entropic_torch_post")
             )
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = (
+                OptCondTorch(2) if self.opt_cond is None else self.opt_cond
+            )
 
             _bilat = len(self.classes_) == 2
             module_out = 1 if _bilat else len(self.classes_)
@@ -299,7 +300,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 self.wdro_loss_,
                 emp,
-                self.opt_cond  # type: ignore
+                opt_cond
             )
 
             assert isinstance(self.wdro_loss_.primal_loss.transform, nn.Linear)
diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 28dd544..e72fd39 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -152,8 +152,9 @@ class NewsVendor(BaseEstimator):
             ))
         elif "torch" in self.solver:
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = (
+                OptCondTorch(2) if self.opt_cond is None else self.opt_cond
+            )
 
             self._wdro_loss = dualize_primal_loss(
                 CustomNewsvendorLoss(self.k, self.u),
@@ -174,7 +175,7 @@ class NewsVendor(BaseEstimator):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 self._wdro_loss,
                 emp,
-                self.opt_cond,  # type: ignore
+                opt_cond,
             )
             self.coef_ = detach_tensor(
                 self._wdro_loss.primal_loss.loss.theta_)  # type: ignore
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 612e549..fabf833 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -213,8 +213,9 @@ class Portfolio(BaseEstimator):
             self.coef_, self.tau_, self.dual_var_, self.result_ = _res
         elif "torch" in self.solver:
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = (
+                OptCondTorch(2) if self.opt_cond is None else self.opt_cond
+            )
 
             self._wdro_loss = dualize_primal_loss(
                 SimplePortfolio(m, risk_aversion=self.eta_,
@@ -236,7 +237,7 @@ class Portfolio(BaseEstimator):
             _res = entTorch.solve_dual_wdro(
                 self._wdro_loss,
                 emp,
-                self.opt_cond,  # type: ignore
+                opt_cond,
             )
             (
                 self.coef_,
diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index 2bfe8cd..4d902e7 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -125,8 +125,9 @@ class Weber(BaseEstimator):
             ))
         elif "torch" in self.solver:
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = (
+                OptCondTorch(2) if self.opt_cond is None else self.opt_cond
+            )
 
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
             self._wdro_loss = dualize_primal_loss(
@@ -152,7 +153,7 @@ class Weber(BaseEstimator):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 self._wdro_loss,
                 emp,
-                self.opt_cond,
+                opt_cond,
             )
             self.coef_ = detach_tensor(
                 self._wdro_loss.primal_loss.loss.pos  # type: ignore
-- 
2.43.0


From ba3480e2689a117d224bf5e9a31ec251855efae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:33 +0000
Subject: [PATCH 14/31] fix: evaluate fitted portfolio, newsvendor and Weber
 decisions

Evaluating crashed on double precision data, on solver="torch", and always for
the Weber problem, whose weights could not be given. The dedicated portfolio
left the risk term out of the value.
---
 skwdro/operations_research/_newsvendor.py |  6 ++++--
 skwdro/operations_research/_portfolio.py  | 10 +++++++---
 skwdro/operations_research/_weber.py      | 21 ++++++++++++---------
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index e72fd39..17bc4b2 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -228,8 +228,10 @@ class NewsVendor(BaseEstimator):
         # Check that X has correct shape
         X = check_array(X)
 
-        if "entropic" in self.solver:
-            return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
+        if "torch" in self.solver:
+            return self._wdro_loss.primal_loss.forward(
+                pt.from_numpy(X).to(self._wdro_loss.rho)
+            ).mean().item()
         elif self.solver == "dedicated":
             gains = self.k * self.coef_
             losses = self.u * np.minimum(self.coef_, X)
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index fabf833..095f6c2 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -286,9 +286,13 @@ class Portfolio(BaseEstimator):
 
         assert self.is_fitted_  # We have to fit before evaluating
 
-        if "entropic" in self.solver:
-            return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
+        if "torch" in self.solver:
+            return self._wdro_loss.primal_loss.forward(
+                pt.from_numpy(X).to(self._wdro_loss.rho)
+            ).mean().item()
         elif self.solver == "dedicated":
-            return -np.mean(X, axis=0) @ self.coef_
+            returns = X @ self.coef_
+            cvar = self.tau_ + np.maximum(-returns - self.tau_, 0.) / self.alpha_
+            return float(np.mean(-returns + self.eta_ * cvar))
         else:
             raise (ValueError("Solver not recognized"))
diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index 4d902e7..e8057e7 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -175,13 +175,12 @@ class Weber(BaseEstimator):
         ----------
         X : array-like, shape (n_samples_test,m)
             The testing input samples.
-        y : None
-            The prediction. Always None for a Portfolio estimator.
+        y : array-like, shape (n_samples_test,) or None
+            The importance weights, all ones by default.
         '''
-        del y
-        return -self.eval(X)
+        return -self.eval(X, y)
 
-    def eval(self, X):
+    def eval(self, X, y=None):
         '''
         Evaluates the loss with the theta obtained from the fit function.
 
@@ -189,16 +188,20 @@ class Weber(BaseEstimator):
         ----------
         X : array-like, shape (n_samples_test,m)
             The testing input samples.
+        y : array-like, shape (n_samples_test,) or None
+            The importance weights, all ones by default.
         '''
 
         # Check that X has correct shape
         X = check_array(X)
+        y = np.ones(len(X)) if y is None else np.asarray(y)
 
         assert self.is_fitted_  # We have to fit before evaluating
 
-        if "entropic" in self.solver:
-            return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
-        elif self.solver == "dedicated":
-            return -np.mean(X, axis=0) @ self.coef_
+        if "torch" in self.solver:
+            return self._wdro_loss.primal_loss.forward(
+                pt.from_numpy(X).to(self._wdro_loss.rho),
+                pt.from_numpy(y.reshape(-1, 1)).to(self._wdro_loss.rho)
+            ).mean().item()
         else:
             raise (ValueError("Solver not recognized"))
-- 
2.43.0


From 0028888d09558a5d1b308717db9f4d7f66f85733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:05 +0000
Subject: [PATCH 15/31] fix: use the norm of the cost in the dedicated
 portfolio solver

The exponent of the cost was used in place of the order of its norm.
---
 skwdro/operations_research/_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 095f6c2..151c452 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -174,7 +174,7 @@ class Portfolio(BaseEstimator):
         emp = EmpiricalDistributionWithoutLabels(m=N, samples=X)
 
         self.cost_ = cost_from_str(self.cost)  # NormCost(1, 1., "L1 cost")
-        p = self.cost_.power
+        p = self.cost_.p  # The decisions are measured with its dual norm
 
         # Setup values C and d that define the polyhedron of xi_maj
         if (self.C is None or self.d is None):
-- 
2.43.0


From 2125842fc8810bada7380ca4f47b7f51752202b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:23 +0000
Subject: [PATCH 16/31] fix: draw fresh samples for post-sampling portfolio
 solvers

The test on the name of the solver was the wrong way round.
---
 skwdro/operations_research/_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 151c452..dfa317e 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -224,7 +224,7 @@ class Portfolio(BaseEstimator):
                 pt.tensor(self.rho_),
                 pt.Tensor(emp.samples),
                 None,
-                "post" not in self.solver,
+                "pre" not in self.solver,
                 self.cost,
                 self.n_zeta_samples,
                 self.random_state,
-- 
2.43.0


From 5db51ed6136871d4b97af0aac8fbd4812481df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:56 +0000
Subject: [PATCH 17/31] fix: seed the initial model of the estimators with
 random_state

Only the sampler was seeded, so two fits with the same random_state differed.
---
 skwdro/linear_models/_linear_regression.py   | 2 ++
 skwdro/linear_models/_logistic_regression.py | 2 ++
 skwdro/operations_research/_newsvendor.py    | 2 ++
 skwdro/operations_research/_portfolio.py     | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index 1744f57..5ddcc33 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -180,6 +180,8 @@ class LinearRegression(BaseEstimator, RegressorMixin):
             )
 
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)  # Also seed the model
             _wdro_loss = dualize_primal_loss(
                 nn.MSELoss(reduction="none"),
                 nn.Linear(d, 1, bias=self.fit_intercept),
diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index bcddeea..70b0d58 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -270,6 +270,8 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
             loss = (
                 BiDiffSoftMarginLoss if _bilat else nn.CrossEntropyLoss
             )(reduction='none')
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)  # Also seed the model
             self.wdro_loss_ = dualize_primal_loss(
                 loss,
                 nn.Linear(
diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 17bc4b2..2e801a2 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -156,6 +156,8 @@ class NewsVendor(BaseEstimator):
                 OptCondTorch(2) if self.opt_cond is None else self.opt_cond
             )
 
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)  # Also seed the model
             self._wdro_loss = dualize_primal_loss(
                 CustomNewsvendorLoss(self.k, self.u),
                 None,
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index dfa317e..8b86525 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -217,6 +217,8 @@ class Portfolio(BaseEstimator):
                 OptCondTorch(2) if self.opt_cond is None else self.opt_cond
             )
 
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)  # Also seed the model
             self._wdro_loss = dualize_primal_loss(
                 SimplePortfolio(m, risk_aversion=self.eta_,
                                 risk_level=self.alpha_),
-- 
2.43.0


From 15c809ee9edca1a42a587899d7d03e94ab5d00fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:48 +0000
Subject: [PATCH 18/31] fix: pick the breakpoint of the dedicated newsvendor
 rule correctly

The bounds mixed partial sums shifted by one or two positions, so the solver
returned decisions that were not optimal.
---
 skwdro/solvers/specific_solvers.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/skwdro/solvers/specific_solvers.py b/skwdro/solvers/specific_solvers.py
index c4db7fc..4691a0d 100644
--- a/skwdro/solvers/specific_solvers.py
+++ b/skwdro/solvers/specific_solvers.py
@@ -10,22 +10,14 @@ def WDRONewsvendorSpecificSolver(k=5., u=7., rho=1.0, samples=None):
     assert samples is not None
     z = np.sort(samples, axis=0)
     n = z.shape[0]
-    a = np.array([sum(z[:i, 0]) for i in range(n - 1)])
-    b = np.array([n * rho - z[i + 1, 0] for i in range(n - 1)])
-    c = np.array([n * rho] * (n - 1))
+    # Total demand to move to get rid of the i + 1 smallest ones
+    movable = np.cumsum(z[:, 0]) > n * rho
 
-    lower_bound = b < a
-    upper_bound = a <= c
+    if not movable.any():
+        # The whole demand may vanish
+        return 0.0, 0.
 
-    if not lower_bound.any():
-        lambda_star = u
-        return SAANewsvendorSpecificSolver2(k=k, u=u, samples=samples)
-    elif not upper_bound.any():
-        lambda_star = 0
-        return 0, lambda_star
-    else:
-        condition = [upper_bound[i] and lower_bound[i] for i in range(n - 1)]
-        i_star = condition.index(True) + 1
+    i_star = int(np.argmax(movable))
 
     s = np.minimum(z / z[i_star, 0], np.ones((n, 1)))
 
-- 
2.43.0


From 6f96ef2a1bdfd36063ab79cdab49c5b27c247884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:48 +0000
Subject: [PATCH 19/31] fix: pass the L2 regularization of the newsvendor to
 its loss

---
 skwdro/operations_research/_newsvendor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 2e801a2..64cd6ca 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -172,6 +172,7 @@ class NewsVendor(BaseEstimator):
                 learning_rate=self.learning_rate,
                 n_iter=self.n_iter,
                 adapt="prodigy" if self.learning_rate is None else None,
+                l2reg=self.l2_reg,
             )
             # Solve dual problem
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
-- 
2.43.0


From 9994e48f0a2e5950f9cdd89ec5e9d3bb2e73ca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:00 +0000
Subject: [PATCH 20/31] fix: keep the inner optimizers when copying a robust
 model

The optimizer of a copied or unpickled model lost its content, so the copy could
not be trained.
---
 skwdro/solvers/oracle_torch.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index d56b032..8725da4 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -16,7 +16,9 @@ IMP_SAMP = True
 
 class CompositeOptimizer(pt.optim.Optimizer):
     def __init__(self, params, lbd, n_iter, optimizer):
+        params = list(params)
         self.lbd = lbd
+        self._init_args = (params, lbd, n_iter, optimizer)
 
         def make_optim(params):
             if optimizer == 'mechanic':
@@ -55,10 +57,22 @@ class CompositeOptimizer(pt.optim.Optimizer):
         super(CompositeOptimizer, self).__init__(chain(params, [lbd]), {})
 
     def __getstate__(self) -> Dict[str, object]:
-        s = {key: val.__getstate__() for key, val in self.opts.items()}
-        s['init_state_lbd'] = self.init_state_lbd
-        s["defaults"] = {}
-        return s
+        return {
+            'init_args': self._init_args,
+            'opts': self.state_dict(),
+            'schedulers': {
+                k: sch.state_dict() for (k, sch) in self.schedulers.items()
+            },
+            'init_state_lbd': self.init_state_lbd
+        }
+
+    def __setstate__(self, state):
+        # The inner optimizers are rebuilt around the copied parameters
+        self.__init__(*state['init_args'])
+        self.load_state_dict(state['opts'])
+        for (k, sch) in self.schedulers.items():
+            sch.load_state_dict(state['schedulers'][k])
+        self.init_state_lbd = state['init_state_lbd']
 
     @overload
     def step(self, closure: None = None) -> None:
-- 
2.43.0


From c1fa7784b2cf58e0ea710560b50a8ff5374b25af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:00 +0000
Subject: [PATCH 21/31] fix: refuse unknown engines in cost codes with a kappa

---
 skwdro/base/cost_decoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skwdro/base/cost_decoder.py b/skwdro/base/cost_decoder.py
index 43ac647..9cfe00a 100644
--- a/skwdro/base/cost_decoder.py
+++ b/skwdro/base/cost_decoder.py
@@ -114,6 +114,7 @@ def parse_code_torch(
             kappa = DEFAULT_KAPPA
         elif len(splitted) == 5:
             engine_, id_, power_, type_, kappa_ = splitted
+            assert engine_ == 't', "Torch engine not recognized"
             kappa = float(kappa_)
         else:
             raise ValueError("Cost code invalid: " + code)
-- 
2.43.0


From 64d66938ee82191a875fac38b75e87335a3a5594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:05 +0000
Subject: [PATCH 22/31] fix: recentre the log-density of the sampler that
 switches labels

Labels drawn by switching signs have no mean to translate, so asking for the
recentred log-density of this sampler raised NotImplementedError.  Build the
switching law around the given labels instead.
---
 skwdro/base/samplers/torch/classif_sampler.py | 34 ++++++++++++++-----
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/skwdro/base/samplers/torch/classif_sampler.py b/skwdro/base/samplers/torch/classif_sampler.py
index 2766e9b..36f4b44 100644
--- a/skwdro/base/samplers/torch/classif_sampler.py
+++ b/skwdro/base/samplers/torch/classif_sampler.py
@@ -193,18 +193,34 @@ class ClassificationNormalBernouilliSampler(LabeledSampler, IsOptionalCovariance
                 loc=xi,
                 **covar  # type: ignore
             ),
-            dst.TransformedDistribution(
-                dst.Bernoulli(
-                    p
-                ),
-                dst.transforms.AffineTransform(
-                    loc=-xi_labels,
-                    scale=2 * xi_labels
-                )
-            ),
+            self._labels_law(xi_labels),
             seed
         )
 
+    def _labels_law(self, xi_labels: pt.Tensor) -> dst.TransformedDistribution:
+        return dst.TransformedDistribution(
+            dst.Bernoulli(
+                self.p
+            ),
+            dst.transforms.AffineTransform(
+                loc=-xi_labels,
+                scale=2 * xi_labels
+            )
+        )
+
+    def log_prob_recentered(
+        self,
+        xi: pt.Tensor,
+        xi_labels: Optional[pt.Tensor],
+        zeta: pt.Tensor,
+        zeta_labels: Optional[pt.Tensor]
+    ) -> pt.Tensor:
+        # The labels are not translated but switched around their centre
+        assert zeta_labels is not None and xi_labels is not None
+        return self._format_logprobs(
+            self.data_s, zeta - xi + self.data_s.mean
+        ) + self._format_logprobs(self._labels_law(xi_labels), zeta_labels)
+
     def sample_labels(self, n_sample: int) -> pt.Tensor:
         """
         Overrides w/ ``sample`` to prevent ``rsample`` from crashing since bernouilli
-- 
2.43.0


From 0be5210c65db1a31b6bba75bbc46356fa6362cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:46 +0000
Subject: [PATCH 23/31] fix: draw and evaluate covariance samplers in the
 precision of the data

A scalar scale was turned into a single precision factor, so these samplers
could not draw samples for double precision data.
---
 skwdro/base/samplers/torch/base_samplers.py      |  5 +++--
 skwdro/base/samplers/torch/classif_sampler.py    | 14 ++++++++++----
 skwdro/base/samplers/torch/newsvendor_sampler.py |  2 +-
 skwdro/base/samplers/torch/portfolio_sampler.py  |  4 ++--
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/skwdro/base/samplers/torch/base_samplers.py b/skwdro/base/samplers/torch/base_samplers.py
index 74fdd40..c4765ea 100644
--- a/skwdro/base/samplers/torch/base_samplers.py
+++ b/skwdro/base/samplers/torch/base_samplers.py
@@ -234,7 +234,8 @@ class IsOptionalCovarianceSampler(ABC):
         sigma: Optional[Union[float, pt.Tensor]] = None,
         tril: Optional[pt.Tensor] = None,
         prec: Optional[pt.Tensor] = None,
-        cov: Optional[pt.Tensor] = None
+        cov: Optional[pt.Tensor] = None,
+        dtype: Optional[pt.dtype] = None
     ) -> Dict[str, pt.Tensor]:
         """
         Sets up the covariance matrix in the correct format to give as a kwarg to torch distributions.
@@ -245,7 +246,7 @@ class IsOptionalCovarianceSampler(ABC):
         * prec: defines the precision matrix C^-1, only useful for fast CDF computation and bad otherwise
         """
         if sigma is not None:
-            return {"scale_tril": pt.eye(d) * sigma}
+            return {"scale_tril": pt.eye(d, dtype=dtype) * sigma}
         elif tril is not None:
             return {"scale_tril": tril}
         elif cov is not None:
diff --git a/skwdro/base/samplers/torch/classif_sampler.py b/skwdro/base/samplers/torch/classif_sampler.py
index 36f4b44..633cfd8 100644
--- a/skwdro/base/samplers/torch/classif_sampler.py
+++ b/skwdro/base/samplers/torch/classif_sampler.py
@@ -47,9 +47,11 @@ class ClassificationNormalNormalSampler(LabeledSampler, IsOptionalCovarianceSamp
         """
         assert len(xi.size()) >= 2
         assert len(xi_labels.size()) >= 2
-        covar = self.init_covar(xi.size(-1), sigma, tril, prec, cov)
+        covar = self.init_covar(
+            xi.size(-1), sigma, tril, prec, cov, xi.dtype
+        )
         labels_covar = self.init_covar(
-            xi_labels.size(-1), l_sigma, l_tril, l_prec, l_cov
+            xi_labels.size(-1), l_sigma, l_tril, l_prec, l_cov, xi_labels.dtype
         )
         super(ClassificationNormalNormalSampler, self).__init__(
             dst.MultivariateNormal(
@@ -113,7 +115,9 @@ class ClassificationNormalIdSampler(LabeledSampler, IsOptionalCovarianceSampler)
         See :py:class:`skwdro.base.samplers.torch.base_samplers.IsOptionalCovarianceSampler`
         for other arguments.
         """
-        covar = self.init_covar(xi.size(-1), sigma, tril, prec, cov)
+        covar = self.init_covar(
+            xi.size(-1), sigma, tril, prec, cov, xi.dtype
+        )
         super(ClassificationNormalIdSampler, self).__init__(
             dst.MultivariateNormal(
                 loc=xi,
@@ -186,7 +190,9 @@ class ClassificationNormalBernouilliSampler(LabeledSampler, IsOptionalCovariance
         for other arguments.
         """
         assert 0. <= p <= 1.
-        covar = self.init_covar(xi.size(-1), sigma, tril, prec, cov)
+        covar = self.init_covar(
+            xi.size(-1), sigma, tril, prec, cov, xi.dtype
+        )
         self.p = p
         super(ClassificationNormalBernouilliSampler, self).__init__(
             dst.MultivariateNormal(
diff --git a/skwdro/base/samplers/torch/newsvendor_sampler.py b/skwdro/base/samplers/torch/newsvendor_sampler.py
index a763046..1b3d51c 100644
--- a/skwdro/base/samplers/torch/newsvendor_sampler.py
+++ b/skwdro/base/samplers/torch/newsvendor_sampler.py
@@ -40,7 +40,7 @@ class NewsVendorNormalSampler(NoLabelsSampler, IsOptionalCovarianceSampler):
                 loc=xi,
                 **self.init_covar(
                     xi.size(-1),
-                    sigma, tril, prec, cov
+                    sigma, tril, prec, cov, xi.dtype
                 )  # type: ignore
             ),
             seed
diff --git a/skwdro/base/samplers/torch/portfolio_sampler.py b/skwdro/base/samplers/torch/portfolio_sampler.py
index f718429..fa3d4c1 100644
--- a/skwdro/base/samplers/torch/portfolio_sampler.py
+++ b/skwdro/base/samplers/torch/portfolio_sampler.py
@@ -40,7 +40,7 @@ class PortfolioNormalSampler(NoLabelsSampler, IsOptionalCovarianceSampler):
                 loc=xi,
                 **self.init_covar(
                     xi.size(-1),
-                    sigma, tril, prec, cov
+                    sigma, tril, prec, cov, xi.dtype
                 )  # type: ignore
             ),
             seed
@@ -96,7 +96,7 @@ class PortfolioLaplaceSampler(NoLabelsSampler, IsOptionalCovarianceSampler):
                 loc=xi,
                 **self.init_covar(
                     xi.size(-1),
-                    sigma, tril, prec, cov
+                    sigma, tril, prec, cov, xi.dtype
                 )  # type: ignore
             ),
             seed
-- 
2.43.0


From c31237fdd4f4565a93a3a0b171d615f5be42eac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:20 +0000
Subject: [PATCH 24/31] fix: skip the optimizer of the dual variable when it
 has no gradient

The mechanic optimizer raised at radius zero, where the dual variable is
not optimized.
---
 skwdro/solvers/oracle_torch.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index 8725da4..6c0fe9c 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -86,10 +86,17 @@ class CompositeOptimizer(pt.optim.Optimizer):
 
     def step(self, closure: Optional[Callable] = None) -> Optional[float]:
         del closure
-        for opt in self.opts.values():
+        for (k, opt) in self.opts.items():
+            if all(
+                param.grad is None
+                for group in opt.param_groups
+                for param in group['params']
+            ):
+                # The dual variable of a null radius is not optimized
+                continue
             opt.step()
-        for scheduler in self.schedulers.values():
-            scheduler.step()
+            if k in self.schedulers:
+                self.schedulers[k].step()
         with pt.no_grad():
             self.lbd.clamp_(0., None)
         return None
-- 
2.43.0


From d7cdaa607373b01c30e5f1ce6b17216e53564f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:12 +0000
Subject: [PATCH 25/31] fix: let the stopping rule watch the dual variable at
 radius zero

The dual variable is not optimized there and has no gradient, which raised.
---
 skwdro/solvers/optim_cond.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skwdro/solvers/optim_cond.py b/skwdro/solvers/optim_cond.py
index 6cbad04..95ea883 100644
--- a/skwdro/solvers/optim_cond.py
+++ b/skwdro/solvers/optim_cond.py
@@ -157,6 +157,9 @@ class OptCondTorch:
             return dual_loss.lam.detach().clone()
 
         def lamgrad() -> pt.Tensor:
+            if not dual_loss._lam.requires_grad:
+                # Not optimized when the radius is null
+                return pt.zeros_like(dual_loss._lam).flatten()
             return maybe_flatten_grad_else_raise(dual_loss._lam)
 
         ci = self.check_iter(it_number)
-- 
2.43.0


From ccadbfd1d2b210b62da4fa02dd5ee962a274c7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:46 +0000
Subject: [PATCH 26/31] fix: do not keep the autograd graph in the stopping
 rule

Estimators holding a used rule could not be cloned or copied.
---
 skwdro/solvers/optim_cond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/optim_cond.py b/skwdro/solvers/optim_cond.py
index 95ea883..4bd1833 100644
--- a/skwdro/solvers/optim_cond.py
+++ b/skwdro/solvers/optim_cond.py
@@ -431,7 +431,7 @@ class OptCondTorch:
         parameters.
         """
         return pt.concat([*map(
-            lambda t: t.flatten(),
+            lambda t: t.detach().flatten(),
             module.parameters()
         )])
 
-- 
2.43.0


From 812557b62c6909bb22f95889ccce645f1662f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:50 +0000
Subject: [PATCH 27/31] fix: predict several classes when the radius is a numpy
 double

---
 skwdro/linear_models/_logistic_regression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 70b0d58..8df980c 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -390,7 +390,9 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
             return np.vstack((1 - p, p)).T
         else:
             return self.wdro_loss_.primal_loss.transform(
-                pt.from_numpy(X).to(self.wdro_loss_.rho)
+                pt.from_numpy(X).to(
+                    self.wdro_loss_.primal_loss.transform.weight
+                )
             ).softmax(dim=-1).detach().cpu().numpy()
 
     def predict(self, X):
-- 
2.43.0


From 0f67e721f74723d75c30bc27d6f471497f1326f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:28 +0000
Subject: [PATCH 28/31] fix: expose the quantile of portfolios fitted by an
 entropic solver

---
 skwdro/operations_research/_portfolio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 8b86525..ff411d2 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -250,6 +250,9 @@ class Portfolio(BaseEstimator):
             self.coef_ = detach_tensor(
                 self._wdro_loss.primal_loss.loss.assets.weight  # type: ignore
             )
+            self.tau_ = detach_tensor(
+                self._wdro_loss.primal_loss.loss.tau  # type: ignore
+            )
 
         else:
             raise NotImplementedError("Designation for solver not recognized")
-- 
2.43.0


From f75ed7dedd19c40c2f322d895ca873793fa96d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:39 +0000
Subject: [PATCH 29/31] fix: accept reversed views of the data in the torch
 code paths

Torch refuses arrays with negative strides. Copy the data where the estimators
convert arrays to tensors.
---
 skwdro/linear_models/_logistic_regression.py | 2 +-
 skwdro/operations_research/_newsvendor.py    | 2 +-
 skwdro/operations_research/_portfolio.py     | 4 ++--
 skwdro/operations_research/_weber.py         | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 8df980c..92fa4f9 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -383,7 +383,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
         check_is_fitted(self, ['X_', 'y_'])
 
         # Input validation
-        X = check_array(X)
+        X = check_array(X).copy()
 
         if not hasattr(self, "wdro_loss_") or len(self.classes_) <= 2:
             p = self.predict_proba_2Class(X)
diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 64cd6ca..ae521fb 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -229,7 +229,7 @@ class NewsVendor(BaseEstimator):
         assert self.is_fitted_  # We have to fit before evaluating
 
         # Check that X has correct shape
-        X = check_array(X)
+        X = check_array(X).copy()
 
         if "torch" in self.solver:
             return self._wdro_loss.primal_loss.forward(
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index ff411d2..d0ca67f 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -149,7 +149,7 @@ class Portfolio(BaseEstimator):
         del y
 
         # Check that X has correct shape
-        X = check_array(X)
+        X = check_array(X).copy()
 
         if self.rho is not float:
             try:
@@ -287,7 +287,7 @@ class Portfolio(BaseEstimator):
         '''
 
         # Check that X has correct shape
-        X = check_array(X)
+        X = check_array(X).copy()
 
         assert self.is_fitted_  # We have to fit before evaluating
 
diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index e8057e7..e8c9278 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -193,8 +193,8 @@ class Weber(BaseEstimator):
         '''
 
         # Check that X has correct shape
-        X = check_array(X)
-        y = np.ones(len(X)) if y is None else np.asarray(y)
+        X = check_array(X).copy()
+        y = np.ones(len(X)) if y is None else np.array(y)
 
         assert self.is_fitted_  # We have to fit before evaluating
 
-- 
2.43.0


From 0cbe6132a8b5eabdebf6c15d82ede9e757a2132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:01:24 +0000
Subject: [PATCH 30/31] fix: keep the dual variable out of the gradient of the
 empirical risk

---
 skwdro/solvers/_dual_interfaces/dual_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/_dual_interfaces/dual_loss.py b/skwdro/solvers/_dual_interfaces/dual_loss.py
index 00116de..99c5a46 100644
--- a/skwdro/solvers/_dual_interfaces/dual_loss.py
+++ b/skwdro/solvers/_dual_interfaces/dual_loss.py
@@ -46,7 +46,7 @@ class _DualFormulation(_SampleDisplacer):
                 xi.unsqueeze(0),  # (1, m, d)
                 maybe_unsqueeze(xi_labels, dim=0),  # (1, m, d') or None
             )  # (1, m, 1)
-            first_term: pt.Tensor = self.rho * self.lam
+            first_term: pt.Tensor = self.rho * self.lam.detach()
             primal_loss = self.reduce_loss_batch(batched_pl.squeeze(0))
             return first_term + primal_loss
         elif self.rho > 0.:
-- 
2.43.0


From ee1d89fcb847d6979bfe986beff269840b4019eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:06:39 +0000
Subject: [PATCH 31/31] fix: warm up resampling solvers on the empirical risk

---
 skwdro/solvers/entropic_dual_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 918b5e1..4ad83d9 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -266,7 +266,7 @@ def optim_postsample(
     pretrain_iters, train_iters = interpret_steps_struct(loss.n_iter)
 
     # Pretrain ERM
-    loss.erm_mode = False
+    loss.erm_mode = True
     for _ in range(pretrain_iters):
         optimizer.zero_grad()
 
-- 
2.43.0

