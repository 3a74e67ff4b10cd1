From de19cfced4965b742a39f5c80898d7d5d2e1fb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:25 +0000
Subject: [PATCH 01/43] fix: subtract log(n_samples) per data point before
 reducing the dual loss

With reduction='sum' the normalisation of the inner expectation was
subtracted once for the whole batch instead of once per data point.
---
 skwdro/solvers/_dual_interfaces/dual_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/_dual_interfaces/dual_loss.py b/skwdro/solvers/_dual_interfaces/dual_loss.py
index 0270bf1..72fb3e4 100644
--- a/skwdro/solvers/_dual_interfaces/dual_loss.py
+++ b/skwdro/solvers/_dual_interfaces/dual_loss.py
@@ -128,8 +128,8 @@ class _DualFormulation(_SampleDisplacer):
             # Expectation on the zeta samples (collapse 1st dim)
             second_term = self.reduce_loss_batch(
                 pt.logsumexp(integrand, 0)
+                - pt.log(pt.tensor(zeta.size(0)))
             )  # -> (m, 1)
-            second_term -= pt.log(pt.tensor(zeta.size(0)))  # -> (m, 1)
             return first_term + self.epsilon * second_term  # (1,)
         elif self.rho.isnan().any():
             return pt.tensor(pt.nan, requires_grad=True)
-- 
2.43.0


From f65d801dcb72c75d064477965c608930f4007bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:02 +0000
Subject: [PATCH 02/43] fix: evaluate the pre-sampled dual loss at rho=0 with
 cached samples

The leading batch dimension was not removed before the reduction, so the
evaluation failed with an AssertionError.
---
 skwdro/solvers/oracle_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index 0fd4ec4..d56b032 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -526,7 +526,7 @@ class DualPreSampledLoss(_DualLoss):
                         # (1, m, d') or None
                         xi_labels.unsqueeze(0) if xi_labels is not None else None
                     )  # (1, m, 1)
-                    primal_loss = self.reduce_loss_batch(batched_pl)
+                    primal_loss = self.reduce_loss_batch(batched_pl.squeeze(0))
                     return first_term + primal_loss
                 else:
                     # Reuse the same samples as last forward pass
-- 
2.43.0


From b5d219e0a57ecf4c576b134c6c854db76f85daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:01 +0000
Subject: [PATCH 03/43] fix: recentre the labelled sampler's densities on the
 given point

The labelled variant of log_prob_recentered ignored the new centre, so
the importance sampling correction was always zero for labelled data.
---
 skwdro/base/samplers/torch/base_samplers.py   | 21 ++++++++++--
 skwdro/base/samplers/torch/classif_sampler.py | 34 ++++++++++++++-----
 2 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/skwdro/base/samplers/torch/base_samplers.py b/skwdro/base/samplers/torch/base_samplers.py
index d354928..0147b83 100644
--- a/skwdro/base/samplers/torch/base_samplers.py
+++ b/skwdro/base/samplers/torch/base_samplers.py
@@ -213,12 +213,27 @@ class LabeledSampler(BaseSampler, ABC):
             zeta_labels: Optional[pt.Tensor]
     ) -> pt.Tensor:
         assert zeta_labels is not None and xi_labels is not None
-        # TODO: FIX
-        lp_zeta = self._format_logprobs(self.data_s, zeta)
-        lp_zeta_labels = self._format_logprobs(self.labels_s, zeta_labels)
+        lp_zeta = self._format_logprobs(
+            self.data_s,
+            zeta - xi + self.data_s.mean
+        )
+        lp_zeta_labels = self._labels_log_prob_recentered(
+            xi_labels if xi_labels.dim() > 1 else xi_labels.unsqueeze(-1),
+            zeta_labels
+        )
         lp = lp_zeta + lp_zeta_labels
         return lp
 
+    def _labels_log_prob_recentered(
+            self,
+            xi_labels: pt.Tensor,
+            zeta_labels: pt.Tensor
+    ) -> pt.Tensor:
+        return self._format_logprobs(
+            self.labels_s,
+            zeta_labels - xi_labels + self.labels_s.mean
+        )
+
 # Helper class ########################
 
 
diff --git a/skwdro/base/samplers/torch/classif_sampler.py b/skwdro/base/samplers/torch/classif_sampler.py
index 2766e9b..aa7b1f3 100644
--- a/skwdro/base/samplers/torch/classif_sampler.py
+++ b/skwdro/base/samplers/torch/classif_sampler.py
@@ -193,18 +193,34 @@ class ClassificationNormalBernouilliSampler(LabeledSampler, IsOptionalCovariance
                 loc=xi,
                 **covar  # type: ignore
             ),
-            dst.TransformedDistribution(
-                dst.Bernoulli(
-                    p
-                ),
-                dst.transforms.AffineTransform(
-                    loc=-xi_labels,
-                    scale=2 * xi_labels
-                )
-            ),
+            self._switched_labels(xi_labels),
             seed
         )
 
+    def _switched_labels(
+        self,
+        xi_labels: pt.Tensor
+    ) -> dst.TransformedDistribution:
+        return dst.TransformedDistribution(
+            dst.Bernoulli(
+                self.p
+            ),
+            dst.transforms.AffineTransform(
+                loc=-xi_labels,
+                scale=2 * xi_labels
+            )
+        )
+
+    def _labels_log_prob_recentered(
+        self,
+        xi_labels: pt.Tensor,
+        zeta_labels: pt.Tensor
+    ) -> pt.Tensor:
+        return self._format_logprobs(
+            self._switched_labels(xi_labels),
+            zeta_labels
+        )
+
     def sample_labels(self, n_sample: int) -> pt.Tensor:
         """
         Overrides w/ ``sample`` to prevent ``rsample`` from crashing since bernouilli
-- 
2.43.0


From ab57f26af1a50acfa7381e765a2b51c56e1e052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:00 +0000
Subject: [PATCH 04/43] fix: switch labels with probability p in the Bernoulli
 sampler

The documented switch probability was used as the probability of
keeping the label.
---
 skwdro/base/samplers/torch/classif_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/base/samplers/torch/classif_sampler.py b/skwdro/base/samplers/torch/classif_sampler.py
index aa7b1f3..8e167c4 100644
--- a/skwdro/base/samplers/torch/classif_sampler.py
+++ b/skwdro/base/samplers/torch/classif_sampler.py
@@ -203,7 +203,7 @@ class ClassificationNormalBernouilliSampler(LabeledSampler, IsOptionalCovariance
     ) -> dst.TransformedDistribution:
         return dst.TransformedDistribution(
             dst.Bernoulli(
-                self.p
+                1. - self.p
             ),
             dst.transforms.AffineTransform(
                 loc=-xi_labels,
-- 
2.43.0


From 6596cea66712b71bd8e0935288081e5b4846d40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:00 +0000
Subject: [PATCH 05/43] fix: accept unlabelled data in the newsvendor loss

The loss has no labels but asserted that some were given, so it could
not be evaluated by the dual loss.
---
 skwdro/base/losses_torch/newsvendor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/base/losses_torch/newsvendor.py b/skwdro/base/losses_torch/newsvendor.py
index aedb15b..fd31972 100644
--- a/skwdro/base/losses_torch/newsvendor.py
+++ b/skwdro/base/losses_torch/newsvendor.py
@@ -68,7 +68,7 @@ class NewsVendorLoss_torch(Loss):
         xi_labels : NoneType
             placeholder, do not touch
         """
-        assert xi_labels is not None
+        del xi_labels
         returns = self.k * self.theta
         costs = self.u * pt.minimum(self.theta, xi).mean(dim=-1, keepdim=True)
         return returns - costs
-- 
2.43.0


From cdd0b9704c47d285de6ffd5f7fb996192b177e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:00 +0000
Subject: [PATCH 06/43] fix: keep one loss value per point in the flat labelled
 layout

Squeezing the losses before averaging the output dimension made the
wrapped loss return the batch mean.
---
 skwdro/base/losses_torch/wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skwdro/base/losses_torch/wrapper.py b/skwdro/base/losses_torch/wrapper.py
index 34fc7e5..a3456b1 100644
--- a/skwdro/base/losses_torch/wrapper.py
+++ b/skwdro/base/losses_torch/wrapper.py
@@ -175,8 +175,8 @@ class WrappedPrimalLoss(Loss):
                 # Forwarding xis
                 flat_loss = self._flat_value_w_labels(
                     xi, xi_labels
-                ).squeeze()
-                return self._reduce_flat_spatial_dims_loss(flat_loss)
+                )
+                return self._reduce_flat_spatial_dims_loss(flat_loss).squeeze()
             elif xi.dim() == xi_labels.dim() == 1:
                 # Forwarding xis (no batch dim)
                 b_xi = xi.unsqueeze(0)  # need to consider as zetas, will squeeze later
-- 
2.43.0


From a790cb0f3ab36a63d74fe9784b92a453cbdc838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:00 +0000
Subject: [PATCH 07/43] fix: do not restart the random stream when a sampler is
 moved

Resetting the mean of a seeded sampler seeded the generators again, so
every resampling drew the same noise.
---
 skwdro/base/samplers/torch/base_samplers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skwdro/base/samplers/torch/base_samplers.py b/skwdro/base/samplers/torch/base_samplers.py
index 0147b83..fc7b237 100644
--- a/skwdro/base/samplers/torch/base_samplers.py
+++ b/skwdro/base/samplers/torch/base_samplers.py
@@ -23,10 +23,10 @@ class BaseSampler(ABC):
         seed: int|None
             rando seed for np and torch rngs.
         """
+        # Set seed (only once, not each time the mean is reset)
+        first_init = not hasattr(self, "seed")
         self.seed = seed
-
-        # Set seed
-        if seed is not None:
+        if seed is not None and first_init:
             pt.manual_seed(seed)
             random.seed(seed)
 
-- 
2.43.0


From 501d170ff69c69cee3d5a57e753234d17ef2f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:00 +0000
Subject: [PATCH 08/43] fix: make train() put the robust loss in training mode

Calling train() left every submodule in evaluation mode, and
train(True) silently turned robustness off.
---
 skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
index 403ac8a..b772c48 100644
--- a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
+++ b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
@@ -292,8 +292,8 @@ class _DualLossBase(nn.Module, ABC):
         self.erm_mode = True
         return super().eval()
 
-    def train(self, mode: bool = False):
-        self.erm_mode = mode
+    def train(self, mode: bool = True):
+        self.erm_mode = False
         return super().train(mode)
 
 
-- 
2.43.0


From 1b43f3aab501e302f1c0ec91f124abf56dc61fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:01 +0000
Subject: [PATCH 09/43] fix: restore the model's train/eval modes after taking
 gradients

Computing the displacement directions put every submodule in training
mode, even those the user had put in evaluation mode.
---
 skwdro/solvers/_dual_interfaces/_impsamp_interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
index d8a7812..8d59176 100644
--- a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
+++ b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
@@ -107,6 +107,7 @@ class _SampleDisplacer(_SampledDualLoss):
         disps: (1, m, d), (1, m, d')
         """
         model = self.primal_loss
+        modes = [(module, module.training) for module in model.modules()]
         model.eval()  # Deactivate batch-norms & dropouts
         thetas = {k: v.detach() for k, v in model.named_parameters()}
         _internal_states = {k: v.detach() for k, v in model.named_buffers()}
@@ -155,7 +156,8 @@ class _SampleDisplacer(_SampledDualLoss):
             )
         )
         psg = per_sample_grad_func(xi, xi_labels, thetas, _internal_states)
-        model.train()
+        for module, mode in modes:
+            module.training = mode
         assert isinstance(psg[0], pt.Tensor)
         if xi_labels is None:
             return psg[0], None
-- 
2.43.0


From 3df6d20b2d52cde60689ee0ad20f1fda069d870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:01 +0000
Subject: [PATCH 10/43] fix: keep the user's frozen parameters frozen

Computing the displacement directions unfroze every parameter of the
model, including those the user had frozen.
---
 skwdro/solvers/_dual_interfaces/_impsamp_interface.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
index 8d59176..04d6628 100644
--- a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
+++ b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
@@ -194,6 +194,7 @@ class _SampleDisplacer(_SampledDualLoss):
         """
 
         # Freeze the parameters before differentiation wrt xi
+        flags = [(param, param.requires_grad) for param in self.parameters()]
         self.freeze()
 
         # "Dual" samples for forward pass, to get the gradients wrt them
@@ -202,8 +203,9 @@ class _SampleDisplacer(_SampledDualLoss):
             maybe_unsqueeze(xi_labels)
         )
 
-        # Unfreeze the parameters to allow training
-        self.freeze(rg=True)
+        # Unfreeze the parameters that were trainable
+        for param, flag in flags:
+            param.requires_grad = flag
         return grad_xi, grad_xi_labels
 
     def displace_samples(
-- 
2.43.0


From 8e82e73d24c0db0f044f7a417a9c4bbc2e86b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:01 +0000
Subject: [PATCH 11/43] fix: remember the value of the multiplier in the
 stopping criterion

The memory held the parameter itself, so its change was always zero and
the criterion fired too early.
---
 skwdro/solvers/optim_cond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/optim_cond.py b/skwdro/solvers/optim_cond.py
index ac34ee9..80447e2 100644
--- a/skwdro/solvers/optim_cond.py
+++ b/skwdro/solvers/optim_cond.py
@@ -147,7 +147,7 @@ class OptCondTorch:
             return self.get_flat_grad(dual_loss.primal_loss)
 
         def lam() -> pt.Tensor:
-            return dual_loss.lam
+            return dual_loss.lam.detach().clone()
 
         def lamgrad() -> pt.Tensor:
             return maybe_flatten_grad_else_raise(dual_loss._lam)
-- 
2.43.0


From 8194f2256daa39905a1ca86ca7c2a8b839f27519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:01 +0000
Subject: [PATCH 12/43] fix: forget the previous run when a stopping criterion
 is reused

The gradients and parameters of the first problem ever solved were the
reference for all the following ones.
---
 skwdro/solvers/entropic_dual_torch.py | 1 +
 skwdro/solvers/optim_cond.py          | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 92999c2..ffda1d5 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -97,6 +97,7 @@ def solve_dual_wdro(loss: _DualLoss, p_hat: Distribution, opt: OptCondTorch):
     optim_ = optim_presample if loss.presample else optim_postsample
 
     opt_cond: OptCondTorch = opt
+    opt_cond.reset()
 
     losses = optim_(optimizer, xi, xi_labels, loss, opt_cond)
     theta = detach_tensor(loss.theta)
diff --git a/skwdro/solvers/optim_cond.py b/skwdro/solvers/optim_cond.py
index 80447e2..8a895dc 100644
--- a/skwdro/solvers/optim_cond.py
+++ b/skwdro/solvers/optim_cond.py
@@ -108,7 +108,12 @@ class OptCondTorch:
         self.max_iter: int = 0 if max_iter is None else max_iter
 
         self.verbose = verbose
+        self.reset()
 
+    def reset(self):
+        """
+        Forget the states seen so far, to monitor a new run.
+        """
         self.l_mem: Optional[pt.Tensor] = None
         self.t_mem: Optional[pt.Tensor] = None
         self.l_0: Optional[pt.Tensor] = None
-- 
2.43.0


From b50a70cf3095ce92b41d35b9949c32f864301ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:14 +0000
Subject: [PATCH 13/43] fix: honour fit_intercept=False in the entropic linear
 regression

---
 skwdro/linear_models/_linear_regression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index 7656530..d1253f2 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -181,7 +181,7 @@ class LinearRegression(BaseEstimator, RegressorMixin):
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
             _wdro_loss = dualize_primal_loss(
                 nn.MSELoss(reduction="none"),
-                nn.Linear(d, 1),
+                nn.Linear(d, 1, bias=self.fit_intercept),
                 pt.tensor(self.rho),
                 pt.Tensor(emp.samples_x),
                 pt.Tensor(emp.samples_y),
@@ -241,4 +241,6 @@ class LinearRegression(BaseEstimator, RegressorMixin):
         # Input validation
         X = check_array(X)
 
+        if self.intercept_ is None:
+            return X @ self.coef_
         return self.intercept_ + X @ self.coef_
-- 
2.43.0


From 54dbc86b82c2d44dcd03b541b87eb8b047f44d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:14 +0000
Subject: [PATCH 14/43] fix: give class probabilities when no intercept was
 fitted

predict_proba added the missing intercept to the scores and failed.
---
 skwdro/linear_models/_logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 0283a74..fd20b56 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -383,7 +383,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
         X = check_array(X)
 
         if not hasattr(self, "wdro_loss_") or len(self.classes_) <= 2:
-            p = expit(X.dot(self.coef_) + self.intercept_)
+            p = self.predict_proba_2Class(X)
             return np.vstack((1 - p, p)).T
         else:
             return self.wdro_loss_.primal_loss.transform(
-- 
2.43.0


From ffc25806ddfb1d45864fb420ae3e280f33e6129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:51 +0000
Subject: [PATCH 15/43] fix: return probabilities for multiclass problems

predict_proba returned the raw scores of the classes.
---
 skwdro/linear_models/_logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index fd20b56..cd3cb7c 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -388,7 +388,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
         else:
             return self.wdro_loss_.primal_loss.transform(
                 pt.from_numpy(X).to(self.wdro_loss_.rho)
-            ).detach().cpu().numpy()
+            ).softmax(dim=-1).detach().cpu().numpy()
 
     def predict(self, X):
         """ Robust prediction.
-- 
2.43.0


From aba62199773de4bc81b965d4cafe958dc30be0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:51 +0000
Subject: [PATCH 16/43] fix: predict one label per row for multiclass problems

The predictions were a column, unlike the labels given to fit, so that
score() compared arrays of different shapes.
---
 skwdro/linear_models/_logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index cd3cb7c..087c70e 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -419,7 +419,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
             _p = proba >= np.max(proba, axis=1, keepdims=True)
             out = self.le_.inverse_transform(
                 _p.astype('uint8')
-            )
+            ).ravel()
         else:
             raise ValueError(
                 "The label encoder type {type(self.le_)} is not supported."
-- 
2.43.0


From a45c1e37f4ad0b3da6a756f3dd67cef922cf40dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:51 +0000
Subject: [PATCH 17/43] fix: leave the opt_cond parameter of the estimators
 untouched by fit

---
 skwdro/linear_models/_linear_regression.py   | 5 ++---
 skwdro/linear_models/_logistic_regression.py | 5 ++---
 skwdro/operations_research/_newsvendor.py    | 5 ++---
 skwdro/operations_research/_portfolio.py     | 5 ++---
 skwdro/operations_research/_weber.py         | 5 ++---
 5 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index d1253f2..8bf3abe 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -175,8 +175,7 @@ class LinearRegression(BaseEstimator, RegressorMixin):
         elif "torch" in self.solver:
             assert isinstance(self.cost_, TorchCost)
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = OptCondTorch(2) if self.opt_cond is None else self.opt_cond
 
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
             _wdro_loss = dualize_primal_loss(
@@ -201,7 +200,7 @@ class LinearRegression(BaseEstimator, RegressorMixin):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 _wdro_loss,
                 emp,
-                self.opt_cond  # type: ignore
+                opt_cond  # type: ignore
             )
             self.coef_ = detach_tensor(
                 _wdro_loss.primal_loss.transform.weight)  # type: ignore
diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 087c70e..be9474c 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -261,8 +261,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                 self.solver in ("entropic_torch", "entropic_torch_post")
             )
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = OptCondTorch(2) if self.opt_cond is None else self.opt_cond
 
             _bilat = len(self.classes_) == 2
             module_out = 1 if _bilat else len(self.classes_)
@@ -299,7 +298,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 self.wdro_loss_,
                 emp,
-                self.opt_cond  # type: ignore
+                opt_cond  # type: ignore
             )
 
             assert isinstance(self.wdro_loss_.primal_loss.transform, nn.Linear)
diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 28dd544..c408f82 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -152,8 +152,7 @@ class NewsVendor(BaseEstimator):
             ))
         elif "torch" in self.solver:
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = OptCondTorch(2) if self.opt_cond is None else self.opt_cond
 
             self._wdro_loss = dualize_primal_loss(
                 CustomNewsvendorLoss(self.k, self.u),
@@ -174,7 +173,7 @@ class NewsVendor(BaseEstimator):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 self._wdro_loss,
                 emp,
-                self.opt_cond,  # type: ignore
+                opt_cond,  # type: ignore
             )
             self.coef_ = detach_tensor(
                 self._wdro_loss.primal_loss.loss.theta_)  # type: ignore
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 612e549..4261d43 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -213,8 +213,7 @@ class Portfolio(BaseEstimator):
             self.coef_, self.tau_, self.dual_var_, self.result_ = _res
         elif "torch" in self.solver:
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = OptCondTorch(2) if self.opt_cond is None else self.opt_cond
 
             self._wdro_loss = dualize_primal_loss(
                 SimplePortfolio(m, risk_aversion=self.eta_,
@@ -236,7 +235,7 @@ class Portfolio(BaseEstimator):
             _res = entTorch.solve_dual_wdro(
                 self._wdro_loss,
                 emp,
-                self.opt_cond,  # type: ignore
+                opt_cond,  # type: ignore
             )
             (
                 self.coef_,
diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index 2bfe8cd..40733af 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -125,8 +125,7 @@ class Weber(BaseEstimator):
             ))
         elif "torch" in self.solver:
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = OptCondTorch(2) if self.opt_cond is None else self.opt_cond
 
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
             self._wdro_loss = dualize_primal_loss(
@@ -152,7 +151,7 @@ class Weber(BaseEstimator):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 self._wdro_loss,
                 emp,
-                self.opt_cond,
+                opt_cond,
             )
             self.coef_ = detach_tensor(
                 self._wdro_loss.primal_loss.loss.pos  # type: ignore
-- 
2.43.0


From 08f3d5ce3785f4bd9df6d123fc183637d3ebcb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:51 +0000
Subject: [PATCH 18/43] fix: seed the initial weights of the entropic
 estimators

The model was initialised before random_state was used, so two fits of
the same estimator on the same data could differ.
---
 skwdro/linear_models/_linear_regression.py   | 2 ++
 skwdro/linear_models/_logistic_regression.py | 2 ++
 skwdro/operations_research/_newsvendor.py    | 2 ++
 skwdro/operations_research/_portfolio.py     | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index 8bf3abe..ceb6a26 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -178,6 +178,8 @@ class LinearRegression(BaseEstimator, RegressorMixin):
             opt_cond = OptCondTorch(2) if self.opt_cond is None else self.opt_cond
 
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)
             _wdro_loss = dualize_primal_loss(
                 nn.MSELoss(reduction="none"),
                 nn.Linear(d, 1, bias=self.fit_intercept),
diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index be9474c..79615bd 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -268,6 +268,8 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
             loss = (
                 BiDiffSoftMarginLoss if _bilat else nn.CrossEntropyLoss
             )(reduction='none')
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)
             self.wdro_loss_ = dualize_primal_loss(
                 loss,
                 nn.Linear(
diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index c408f82..a832de7 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -154,6 +154,8 @@ class NewsVendor(BaseEstimator):
 
             opt_cond = OptCondTorch(2) if self.opt_cond is None else self.opt_cond
 
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)
             self._wdro_loss = dualize_primal_loss(
                 CustomNewsvendorLoss(self.k, self.u),
                 None,
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 4261d43..eba205a 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -215,6 +215,8 @@ class Portfolio(BaseEstimator):
 
             opt_cond = OptCondTorch(2) if self.opt_cond is None else self.opt_cond
 
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)
             self._wdro_loss = dualize_primal_loss(
                 SimplePortfolio(m, risk_aversion=self.eta_,
                                 risk_level=self.alpha_),
-- 
2.43.0


From 2118ca4ccc0a77e1a7551dd4e27f860001ff9598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:51 +0000
Subject: [PATCH 19/43] fix: resample in the portfolio fit when the solver name
 asks for it

The pre- and post-sampled solvers were swapped.
---
 skwdro/operations_research/_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index eba205a..94bf2cd 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -224,7 +224,7 @@ class Portfolio(BaseEstimator):
                 pt.tensor(self.rho_),
                 pt.Tensor(emp.samples),
                 None,
-                "post" not in self.solver,
+                "pre" not in self.solver,
                 self.cost,
                 self.n_zeta_samples,
                 self.random_state,
-- 
2.43.0


From adc6626230d8d32a3935a9387f3e56c5ad65cc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:51 +0000
Subject: [PATCH 20/43] fix: use the norm of the cost in the dedicated
 portfolio solver

The power of the cost was used as the order of its norm.
---
 skwdro/operations_research/_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 94bf2cd..18eb12c 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -174,7 +174,7 @@ class Portfolio(BaseEstimator):
         emp = EmpiricalDistributionWithoutLabels(m=N, samples=X)
 
         self.cost_ = cost_from_str(self.cost)  # NormCost(1, 1., "L1 cost")
-        p = self.cost_.power
+        p = self.cost_.p
 
         # Setup values C and d that define the polyhedron of xi_maj
         if (self.C is None or self.d is None):
-- 
2.43.0


From 3592ddc1aa2bbf674639e6e304a606bd727bfe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:51 +0000
Subject: [PATCH 21/43] fix: include the risk term when evaluating the
 dedicated portfolio

---
 skwdro/operations_research/_portfolio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 18eb12c..97b009d 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -289,6 +289,8 @@ class Portfolio(BaseEstimator):
         if "entropic" in self.solver:
             return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
         elif self.solver == "dedicated":
-            return -np.mean(X, axis=0) @ self.coef_
+            losses = -X @ self.coef_
+            cvar = self.tau_ + np.maximum(losses - self.tau_, 0.) / self.alpha_
+            return np.mean(losses + self.eta_ * cvar)
         else:
             raise (ValueError("Solver not recognized"))
-- 
2.43.0


From ec5d67a37ed28763c8b463ff3c87cedd78f1eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:51 +0000
Subject: [PATCH 22/43] fix: evaluate the entropic estimators on double
 precision samples

---
 skwdro/operations_research/_newsvendor.py | 4 +++-
 skwdro/operations_research/_portfolio.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index a832de7..13d553e 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -229,7 +229,9 @@ class NewsVendor(BaseEstimator):
         X = check_array(X)
 
         if "entropic" in self.solver:
-            return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
+            return self._wdro_loss.primal_loss.forward(
+                pt.from_numpy(X).to(self._wdro_loss.rho)
+            ).mean()
         elif self.solver == "dedicated":
             gains = self.k * self.coef_
             losses = self.u * np.minimum(self.coef_, X)
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 97b009d..1f074b2 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -287,7 +287,9 @@ class Portfolio(BaseEstimator):
         assert self.is_fitted_  # We have to fit before evaluating
 
         if "entropic" in self.solver:
-            return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
+            return self._wdro_loss.primal_loss.forward(
+                pt.from_numpy(X).to(self._wdro_loss.rho)
+            ).mean()
         elif self.solver == "dedicated":
             losses = -X @ self.coef_
             cvar = self.tau_ + np.maximum(losses - self.tau_, 0.) / self.alpha_
-- 
2.43.0


From 0a8e4bfd2b97018678ca23a6089a6044d6ced840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:51 +0000
Subject: [PATCH 23/43] fix: evaluate and score the Weber estimator on weighted
 samples

The loss needs the weights, so eval() and score() always failed.
---
 skwdro/operations_research/_weber.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index 40733af..0666614 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -5,7 +5,7 @@ import numpy as np
 import torch as pt
 
 from sklearn.base import BaseEstimator
-from sklearn.utils.validation import check_X_y, check_array
+from sklearn.utils.validation import check_X_y
 
 from typing import Optional
 
@@ -165,7 +165,7 @@ class Weber(BaseEstimator):
         # Return the estimator
         return self
 
-    def score(self, X, y=None):
+    def score(self, X, y):
         '''
         Score method to estimate the quality of the model.
 
@@ -173,13 +173,12 @@ class Weber(BaseEstimator):
         ----------
         X : array-like, shape (n_samples_test,m)
             The testing input samples.
-        y : None
-            The prediction. Always None for a Portfolio estimator.
+        y : array-like, shape (n_samples_test,)
+            The weights of the testing samples.
         '''
-        del y
-        return -self.eval(X)
+        return -self.eval(X, y)
 
-    def eval(self, X):
+    def eval(self, X, y):
         '''
         Evaluates the loss with the theta obtained from the fit function.
 
@@ -187,15 +186,20 @@ class Weber(BaseEstimator):
         ----------
         X : array-like, shape (n_samples_test,m)
             The testing input samples.
+        y : array-like, shape (n_samples_test,)
+            The weights of the testing samples.
         '''
 
-        # Check that X has correct shape
-        X = check_array(X)
+        # Check that X and y have correct shape
+        X, y = check_X_y(X, y, y_numeric=True)
 
         assert self.is_fitted_  # We have to fit before evaluating
 
         if "entropic" in self.solver:
-            return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
+            return self._wdro_loss.primal_loss.forward(
+                pt.from_numpy(X).to(self._wdro_loss.rho),
+                pt.from_numpy(y.reshape(-1, 1)).to(self._wdro_loss.rho)
+            ).mean()
         elif self.solver == "dedicated":
             return -np.mean(X, axis=0) @ self.coef_
         else:
-- 
2.43.0


From 59de067eb4e9639bc56a430d5fcfa64c147caa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:51 +0000
Subject: [PATCH 24/43] fix: allow a zero radius in the dedicated linear
 regression

---
 skwdro/solvers/specific_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/specific_solvers.py b/skwdro/solvers/specific_solvers.py
index c4db7fc..7ab0fd7 100644
--- a/skwdro/solvers/specific_solvers.py
+++ b/skwdro/solvers/specific_solvers.py
@@ -156,7 +156,7 @@ def WDROLinRegSpecificSolver(rho: float = 1.0, X: np.ndarray = np.array(
         None), y: np.ndarray = np.array(None), fit_intercept: bool = False):
     n, d = X.shape
 
-    assert rho > 0
+    assert rho >= 0
 
     coeff = cp.Variable(d)
     intercept = cp.Variable(1)
-- 
2.43.0


From c1f6987b402689c585b9b5be2428b87e267bd2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:51 +0000
Subject: [PATCH 25/43] fix: compare the right demands in the dedicated
 newsvendor solver

The critical demand was taken one rank too high, the largest demand was
never considered, and a radius large enough to remove all the demand
returned the sample average solution instead of ordering nothing.
---
 skwdro/solvers/specific_solvers.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/skwdro/solvers/specific_solvers.py b/skwdro/solvers/specific_solvers.py
index 7ab0fd7..fb9b9be 100644
--- a/skwdro/solvers/specific_solvers.py
+++ b/skwdro/solvers/specific_solvers.py
@@ -10,22 +10,20 @@ def WDRONewsvendorSpecificSolver(k=5., u=7., rho=1.0, samples=None):
     assert samples is not None
     z = np.sort(samples, axis=0)
     n = z.shape[0]
-    a = np.array([sum(z[:i, 0]) for i in range(n - 1)])
-    b = np.array([n * rho - z[i + 1, 0] for i in range(n - 1)])
-    c = np.array([n * rho] * (n - 1))
+    a = np.array([sum(z[:i, 0]) for i in range(n)])
+    b = np.array([n * rho - z[i, 0] for i in range(n)])
+    c = np.array([n * rho] * n)
 
     lower_bound = b < a
     upper_bound = a <= c
 
     if not lower_bound.any():
-        lambda_star = u
-        return SAANewsvendorSpecificSolver2(k=k, u=u, samples=samples)
-    elif not upper_bound.any():
+        # All the demand can be moved to zero
         lambda_star = 0
         return 0, lambda_star
     else:
-        condition = [upper_bound[i] and lower_bound[i] for i in range(n - 1)]
-        i_star = condition.index(True) + 1
+        condition = [upper_bound[i] and lower_bound[i] for i in range(n)]
+        i_star = condition.index(True)
 
     s = np.minimum(z / z[i_star, 0], np.ones((n, 1)))
 
-- 
2.43.0


From dacdc169d7e4fc4e14099f5e65e55434c6541852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:51 +0000
Subject: [PATCH 26/43] fix: apply the l2 regularisation of the newsvendor loss

---
 skwdro/base/losses_torch/newsvendor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/base/losses_torch/newsvendor.py b/skwdro/base/losses_torch/newsvendor.py
index fd31972..9c14a78 100644
--- a/skwdro/base/losses_torch/newsvendor.py
+++ b/skwdro/base/losses_torch/newsvendor.py
@@ -71,7 +71,7 @@ class NewsVendorLoss_torch(Loss):
         del xi_labels
         returns = self.k * self.theta
         costs = self.u * pt.minimum(self.theta, xi).mean(dim=-1, keepdim=True)
-        return returns - costs
+        return self.regularize(returns - costs)
 
     @property
     def theta(self) -> pt.Tensor:
-- 
2.43.0


From 3ff54fd5a1f98070d376c45043b14e59d3d71f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:33 +0000
Subject: [PATCH 27/43] fix: reject unknown engines in cost codes with a label
 weight

---
 skwdro/base/cost_decoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skwdro/base/cost_decoder.py b/skwdro/base/cost_decoder.py
index 43ac647..9cfe00a 100644
--- a/skwdro/base/cost_decoder.py
+++ b/skwdro/base/cost_decoder.py
@@ -114,6 +114,7 @@ def parse_code_torch(
             kappa = DEFAULT_KAPPA
         elif len(splitted) == 5:
             engine_, id_, power_, type_, kappa_ = splitted
+            assert engine_ == 't', "Torch engine not recognized"
             kappa = float(kappa_)
         else:
             raise ValueError("Cost code invalid: " + code)
-- 
2.43.0


From a7a417068ad39dc1ecdef379c61ae4c9e9579620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:25 +0000
Subject: [PATCH 28/43] fix: reject cost codes with too many parts

---
 skwdro/base/cost_decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skwdro/base/cost_decoder.py b/skwdro/base/cost_decoder.py
index 9cfe00a..e2bcd2b 100644
--- a/skwdro/base/cost_decoder.py
+++ b/skwdro/base/cost_decoder.py
@@ -38,6 +38,8 @@ def cost_from_str(code: str) -> TorchCost:
     :rtype: TorchCost
     """
     splitted = code.split('-')
+    if len(splitted) not in (4, 5):
+        raise ValueError("Cost code invalid: " + code)
     engine_, id_, power_, type_ = splitted[:4]
     kappa = float(splitted[4]) if len(splitted) >= 5 else DEFAULT_KAPPA
     if engine_ == 't':
-- 
2.43.0


From e37ed9b12c7cba78d46b08dbfb06d381ec73dd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:12 +0000
Subject: [PATCH 29/43] fix: do not displace the samples when labels cost
 nothing to move

With a null label weight the displaced labels were infinite, and
evaluating the loss with importance sampling failed.
---
 skwdro/solvers/_dual_interfaces/_impsamp_interface.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
index 04d6628..2e90d63 100644
--- a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
+++ b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
@@ -280,6 +280,14 @@ class _SampleDisplacer(_SampledDualLoss):
                 disp,
                 disp_labels
             )
+            if displaced_xi_labels is not None and check_tensor_validity(displaced_xi_labels):
+                # Labels that cost nothing to move have no finite displacement
+                return (
+                    xi.unsqueeze(0),
+                    maybe_unsqueeze(xi_labels, dim=0),
+                    zeta,
+                    zeta_labels
+                )
             displaced_zeta, displaced_zeta_labels = _solve_for_xi(
                 zeta, zeta_labels, disp, disp_labels
             )
-- 
2.43.0


From 27260c2b595b3f75de8e09170a5b2a8363972129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:26 +0000
Subject: [PATCH 30/43] fix: scale the Weber loss by the number of weights in
 any layout

---
 skwdro/base/losses_torch/weber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/base/losses_torch/weber.py b/skwdro/base/losses_torch/weber.py
index a11d077..a33d172 100644
--- a/skwdro/base/losses_torch/weber.py
+++ b/skwdro/base/losses_torch/weber.py
@@ -14,6 +14,6 @@ class SimpleWeber(nn.Module):
         distances = pt.linalg.norm(
             xi - self.pos.unsqueeze(0), dim=-1, keepdims=True
         )
-        val = xi_labels * distances * xi_labels.shape[1]
+        val = xi_labels * distances * xi_labels.shape[-1]
         assert isinstance(val, pt.Tensor)
         return val
-- 
2.43.0


From a826030b211f7031617eae143edb6eba2c99276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:15 +0000
Subject: [PATCH 31/43] fix: leave the multiplier out of the empirical risk

---
 skwdro/solvers/_dual_interfaces/dual_loss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skwdro/solvers/_dual_interfaces/dual_loss.py b/skwdro/solvers/_dual_interfaces/dual_loss.py
index 72fb3e4..b8116c7 100644
--- a/skwdro/solvers/_dual_interfaces/dual_loss.py
+++ b/skwdro/solvers/_dual_interfaces/dual_loss.py
@@ -46,7 +46,8 @@ class _DualFormulation(_SampleDisplacer):
                 xi.unsqueeze(0),  # (1, m, d)
                 maybe_unsqueeze(xi_labels, dim=0),  # (1, m, d') or None
             )  # (1, m, 1)
-            first_term: pt.Tensor = self.rho * self.lam
+            # No penalty, but the multiplier gets a (null) gradient
+            first_term: pt.Tensor = 0. * self.lam
             primal_loss = self.reduce_loss_batch(batched_pl.squeeze(0))
             return first_term + primal_loss
         elif self.rho > 0.:
-- 
2.43.0


From 63e531b484e0a07ea278a9435d16a096b8f8836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:15 +0000
Subject: [PATCH 32/43] fix: keep the multiplier nonnegative while solving

---
 skwdro/solvers/entropic_dual_torch.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index ffda1d5..b938325 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -109,6 +109,14 @@ def solve_dual_wdro(loss: _DualLoss, p_hat: Distribution, opt: OptCondTorch):
     return theta, intercept, lambd, robust_loss
 
 
+def project_multiplier(loss: _DualLoss):
+    r"""
+    Bring the dual multiplier back to :math:`\lambda\ge 0` after a step.
+    """
+    with pt.no_grad():
+        loss._lam.clamp_(0., None)
+
+
 def optim_presample(
     optimizer: pt.optim.Optimizer,
     xi: pt.Tensor,
@@ -179,6 +187,7 @@ def optim_presample(
     loss.erm_mode = True
     for _ in range(pretrain_iters):
         optimizer.step(closure)
+        project_multiplier(loss)
 
     # Init lambda
     loss.get_initial_guess_at_dual(xi, xi_labels)
@@ -191,6 +200,7 @@ def optim_presample(
     for iteration in loss.iterations:
         # Do not resample, only step according to BFGS-style algo
         optimizer.step(closure)
+        project_multiplier(loss)
         if opt_cond.metric == 'grad':
             _is = loss.imp_samp
             losses.append(closure())
@@ -266,6 +276,7 @@ def optim_postsample(
         objective.backward()
         # Perform the stochastic step
         optimizer.step()
+        project_multiplier(loss)
         losses.append(objective.item())
 
     # Init lambda
@@ -286,6 +297,7 @@ def optim_postsample(
         objective.backward()
         # Perform the stochastic step
         optimizer.step()
+        project_multiplier(loss)
         losses.append(objective.item())
         if math.isnan(losses[-1]):
             warn(
-- 
2.43.0


From 3c205137264cd137107a63f48d910ebc441e8f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:51 +0000
Subject: [PATCH 33/43] fix: save the learning-rate schedules with the
 composite optimiser state

---
 skwdro/solvers/oracle_torch.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index d56b032..6a13556 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -87,11 +87,18 @@ class CompositeOptimizer(pt.optim.Optimizer):
             opt.zero_grad()
 
     def state_dict(self):
-        return {k: opt.state_dict() for (k, opt) in self.opts.items()}
+        state = {k: opt.state_dict() for (k, opt) in self.opts.items()}
+        state['schedulers'] = {
+            k: scheduler.state_dict()
+            for (k, scheduler) in self.schedulers.items()
+        }
+        return state
 
     def load_state_dict(self, state_dict):
         for (k, opt) in self.opts.items():
             opt.load_state_dict(state_dict[k])
+        for (k, scheduler) in self.schedulers.items():
+            scheduler.load_state_dict(state_dict['schedulers'][k])
 
     def reset_lbd_state(self):
         self.opts['lbd'].load_state_dict(self.init_state_lbd)
-- 
2.43.0


From a292c05c4c2540fc5a10995ec537ab4eb651f198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:22 +0000
Subject: [PATCH 34/43] fix: let the adaptive optimisers handle a frozen
 multiplier

---
 skwdro/solvers/oracle_torch.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index 6a13556..62f9523 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -72,10 +72,13 @@ class CompositeOptimizer(pt.optim.Optimizer):
 
     def step(self, closure: Optional[Callable] = None) -> Optional[float]:
         del closure
-        for opt in self.opts.values():
+        for (k, opt) in self.opts.items():
+            if k == 'lbd' and self.lbd.grad is None:
+                # A frozen multiplier has no direction to follow
+                continue
             opt.step()
-        for scheduler in self.schedulers.values():
-            scheduler.step()
+            if k in self.schedulers:
+                self.schedulers[k].step()
         with pt.no_grad():
             self.lbd.clamp_(0., None)
         return None
-- 
2.43.0


From ebd35b6290ad0cde01ccf633b3fffe8712d6815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:22 +0000
Subject: [PATCH 35/43] fix: keep one coefficient per feature in single-feature
 classifiers

---
 skwdro/linear_models/_logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 79615bd..cb167be 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -312,7 +312,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                 .weight
                 .detach()
                 .cpu()
-                .squeeze()
+                .squeeze(0)
                 .numpy()
             )
 
-- 
2.43.0


From 28a68687c70474eaae9d8d8f7af1d6de58f6bc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:29 +0000
Subject: [PATCH 36/43] fix: encode classes as floats whatever the data type

---
 skwdro/linear_models/_logistic_regression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index cb167be..f94f684 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -184,7 +184,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                     "Problem with labels, none out of label encoder"
                 )
             else:
-                y = np.array(y, dtype=X.dtype)
+                y = np.array(y, dtype=float)
             y[y == 0.] = -1.
         elif len(self.classes_) > 2:
             # Multiclass classification
@@ -195,7 +195,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                     "Problem with labels, none out of label encoder"
                 )
             else:
-                y = np.array(y, dtype=X.dtype)
+                y = np.array(y, dtype=float)
         else:
             raise ValueError(
                 ' '.join([
-- 
2.43.0


From 84eb85e63300c64b74771d47ebbfff885ba45f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:02 +0000
Subject: [PATCH 37/43] fix: raise NotFittedError when evaluating unfitted
 estimators

---
 skwdro/operations_research/_newsvendor.py | 4 ++--
 skwdro/operations_research/_portfolio.py  | 4 ++--
 skwdro/operations_research/_weber.py      | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 13d553e..4314ee5 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -5,7 +5,7 @@ import numpy as np
 import torch as pt
 import torch.nn as nn
 from sklearn.base import BaseEstimator
-from sklearn.utils.validation import check_array
+from sklearn.utils.validation import check_array, check_is_fitted
 
 from typing import Optional
 
@@ -223,7 +223,7 @@ class NewsVendor(BaseEstimator):
             The testing input samples.
         '''
 
-        assert self.is_fitted_  # We have to fit before evaluating
+        check_is_fitted(self, ["is_fitted_"])
 
         # Check that X has correct shape
         X = check_array(X)
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 1f074b2..8dfa446 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -5,7 +5,7 @@ WDRO Estimators
 import numpy as np
 import torch as pt
 from sklearn.base import BaseEstimator
-from sklearn.utils.validation import check_array
+from sklearn.utils.validation import check_array, check_is_fitted
 
 from typing import Optional
 
@@ -284,7 +284,7 @@ class Portfolio(BaseEstimator):
         # Check that X has correct shape
         X = check_array(X)
 
-        assert self.is_fitted_  # We have to fit before evaluating
+        check_is_fitted(self, ["is_fitted_"])
 
         if "entropic" in self.solver:
             return self._wdro_loss.primal_loss.forward(
diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index 0666614..c4c804a 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -5,7 +5,7 @@ import numpy as np
 import torch as pt
 
 from sklearn.base import BaseEstimator
-from sklearn.utils.validation import check_X_y
+from sklearn.utils.validation import check_X_y, check_is_fitted
 
 from typing import Optional
 
@@ -193,7 +193,7 @@ class Weber(BaseEstimator):
         # Check that X and y have correct shape
         X, y = check_X_y(X, y, y_numeric=True)
 
-        assert self.is_fitted_  # We have to fit before evaluating
+        check_is_fitted(self, ["is_fitted_"])
 
         if "entropic" in self.solver:
             return self._wdro_loss.primal_loss.forward(
-- 
2.43.0


From f1911424ad4a697234aaa983aaf6ad0210102a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:02 +0000
Subject: [PATCH 38/43] fix: keep the stopping criterion clonable when it
 watches parameters

---
 skwdro/solvers/optim_cond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/optim_cond.py b/skwdro/solvers/optim_cond.py
index 8a895dc..5f6ea6f 100644
--- a/skwdro/solvers/optim_cond.py
+++ b/skwdro/solvers/optim_cond.py
@@ -426,7 +426,7 @@ class OptCondTorch:
         parameters.
         """
         return pt.concat([*map(
-            lambda t: t.flatten(),
+            lambda t: t.detach().flatten(),
             module.parameters()
         )])
 
-- 
2.43.0


From 50dbeca6f12b78e3533173f97845559957777f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:24 +0000
Subject: [PATCH 39/43] fix: warm up the resampling solver on the empirical
 loss

The first entry of the iteration budget is documented as the number of
empirical-risk iterations, but the solver that resamples at each step
spent them on the robust loss.
---
 skwdro/solvers/entropic_dual_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index b938325..c5ad369 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -265,7 +265,7 @@ def optim_postsample(
     pretrain_iters, train_iters = interpret_steps_struct(loss.n_iter)
 
     # Pretrain ERM
-    loss.erm_mode = False
+    loss.erm_mode = True
     for _ in range(pretrain_iters):
         optimizer.zero_grad()
 
-- 
2.43.0


From a4616d152d7e2f2ce9e86f414de691fd87fec2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:19 +0000
Subject: [PATCH 40/43] fix: create the missing sampler at the first evaluation
 of the resampling loss

The loss looked for the missing sampler through an accessor that raises
when there is none, so the fallback was never reached.
---
 skwdro/solvers/oracle_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index 62f9523..ce0178c 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -292,7 +292,7 @@ class DualPostSampledLoss(_DualLoss):
         dl : pt.Tensor
         """
         del zeta, zeta_labels
-        if self.primal_loss.sampler is None:
+        if self.primal_loss._sampler is None:
             # Means were never set in the first place, so initialize the sampler
             # Warning: no seed is set, so set the sampler yourself if needed
             self.init_sampler(xi, xi_labels, self.epsilon.detach().item(), None)
-- 
2.43.0


From cacb50b79918e75bdefa742f782cb659f1ec10b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:56 +0000
Subject: [PATCH 41/43] fix: differentiate losses that keep a trailing
 dimension

The gradient at each data point expected a scalar loss, so the built-in
losses could be used neither with importance sampling nor with the
initial multiplier.
---
 skwdro/solvers/_dual_interfaces/_impsamp_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
index 2e90d63..6cc8867 100644
--- a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
+++ b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
@@ -121,7 +121,7 @@ class _SampleDisplacer(_SampledDualLoss):
                 # give as inputs xi and xi_labels
                 (data.unsqueeze(0), maybe_unsqueeze(target, dim=0),)
             )
-            return loss.squeeze(0)
+            return loss.squeeze()
 
         grad_func = grad(
             # diff the loss
-- 
2.43.0


From 0785fbaa2186740cd5897df899ce4e361f8c2691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:21 +0000
Subject: [PATCH 42/43] fix: fit the newsvendor with its default solver

The default named the removed numpy solver, so an estimator built
without arguments, as in the documented example, could not be fitted.
---
 skwdro/operations_research/_newsvendor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 4314ee5..511b104 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -84,7 +84,7 @@ class NewsVendor(BaseEstimator):
         solver_reg: float = .01,
         learning_rate: Optional[float] = None,
         n_zeta_samples: int = 10,
-        solver: str = "entropic",
+        solver: str = "entropic_torch",
         random_state: int = 0,
         n_iter: Optional[Steps] = None,
         opt_cond: Optional[OptCondTorch] = OptCondTorch(2)
-- 
2.43.0


From 0d78fc486f0428a7978a7a99922901c7ea75707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:32:36 +0000
Subject: [PATCH 43/43] fix: report the multiplier held by the loss when
 training diverged

---
 skwdro/solvers/entropic_dual_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index c5ad369..301c76a 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -104,7 +104,7 @@ def solve_dual_wdro(loss: _DualLoss, p_hat: Distribution, opt: OptCondTorch):
     intercept = loss.intercept
     if intercept is not None:
         intercept = detach_tensor(intercept)
-    lambd = detach_tensor(loss.lam) if loss.rho > 0. else [0.]
+    lambd = [0.] if loss.rho <= 0. else detach_tensor(loss.lam)
     robust_loss = losses[-1]
     return theta, intercept, lambd, robust_loss
 
-- 
2.43.0

