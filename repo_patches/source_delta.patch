From 917876c8031f820666f541d1431e7d6a89e4dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 01/23] fix: use exponential rates in the horseshoe shrinkage
 updates

---
 aemcmc/gibbs.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 57743eb..2ae2ce3 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -241,11 +241,15 @@ def horseshoe_posterior(
     lmbda2_inv = at.reciprocal(lambda2)
     tau2_inv = at.reciprocal(tau2)
 
-    upsilon_inv = srng.exponential(1 + lmbda2_inv)
-    zeta_inv = srng.exponential(1 + tau2_inv)
+    # NOTE: `RandomStream.exponential` is parameterized by its scale, and the
+    # distributions in the decomposition above by their rates
+    upsilon_inv = srng.exponential(at.reciprocal(1 + lmbda2_inv))
+    zeta_inv = srng.exponential(at.reciprocal(1 + tau2_inv))
 
     beta2 = beta**2
-    lambda2_inv_new = srng.exponential(upsilon_inv + 0.5 * beta2 * tau2_inv / sigma2)
+    lambda2_inv_new = srng.exponential(
+        at.reciprocal(upsilon_inv + 0.5 * beta2 * tau2_inv / sigma2)
+    )
     tau2_inv_new = srng.gamma(
         0.5 * (beta.shape[0] + 1),
         zeta_inv + 0.5 * (beta2 * lambda2_inv_new).sum() / sigma2,
-- 
2.43.0


From 457471e199724456f34249f10303118b81535a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 02/23] fix: use prior precisions in the normal regression
 posteriors

---
 aemcmc/gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 2ae2ce3..0aabfad 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -45,7 +45,7 @@ def normal_regression_overdetermined_posterior(
     indices = at.arange(Q.shape[1])
     Q = at.subtensor.set_subtensor(
         Q[indices, indices],
-        at.diag(Q) + lmbdatau_inv,
+        at.diag(Q) + lmbdatau_inv**2,
     )
     return multivariate_normal_rue2005(srng, X.T @ (omega * z), Q)
 
@@ -64,7 +64,7 @@ def normal_regression_underdetermined_posterior(
     See `update_beta` for a description of the parameters and return value.
 
     """
-    return multivariate_normal_cong2017(srng, lmbdatau_inv, omega, X, z)
+    return multivariate_normal_cong2017(srng, lmbdatau_inv**2, omega, X, z)
 
 
 def normal_regression_posterior(
-- 
2.43.0


From 2b8e1b43aeb30342f244bdcf11b81173f5dc8166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 03/23] fix: convert the gamma scale to a rate in the
 gamma-Poisson posterior

---
 aemcmc/conjugates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index 2c2617f..2a650d3 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -52,7 +52,9 @@ def gamma_poisson_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_e
 
     # Posterior distribution for p
     new_alpha_et = etuple(etuplize(at.add), alpha_lv, observed_rv_expr)
-    new_beta_et = etuple(etuplize(at.add), beta_lv, 1)
+    # The second parameter of a gamma `RandomVariable` node is its scale and
+    # the second parameter accepted by `at.random.gamma` is its rate
+    new_beta_et = etuple(etuplize(at.add), etuple(etuplize(at.reciprocal), beta_lv), 1)
     z_posterior_et = etuple(
         partial(srng.gen, at.random.gamma),
         new_alpha_et,
-- 
2.43.0


From c5b63d9796b16a6b4816708b1f435487477b49a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 04/23] fix: account for the negated linear predictor in
 matched Bernoulli regressions

---
 aemcmc/gibbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 0aabfad..29c0fe3 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -756,7 +756,8 @@ def bern_logistic_finder(fgraph, node, srng):
         return None
 
     beta_std = beta_rv.owner.inputs[4]
-    beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, X, y)
+    # The matched success probability is `sigmoid(-X @ beta)`
+    beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, -X, y)
 
     # Build the `Op` corresponding to the sampling step
     outputs = [beta_posterior]
-- 
2.43.0


From e56569d70b151ca09dd73325017a7be2dddc4faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 05/23] fix: pair the dispersion step's RNGs with their own
 updates

---
 aemcmc/gibbs.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 29c0fe3..60e146a 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -633,8 +633,9 @@ def nbinom_logistic_finder(fgraph, node, srng):
     h_posterior, updates = nbinom_dispersion_posterior(srng, h, p, a, b, y)
 
     # Build the `Op` corresponding to the sampling step
-    update_outputs = [h_posterior.owner.inputs[0].default_update]
-    update_outputs.extend(updates.values())
+    h_rng = h_posterior.owner.inputs[0]
+    update_inputs = [h_rng, *updates.keys()]
+    update_outputs = [h_rng.default_update, *updates.values()]
 
     outputs = [h_posterior] + update_outputs
     inputs = remove_constants([h, p, a, b, y])
@@ -643,11 +644,7 @@ def nbinom_logistic_finder(fgraph, node, srng):
     h_posterior = gibbs(*inputs)
     h_posterior.name = f"{h.name or 'h'}_posterior"
 
-    updates_offset = len(inputs)
-    updates = {
-        h_posterior.owner.inputs[updates_offset]: h_posterior.owner.outputs[1],
-        h_posterior.owner.inputs[updates_offset + 1]: h_posterior.owner.outputs[2],
-    }
+    updates = dict(zip(update_inputs, h_posterior.owner.outputs[1:]))
 
     res.append((h, h_posterior, updates))
 
-- 
2.43.0


From 497a0fe36a8d48144602677c3b8b4043c1ecbcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 06/23] fix: pair the NUTS step's updates with the variables
 they update

---
 aemcmc/nuts.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 90a7b82..37a564c 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -165,11 +165,7 @@ def construct_sampler(
     posterior = nuts_op(*inputs)
     results = {rv: posterior[i] for i, rv in enumerate(to_sample_rvs)}
 
-    updates_input = posterior[0].owner.inputs[len(inputs) :]
-    updates_output = posterior[len(results) :]
-    updates = {
-        updates_input[i]: update_out for i, update_out in enumerate(updates_output)
-    }
+    updates = dict(zip(updates.keys(), posterior[len(results) :]))
 
     return results, updates, {nuts_op: parameters}
 
-- 
2.43.0


From 977e33700d095e8834c6f1f7392a4a9f64552aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 07/23] fix: require every element of the matched factor to be
 a constant minus one

---
 aemcmc/gibbs.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 60e146a..3b0fe2d 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -2,7 +2,8 @@ from typing import List, Mapping, Optional, Tuple
 
 import aesara
 import aesara.tensor as at
-from aesara.graph.basic import Variable
+import numpy as np
+from aesara.graph.basic import Constant, Variable
 from aesara.graph.rewriting.basic import in2out
 from aesara.graph.rewriting.db import LocalGroupDB
 from aesara.graph.rewriting.unify import eval_if_etuple
@@ -27,6 +28,11 @@ gibbs_db = LocalGroupDB(apply_all_rewrites=True)
 gibbs_db.name = "gibbs_db"
 
 
+def is_filled_with(var: Variable, value: float) -> bool:
+    """Determine whether or not `var` is a constant for which every element is equal to `value`."""
+    return isinstance(var, Constant) and bool(np.all(var.data == value))
+
+
 def normal_regression_overdetermined_posterior(
     srng: RandomStream,
     omega: TensorVariable,
@@ -355,7 +361,7 @@ def nbinom_sigmoid_dot_match(
     if s is False:
         raise ValueError("Not a negative binomial regression.")
 
-    if all(s[neg_one_lv].data != -1):
+    if not is_filled_with(eval_if_etuple(s[neg_one_lv]), -1):
         raise ValueError(
             "Not a negative binomial regression. The argument to "
             + "the sigmoid must be minus the dot product."
@@ -668,7 +674,7 @@ def bern_sigmoid_dot_match(
     if s is False:
         raise ValueError("Not a Bernoulli regression.")
 
-    if all(s[neg_one_lv].data != -1):
+    if not is_filled_with(eval_if_etuple(s[neg_one_lv]), -1):
         raise ValueError(
             "Not a Bernoulli regression. The argument to the sigmoid "
             + "must be minus the dot product."
-- 
2.43.0


From a72f99f6d8707bd2eb3415c9020354efb5aecd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 08/23] fix: only match logistic regressions with centered
 normal parameters

---
 aemcmc/gibbs.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 3b0fe2d..8f85719 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -33,6 +33,16 @@ def is_filled_with(var: Variable, value: float) -> bool:
     return isinstance(var, Constant) and bool(np.all(var.data == value))
 
 
+def is_centered_normal(var: Variable) -> bool:
+    """Determine whether or not `var` is a vector of independent normals with mean zero."""
+    return (
+        var.owner is not None
+        and isinstance(var.owner.op, NormalRV)
+        and var.type.ndim == 1
+        and is_filled_with(var.owner.inputs[3], 0)
+    )
+
+
 def normal_regression_overdetermined_posterior(
     srng: RandomStream,
     omega: TensorVariable,
@@ -371,6 +381,12 @@ def nbinom_sigmoid_dot_match(
     beta_rv = eval_if_etuple(s[beta_lv])
     X = eval_if_etuple(s[X_lv])
 
+    if not is_centered_normal(beta_rv):
+        raise ValueError(
+            "Not a negative binomial regression. The regression parameters "
+            + "must be normally distributed with mean zero."
+        )
+
     return X, h, beta_rv
 
 
@@ -683,6 +699,12 @@ def bern_sigmoid_dot_match(
     beta_rv = eval_if_etuple(s[beta_lv])
     X = eval_if_etuple(s[X_lv])
 
+    if not is_centered_normal(beta_rv):
+        raise ValueError(
+            "Not a Bernoulli regression. The regression parameters must be "
+            + "normally distributed with mean zero."
+        )
+
     return X, beta_rv
 
 
-- 
2.43.0


From 6bccb4c4a6d3e938f6b131f4e2927c02c7d330f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 09/23] fix: only match scalar gamma priors on the dispersion
 parameter

---
 aemcmc/gibbs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 8f85719..8b0621a 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -346,6 +346,9 @@ gamma_pattern = etuple(etuplize(at.random.gamma), var(), var(), var(), a_lv, b_l
 
 
 def gamma_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariable]:
+    if graph.owner is None or graph.type.ndim != 0:
+        raise ValueError("Not a scalar gamma prior.")
+
     graph_et = etuplize(graph)
     s = unify(graph_et, gamma_pattern)
     if s is False:
-- 
2.43.0


From 36ea9babebc174fc3c2ba1a749c10606c887da0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 10/23] fix: only match horseshoe priors with the form the
 Gibbs kernel samples

---
 aemcmc/gibbs.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 8b0621a..3ad6718 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -166,6 +166,12 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
     if s is False:
         raise ValueError("Not a horseshoe prior.")
 
+    if graph.type.ndim != 1 or not is_filled_with(eval_if_etuple(s[zero_lv]), 0):
+        raise ValueError(
+            "Not a horseshoe prior. The regression parameters in your model "
+            + "must be a vector with mean zero."
+        )
+
     halfcauchy_1 = eval_if_etuple(s[halfcauchy_1_lv])
     if halfcauchy_1.owner is None or not isinstance(
         halfcauchy_1.owner.op, type(at.random.halfcauchy)
@@ -197,6 +203,20 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
             + "in your model must be one-dimensional."
         )
 
+    if lmbda_rv.type.broadcastable != graph.type.broadcastable:
+        raise ValueError(
+            "Not a horseshoe prior. There must be a local shrinkage parameter "
+            + "for each regression parameter."
+        )
+
+    for shrinkage_rv in (lmbda_rv, tau_rv):
+        loc, scale = shrinkage_rv.owner.inputs[3:]
+        if not (is_filled_with(loc, 0) and is_filled_with(scale, 1)):
+            raise ValueError(
+                "Not a horseshoe prior. The shrinkage parameters in your model "
+                + "must have standard half-Cauchy distributions."
+            )
+
     return (lmbda_rv, tau_rv)
 
 
-- 
2.43.0


From 3b72aefca7dfbf531fe7639b0510370bf368d87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 11/23] fix: do not use element-wise conjugate posteriors for
 repeated observations

---
 aemcmc/conjugates.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index 2a650d3..a8b193c 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -16,6 +16,14 @@ if TYPE_CHECKING:
     from aesara.tensor.random.utils import RandomStream
 
 
+def has_repeated_observations(latent_rv, observed_rv) -> bool:
+    """Determine whether or not a single element of `latent_rv` generates multiple elements of `observed_rv`.
+
+    The element-wise posteriors in this module aren't valid in that case.
+    """
+    return latent_rv.type.broadcastable != observed_rv.type.broadcastable
+
+
 def gamma_poisson_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_expr):
     r"""Relation for the conjugate posterior of a gamma prior with a Poisson observation model.
 
@@ -84,6 +92,10 @@ def local_gamma_poisson_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     gamma_rv = rv_et[-1].evaled_obj
+
+    if has_repeated_observations(gamma_rv, rv_var):
+        return None
+
     gamma_posterior = eval_if_etuple(res)
 
     return [(gamma_rv, gamma_posterior, None)]
@@ -158,6 +170,10 @@ def local_beta_binomial_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     beta_rv = rv_et[-1].evaled_obj
+
+    if has_repeated_observations(beta_rv, rv_var):
+        return None
+
     beta_posterior = eval_if_etuple(res)
 
     return [(beta_rv, beta_posterior, None)]
@@ -235,6 +251,10 @@ def local_beta_negative_binomial_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     beta_rv = rv_et[-1].evaled_obj
+
+    if has_repeated_observations(beta_rv, rv_var):
+        return None
+
     beta_posterior = eval_if_etuple(res)
 
     return [(beta_rv, beta_posterior, None)]
-- 
2.43.0


From ba61b44fb978477438e8b35ee13dc7e49c5914ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 12/23] fix: skip sampler steps that ignore some of the
 variables informing the sampled one

---
 aemcmc/rewriting.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 73ab76e..4ca62d3 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -124,6 +124,32 @@ class SamplerTracker(Feature):
         fgraph.sampler_mappings = self
 
 
+def get_measurable_children(fgraph: FunctionGraph, var: Variable) -> Set[Apply]:
+    r"""Get the `RandomVariable` nodes that depend on `var` through deterministic nodes alone."""
+    children: Set[Apply] = set()
+    to_visit = [var]
+    visited: Set[Variable] = set()
+
+    while to_visit:
+        var = to_visit.pop()
+
+        if var in visited:
+            continue
+
+        visited.add(var)
+
+        for client, _ in fgraph.clients.get(var, ()):
+            if client == "output":
+                continue
+
+            if isinstance(client.op, RandomVariable):
+                children.add(client)
+            else:
+                to_visit.extend(client.outputs)
+
+    return children
+
+
 def sampler_finder(tracks: Optional[Sequence[Union[Op, type]]]):
     """Construct a `NodeRewriter` that identifies sample steps.
 
@@ -164,6 +190,11 @@ def sampler_finder(tracks: Optional[Sequence[Union[Op, type]]]):
                 return None  # pragma: no cover
 
             for rv, posterior_rv, updates in rvs_and_posteriors:
+                # The posterior was derived using `node` as the only source of
+                # information about `rv`
+                if get_measurable_children(fgraph, rv) - {node}:
+                    continue
+
                 sampler_mappings.rvs_to_samplers.setdefault(rv, []).append(
                     (f.__name__, posterior_rv, updates)
                 )
-- 
2.43.0


From c1d545106126ea0e2d50d08eb7e536adc02c967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 13/23] fix: ignore RNG variables that are not shared when
 collecting updates

---
 aemcmc/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aemcmc/utils.py b/aemcmc/utils.py
index de295ec..087c774 100644
--- a/aemcmc/utils.py
+++ b/aemcmc/utils.py
@@ -4,7 +4,6 @@ from typing import TYPE_CHECKING, Dict, Optional, Tuple
 from aesara.compile.sharedvalue import SharedVariable
 from aesara.graph.basic import Constant, Variable, ancestors
 from aesara.tensor import as_tensor_variable
-from aesara.tensor.random.type import RandomType
 from aesara.tensor.var import TensorVariable
 
 if TYPE_CHECKING:
@@ -107,7 +106,7 @@ def get_rv_updates(
     rv_updates = {}
 
     for var in ancestors(rvs):
-        if not isinstance(var, SharedVariable) and not isinstance(var.type, RandomType):
+        if not isinstance(var, SharedVariable):
             continue
 
         # TODO: Consider making sure the updates correspond to "in-place"
-- 
2.43.0


From 13e1950709b3adff4174777acbb8b23506f7641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 14/23] fix: order the NUTS variables and the sampling stages
 deterministically

---
 aemcmc/basic.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 701fc3d..70f3480 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -1,4 +1,4 @@
-from typing import Dict, Tuple
+from typing import Dict, List, Tuple
 
 from aesara.graph.basic import Apply, Variable
 from aesara.graph.fg import FunctionGraph
@@ -54,7 +54,7 @@ def construct_sampler(
     posterior_updates: Dict[Variable, Variable] = {}
 
     parameters: Dict[Apply, Tuple[TensorVariable]] = {}
-    rvs_without_samplers = set()
+    rvs_without_samplers: List[TensorVariable] = []
 
     for rv in fgraph.outputs:
         if rv in obs_rvs_to_values:
@@ -63,7 +63,7 @@ def construct_sampler(
         rv_steps = discovered_samplers.get(rv)
 
         if not rv_steps:
-            rvs_without_samplers.add(rv)
+            rvs_without_samplers.append(rv)
             continue
 
         # TODO FIXME: Just choosing one for now, but we should consider them all.
@@ -103,14 +103,12 @@ def construct_sampler(
 
     # Use the NUTS sampler for the remaining variables
     if rvs_without_samplers:
+        # These steps are computed from the other steps' results, so they come
+        # last in the scan order
         to_sample_rvs = {
-            rv: posterior_sample_steps[rv] for rv in list(rvs_without_samplers)
-        }
-        realized_values = {
-            rv: vv
-            for rv, vv in posterior_sample_steps.items()
-            if rv not in to_sample_rvs
+            rv: posterior_sample_steps.pop(rv) for rv in rvs_without_samplers
         }
+        realized_values = posterior_sample_steps.copy()
         (nuts_sample_steps, updates, nuts_parameters) = nuts.construct_sampler(
             srng, to_sample_rvs, realized_values
         )
-- 
2.43.0


From 23c6ebd512d1d94b0bb3a5d580a832c1c16e2b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 15/23] fix: build the NUTS log-density from a model graph that
 other steps do not modify

---
 aemcmc/basic.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 70f3480..a41c3c3 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -1,6 +1,6 @@
 from typing import Dict, List, Tuple
 
-from aesara.graph.basic import Apply, Variable
+from aesara.graph.basic import Apply, Variable, clone_get_equiv
 from aesara.graph.fg import FunctionGraph
 from aesara.tensor.random.utils import RandomStream
 from aesara.tensor.var import TensorVariable
@@ -56,6 +56,13 @@ def construct_sampler(
     parameters: Dict[Apply, Tuple[TensorVariable]] = {}
     rvs_without_samplers: List[TensorVariable] = []
 
+    # The steps' graphs are updated in-place below, and they can share variables
+    # with the model's graph, so we need a copy of the latter that isn't affected
+    # by those updates
+    model_rvs = clone_get_equiv(
+        [], fgraph.outputs, copy_inputs=False, copy_orphans=False
+    )
+
     for rv in fgraph.outputs:
         if rv in obs_rvs_to_values:
             continue
@@ -106,14 +113,19 @@ def construct_sampler(
         # These steps are computed from the other steps' results, so they come
         # last in the scan order
         to_sample_rvs = {
-            rv: posterior_sample_steps.pop(rv) for rv in rvs_without_samplers
+            model_rvs[rv]: posterior_sample_steps.pop(rv)
+            for rv in rvs_without_samplers
+        }
+        realized_values = {
+            model_rvs[rv]: vv for rv, vv in posterior_sample_steps.items()
         }
-        realized_values = posterior_sample_steps.copy()
         (nuts_sample_steps, updates, nuts_parameters) = nuts.construct_sampler(
             srng, to_sample_rvs, realized_values
         )
 
-        posterior_sample_steps.update(nuts_sample_steps)
+        posterior_sample_steps.update(
+            {rv: nuts_sample_steps[model_rvs[rv]] for rv in rvs_without_samplers}
+        )
         posterior_updates.update(updates)
         parameters.update(nuts_parameters)
 
-- 
2.43.0


From 438ac2881ee30dcd4dd711f849fc888050284757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 16/23] fix: transform NUTS values using the values of the
 variables their transforms depend on

---
 aemcmc/nuts.py | 57 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 37a564c..0c2968b 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -1,4 +1,4 @@
-from typing import Callable, Dict, Tuple
+from typing import Callable, Dict, List, Tuple
 
 import aesara
 import aesara.tensor as at
@@ -12,7 +12,13 @@ from aeppl.transforms import (
 )
 from aesara import config
 from aesara.compile.sharedvalue import SharedVariable
-from aesara.graph.basic import Apply, graph_inputs
+from aesara.graph.basic import (
+    Apply,
+    Variable,
+    clone_replace,
+    graph_inputs,
+    io_toposort,
+)
 from aesara.graph.type import Constant
 from aesara.tensor.random import RandomStream
 from aesara.tensor.random.op import RandomVariable
@@ -85,8 +91,9 @@ def step(
     # when the support of each random variable's distribution is unconstrained. Get
     # the default transform that corresponds to each random variable.
     transforms = {rv: get_transform(rv) for rv in to_sample_rvs}
+    current_values = {**realized_rvs_to_values, **to_sample_rvs}
     transformed_values = [
-        transform_forward(rv, vv, transforms[rv])
+        transform_forward(rv, vv, transforms[rv], current_values)
         for rv, vv in zip(to_sample_rvs, initial_values)
     ]
 
@@ -133,10 +140,21 @@ def step(
     # values back to the original space.
     (new_q, *_), updates = nuts_kernel(*initial_state, step_size, inverse_mass_matrix)
     transformed_params = rp_map.unravel_params(new_q)
-    results = {
-        rv: transform_backward(rv, transformed_params[pv], transforms[rv])
-        for rv, pv in zip(to_sample_rvs, placeholder_values)
-    }
+    rvs_to_placeholders = dict(zip(to_sample_rvs, placeholder_values))
+    new_values = dict(realized_rvs_to_values)
+    # The parameters of a transform can depend on the other sampled variables, so
+    # we need to compute the new values of the latter first
+    for node in io_toposort([], list(to_sample_rvs)):
+        for rv in node.outputs:
+            if rv in rvs_to_placeholders:
+                new_values[rv] = transform_backward(
+                    rv,
+                    transformed_params[rvs_to_placeholders[rv]],
+                    transforms[rv],
+                    new_values,
+                )
+
+    results = {rv: new_values[rv] for rv in to_sample_rvs}
 
     return (
         results,
@@ -179,10 +197,22 @@ def get_transform(rv: TensorVariable):
         return None
 
 
-def transform_forward(rv: TensorVariable, vv: TensorVariable, transform: RVTransform):
+def get_transform_inputs(
+    rv: TensorVariable, rvs_to_values: Dict[TensorVariable, TensorVariable]
+) -> List[Variable]:
+    """Get the inputs of `rv` given values for the random variables they depend on."""
+    return clone_replace(rv.owner.inputs, rvs_to_values)
+
+
+def transform_forward(
+    rv: TensorVariable,
+    vv: TensorVariable,
+    transform: RVTransform,
+    rvs_to_values: Dict[TensorVariable, TensorVariable],
+):
     """Push variables to the transformed space."""
     if transform:
-        res = transform.forward(vv, *rv.owner.inputs)
+        res = transform.forward(vv, *get_transform_inputs(rv, rvs_to_values))
         if vv.name:
             res.name = f"{vv.name}_trans"
         return res
@@ -190,10 +220,15 @@ def transform_forward(rv: TensorVariable, vv: TensorVariable, transform: RVTrans
         return vv
 
 
-def transform_backward(rv: TensorVariable, vv: TensorVariable, transform: RVTransform):
+def transform_backward(
+    rv: TensorVariable,
+    vv: TensorVariable,
+    transform: RVTransform,
+    rvs_to_values: Dict[TensorVariable, TensorVariable],
+):
     """Pull variables back from the transformed space."""
     if transform:
-        res = transform.backward(vv, *rv.owner.inputs)
+        res = transform.backward(vv, *get_transform_inputs(rv, rvs_to_values))
         return res
     else:
         return vv
-- 
2.43.0


From 6f9fa1ca68ffbe2d625d74e53c9cf6983f354042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 17/23] fix: do not copy the inputs of expanded DimShuffle
 subsumptions

---
 aemcmc/rewriting.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 4ca62d3..bf0f308 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -5,7 +5,7 @@ from typing import Callable, Dict, Iterable, List, Optional, Sequence, Set, Tupl
 from aeppl.rewriting import MeasurableConversionTracker
 from aesara.compile.builders import OpFromGraph
 from aesara.compile.mode import optdb
-from aesara.graph.basic import Apply, Variable, clone_replace, io_toposort
+from aesara.graph.basic import Apply, Variable, clone_get_equiv, io_toposort
 from aesara.graph.features import AlreadyThere, Feature
 from aesara.graph.fg import FunctionGraph
 from aesara.graph.op import Op
@@ -416,11 +416,17 @@ def inline_SubsumingElemwise(fgraph, node):
     if not op.is_inline:
         return False  # pragma: no cover
 
-    res = clone_replace(
-        op.inner_outputs, {u: v for u, v in zip(op.inner_inputs, node.inputs)}
+    # `node`'s inputs must be used as-is: copies of them (e.g. copies of
+    # `RandomVariable`s) wouldn't represent the same variables
+    memo = clone_get_equiv(
+        [],
+        op.inner_outputs,
+        copy_inputs=False,
+        copy_orphans=False,
+        memo=dict(zip(op.inner_inputs, node.inputs)),
     )
 
-    return res
+    return [memo[out] for out in op.inner_outputs]
 
 
 expand_subsumptions = in2out(inline_SubsumingElemwise)
-- 
2.43.0


From 38e2dec3360afb8e0cb429b188786f2233c2cd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 18/23] fix: do not update the model's graph with stale values
 of the step variables

---
 aemcmc/basic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index a41c3c3..091f088 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -89,8 +89,12 @@ def construct_sampler(
             copy_orphans=False,
         )
 
-        # Update the other sampled random variables in this step's graph
-        sfgraph.replace_all(list(posterior_sample_steps.items()), import_missing=True)
+        # Update the other sampled random variables in this step's graph,
+        # starting with the ones that depend on the others, so that the parts of
+        # the model's graph that aren't needed by this step aren't updated as well
+        sfgraph.replace_all(
+            list(posterior_sample_steps.items())[::-1], import_missing=True
+        )
 
         expand_subsumptions.rewrite(sfgraph)
 
-- 
2.43.0


From 77e15dee7d50dbef2d1baded37c4772291c8ba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 19/23] fix: keep Elemwise rewrites from altering subsumed
 graphs

Rewrites like local_useless_elemwise took a SubsumingElemwise for the
Elemwise it stands for and replaced, e.g., 2 * x by x, because the constant
isn't among its inputs.
---
 aemcmc/rewriting.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index bf0f308..5b61cc7 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -207,8 +207,14 @@ def sampler_finder(tracks: Optional[Sequence[Union[Op, type]]]):
     return decorator
 
 
-class SubsumingElemwise(OpFromGraph, Elemwise):
-    r"""A class representing an `Elemwise` with `DimShuffle`\ed arguments."""
+class SubsumingElemwise(OpFromGraph):
+    r"""A class representing an `Elemwise` with `DimShuffle`\ed arguments.
+
+    This isn't a subclass of `Elemwise`, because its inputs aren't the broadcasted
+    inputs of the `Elemwise` that it represents (e.g. constants are omitted).
+    """
+
+    __props__ = Elemwise.__props__
 
     def __init__(self, inputs, outputs, *args, **kwargs):
         # TODO: Mock the `Elemwise` interface just enough for our purposes
@@ -406,7 +412,7 @@ sampler_ir_db.register(
 )
 
 
-@node_rewriter([Elemwise])
+@node_rewriter([SubsumingElemwise])
 def inline_SubsumingElemwise(fgraph, node):
     op = node.op
 
-- 
2.43.0


From 1be983fe2e27cf605cfb462979fa971c7b343844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 20/23] fix: support shared variables in models

OpFromGraph refuses shared variables as explicit inputs.
---
 aemcmc/rewriting.py | 2 +-
 aemcmc/utils.py     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 5b61cc7..73bb4d9 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -429,7 +429,7 @@ def inline_SubsumingElemwise(fgraph, node):
         op.inner_outputs,
         copy_inputs=False,
         copy_orphans=False,
-        memo=dict(zip(op.inner_inputs, node.inputs)),
+        memo=dict(zip(op.inner_inputs, [*node.inputs, *op.shared_inputs])),
     )
 
     return [memo[out] for out in op.inner_outputs]
diff --git a/aemcmc/utils.py b/aemcmc/utils.py
index 087c774..0923c51 100644
--- a/aemcmc/utils.py
+++ b/aemcmc/utils.py
@@ -73,7 +73,9 @@ def remove_constants(inputs):
     res = []
     for inp in inputs:
         inp_t = as_tensor_variable(inp)
-        if not isinstance(inp_t, Constant):
+        # Shared variables can't be explicit inputs of an `OpFromGraph`, which
+        # handles them implicitly
+        if not isinstance(inp_t, (Constant, SharedVariable)):
             res.append(inp_t)
 
     return res
-- 
2.43.0


From c9618fbfe8e507078a205e8ebdf0507a510e2076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:24 +0000
Subject: [PATCH 21/23] fix: support symbolic transition matrices in ffbs_step

---
 aemcmc/ffbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aemcmc/ffbs.py b/aemcmc/ffbs.py
index 6c33bf9..f65af7e 100644
--- a/aemcmc/ffbs.py
+++ b/aemcmc/ffbs.py
@@ -78,7 +78,7 @@ def ffbs_step(
 
     # Make sure we have a transition matrix for each element in a state
     # sequence
-    Gammas = at.broadcast_to(Gammas, (N,) + Gammas.shape[-2:])
+    Gammas = at.broadcast_to(Gammas, (N, Gammas.shape[-2], Gammas.shape[-1]))
 
     def forward_step(log_lik_T_n, Gamma_n, alpha_nm1):
         log_lik_n = log_lik_T_n.T
-- 
2.43.0


From c279d05f840076b9fc66052f03e465c956a4e18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 22/23] fix: let Aesara rebuild sampling steps

---
 aemcmc/types.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aemcmc/types.py b/aemcmc/types.py
index 67a05d6..c343138 100644
--- a/aemcmc/types.py
+++ b/aemcmc/types.py
@@ -16,8 +16,14 @@ class SamplingStep(OpFromGraph):
 
     """
 
-    def __init__(self, inputs: List[TensorVariable], outputs: List[TensorVariable]):
-        super().__init__(inputs, outputs, inline=True)
+    def __init__(
+        self,
+        inputs: List[TensorVariable],
+        outputs: List[TensorVariable],
+        inline: bool = True,
+        **kwargs
+    ):
+        super().__init__(inputs, outputs, inline=inline, **kwargs)
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From 19beadc16c42ca137a77f71ad1d346e7360e85e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 23/23] fix: don't propagate gradients through sampling steps

---
 aemcmc/types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aemcmc/types.py b/aemcmc/types.py
index c343138..29af1cd 100644
--- a/aemcmc/types.py
+++ b/aemcmc/types.py
@@ -25,6 +25,11 @@ class SamplingStep(OpFromGraph):
     ):
         super().__init__(inputs, outputs, inline=inline, **kwargs)
 
+    def connection_pattern(self, node):
+        # The results of a sampling step are draws that other steps are
+        # conditioned on, so gradients aren't propagated through it
+        return [[False] * len(node.outputs) for _ in node.inputs]
+
 
 @dataclass(frozen=True)
 class Sampler:
-- 
2.43.0

