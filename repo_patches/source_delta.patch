From c0ffcf6b68bf63eb618b148ebd09bc7ace18653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 01/52] fix: apply time series minimum of investment flows
 containing zeros

The minimum of an invested flow was only enforced if no element of the
series was zero.
---
 src/oemof/solph/flows/_investment_flow_block.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/flows/_investment_flow_block.py b/src/oemof/solph/flows/_investment_flow_block.py
index 51f5ef9..9f1cd41 100644
--- a/src/oemof/solph/flows/_investment_flow_block.py
+++ b/src/oemof/solph/flows/_investment_flow_block.py
@@ -144,7 +144,11 @@ class InvestmentFlowBlock(ScalarBlock):
         )
 
         self.MIN_INVESTFLOWS = Set(
-            initialize=[(g[0], g[1]) for g in group if g[2].minimum.min() != 0]
+            initialize=[
+                (g[0], g[1])
+                for g in group
+                if g[2].minimum.min() != 0 or g[2].minimum.max() != 0
+            ]
         )
 
         self.EXISTING_INVESTFLOWS = Set(
-- 
2.43.0


From a5157b31391980e5bce7716fde5b4952d478f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 02/52] fix: enforce minimum up- and downtime from the first
 flexible time step

A startup (shutdown) in the first time step that is not fixed by the initial
status was not subject to the minimum uptime (downtime).
---
 src/oemof/solph/flows/_shared.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index 6713750..0712962 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -189,6 +189,18 @@ def variables_for_non_convex_flows(block):
         )
 
 
+def _previous_status(block, i, o, t):
+    """Status one step before t, which is the initial status for t=0."""
+    m = block.parent_block()
+    if t > m.TIMESTEPS.at(1):
+        return block.status[i, o, t - 1]
+    initial_status = m.flows[i, o].nonconvex.initial_status
+    if initial_status is None:
+        # unknown history: neither startup nor shutdown in the first step
+        return block.status[i, o, t]
+    return initial_status
+
+
 def _min_downtime_constraint(block):
     r"""
     .. math::
@@ -215,7 +227,7 @@ def _min_downtime_constraint(block):
         """
         if (
             m.flows[i, o].nonconvex.first_flexible_timestep
-            < t
+            <= t
             < m.TIMESTEPS.at(-1)
         ):
             # We have a 2D matrix of constraints,
@@ -223,7 +235,7 @@ def _min_downtime_constraint(block):
 
             expr = 0
             expr += (
-                block.status[i, o, t - 1] - block.status[i, o, t]
+                _previous_status(block, i, o, t) - block.status[i, o, t]
             ) * m.flows[i, o].nonconvex.minimum_downtime[t]
             expr += -m.flows[i, o].nonconvex.minimum_downtime[t]
             expr += sum(
@@ -269,14 +281,14 @@ def _min_uptime_constraint(block):
         """
         if (
             m.flows[i, o].nonconvex.first_flexible_timestep
-            < t
+            <= t
             < m.TIMESTEPS.at(-1)
         ):
             # We have a 2D matrix of constraints,
             # so testing is easier then just calling the rule for valid t.
             expr = 0
             expr += (
-                block.status[i, o, t] - block.status[i, o, t - 1]
+                block.status[i, o, t] - _previous_status(block, i, o, t)
             ) * m.flows[i, o].nonconvex.minimum_uptime[t]
             expr += -sum(
                 block.status[i, o, u]
-- 
2.43.0


From aefadd54940ba1f5da623f2624e2f0d494883a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 03/52] fix: fix the initial status of nonconvex investment
 flows

As for nonconvex flows with fixed capacity, the status has to keep its
initial value for the minimum uptime or downtime, respectively.
---
 .../solph/flows/_invest_non_convex_flow_block.py     | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index 9d04efb..8ba5168 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -124,6 +124,18 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         self.status = Var(
             self.INVEST_NON_CONVEX_FLOWS, m.TIMESTEPS, within=Binary
         )
+        for o, i in self.INVEST_NON_CONVEX_FLOWS:
+            if m.flows[o, i].nonconvex.initial_status is not None:
+                for t in range(
+                    0,
+                    min(
+                        m.flows[o, i].nonconvex.first_flexible_timestep,
+                        len(m.TIMESTEPS),
+                    ),
+                ):
+                    self.status[o, i, t].fix(
+                        m.flows[o, i].nonconvex.initial_status
+                    )
 
         _shared.variables_for_non_convex_flows(self)
 
-- 
2.43.0


From 9d68db7ccd2fb04f71449d92e7beca16aabc6025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 04/52] fix: allow minimum up- or downtimes longer than the
 time horizon

Fixing the initial status raised a KeyError for time steps after the end of
the optimisation time frame.
---
 src/oemof/solph/flows/_non_convex_flow_block.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/flows/_non_convex_flow_block.py b/src/oemof/solph/flows/_non_convex_flow_block.py
index ca63b5b..a809aa9 100644
--- a/src/oemof/solph/flows/_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_non_convex_flow_block.py
@@ -92,7 +92,11 @@ class NonConvexFlowBlock(ScalarBlock):
         for o, i in self.FIXED_CAPACITY_NONCONVEX_FLOWS:
             if m.flows[o, i].nonconvex.initial_status is not None:
                 for t in range(
-                    0, m.flows[o, i].nonconvex.first_flexible_timestep
+                    0,
+                    min(
+                        m.flows[o, i].nonconvex.first_flexible_timestep,
+                        len(m.TIMESTEPS),
+                    ),
                 ):
                     self.status[o, i, t] = m.flows[
                         o, i
-- 
2.43.0


From 5cca7bec1fd0573eef57a4e4a991ac63ce9cb305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 05/52] fix: enforce gradient limits of nonconvex flows

The limits of a nonconvex flow were bounded by variables that nothing
limited, and the products of flow and status made the problem
quadratic.  The limits are now applied, linearly.
---
 src/oemof/solph/_options.py      |  6 ++---
 src/oemof/solph/flows/_shared.py | 46 +++++++++++++++++++++++++-------
 2 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/oemof/solph/_options.py b/src/oemof/solph/_options.py
index aebd550..9ae119c 100644
--- a/src/oemof/solph/_options.py
+++ b/src/oemof/solph/_options.py
@@ -242,11 +242,11 @@ class NonConvex:
         zero and the first timesteps are fixed for the number of minimum
         downtime steps.
     negative_gradient_limit : numeric (iterable, scalar or None)
+        the normed *upper bound* on the negative difference
+        (`flow[t-1] > flow[t]`) of two consecutive flow values.
+    positive_gradient_limit : numeric (iterable, scalar or None)
         the normed *upper bound* on the positive difference
         (`flow[t-1] < flow[t]`) of two consecutive flow values.
-    positive_gradient_limit : numeric (iterable, scalar or None)
-            the normed *upper bound* on the negative difference
-            (`flow[t-1] > flow[t]`) of two consecutive flow values.
     """
 
     def __init__(
diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index 0712962..b50cc78 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -400,16 +400,14 @@ def shared_constraints_for_non_convex_flows(block):
     positive_gradient_constraint
         .. math::
 
-            P(t) \cdot Y_{status}(t)
-            - P(t-1) \cdot Y_{status}(t-1)  \leq \
-            \dot{P}_{up}(t), \\
+            P(t) - P(t-1) \leq \dot{P}_{up}(t) \leq \
+            \Delta P_{up, max}(t) \cdot P_{nominal}, \\
             \forall t \in \textrm{TIMESTEPS}.
 
     negative_gradient_constraint
         .. math::
-            P(t-1) \cdot Y_{status}(t-1)
-            - P(t) \cdot Y_{status}(t) \leq \
-            \dot{P}_{down}(t), \\
+            P(t-1) - P(t) \leq \dot{P}_{down}(t) \leq \
+            \Delta P_{down, max}(t) \cdot P_{nominal}, \\
             \forall t \in \textrm{TIMESTEPS}.
 
     Also creates:
@@ -430,6 +428,38 @@ def shared_constraints_for_non_convex_flows(block):
     block.min_uptime_constr = _min_uptime_constraint(block)
     block.min_downtime_constr = _min_downtime_constraint(block)
 
+    def _gradient_limit(i, o, limit):
+        """Absolute limit of the gradient. It is not multiplied by the
+        status as the flow is always zero if the status is."""
+        if m.flows[i, o].nominal_capacity is not None:
+            return limit * m.flows[i, o].nominal_capacity
+        else:
+            return limit * block.invest[i, o, 0]
+
+    def _positive_gradient_limit_rule(_, i, o, t):
+        """Rule definition limiting the positive gradient."""
+        return block.positive_gradient[i, o, t] <= _gradient_limit(
+            i, o, m.flows[i, o].nonconvex.positive_gradient_limit[t]
+        )
+
+    block.positive_gradient_limit_constr = Constraint(
+        block.POSITIVE_GRADIENT_FLOWS,
+        m.TIMESTEPS,
+        rule=_positive_gradient_limit_rule,
+    )
+
+    def _negative_gradient_limit_rule(_, i, o, t):
+        """Rule definition limiting the negative gradient."""
+        return block.negative_gradient[i, o, t] <= _gradient_limit(
+            i, o, m.flows[i, o].nonconvex.negative_gradient_limit[t]
+        )
+
+    block.negative_gradient_limit_constr = Constraint(
+        block.NEGATIVE_GRADIENT_FLOWS,
+        m.TIMESTEPS,
+        rule=_negative_gradient_limit_rule,
+    )
+
     def _positive_gradient_flow_constraint(_):
         r"""Rule definition for positive gradient constraint."""
         for i, o in block.POSITIVE_GRADIENT_FLOWS:
@@ -441,9 +471,7 @@ def shared_constraints_for_non_convex_flows(block):
                             o,
                             m.TIMESTEPS[index],
                         ]
-                        * block.status[i, o, m.TIMESTEPS[index]]
                         - m.flow[i, o, m.TIMESTEPS[index - 1]]
-                        * block.status[i, o, m.TIMESTEPS[index - 1]]
                     )
                     rhs = block.positive_gradient[i, o, m.TIMEINDEX[index][1]]
                     block.positive_gradient_constr.add(
@@ -484,13 +512,11 @@ def shared_constraints_for_non_convex_flows(block):
                             o,
                             m.TIMESTEPS[index - 1],
                         ]
-                        * block.status[i, o, m.TIMESTEPS[index - 1]]
                         - m.flow[
                             i,
                             o,
                             m.TIMESTEPS[index],
                         ]
-                        * block.status[i, o, m.TIMESTEPS[index]]
                     )
                     rhs = block.negative_gradient[i, o, m.TIMESTEPS[index]]
                     block.negative_gradient_constr.add(
-- 
2.43.0


From 90834fa09ded0d8e97455edc0af89d97a3126c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 06/52] fix: compare the length of a sequence by value

sequence() compared the identity of two integers, which refuses matching
lengths from 257 on.
---
 src/oemof/solph/_plumbing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_plumbing.py b/src/oemof/solph/_plumbing.py
index 4459b31..908639a 100644
--- a/src/oemof/solph/_plumbing.py
+++ b/src/oemof/solph/_plumbing.py
@@ -60,10 +60,10 @@ def sequence(iterable_or_scalar, length=None):
     if iterable_or_scalar is None:
         return None
     if isinstance(iterable_or_scalar, abc.Iterable):
-        if length and length is not len(iterable_or_scalar):
+        if length and length != len(iterable_or_scalar):
             raise ValueError(
                 f"Length mismatch: Cannot create sequence of length {length}"
-                + " from input {iterable_or_scalar}."
+                + f" from input {iterable_or_scalar}."
             )
         else:
             if isinstance(iterable_or_scalar, str):
-- 
2.43.0


From 28cd2b615e87be14060289b71b1a9e0a126ff5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 07/52] fix: weight startup costs of typical periods

All other costs of a typical period count as often as it occurs.
---
 src/oemof/solph/flows/_shared.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index b50cc78..a65e337 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -607,6 +607,7 @@ def startup_costs(block):
                 startup_costs += sum(
                     block.startup[i, o, t]
                     * m.flows[i, o].nonconvex.startup_costs[t]
+                    * m.tsam_weighting[t]
                     for t in m.TIMESTEPS
                 )
 
-- 
2.43.0


From b5e37b98829185fd4fad6f5e0edd25236100f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 08/52] fix: scale the offset of slope_offset_from_* with the
 maximum load

The line did not pass through the given operation points if the maximum
load was not one.
---
 src/oemof/solph/components/_offset_converter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/components/_offset_converter.py b/src/oemof/solph/components/_offset_converter.py
index 4c161b6..99d3f02 100644
--- a/src/oemof/solph/components/_offset_converter.py
+++ b/src/oemof/solph/components/_offset_converter.py
@@ -527,7 +527,8 @@ def slope_offset_from_nonconvex_input(
             - \text{min} \cdot \eta_\text{at min}
         }{\text{max} - \text{min}}\\
 
-        \text{offset} = \eta_\text{at,max} - \text{slope}
+        \text{offset} = \text{max}
+        \cdot \left(\eta_\text{at,max} - \text{slope}\right)
 
     Parameters
     ----------
@@ -580,7 +581,7 @@ def slope_offset_from_nonconvex_input(
     slope = (max_load * eta_at_max - min_load * eta_at_min) / (
         max_load - min_load
     )
-    offset = eta_at_max - slope
+    offset = max_load * (eta_at_max - slope)
     return slope, offset
 
 
@@ -604,7 +605,8 @@ def slope_offset_from_nonconvex_output(
             - \frac{\text{min}}{\eta_\text{at min}}
         }{\text{max} - \text{min}}\\
 
-        \text{offset} = \frac{1}{\eta_\text{at,max}} - \text{slope}
+        \text{offset} = \text{max} \cdot
+        \left(\frac{1}{\eta_\text{at,max}} - \text{slope}\right)
 
     Parameters
     ----------
@@ -657,5 +659,5 @@ def slope_offset_from_nonconvex_output(
     slope = (max_load / eta_at_max - min_load / eta_at_min) / (
         max_load - min_load
     )
-    offset = 1 / eta_at_max - slope
+    offset = max_load * (1 / eta_at_max - slope)
     return slope, offset
-- 
2.43.0


From 89749ae57d5f23c357dc576606417192bd3d5015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 09/52] fix: allow investments without custom properties beside
 a flow limit

additional_investment_flow_limit() raised a TypeError if any other
investment had no custom properties at all.
---
 src/oemof/solph/constraints/investment_limit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/constraints/investment_limit.py b/src/oemof/solph/constraints/investment_limit.py
index bbf5e83..c959cba 100644
--- a/src/oemof/solph/constraints/investment_limit.py
+++ b/src/oemof/solph/constraints/investment_limit.py
@@ -204,7 +204,8 @@ def additional_investment_flow_limit(model, keyword, limit=None):
     for i, o in model.flows:
         if (
             model.flows[i, o].investment is not None
-            and keyword in model.flows[i, o].investment.custom_properties
+            and keyword
+            in (model.flows[i, o].investment.custom_properties or {})
         ):
             investments[(i, o)] = model.flows[i, o].investment
 
-- 
2.43.0


From 9637c1e9a8978f86ee8be3442a8cfea2b04a4000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 10/52] fix: apply the minimum flue gas losses of a GenericCHP

H_L_FG_share_min and Q_CW_min are custom properties of the flows; they
were looked up as attributes, so that equation 11 was never created.
---
 src/oemof/solph/components/_generic_chp.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/components/_generic_chp.py b/src/oemof/solph/components/_generic_chp.py
index 572b200..6dfc58a 100644
--- a/src/oemof/solph/components/_generic_chp.py
+++ b/src/oemof/solph/components/_generic_chp.py
@@ -492,8 +492,9 @@ class GenericCHPBlock(ScalarBlock):
         def _H_L_FG_min_rule(block, n, t):
             """Set min. flue gas loss as fuel flow share."""
             # minimum flue gas losses e.g. for motoric CHPs
-            if getattr(
-                list(n.fuel_input.values())[0], "H_L_FG_share_min", None
+            if (
+                "H_L_FG_share_min"
+                in list(n.fuel_input.values())[0].custom_properties
             ):
                 expr = 0
                 expr += -self.H_L_FG_min[n, t]
@@ -514,13 +515,17 @@ class GenericCHPBlock(ScalarBlock):
         def _Q_min_res_rule(block, n, t):
             """Set minimum Q depending on fuel and eletrical flow."""
             # minimum restriction for heat flows e.g. for motoric CHPs
-            if getattr(
-                list(n.fuel_input.values())[0], "H_L_FG_share_min", None
+            if (
+                "H_L_FG_share_min"
+                in list(n.fuel_input.values())[0].custom_properties
             ):
                 expr = 0
                 expr += self.P[n, t] + self.Q[n, t] + self.H_L_FG_min[n, t]
                 expr += (
-                    list(n.heat_output.values())[0].Q_CW_min[t] * self.Y[n, t]
+                    list(n.heat_output.values())[0].custom_properties[
+                        "Q_CW_min"
+                    ][t]
+                    * self.Y[n, t]
                 )
                 expr += -self.H_F[n, t]
                 return expr >= 0
-- 
2.43.0


From 11d8ae812c3b5d3ee37446e088318ea0e56d2822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 11/52] fix: apply a shared limit at the end of the time
 horizon, too

The storage content is defined for every point in time, of which there is
one more than there are time steps.
---
 src/oemof/solph/constraints/shared_limit.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/constraints/shared_limit.py b/src/oemof/solph/constraints/shared_limit.py
index 70a51bb..2ce7165 100644
--- a/src/oemof/solph/constraints/shared_limit.py
+++ b/src/oemof/solph/constraints/shared_limit.py
@@ -90,16 +90,22 @@ def shared_limit(
     ... )
     """
 
-    setattr(model, limit_name, po.Var(model.TIMESTEPS))
+    # Quantities as the storage content are defined for every point in time,
+    # there is one more of them than there are time steps.
+    times = model.TIMESTEPS
+    if all((c, model.TIMEPOINTS.last()) in quantity for c in components):
+        times = model.TIMEPOINTS
 
-    for t in model.TIMESTEPS:
+    setattr(model, limit_name, po.Var(times))
+
+    for t in times:
         getattr(model, limit_name)[t].setlb(lower_limit)
         getattr(model, limit_name)[t].setub(upper_limit)
 
     weighted_sum_constraint = limit_name + "_constraint"
 
     def _weighted_sum_rule(m):
-        for ts in m.TIMESTEPS:
+        for ts in times:
             lhs = sum(quantity[c, ts] * w for c, w in zip(components, weights))
             rhs = getattr(model, limit_name)[ts]
             expr = lhs == rhs
@@ -108,7 +114,7 @@ def shared_limit(
     setattr(
         model,
         weighted_sum_constraint,
-        po.Constraint(model.TIMESTEPS, noruleinit=True),
+        po.Constraint(times, noruleinit=True),
     )
     setattr(
         model,
-- 
2.43.0


From 2229eee929ebc2b8cb297bb557732219065ae930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 12/52] fix: calculate the MIP gap of problems with an
 objective of zero

meta_results() raised a ZeroDivisionError.
---
 src/oemof/solph/processing.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index db1439c..1a4d9cf 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -801,15 +801,22 @@ def meta_results(om, undefined=False):
                     meta_res[k1][k2] = msg.format(
                         type(om.es.results[k1][0][k2])
                     )
-    meta_res["problem"]["MIPGap"] = abs(
+    gap = abs(
         meta_res["problem"]["Upper bound"] - meta_res["problem"]["Lower bound"]
-    ) / (
+    )
+    mean = (
         abs(
             meta_res["problem"]["Upper bound"]
             + meta_res["problem"]["Lower bound"]
         )
         / 2
     )
+    if gap == 0:
+        meta_res["problem"]["MIPGap"] = 0.0
+    elif mean == 0:
+        meta_res["problem"]["MIPGap"] = float("inf")
+    else:
+        meta_res["problem"]["MIPGap"] = gap / mean
     return meta_res
 
 
-- 
2.43.0


From 93a187d185005209c22b0b423ede291f0b26a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 13/52] fix: document the offset of the OffsetConverter for
 maximum loads below one

---
 src/oemof/solph/components/_offset_converter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/components/_offset_converter.py b/src/oemof/solph/components/_offset_converter.py
index 99d3f02..08ad95f 100644
--- a/src/oemof/solph/components/_offset_converter.py
+++ b/src/oemof/solph/components/_offset_converter.py
@@ -63,7 +63,8 @@ class OffsetConverter(Node):
         m = \frac{l_\text{max}/\eta_\text{max}-l_\text{min}/\eta_\text{min}}
         {l_\text{max}-l_\text{min}}
 
-        y_\text{0,normed} = \frac{1}{\eta_{max}} - m
+        y_\text{0,normed} = l_\text{max} \cdot
+        \left(\frac{1}{\eta_\text{max}} - m\right)
 
     Where :math:`l_{max}` and :math:`l_{min}` are the maximum and minimum
     partload share (e.g. 1.0 and 0.5) with reference to the `NonConvex` flow
@@ -96,7 +97,7 @@ class OffsetConverter(Node):
     >>> eta_max = 0.5
     >>> eta_min = 0.3
     >>> slope = (l_max / eta_max - l_min / eta_min) / (l_max - l_min)
-    >>> offset = 1 / eta_max - slope
+    >>> offset = l_max * (1 / eta_max - slope)
 
     Or use the provided method as explained in the previous section:
 
@@ -123,13 +124,13 @@ class OffsetConverter(Node):
     The input required to operate at minimum load, can be computed from the
     slope and offset:
 
-    >>> input_at_min = ostf.conversion_factors[bel][0] * l_min + ostf.normed_offsets[bel][0] * l_max
+    >>> input_at_min = ostf.conversion_factors[bel][0] * l_min + ostf.normed_offsets[bel][0]
     >>> input_at_min * l_nominal
     100.0
 
     The same can be done for the input at nominal load:
 
-    >>> input_at_max = l_max * (ostf.conversion_factors[bel][0] + ostf.normed_offsets[bel][0])
+    >>> input_at_max = ostf.conversion_factors[bel][0] * l_max + ostf.normed_offsets[bel][0]
     >>> input_at_max * l_nominal
     120.0
 
-- 
2.43.0


From e2d3235769084c83810f8a1e16b9d3e53fce4304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 14/52] fix: use the whole coefficient series of an
 OffsetConverter

Only the first element was used if the flow limits are scalar.
---
 src/oemof/solph/components/_offset_converter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/components/_offset_converter.py b/src/oemof/solph/components/_offset_converter.py
index 08ad95f..3de3081 100644
--- a/src/oemof/solph/components/_offset_converter.py
+++ b/src/oemof/solph/components/_offset_converter.py
@@ -283,10 +283,10 @@ class OffsetConverter(Node):
 
         input_bus = list(self.inputs.values())[0].input
         for flow in self.outputs.values():
-            if flow.maximum.size is not None:
-                target_len = flow.maximum.size
-            else:
-                target_len = 1
+            target_len = max(
+                series.size or 1
+                for series in (flow.maximum, flow.minimum, *coefficients)
+            )
 
             slope = []
             offset = []
-- 
2.43.0


From 74fd5c980376a4c48d2906fdb1dfda00ef834315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 15/52] fix: apply minimum levels of investment storages at the
 last point in time

A series that is only positive there was ignored.
---
 src/oemof/solph/components/_generic_storage.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index fa9b6f1..3347f12 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1511,13 +1511,9 @@ class GenericInvestmentStorageBlock(ScalarBlock):
 
         # The storage content is a non-negative variable, therefore it makes no
         # sense to create an additional constraint if the lower bound is zero
-        # for all time steps.
+        # for all points in time.
         self.MIN_INVESTSTORAGES = Set(
-            initialize=[
-                n
-                for n in group
-                if sum([n.min_storage_level[t] for t in m.TIMESTEPS]) > 0
-            ]
+            initialize=[n for n in group if n.min_storage_level.max() > 0]
         )
 
         self.OVERALL_MAXIMUM_INVESTSTORAGES = Set(
-- 
2.43.0


From ec4bde3eba1945839ae16d6bd80acf9b7eb8bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 16/52] fix: limit the final content of storages with typical
 periods

---
 src/oemof/solph/components/_generic_storage.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 3347f12..1256d1d 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -644,6 +644,22 @@ class GenericStorageBlock(ScalarBlock):
                         n.initial_storage_level * n.nominal_storage_capacity
                     )
                     self.inter_storage_content[n, 0].fix()
+                # The level limits are formulated for the begin of time steps,
+                # so (unless balanced) the final content needs its own bounds.
+                if n.balanced is not True:
+                    p_end, i_end, g_end = m.TIMEINDEX_CLUSTER[-1]
+                    t_end = m.get_timestep_from_tsam_timestep(
+                        p_end, i_end, g_end
+                    )
+                    final_content = self.inter_storage_content[
+                        n, m.CLUSTERS_OFFSET.at(-1)
+                    ]
+                    final_content.setlb(
+                        n.nominal_storage_capacity * n.min_storage_level[t_end]
+                    )
+                    final_content.setub(
+                        n.nominal_storage_capacity * n.max_storage_level[t_end]
+                    )
         #  ************* Constraints ***************************
 
         def _storage_inter_minimum_level_rule(block):
-- 
2.43.0


From 5b2a172060d92df5917c09dccbe2a3c2b01db726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 17/52] fix: find time steps of typical periods if years differ
 in length

---
 src/oemof/solph/_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/_models.py b/src/oemof/solph/_models.py
index 093eaeb..2d79c28 100644
--- a/src/oemof/solph/_models.py
+++ b/src/oemof/solph/_models.py
@@ -516,7 +516,7 @@ class Model(po.ConcreteModel):
     def get_timestep_from_tsam_timestep(self, p, ik, g):
         """Return original timestep from cluster-based timestep"""
         t = (
-            p * len(self.TIMESTEPS_IN_PERIOD[p])
+            sum(len(self.TIMESTEPS_IN_PERIOD[pp]) for pp in range(p))
             + ik * self.es.tsa_parameters[p]["timesteps"]
             + g
         )
-- 
2.43.0


From d88e9f158b2ca9f6bbfb67a565b1ea01769e7d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 18/52] fix: apply the losses of each time step to contents of
 typical periods

---
 src/oemof/solph/_models.py                    | 10 ++++++
 .../solph/components/_generic_storage.py      | 34 ++++++-------------
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/oemof/solph/_models.py b/src/oemof/solph/_models.py
index 2d79c28..4b7ca04 100644
--- a/src/oemof/solph/_models.py
+++ b/src/oemof/solph/_models.py
@@ -16,6 +16,7 @@ SPDX-License-Identifier: MIT
 """
 
 import logging
+import math
 import warnings
 from logging import getLogger
 
@@ -522,6 +523,15 @@ class Model(po.ConcreteModel):
         )
         return t
 
+    def get_tsam_loss_factor(self, loss_rate, p, k, g):
+        """Return the share of a storage content that is left after the first
+        `g` time steps of the typical period `k` in period `p`"""
+        t0 = self.get_timestep_from_tsam_timestep(p, k, 0)
+        return math.prod(
+            (1 - loss_rate[t]) ** self.timeincrement[t]
+            for t in range(t0, t0 + g)
+        )
+
     def get_cluster_index(self, cluster_type, offset):
         """
         Return cluster index for original or typical periods with or
diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 1256d1d..bdebaac 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -22,7 +22,6 @@ SPDX-License-Identifier: MIT
 
 """
 
-import math
 import numbers
 from warnings import warn
 
@@ -671,7 +670,6 @@ class GenericStorageBlock(ScalarBlock):
                     t = m.get_timestep_from_tsam_timestep(p, i, g)
                     lhs = n.nominal_storage_capacity * n.min_storage_level[t]
                     k = m.es.tsa_parameters[p]["order"][i]
-                    tk = m.get_timestep_from_tsam_timestep(p, k, g)
                     inter_i = (
                         sum(
                             len(m.es.tsa_parameters[ip]["order"])
@@ -681,7 +679,7 @@ class GenericStorageBlock(ScalarBlock):
                     )
                     rhs = (
                         self.inter_storage_content[n, inter_i]
-                        * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                        * m.get_tsam_loss_factor(n.loss_rate, p, k, g)
                         + self.intra_storage_delta[n, p, k, g]
                     )
                     self.storage_inter_minimum_level.add(
@@ -702,7 +700,6 @@ class GenericStorageBlock(ScalarBlock):
                 for p, i, g in m.TIMEINDEX_CLUSTER:
                     t = m.get_timestep_from_tsam_timestep(p, i, g)
                     k = m.es.tsa_parameters[p]["order"][i]
-                    tk = m.get_timestep_from_tsam_timestep(p, k, g)
                     inter_i = (
                         sum(
                             len(m.es.tsa_parameters[ip]["order"])
@@ -712,7 +709,7 @@ class GenericStorageBlock(ScalarBlock):
                     )
                     lhs = (
                         self.inter_storage_content[n, inter_i]
-                        * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                        * m.get_tsam_loss_factor(n.loss_rate, p, k, g)
                         + self.intra_storage_delta[n, p, k, g]
                     )
                     rhs = n.nominal_storage_capacity * n.max_storage_level[t]
@@ -815,15 +812,8 @@ class GenericStorageBlock(ScalarBlock):
             k = m.es.tsa_parameters[p]["order"][ii]
 
             # Calculate inter losses over whole typical period
-            t0 = m.get_timestep_from_tsam_timestep(p, k, 0)
-            losses = math.prod(
-                (
-                    (1 - n.loss_rate[t0 + s])
-                    ** m.es.tsa_parameters[p]["segments"][(k, s)]
-                    if "segments" in m.es.tsa_parameters[p]
-                    else 1 - n.loss_rate[t0 + s]
-                )
-                for s in range(m.es.tsa_parameters[p]["timesteps"])
+            losses = m.get_tsam_loss_factor(
+                n.loss_rate, p, k, m.es.tsa_parameters[p]["timesteps"]
             )
 
             expr = 0
@@ -1930,14 +1920,14 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     break
 
             k = m.es.tsa_parameters[p]["order"][ii]
-            t = m.get_timestep_from_tsam_timestep(
-                p, k, m.es.tsa_parameters[p]["timesteps"] - 1
+            # Calculate inter losses over whole typical period
+            losses = m.get_tsam_loss_factor(
+                n.loss_rate, p, k, m.es.tsa_parameters[p]["timesteps"]
             )
+
             expr = 0
             expr += block.inter_storage_content[n, i + 1]
-            expr += -block.inter_storage_content[n, i] * (
-                1 - n.loss_rate[t]
-            ) ** (m.timeincrement[t] * m.es.tsa_parameters[p]["timesteps"])
+            expr += -block.inter_storage_content[n, i] * losses
             expr += -self.intra_storage_delta[
                 n, p, k, m.es.tsa_parameters[p]["timesteps"]
             ]
@@ -2182,7 +2172,6 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     for p, i, g in m.TIMEINDEX_CLUSTER:
                         t = m.get_timestep_from_tsam_timestep(p, i, g)
                         k = m.es.tsa_parameters[p]["order"][i]
-                        tk = m.get_timestep_from_tsam_timestep(p, k, g)
                         inter_i = (
                             sum(
                                 len(m.es.tsa_parameters[ip]["order"])
@@ -2192,7 +2181,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         )
                         lhs = (
                             self.inter_storage_content[n, inter_i]
-                            * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                            * m.get_tsam_loss_factor(n.loss_rate, p, k, g)
                             + self.intra_storage_delta[n, p, k, g]
                         )
                         rhs = self.total[n, p] * n.max_storage_level[t]
@@ -2217,7 +2206,6 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         t = m.get_timestep_from_tsam_timestep(p, i, g)
                         lhs = self.total[n, p] * n.min_storage_level[t]
                         k = m.es.tsa_parameters[p]["order"][i]
-                        tk = m.get_timestep_from_tsam_timestep(p, k, g)
                         inter_i = (
                             sum(
                                 len(m.es.tsa_parameters[ip]["order"])
@@ -2227,7 +2215,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         )
                         rhs = (
                             self.inter_storage_content[n, inter_i]
-                            * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                            * m.get_tsam_loss_factor(n.loss_rate, p, k, g)
                             + self.intra_storage_delta[n, p, k, g]
                         )
                         self.storage_inter_minimum_level.add(
-- 
2.43.0


From e7262db1b90e040056d1f860e939382274e2b3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 19/52] fix: weight limits on sums with the occurrences of
 typical periods

---
 src/oemof/solph/constraints/integral_limit.py   |  2 ++
 src/oemof/solph/flows/_investment_flow_block.py |  6 ++++--
 src/oemof/solph/flows/_shared.py                | 10 ++++++++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/constraints/integral_limit.py b/src/oemof/solph/constraints/integral_limit.py
index 679e17a..3f2b30d 100644
--- a/src/oemof/solph/constraints/integral_limit.py
+++ b/src/oemof/solph/constraints/integral_limit.py
@@ -165,6 +165,7 @@ def generic_integral_limit(
             expr=sum(
                 om.flow[i, o, t]
                 * om.timeincrement[t]
+                * om.tsam_weighting[t]
                 * sequence(flows[i, o].custom_properties[keyword])[t]
                 for (i, o) in flows
                 for t in om.TIMESTEPS
@@ -251,6 +252,7 @@ def generic_periodical_integral_limit(om, keyword, flows=None, limit=None):
         expr = sum(
             om.flow[i, o, t]
             * om.timeincrement[t]
+            * om.tsam_weighting[t]
             * sequence(flows[i, o].custom_properties[keyword])[t]
             for (i, o) in flows
             for t in m.TIMESTEPS_IN_PERIOD[p]
diff --git a/src/oemof/solph/flows/_investment_flow_block.py b/src/oemof/solph/flows/_investment_flow_block.py
index 9f1cd41..0ddf074 100644
--- a/src/oemof/solph/flows/_investment_flow_block.py
+++ b/src/oemof/solph/flows/_investment_flow_block.py
@@ -681,7 +681,8 @@ class InvestmentFlowBlock(ScalarBlock):
             in investment case.
             """
             expr = sum(
-                m.flow[i, o, t] * m.timeincrement[t] for t in m.TIMESTEPS
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
             ) <= (
                 m.flows[i, o].full_load_time_max
                 * sum(self.total[i, o, p] for p in m.PERIODS)
@@ -698,7 +699,8 @@ class InvestmentFlowBlock(ScalarBlock):
             in investment case.
             """
             expr = sum(
-                m.flow[i, o, t] * m.timeincrement[t] for t in m.TIMESTEPS
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
             ) >= (
                 sum(self.total[i, o, p] for p in m.PERIODS)
                 * m.flows[i, o].full_load_time_min
diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index a65e337..03d1055 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -372,7 +372,10 @@ def _max_startup_constraint(block):
 
     def _max_startup_rule(_, i, o):
         """Rule definition for maximum number of start-ups."""
-        lhs = sum(block.startup[i, o, t] for t in m.TIMESTEPS)
+        lhs = sum(
+            block.startup[i, o, t] * m.tsam_weighting[t]
+            for t in m.TIMESTEPS
+        )
         return lhs <= m.flows[i, o].nonconvex.maximum_startups
 
     return Constraint(block.MAXSTARTUPFLOWS, rule=_max_startup_rule)
@@ -389,7 +392,10 @@ def _max_shutdown_constraint(block):
 
     def _max_shutdown_rule(_, i, o):
         """Rule definition for maximum number of start-ups."""
-        lhs = sum(block.shutdown[i, o, t] for t in m.TIMESTEPS)
+        lhs = sum(
+            block.shutdown[i, o, t] * m.tsam_weighting[t]
+            for t in m.TIMESTEPS
+        )
         return lhs <= m.flows[i, o].nonconvex.maximum_shutdowns
 
     return Constraint(block.MAXSHUTDOWNFLOWS, rule=_max_shutdown_rule)
-- 
2.43.0


From 5ab5afcbc91d2405ac4cbb487bebf361ac9632d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 20/52] fix: label results of multi-period and aggregated
 models

The time index of these models does not have one element more than there
are time steps, so that accessing time series from Results failed.
---
 src/oemof/solph/_results.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index efb7309..38c090b 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -150,11 +150,17 @@ class Results:
 
             # overwrite known indexes
             index_type = tuple(dataset.index_set().subsets())[-1].name
+            # (multi-period time indexes do not have a final time point and
+            # the time index of typical periods might differ in length)
+            timeindex = self._model.es.timeindex
             match index_type:
-                case "TIMEPOINTS":
-                    rv.index = self._model.es.timeindex
-                case "TIMESTEPS":
-                    rv.index = self._model.es.timeindex[:-1]
+                case "TIMEPOINTS" if len(rv) == len(timeindex):
+                    rv.index = timeindex
+                case "TIMESTEPS" if len(rv) in (
+                    len(timeindex) - 1,
+                    len(timeindex),
+                ):
+                    rv.index = timeindex[: len(rv)]
                 case _:
                     rv.index = rv.index.get_level_values(-1)
         else:
-- 
2.43.0


From e1ee4f4179def203f0d40ae48c5043ebeab8d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 21/52] fix: find all keys in Results

Results could be accessed by 'objective' and 'variable_costs', but these
keys did not seem to be contained.
---
 src/oemof/solph/_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index 38c090b..6a8a1ae 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -330,4 +330,4 @@ class Results:
             return rv
 
     def __contains__(self, key: Hashable) -> bool:
-        return key in self._solver_results or key in self._variables
+        return key in self.keys()
-- 
2.43.0


From 64bce776a4735b82709f97dd380c3a2872b518a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 22/52] fix: only charge the offset of investments that are
 made

Results.get('investment_costs') included the offset of nonconvex
investments even if the optimization decided not to invest.
---
 src/oemof/solph/_results.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index 6a8a1ae..be3a5b0 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -207,6 +207,14 @@ class Results:
         except KeyError:  # no investments
             return pd.DataFrame()
 
+        # The offset only has to be paid if there is an investment.
+        invest_status = self.get("invest_status", pd.DataFrame())
+
+        def _offset(col, investment):
+            if col in invest_status.columns:
+                return investment.offset[0] * invest_status[col].iloc[0]
+            return investment.offset[0]
+
         # Initialize an empty dictionary to collect results
         capex_data = {}
 
@@ -231,7 +239,9 @@ class Results:
                             investment_costs = (
                                 self._model.flows[i, o].investment.ep_costs[0]
                                 * invest_size
-                                + self._model.flows[i, o].investment.offset[0]
+                                + _offset(
+                                    col, self._model.flows[i, o].investment
+                                )
                             )
 
                             # Save values to dictionary
@@ -256,7 +266,7 @@ class Results:
 
                             investment_costs = (
                                 node.investment.ep_costs[0] * invest_size
-                                + node.investment.offset[0]
+                                + _offset(col, node.investment)
                             )
 
                             # Save values to dictionary
-- 
2.43.0


From 7413e4e641c228c8d5e1f765ccafc1b4f1c1eaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 23/52] fix: label storage contents of multi-period results by
 time

The result of removing the last time point and of setting the index was
dropped, so that contents kept their number as index.
---
 src/oemof/solph/processing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 1a4d9cf..3db4c5e 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -201,6 +201,7 @@ def set_sequences_index(df, result_index):
             df.index = result_index
         except ValueError:
             raise ValueError("Results extraction failed!")
+    return df
 
 
 def results(model, remove_last_time_point=False):
@@ -435,9 +436,9 @@ def _extract_multi_period_model_result(
             :, [col for col in df_dict[k].columns if col not in period_cols]
         ]
         if remove_last_time_point:
-            set_sequences_index(sequences, result_index[:-1])
+            sequences = set_sequences_index(sequences, result_index[:-1])
         else:
-            set_sequences_index(sequences, result_index)
+            sequences = set_sequences_index(sequences, result_index)
         if period_scalars.empty:
             period_scalars = pd.DataFrame(index=d.values())
         try:
-- 
2.43.0


From 1238454eb8187c33bfa4fb25961994cc14c9a355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 24/52] fix: list the investment status in the period scalars

The status of nonconvex investments of multi-period models was mixed into
the sequences, where it was labelled with time steps instead of periods.
---
 src/oemof/solph/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 3db4c5e..7ba78d6 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -297,7 +297,7 @@ def results(model, remove_last_time_point=False):
 
     # Results extraction for a multi-period model
     else:
-        period_indexed = ["invest", "total", "old", "old_end", "old_exo"]
+        period_indexed = list(PERIOD_INDEXES)
 
         result = _extract_multi_period_model_result(
             model,
-- 
2.43.0


From 9c8324604996068d9b7ed78055db499adde6cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 25/52] fix: keep the last time step of multi-period and
 aggregated results

Their time index does not have an additional last time point, so that
remove_last_time_point removed the results of the last time step or failed
for storages.
---
 src/oemof/solph/processing.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 7ba78d6..80ca1bd 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -281,6 +281,13 @@ def results(model, remove_last_time_point=False):
         else:
             result_index = model.es.timeindex
 
+    # Time indexes of multi-period and of aggregated models just have one
+    # element per time step, i.e. there is no last time point to be removed.
+    if model.es.tsa_parameters is not None or len(result_index) == len(
+        model.es.timeincrement
+    ):
+        remove_last_time_point = False
+
     if model.es.tsa_parameters is not None:
         df_dict = _disaggregate_tsa_result(df_dict, model.es.tsa_parameters)
 
-- 
2.43.0


From adda557e2275b3f50199e4443846277628d78e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 26/52] fix: tell scalars from sequences in results of one time
 step

Scalars have been detected by missing values in the second and later time
steps, so that investments were listed as sequences if there is just one
(or if there are two and the last time point is removed).
---
 src/oemof/solph/processing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 80ca1bd..3800a1a 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -45,6 +45,9 @@ PERIOD_INDEXES = (
     "invest_status",
 )
 
+# scalar variables of standard models
+SCALARS = PERIOD_INDEXES + ("init_content",)
+
 
 def get_tuple(x):
     """Get oemof tuple within iterable or create it
@@ -152,6 +155,9 @@ def divide_scalars_sequences(df_dict, k):
     """
     try:
         condition = df_dict[k][:-1].isnull().any()
+        # Missing values do not tell scalars from sequences with just one
+        # value, but the names of the variables do.
+        condition |= df_dict[k].columns.isin(SCALARS)
         scalars = df_dict[k].loc[:, condition].dropna().iloc[0]
         sequences = df_dict[k].loc[:, ~condition]
         return {"scalars": scalars, "sequences": sequences}
-- 
2.43.0


From 1dfa68ea6fa192aa547f254b7e81ebc69eef443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 27/52] fix: disaggregate the content of storages with typical
 periods

The losses have been taken from the time steps of another typical period
(or from beyond the end of the series) and were applied for one hour, no
matter how long the time steps are.
---
 src/oemof/solph/processing.py | 36 +++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 3800a1a..82c42a7 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -295,7 +295,9 @@ def results(model, remove_last_time_point=False):
         remove_last_time_point = False
 
     if model.es.tsa_parameters is not None:
-        df_dict = _disaggregate_tsa_result(df_dict, model.es.tsa_parameters)
+        df_dict = _disaggregate_tsa_result(
+            df_dict, model.es.tsa_parameters, model.timeincrement
+        )
 
     # create final result dictionary by splitting up the dataframes in the
     # dataframe dict into a series for scalar data and dataframe for sequences
@@ -471,7 +473,7 @@ def _extract_multi_period_model_result(
     return result
 
 
-def _disaggregate_tsa_result(df_dict, tsa_parameters):
+def _disaggregate_tsa_result(df_dict, tsa_parameters, timeincrement=None):
     """
     Disaggregate timeseries aggregated by TSAM
 
@@ -489,6 +491,10 @@ def _disaggregate_tsa_result(df_dict, tsa_parameters):
     tsa_parameters : list-of-dicts
         TSAM parameters holding order, occurrences and timsteps_per_period for
         each period
+    timeincrement : list
+        Duration of the time steps of the typical periods in hours, which is
+        needed for the losses of storages (default: duration of the segments
+        or one hour)
 
     Returns
     -------
@@ -553,7 +559,7 @@ def _disaggregate_tsa_result(df_dict, tsa_parameters):
     # Add storage SOC flows:
     for storage, soc in storages.items():
         flow_dict[(storage, None)] = _calculate_soc_from_inter_and_intra_soc(
-            soc, storage, tsa_parameters
+            soc, storage, tsa_parameters, timeincrement
         )
     # Add multiplexer boolean actives values:
     for multiplexer, values in multiplexer.items():
@@ -606,8 +612,18 @@ def _disaggregate_segmentation(
     return disaggregated_data
 
 
-def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
+def _calculate_soc_from_inter_and_intra_soc(
+    soc, storage, tsa_parameters, timeincrement=None
+):
     """Calculate resulting SOC from inter and intra SOC flows"""
+
+    def _get_duration(t, k, g, tsa_period):
+        if timeincrement is not None:
+            return timeincrement[t]
+        if "segments" in tsa_period:
+            return tsa_period["segments"][(k, g)]
+        return 1
+
     soc_frames = []
     i_offset = 0
     t_offset = 0
@@ -616,7 +632,7 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
             inter_value = soc["inter"].iloc[i_offset + i]["value"]
             # Self-discharge has to be taken into account for calculating
             # inter SOC for each timestep in cluster
-            t0 = t_offset + i * tsa_period["timesteps"]
+            t0 = t_offset + k * tsa_period["timesteps"]
             # Add last timesteps of simulation in order to interpolate SOC for
             # last segment correctly:
             is_last_timestep = (
@@ -632,12 +648,8 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
                 pd.Series(
                     itertools.accumulate(
                         (
-                            (
-                                (1 - storage.loss_rate[t])
-                                ** tsa_period["segments"][(k, t - t0)]
-                                if "segments" in tsa_period
-                                else 1 - storage.loss_rate[t]
-                            )
+                            (1 - storage.loss_rate[t])
+                            ** _get_duration(t, k, t - t0, tsa_period)
                             for t in range(
                                 t0,
                                 t0 + timesteps - 1,
@@ -671,7 +683,7 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
 
             soc_frames.append(soc_frame)
         i_offset += len(tsa_period["order"])
-        t_offset += i_offset * tsa_period["timesteps"]
+        t_offset += len(tsa_period["occurrences"]) * tsa_period["timesteps"]
     soc_ts = pd.concat(soc_frames)
 
     soc_ts["timestep"] = range(len(soc_ts))
-- 
2.43.0


From c4d0b52144b98337fdbb2676bc50fc5ac02559c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 28/52] fix: list parameters of storages with series of
 different length

parameter_as_dict failed for storages that have series for time steps (e.g.
losses) as well as series for time points (levels).
---
 src/oemof/solph/processing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 82c42a7..4510f8e 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -944,7 +944,10 @@ def __separate_attrs(
 
         com_data = {
             "scalars": pd.Series(com_data["scalars"]),
-            "sequences": pd.DataFrame(com_data["sequences"]),
+            # The length of sequences might differ (time steps, time points).
+            "sequences": pd.DataFrame(
+                {k: pd.Series(v) for k, v in com_data["sequences"].items()}
+            ),
         }
         return com_data
 
-- 
2.43.0


From b3f71907f1b8652d066a6145e77b13497642c02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 29/52] fix: find the nodes with outputs in results with
 entries of nodes

filter_nodes counted the keys of nodes (node, None) as outputs.
---
 src/oemof/solph/views.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/views.py b/src/oemof/solph/views.py
index 904838e..3e5da5b 100644
--- a/src/oemof/solph/views.py
+++ b/src/oemof/solph/views.py
@@ -182,9 +182,12 @@ def filter_nodes(results, option=NodeOption.All, exclude_busses=False):
     :obj:`set`
         A set of Nodes.
     """
-    node_from, node_to = map(lambda x: set(x) - {None}, zip(*results))
+    # keys of nodes are (node, None), they do not indicate an output
+    flows = [key for key in results if key[1] is not None]
+    node_from = {key[0] for key in flows}
+    node_to = {key[1] for key in flows}
     if option == NodeOption.All:
-        nodes = node_from.union(node_to)
+        nodes = {key[0] for key in results} | node_to
     elif option == NodeOption.HasOutputs:
         nodes = node_from
     elif option == NodeOption.HasInputs:
-- 
2.43.0


From 2146a0e09f783301223260a271327d43079288cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 30/52] fix: list parameters that are neither scalars nor sized

parameter_as_dict failed with exclude_none=False for attributes that are
dictionaries of flows.
---
 src/oemof/solph/processing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 4510f8e..f38fe49 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -959,6 +959,9 @@ def __separate_attrs(
             elif isinstance(value, _FakeSequence):
                 com["scalars"][ckey] = value.value
                 del com["sequences"][ckey]
+            elif not isinstance(value, abc.Sized):
+                com["scalars"][ckey] = value
+                del com["sequences"][ckey]
             elif len(value) == 0:
                 del com["sequences"][ckey]
 
-- 
2.43.0


From 40ddc59e50d7780211c79a3788ab4d181fd20a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 31/52] fix: process results with duals of models without
 balanced buses

---
 src/oemof/solph/processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index f38fe49..0859eec 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -324,8 +324,8 @@ def results(model, remove_last_time_point=False):
         )
         scalars_col = "period_scalars"
 
-    # add dual variables for bus constraints
-    if model.dual is not None:
+    # add dual variables for bus constraints (if there is a balanced bus)
+    if model.dual is not None and hasattr(model.BusBlock, "balance"):
         grouped = groupby(
             sorted(model.BusBlock.balance.iterkeys()), lambda t: t[0]
         )
-- 
2.43.0


From e75b2a2ade08f7b54fcaed84ae8f4a49bcfec892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 32/52] fix: check all values of series given to Flow and
 Investment

Only the first value of minimum, maximum, fix and offset was considered.
---
 src/oemof/solph/_options.py    |  6 ++++--
 src/oemof/solph/flows/_flow.py | 11 ++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/oemof/solph/_options.py b/src/oemof/solph/_options.py
index 9ae119c..63b20c2 100644
--- a/src/oemof/solph/_options.py
+++ b/src/oemof/solph/_options.py
@@ -151,7 +151,7 @@ class Investment:
 
     def _check_invest_attributes_maximum(self):
         """Throw an error if maximum is infinite and nonconvex is True"""
-        if (self.maximum[0] == float("+inf")) and (self.nonconvex is True):
+        if (self.maximum.max() == float("+inf")) and (self.nonconvex is True):
             e2 = (
                 "Please provide a maximum investment value in case of"
                 " nonconvex investment (nonconvex=True), which is in the"
@@ -164,7 +164,9 @@ class Investment:
 
     def _check_invest_attributes_offset(self):
         """Throw an error if offset is given without nonconvex=True"""
-        if (self.offset[0] != 0) and (self.nonconvex is False):
+        if (self.offset.min() != 0 or self.offset.max() != 0) and (
+            self.nonconvex is False
+        ):
             e3 = (
                 "If `nonconvex` is `False`, the `offset` parameter will be"
                 " ignored."
diff --git a/src/oemof/solph/flows/_flow.py b/src/oemof/solph/flows/_flow.py
index a293666..deeff4d 100644
--- a/src/oemof/solph/flows/_flow.py
+++ b/src/oemof/solph/flows/_flow.py
@@ -326,18 +326,19 @@ class Flow(Edge):
         }
         if self.investment is None and self.nominal_capacity is None:
             for attr in need_nominal_capacity:
-                if isinstance(getattr(self, attr), Iterable):
-                    the_attr = getattr(self, attr)[0]
+                the_attr = getattr(self, attr)
+                if isinstance(the_attr, Iterable):
+                    values = {the_attr.min(), the_attr.max()}
                 else:
-                    the_attr = getattr(self, attr)
-                if the_attr != need_nominal_capacity_defaults[attr]:
+                    values = {the_attr}
+                if values != {need_nominal_capacity_defaults[attr]}:
                     raise AttributeError(
                         f"If {attr} is set in a flow, "
                         "nominal_capacity must be set as well."
                     )
 
         if self.nominal_capacity is not None and not math.isfinite(
-            self.maximum[0]
+            self.maximum.max()
         ):
             raise ValueError(infinite_error_msg.format("maximum"))
 
-- 
2.43.0


From 19de0f7a5afba19ac30f7e7fb6aa916398e82856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 33/52] fix: bound the output of piecewise linear converters by
 all breakpoints

The output was limited to the range between the first and the last value,
which made decreasing functions infeasible and cut off extrema.
---
 .../experimental/_piecewise_linear_converter.py      | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/oemof/solph/components/experimental/_piecewise_linear_converter.py b/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
index fad3b91..f90308f 100644
--- a/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
+++ b/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
@@ -167,14 +167,12 @@ class PiecewiseLinearConverterBlock(ScalarBlock):
         # bounds are min/max of breakpoints
         lower_bound_in = {n: min(n.in_breakpoints) for n in group}
         upper_bound_in = {n: max(n.in_breakpoints) for n in group}
-        lower_bound_out = {
-            n: n.conversion_function(bound)
-            for (n, bound) in lower_bound_in.items()
-        }
-        upper_bound_out = {
-            n: n.conversion_function(bound)
-            for (n, bound) in upper_bound_in.items()
+        values_out = {
+            n: [n.conversion_function(x) for x in n.in_breakpoints]
+            for n in group
         }
+        lower_bound_out = {n: min(values_out[n]) for n in group}
+        upper_bound_out = {n: max(values_out[n]) for n in group}
 
         def get_inflow_bounds(model, n, t):
             return lower_bound_in[n], upper_bound_in[n]
-- 
2.43.0


From 54fecdcf9dcb7a13f2ff291550023970caf46aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 34/52] fix: charge and discharge the cavern of a GenericCAES
 only in operation

The constant parts of the exergy flows applied without compression or
expansion, too, in contrast to the documented equations (20) and (21).
---
 src/oemof/solph/components/experimental/_generic_caes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/components/experimental/_generic_caes.py b/src/oemof/solph/components/experimental/_generic_caes.py
index 384ca90..a5c7868 100644
--- a/src/oemof/solph/components/experimental/_generic_caes.py
+++ b/src/oemof/solph/components/experimental/_generic_caes.py
@@ -212,8 +212,8 @@ class GenericCAESBlock(ScalarBlock):
              + b_{cas\_in}\cdot ST_{cmp}(t)
              \quad \forall t \in T \\
         &
-        (21) \quad\; \dot{E}_{cas\_out}(t) = m_{cas\_out}\cdot P_{cmp}(t)
-             + b_{cas\_out}\cdot ST_{cmp}(t)
+        (21) \quad\; \dot{E}_{cas\_out}(t) = m_{cas\_out}\cdot P_{exp}(t)
+             + b_{cas\_out}\cdot ST_{exp}(t)
              \quad \forall t \in T \\
         &
         (22) \quad\; \eta_{cas\_tmp} \cdot CAS_{fil}(t) = CAS_{fil}(t-1)
@@ -645,7 +645,7 @@ class GenericCAESBlock(ScalarBlock):
             return (
                 self.cav_e_in[n, t]
                 == n.params["cav_e_in_m"] * self.cmp_p[n, t]
-                + n.params["cav_e_in_b"]
+                + n.params["cav_e_in_b"] * self.cmp_st[n, t]
             )
 
         self.cav_e_in_constr = Constraint(
@@ -657,7 +657,7 @@ class GenericCAESBlock(ScalarBlock):
             return (
                 self.cav_e_out[n, t]
                 == n.params["cav_e_out_m"] * self.exp_p[n, t]
-                + n.params["cav_e_out_b"]
+                + n.params["cav_e_out_b"] * self.exp_st[n, t]
             )
 
         self.cav_e_out_constr = Constraint(
-- 
2.43.0


From 32eeb173066af3a35e7dc02b914e8e7d656b80d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:52 +0000
Subject: [PATCH 35/52] fix: solve models with variables that have no influence

Solvers return no value for variables without constraints and costs, so
that the objective of the solved model could not be evaluated.
---
 src/oemof/solph/_results.py   |  2 +-
 src/oemof/solph/processing.py | 34 +++++++++++++++++++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index be3a5b0..f55aa88 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -43,7 +43,7 @@ class Results:
     def __init__(self, model: ConcreteModel):
         self._solver_results = model.solver_results
         self._meta_results = {
-            "objective": model.objective(),
+            "objective": oemof.solph.processing.objective_value(model),
         }
         self._variables = {}
         self._model = model
diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 0859eec..af680ed 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -30,6 +30,8 @@ import pandas as pd
 from oemof.network.network import Entity
 from pyomo.core.base.piecewise import IndexedPiecewise
 from pyomo.core.base.var import Var
+from pyomo.environ import value
+from pyomo.repn import generate_standard_repn
 
 from oemof.solph.components._generic_storage import GenericStorage
 
@@ -792,6 +794,36 @@ def convert_keys_to_strings(result, keep_none_type=False):
     return converted
 
 
+def objective_value(om):
+    """
+    Value of the objective of a solved model.
+
+    Solvers do not return values for variables that are neither part of a
+    constraint nor have a coefficient in the objective. These do not have an
+    effect on the value of the objective.
+
+    Parameters
+    ----------
+    om : oemof.solph.Model
+        A solved Model.
+
+    Returns
+    -------
+    float
+    """
+    objective = value(om.objective, exception=False)
+    if objective is None:
+        repn = generate_standard_repn(om.objective.expr)
+        objective = repn.constant + sum(
+            coefficient * variable.value
+            for coefficient, variable in zip(
+                repn.linear_coefs, repn.linear_vars
+            )
+            if coefficient != 0
+        )
+    return objective
+
+
 def meta_results(om, undefined=False):
     """
     Fetch some metadata from the Solver. Feel free to add more keys.
@@ -809,7 +841,7 @@ def meta_results(om, undefined=False):
     -------
     dict
     """
-    meta_res = {"objective": om.objective()}
+    meta_res = {"objective": objective_value(om)}
 
     for k1 in ["Problem", "Solver"]:
         k1 = k1.lower()
-- 
2.43.0


From 8b25f337de2847521f35de8d08f958b6cd43ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 36/52] fix: apply investment limits to all kinds of
 investments

investment_limit() failed in models that only invest in storages and did
not consider nonconvex flows, for which additional_investment_flow_limit()
failed.
---
 src/oemof/solph/constraints/investment_limit.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/oemof/solph/constraints/investment_limit.py b/src/oemof/solph/constraints/investment_limit.py
index c959cba..03a986c 100644
--- a/src/oemof/solph/constraints/investment_limit.py
+++ b/src/oemof/solph/constraints/investment_limit.py
@@ -35,9 +35,13 @@ def investment_limit(model, limit=None):
     def investment_rule(m):
         expr = 0
 
-        if hasattr(m, "InvestmentFlowBlock"):
+        # The blocks of flows always exist, even if they are empty.
+        if hasattr(m.InvestmentFlowBlock, "investment_costs"):
             expr += m.InvestmentFlowBlock.investment_costs
 
+        if hasattr(m.InvestNonConvexFlowBlock, "investment_costs"):
+            expr += m.InvestNonConvexFlowBlock.investment_costs
+
         if hasattr(m, "GenericInvestmentStorageBlock"):
             expr += m.GenericInvestmentStorageBlock.investment_costs
 
@@ -96,7 +100,8 @@ def investment_limit_per_period(model, limit=None):
     def investment_period_rule(m, p):
         expr = 0
 
-        if hasattr(m, "InvestmentFlowBlock"):
+        # The block always exists, even if it is empty.
+        if hasattr(m.InvestmentFlowBlock, "period_investment_costs"):
             expr += m.InvestmentFlowBlock.period_investment_costs[p]
 
         if hasattr(m, "GenericInvestmentStorageBlock"):
@@ -209,6 +214,11 @@ def additional_investment_flow_limit(model, keyword, limit=None):
         ):
             investments[(i, o)] = model.flows[i, o].investment
 
+    def _invest(i, o, p):
+        if model.flows[i, o].nonconvex is None:
+            return model.InvestmentFlowBlock.invest[i, o, p]
+        return model.InvestNonConvexFlowBlock.invest[i, o, p]
+
     limit_name = "invest_limit_" + keyword
 
     setattr(
@@ -216,7 +226,7 @@ def additional_investment_flow_limit(model, keyword, limit=None):
         limit_name,
         po.Expression(
             expr=sum(
-                model.InvestmentFlowBlock.invest[i, o, p]
+                _invest(i, o, p)
                 * investments[i, o].custom_properties[keyword]
                 for (i, o) in investments
                 for p in model.PERIODS
-- 
2.43.0


From d93f8a2dd896ee651373e333c7ea0f6afd9dabc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:35 +0000
Subject: [PATCH 37/52] fix: apply the initial level to investment storages
 with typical periods

The (fixed) content at the begin of the typical period was compared to
the initial level instead of the initial content, so that every initial
level above zero forbid any investment.
---
 src/oemof/solph/components/_generic_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index bdebaac..095c9a3 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1819,7 +1819,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 if not m.TSAM_MODE:
                     lhs = block.storage_content[n, 0]
                 else:
-                    lhs = block.intra_storage_delta[n, 0, 0, 0]
+                    lhs = block.inter_storage_content[n, 0]
                 return lhs <= n.investment.existing + block.invest[n, 0]
 
             self.init_content_limit = Constraint(
@@ -1832,7 +1832,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 if not m.TSAM_MODE:
                     lhs = block.storage_content[n, 0]
                 else:
-                    lhs = block.intra_storage_delta[n, 0, 0, 0]
+                    lhs = block.inter_storage_content[n, 0]
                 return lhs == n.initial_storage_level * (
                     n.investment.existing + block.invest[n, 0]
                 )
-- 
2.43.0


From 8ec81978c1560aecc73688690f55b201ddb33c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:35 +0000
Subject: [PATCH 38/52] fix: start empty with investment storages with typical
 periods of several years

As without typical periods, there is nothing to store energy in before
the first investment.
---
 .../solph/components/_generic_storage.py      | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 095c9a3..534d62b 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1798,18 +1798,19 @@ class GenericInvestmentStorageBlock(ScalarBlock):
             def _initially_empty_rule(_):
                 """Ensure storage to be empty initially"""
                 for n in self.INVESTSTORAGES:
-                    expr = self.storage_content[n, 0] == 0
+                    if not m.TSAM_MODE:
+                        expr = self.storage_content[n, 0] == 0
+                    else:
+                        expr = self.inter_storage_content[n, 0] == 0
                     self.initially_empty.add((n, 0), expr)
 
-            if not m.TSAM_MODE:
-                # inter and intra initial storage contents are handled above
-                self.initially_empty = Constraint(
-                    self.INVESTSTORAGES, m.TIMESTEPS, noruleinit=True
-                )
+            self.initially_empty = Constraint(
+                self.INVESTSTORAGES, m.TIMESTEPS, noruleinit=True
+            )
 
-                self.initially_empty_build = BuildAction(
-                    rule=_initially_empty_rule
-                )
+            self.initially_empty_build = BuildAction(
+                rule=_initially_empty_rule
+            )
 
         # Standard storage implementation for discrete time points
         else:
-- 
2.43.0


From a1355fd2ea82c0ec1981cbe3ba5c0c805292adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:35 +0000
Subject: [PATCH 39/52] fix: limit the final content of investment storages
 with typical periods

---
 .../solph/components/_generic_storage.py      | 35 +++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 534d62b..b2b03a2 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -2231,6 +2231,41 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 rule=_storage_inter_minimum_level_rule
             )
 
+            # The level limits are formulated for the begin of time steps,
+            # so the final content needs its own limits.
+            p_end, i_end, g_end = m.TIMEINDEX_CLUSTER[-1]
+            t_end = m.get_timestep_from_tsam_timestep(p_end, i_end, g_end)
+            k_end = m.es.tsa_parameters[p_end]["order"][i_end]
+
+            def _final_content(n):
+                return (
+                    self.inter_storage_content[n, m.CLUSTERS.last()]
+                    * m.get_tsam_loss_factor(
+                        n.loss_rate, p_end, k_end, g_end + 1
+                    )
+                    + self.intra_storage_delta[n, p_end, k_end, g_end + 1]
+                )
+
+            def _final_maximum_level_rule(_, n):
+                return (
+                    _final_content(n)
+                    <= self.total[n, p_end] * n.max_storage_level[t_end]
+                )
+
+            self.storage_final_maximum_level = Constraint(
+                self.INVESTSTORAGES, rule=_final_maximum_level_rule
+            )
+
+            def _final_minimum_level_rule(_, n):
+                return (
+                    _final_content(n)
+                    >= self.total[n, p_end] * n.min_storage_level[t_end]
+                )
+
+            self.storage_final_minimum_level = Constraint(
+                self.MIN_INVESTSTORAGES, rule=_final_minimum_level_rule
+            )
+
     def _objective_expression(self):
         """Objective expression with fixed and investment costs."""
         m = self.parent_block()
-- 
2.43.0


From 4baff6fe8598cddad719bd97021c7e2496caca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:01 +0000
Subject: [PATCH 40/52] fix: charge storage costs for storages with typical
 periods

There is no variable storage_content in these models, so that they could
not be built.
---
 .../solph/components/_generic_storage.py      | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index b2b03a2..f64b304 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -427,6 +427,20 @@ class GenericStorage(Node):
             return GenericStorageBlock
 
 
+def _tsam_storage_content(block, n, p, i, g):
+    """Return the content of storage `n` after the first `g` time steps of
+    the `i`-th original period in period `p`."""
+    m = block.parent_block()
+    order = [m.es.tsa_parameters[ip]["order"] for ip in range(p + 1)]
+    k = order[p][i]
+    inter_i = sum(len(o) for o in order[:p]) + i
+    return (
+        block.inter_storage_content[n, inter_i]
+        * m.get_tsam_loss_factor(n.loss_rate, p, k, g)
+        + block.intra_storage_delta[n, p, k, g]
+    )
+
+
 class GenericStorageBlock(ScalarBlock):
     r"""Storage without an :class:`.Investment` object.
 
@@ -949,10 +963,12 @@ class GenericStorageBlock(ScalarBlock):
                             self.storage_content[n, t + 1] * n.storage_costs[t]
                         )
                 else:
-                    for t in m.TIMESTEPS_ORIGINAL:
+                    for p, i, g in m.TIMEINDEX_CLUSTER:
+                        k = m.es.tsa_parameters[p]["order"][i]
+                        t = m.get_timestep_from_tsam_timestep(p, k, g)
                         storage_costs += (
-                            self.storage_content[n, t + 1]
-                            * n.storage_costs[t + 1]
+                            _tsam_storage_content(self, n, p, i, g + 1)
+                            * n.storage_costs[t]
                         )
 
         self.storage_costs = Expression(expr=storage_costs)
@@ -2417,10 +2433,12 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                             self.storage_content[n, t + 1] * n.storage_costs[t]
                         )
                 else:
-                    for t in m.TIMESTEPS_ORIGINAL:
+                    for p, i, g in m.TIMEINDEX_CLUSTER:
+                        k = m.es.tsa_parameters[p]["order"][i]
+                        t = m.get_timestep_from_tsam_timestep(p, k, g)
                         storage_costs += (
-                            self.storage_content[n, t + 1]
-                            * n.storage_costs[t + 1]
+                            _tsam_storage_content(self, n, p, i, g + 1)
+                            * n.storage_costs[t]
                         )
 
         self.storage_costs = Expression(expr=storage_costs)
-- 
2.43.0


From 21ee670d79d7aca5eafb73fbdacf7bb36f907c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:26 +0000
Subject: [PATCH 41/52] fix: apply storage level constraints to systems with
 typical periods

Flows do not have an index for the period, so that these models could
not be built. Further, the content at the begin of a time step counts for
the inputs and that at the end of it for the outputs, as it is the case
without typical periods.
---
 src/oemof/solph/constraints/storage_level.py | 42 ++++++++------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/src/oemof/solph/constraints/storage_level.py b/src/oemof/solph/constraints/storage_level.py
index 5feba7f..59ab43b 100644
--- a/src/oemof/solph/constraints/storage_level.py
+++ b/src/oemof/solph/constraints/storage_level.py
@@ -45,6 +45,18 @@ def storage_level_constraint(
     Verbose description can be found in https://arxiv.org/abs/2211.14080
     """
 
+    def _content_tsam(m, p, i, g):
+        """Content after `g` time steps of the `i`-th original period in p"""
+        order = [m.es.tsa_parameters[ip]["order"] for ip in range(p + 1)]
+        k = order[p][i]
+        inter_i = sum(len(o) for o in order[:p]) + i
+        block = m.GenericStorageBlock
+        return (
+            block.inter_storage_content[storage_component, inter_i]
+            * m.get_tsam_loss_factor(storage_component.loss_rate, p, k, g)
+            + block.intra_storage_delta[storage_component, p, k, g]
+        )
+
     def _outputs():
         OUTPUTS = po.Set(initialize=output_levels.keys())
         setattr(model, f"{name}_OUTPUTS", OUTPUTS)
@@ -126,21 +138,10 @@ def storage_level_constraint(
             """
             for p, i, g in m.TIMEINDEX_CLUSTER:
                 k = m.es.tsa_parameters[p]["order"][i]
-                t = m.get_timestep_from_tsam_timestep(p, k, g)
-                tk = m.get_timestep_from_tsam_timestep(p, k, g)
                 for o in output_levels:
                     getattr(m, constraint_name).add(
                         (o, p, i, g),
-                        (
-                            m.GenericStorageBlock.intra_storage_delta[
-                                storage_component, p, k, g + 1
-                            ]
-                            + m.GenericStorageBlock.inter_storage_content[
-                                storage_component, i
-                            ]
-                            * (1 - storage_component.loss_rate[t])
-                            ** (g * m.timeincrement[tk])
-                        )
+                        _content_tsam(m, p, i, g + 1)
                         / storage_component.nominal_storage_capacity
                         >= active_output[o, p, k, g] * output_levels[o],
                     )
@@ -164,7 +165,7 @@ def storage_level_constraint(
         def _constraint_output_rule(m, o, p, k, g):
             t = m.get_timestep_from_tsam_timestep(p, k, g)
             return (
-                m.flow[multiplexer_bus, o, p, t]
+                m.flow[multiplexer_bus, o, t]
                 / m.flows[multiplexer_bus, o].nominal_capacity
                 <= active_output[o, p, k, g]
             )
@@ -268,21 +269,10 @@ def storage_level_constraint(
             """
             for p, i, g in m.TIMEINDEX_CLUSTER:
                 k = m.es.tsa_parameters[p]["order"][i]
-                t = m.get_timestep_from_tsam_timestep(p, k, g)
-                tk = m.get_timestep_from_tsam_timestep(p, k, g)
                 for inp in input_levels:
                     getattr(m, constraint_name).add(
                         (inp, p, i, g),
-                        (
-                            m.GenericStorageBlock.intra_storage_delta[
-                                storage_component, p, k, g + 1
-                            ]
-                            + m.GenericStorageBlock.inter_storage_content[
-                                storage_component, i
-                            ]
-                            * (1 - storage_component.loss_rate[t])
-                            ** (g * m.timeincrement[tk])
-                        )
+                        _content_tsam(m, p, i, g)
                         / storage_component.nominal_storage_capacity
                         - input_levels[inp]
                         <= inactive_input[inp, p, k, g],
@@ -307,7 +297,7 @@ def storage_level_constraint(
         def _constraint_input_rule(m, i, p, k, g):
             t = m.get_timestep_from_tsam_timestep(p, k, g)
             return (
-                m.flow[i, multiplexer_bus, p, t]
+                m.flow[i, multiplexer_bus, t]
                 / m.flows[i, multiplexer_bus].nominal_capacity
                 <= 1 - inactive_input[i, p, k, g]
             )
-- 
2.43.0


From 9a486c0eeaff9668c659c045ba35166c73d473d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:23 +0000
Subject: [PATCH 42/52] fix: keep all periodical integral limits of a model

All of them were stored under the same name, so that a second limit (for
another keyword) silently replaced the first one.
---
 src/oemof/solph/constraints/integral_limit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/constraints/integral_limit.py b/src/oemof/solph/constraints/integral_limit.py
index 3f2b30d..05d0588 100644
--- a/src/oemof/solph/constraints/integral_limit.py
+++ b/src/oemof/solph/constraints/integral_limit.py
@@ -260,10 +260,10 @@ def generic_periodical_integral_limit(om, keyword, flows=None, limit=None):
 
         return expr <= limit[p]
 
-    om.periodical_integral_limit = po.Constraint(
-        om.PERIODS,
-        rule=_periodical_integral_limit_rule,
-        name=limit_name + "_constraint",
+    setattr(
+        om,
+        "periodical_" + limit_name,
+        po.Constraint(om.PERIODS, rule=_periodical_integral_limit_rule),
     )
 
     return om
-- 
2.43.0


From 88544ff02efd965308a96da3a72631566214c91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:53 +0000
Subject: [PATCH 43/52] fix: index storage level constraints with typical
 periods by time step

The index by typical period and position had entries without any use and
gave processed results keys like (node, 0, 0).
---
 src/oemof/solph/constraints/storage_level.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/oemof/solph/constraints/storage_level.py b/src/oemof/solph/constraints/storage_level.py
index 59ab43b..4e7824b 100644
--- a/src/oemof/solph/constraints/storage_level.py
+++ b/src/oemof/solph/constraints/storage_level.py
@@ -123,7 +123,7 @@ def storage_level_constraint(
 
         active_output = po.Var(
             OUTPUTS,
-            model.TIMEINDEX_TYPICAL_CLUSTER_OFFSET,
+            model.TIMESTEPS,
             domain=po.Binary,
             bounds=(0, 1),
         )
@@ -138,12 +138,13 @@ def storage_level_constraint(
             """
             for p, i, g in m.TIMEINDEX_CLUSTER:
                 k = m.es.tsa_parameters[p]["order"][i]
+                t = m.get_timestep_from_tsam_timestep(p, k, g)
                 for o in output_levels:
                     getattr(m, constraint_name).add(
                         (o, p, i, g),
                         _content_tsam(m, p, i, g + 1)
                         / storage_component.nominal_storage_capacity
-                        >= active_output[o, p, k, g] * output_levels[o],
+                        >= active_output[o, t] * output_levels[o],
                     )
 
         setattr(
@@ -167,7 +168,7 @@ def storage_level_constraint(
             return (
                 m.flow[multiplexer_bus, o, t]
                 / m.flows[multiplexer_bus, o].nominal_capacity
-                <= active_output[o, p, k, g]
+                <= active_output[o, t]
             )
 
         setattr(
@@ -254,7 +255,7 @@ def storage_level_constraint(
 
         inactive_input = po.Var(
             INPUTS,
-            model.TIMEINDEX_TYPICAL_CLUSTER_OFFSET,
+            model.TIMESTEPS,
             domain=po.Binary,
             bounds=(0, 1),
         )
@@ -269,13 +270,14 @@ def storage_level_constraint(
             """
             for p, i, g in m.TIMEINDEX_CLUSTER:
                 k = m.es.tsa_parameters[p]["order"][i]
+                t = m.get_timestep_from_tsam_timestep(p, k, g)
                 for inp in input_levels:
                     getattr(m, constraint_name).add(
                         (inp, p, i, g),
                         _content_tsam(m, p, i, g)
                         / storage_component.nominal_storage_capacity
                         - input_levels[inp]
-                        <= inactive_input[inp, p, k, g],
+                        <= inactive_input[inp, t],
                     )
 
         setattr(
@@ -299,7 +301,7 @@ def storage_level_constraint(
             return (
                 m.flow[i, multiplexer_bus, t]
                 / m.flows[i, multiplexer_bus].nominal_capacity
-                <= 1 - inactive_input[i, p, k, g]
+                <= 1 - inactive_input[i, t]
             )
 
         setattr(
-- 
2.43.0


From ffb64d0ba94fd4e468d5722a684eb2dbb29e26cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 44/52] fix: give values to flows the solver returns no value
 for

Flows without constraints and costs in some time steps (at buses that are
not balanced) had values for the other time steps only, so that results
could not be processed.
---
 src/oemof/solph/_models.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/oemof/solph/_models.py b/src/oemof/solph/_models.py
index 4b7ca04..ea12ce3 100644
--- a/src/oemof/solph/_models.py
+++ b/src/oemof/solph/_models.py
@@ -489,6 +489,7 @@ class Model(po.ConcreteModel):
 
         if status == "ok" and termination_condition == "optimal":
             logging.info("Optimization successful...")
+            self._set_undetermined_flows()
         else:
             msg = (
                 f"The solver did not return an optimal solution. "
@@ -507,6 +508,18 @@ class Model(po.ConcreteModel):
 
         return Results(self)
 
+    def _set_undetermined_flows(self):
+        """Set flows that the solver did not return a value for
+
+        These flows are neither part of a constraint nor do they have costs,
+        so that every value within their bounds is optimal.
+        """
+        for flow in self.flow.values():
+            if flow.value is None:
+                flow.value = max(0, flow.lb if flow.has_lb() else 0)
+                if flow.has_ub():
+                    flow.value = min(flow.value, flow.ub)
+
     def relax_problem(self):
         """Relaxes integer variables to reals of optimization model self."""
         relaxer = RelaxIntegrality()
-- 
2.43.0


From a039cab6255332a548fef9fb9c447757f3356ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:55 +0000
Subject: [PATCH 45/52] fix: expand the duals of models with typical periods

The duals belong to the time steps of the typical periods, but were
labelled with the time index of the whole time span: processing.results
failed or, if the lengths happened to be the same, assigned the duals to
wrong points in time.
---
 src/oemof/solph/processing.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index af680ed..df160a7 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -335,7 +335,24 @@ def results(model, remove_last_time_point=False):
             duals = [
                 model.dual[model.BusBlock.balance[bus, t]] for _, t in timestep
             ]
-            if model.es.periods is None:
+            if model.es.tsa_parameters is not None:
+                # The duals belong to the time steps of the typical periods.
+                duals = _disaggregate_tsa_result(
+                    {
+                        (bus, None): pd.DataFrame(
+                            {
+                                "timestep": range(len(duals)),
+                                "variable_name": "duals",
+                                "value": duals,
+                            }
+                        )
+                    },
+                    model.es.tsa_parameters,
+                )[(bus, None)]["value"].to_list()
+                df = pd.DataFrame(
+                    {"duals": duals}, index=result_index[: len(duals)]
+                )
+            elif model.es.periods is None:
                 df = pd.DataFrame({"duals": duals}, index=result_index[:-1])
             # TODO: Align with standard model
             else:
-- 
2.43.0


From a80804350d7944b25e2795460b1e8c15980207fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:04 +0000
Subject: [PATCH 46/52] fix: refuse fixed losses over several periods whatever
 the first value

Fixed absolute losses of storages with an investment are not supported by
multi-period models, but only the first value of the series was checked, so
series starting with zero were accepted.
---
 src/oemof/solph/components/_generic_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index f64b304..62675ce 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1470,7 +1470,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     "For a multi-period investment model, fixed absolute"
                     " losses are not supported. Please remove parameter."
                 )
-                if n.fixed_losses_absolute[0] != 0:
+                if n.fixed_losses_absolute.max() != 0:
                     raise ValueError(error_fixed_absolute_losses)
                 error_initial_storage_level = (
                     "For a multi-period model, initial_storage_level is"
-- 
2.43.0


From e471b3bdfa43a154deed96ec276b968c4c130bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:18 +0000
Subject: [PATCH 47/52] fix: check the yearly fixed costs of flows with a
 lifetime like all others

---
 src/oemof/solph/flows/_simple_flow_block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/flows/_simple_flow_block.py b/src/oemof/solph/flows/_simple_flow_block.py
index 696b870..10f34c7 100644
--- a/src/oemof/solph/flows/_simple_flow_block.py
+++ b/src/oemof/solph/flows/_simple_flow_block.py
@@ -480,7 +480,7 @@ class SimpleFlowBlock(ScalarBlock):
 
             # Fixed costs for units with limited lifetime
             for i, o in self.LIFETIME_FLOWS:
-                if valid_sequence(m.flows[i, o].fixed_costs, len(m.TIMESTEPS)):
+                if valid_sequence(m.flows[i, o].fixed_costs, len(m.PERIODS)):
                     range_limit = min(
                         m.es.end_year_of_optimization,
                         m.flows[i, o].lifetime,
@@ -492,7 +492,7 @@ class SimpleFlowBlock(ScalarBlock):
                     )
 
             for i, o in self.LIFETIME_AGE_FLOWS:
-                if valid_sequence(m.flows[i, o].fixed_costs, len(m.TIMESTEPS)):
+                if valid_sequence(m.flows[i, o].fixed_costs, len(m.PERIODS)):
                     range_limit = min(
                         m.es.end_year_of_optimization,
                         m.flows[i, o].lifetime - m.flows[i, o].age,
-- 
2.43.0


From 35bf5b5177d3adda32f62a6ae6af87c699188aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:45 +0000
Subject: [PATCH 48/52] fix: give the duals of buses without inflows the sign
 of all others

A balance without inflows was written the other way round, so that its dual had the opposite sign.
---
 src/oemof/solph/buses/_bus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/buses/_bus.py b/src/oemof/solph/buses/_bus.py
index 570c7b7..4687ce4 100644
--- a/src/oemof/solph/buses/_bus.py
+++ b/src/oemof/solph/buses/_bus.py
@@ -132,7 +132,7 @@ class BusBlock(ScalarBlock):
                 for g in group:
                     lhs = sum(m.flow[i, g, t] for i in ins[g])
                     rhs = sum(m.flow[g, o, t] for o in outs[g])
-                    expr = lhs == rhs
+                    expr = lhs - rhs == 0
                     # no inflows no outflows yield: 0 == 0 which is True
                     if expr is not True:
                         block.balance.add((g, t), expr)
-- 
2.43.0


From 1b4f8207f674face63bc2df7cec318c02424e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:31 +0000
Subject: [PATCH 49/52] fix: count active flows with an optimised capacity

Flows with a status and an investment were not found by their keyword and refused when listed, although their status is as good as any other.
---
 src/oemof/solph/constraints/flow_count_limit.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/constraints/flow_count_limit.py b/src/oemof/solph/constraints/flow_count_limit.py
index a57e9eb..755c022 100644
--- a/src/oemof/solph/constraints/flow_count_limit.py
+++ b/src/oemof/solph/constraints/flow_count_limit.py
@@ -78,11 +78,14 @@ def limit_active_flow_count(
 
     attrname_constraint = constraint_name + "_constraint"
 
+    def _status(m, i, o, t):
+        if m.flows[i, o].investment is None:
+            return m.NonConvexFlowBlock.status[i, o, t]
+        return m.InvestNonConvexFlowBlock.status[i, o, t]
+
     def _flow_count_rule(m):
         for ts in m.TIMESTEPS:
-            lhs = sum(
-                m.NonConvexFlowBlock.status[fi, fo, ts] for fi, fo in flows
-            )
+            lhs = sum(_status(m, fi, fo, ts) for fi, fo in flows)
             rhs = getattr(model, constraint_name)[ts]
             expr = lhs == rhs
             if expr is not True:
@@ -130,8 +133,11 @@ def limit_active_flow_count_by_keyword(
     limit_active_flow_count
     """
     flows = []
-    for i, o in model.NonConvexFlowBlock.FIXED_CAPACITY_NONCONVEX_FLOWS:
-        if keyword in model.flows[i, o].custom_properties:
+    for i, o in model.flows:
+        if (
+            model.flows[i, o].nonconvex is not None
+            and keyword in model.flows[i, o].custom_properties
+        ):
             flows.append((i, o))
 
     return limit_active_flow_count(
-- 
2.43.0


From 8f038b839953559ad6c772af08ace520c861d319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:25 +0000
Subject: [PATCH 50/52] fix: take the segments of typical periods by their keys

The durations were taken in the order of insertion into the mapping, while
the storage content is computed by key.
---
 src/oemof/solph/_energy_system.py | 12 ++++++------
 src/oemof/solph/processing.py     |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/oemof/solph/_energy_system.py b/src/oemof/solph/_energy_system.py
index 46399d7..45e9aff 100644
--- a/src/oemof/solph/_energy_system.py
+++ b/src/oemof/solph/_energy_system.py
@@ -16,7 +16,6 @@ SPDX-License-Identifier: MIT
 """
 
 import collections
-import itertools
 import warnings
 
 import numpy as np
@@ -335,11 +334,12 @@ class EnergySystem(es.EnergySystem):
             "segments" in params for params in tsa_parameters
         ):
             # Concatenate segments from TSAM parameters to get timeincrement
-            return list(
-                itertools.chain(
-                    *[params["segments"].values() for params in tsa_parameters]
-                )
-            )
+            # (ordered by typical period and segment).
+            return [
+                duration
+                for params in tsa_parameters
+                for _, duration in sorted(params["segments"].items())
+            ]
 
         elif timeindex is not None and timeincrement is None:
             df = pd.DataFrame(timeindex)
diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index df160a7..0ee35e1 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -620,7 +620,7 @@ def _disaggregate_segmentation(
         Added timesteps contain None values and are interpolated later.
     """
     current_segments = list(
-        v for ((k, s), v) in segments.items() if k == current_period
+        v for ((k, s), v) in sorted(segments.items()) if k == current_period
     )
     df.index = range(len(current_segments))
     segmented_index = itertools.chain.from_iterable(
-- 
2.43.0


From abd81193f2ade732b1d6fb7a94a7ca886e6444b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:44 +0000
Subject: [PATCH 51/52] fix: parameters of energy systems and investments of
 subclasses

---
 src/oemof/solph/processing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 0ee35e1..54f4cdf 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -27,6 +27,7 @@ from typing import Tuple
 
 import numpy as np
 import pandas as pd
+from oemof.network.energy_system import EnergySystem
 from oemof.network.network import Entity
 from pyomo.core.base.piecewise import IndexedPiecewise
 from pyomo.core.base.var import Var
@@ -35,6 +36,7 @@ from pyomo.repn import generate_standard_repn
 
 from oemof.solph.components._generic_storage import GenericStorage
 
+from ._options import Investment
 from ._plumbing import _FakeSequence
 from .helpers import flatten
 
@@ -949,7 +951,7 @@ def __separate_attrs(
 
             # Iterate trough investment and add scalars and sequences with
             # "investment" prefix to component data:
-            if attr_value.__class__.__name__ == "Investment":
+            if isinstance(attr_value, Investment):
                 invest_data = detect_scalars_and_sequences(attr_value)
                 scalars.update(
                     {
@@ -1023,7 +1025,7 @@ def __separate_attrs(
                 del com["sequences"][ckey]
 
     # Check if system is es or om:
-    if system.__class__.__name__ == "EnergySystem":
+    if isinstance(system, EnergySystem):
         components = system.flows() if get_flows else system.nodes
     else:
         components = system.flows if get_flows else system.es.nodes
-- 
2.43.0


From 441f11eb8704acae2fd00587d70917b13b6cb22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:44 +0000
Subject: [PATCH 52/52] fix: leave out buses of subclasses when filtering nodes

---
 src/oemof/solph/views.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/views.py b/src/oemof/solph/views.py
index 3e5da5b..3d65d90 100644
--- a/src/oemof/solph/views.py
+++ b/src/oemof/solph/views.py
@@ -20,7 +20,9 @@ from collections import OrderedDict
 from enum import Enum
 
 import pandas as pd
+from oemof import network
 
+from oemof.solph.buses import Bus
 from oemof.solph.processing import convert_keys_to_strings
 
 NONE_REPLACEMENT_STR = "_NONE_"
@@ -200,7 +202,7 @@ def filter_nodes(results, option=NodeOption.All, exclude_busses=False):
         raise ValueError('Invalid node option "' + str(option) + '"')
 
     if exclude_busses:
-        return {n for n in nodes if not n.__class__.__name__ == "Bus"}
+        return {n for n in nodes if not isinstance(n, (network.Bus, Bus))}
     else:
         return nodes
 
-- 
2.43.0

