From 99e6c5430df7d7f031de0cc63335a3b12c85f703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:18 +0000
Subject: [PATCH 01/42] fix: goda1967 transmission must not truncate array
 results to the integer 1

np.vectorize takes the output dtype from the first element; with the literal 1
in the first branch every other element was truncated to 0.
---
 .../functions/hydraulic/wave_transmission/goda1967_caisson.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
index a645d08..952eb1d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
@@ -51,7 +51,7 @@ def calculate_wave_transmission_Kt(
         Rc_over_Hsi = Rc / Hsi
 
         if Rc_over_Hsi <= -1 * alpha_1 - beta_1:
-            Kt = 1
+            Kt = 1.0
         elif Rc_over_Hsi <= alpha_1 - beta_1:
             Kt = 0.5 * (1 - np.sin((np.pi / 2) * ((Rc_over_Hsi + beta_1) / (alpha_1))))
         else:
-- 
2.43.0


From 2bd67bdf057227a47eda1ce79a5ecee5007b75e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:25 +0000
Subject: [PATCH 02/42] fix: TAW run-up with a single slope must pass that
 slope to the berm length

With only cot_alpha given and gamma_b left to be computed, calculate_berm_length
raised a ValueError about missing slopes.
---
 .../functions/hydraulic/wave_runup/taw2002.py                    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 952a73b..fa1bdf4 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -300,6 +300,7 @@ def calculate_dimensionless_wave_runup_height_z2p(
     if np.isnan(gamma_b):
         L_berm = calculate_berm_length(
             Hm0=Hm0,
+            cot_alpha=cot_alpha,
             cot_alpha_down=cot_alpha_down,
             cot_alpha_up=cot_alpha_up,
             B_berm=B_berm,
-- 
2.43.0


From faa197356fda3c8e373f0e897cd0f0c1d09a6e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:31 +0000
Subject: [PATCH 03/42] fix: EurOtop (2018) run-up must honour a user supplied
 gamma_beta

The argument was overwritten by the value computed from beta (NaN when beta is
not given).
---
 .../functions/hydraulic/wave_runup/eurotop2018.py        | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
index b2caa1e..6012533 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
@@ -179,10 +179,11 @@ def calculate_dimensionless_wave_runup_height_z2p(
         c1=c1, c2=c2, c3=c3, c4=c4, use_best_fit=use_best_fit
     )
 
-    gamma_beta = calculate_influence_oblique_waves_gamma_beta(
-        beta=beta,
-        gamma_f=gamma_f,
-    )
+    if wave_runup_taw2002.check_calculate_gamma_beta(beta=beta, gamma_beta=gamma_beta):
+        gamma_beta = calculate_influence_oblique_waves_gamma_beta(
+            beta=beta,
+            gamma_f=gamma_f,
+        )
 
     z2p_diml, max_reached = (
         wave_runup_taw2002.calculate_dimensionless_wave_runup_height_z2p(
-- 
2.43.0


From 9aa3d80cb564708bdc343a4b4f12e9f68c038fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:04 +0000
Subject: [PATCH 04/42] fix: TAW overtopping with sigma and design coefficients
 must not fail on an unbound correction

The branch warns that sigma is not applicable, then used cor1/cor3 unset.
---
 .../functions/hydraulic/wave_overtopping/taw2002.py           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index 11bf436..57cd18c 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -308,6 +308,8 @@ def calculate_dimensionless_overtopping_discharge_q(
                     "alreaddy account for uncertainty with conservative coefficient values."
                 )
             )
+            cor1 = 0
+            cor3 = 0
 
     if wave_runup_taw2002.check_calculate_gamma_beta(beta=beta, gamma_beta=gamma_beta):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
@@ -680,6 +682,8 @@ def calculate_dimensionless_crest_freeboard(
                     "alreaddy account for uncertainty with conservative coefficient values."
                 )
             )
+            cor1 = 0
+            cor3 = 0
 
     if wave_runup_taw2002.check_calculate_gamma_beta(beta=beta, gamma_beta=gamma_beta):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
-- 
2.43.0


From 99559bb844da09f93e988bdde7e32afa7d04a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:12 +0000
Subject: [PATCH 05/42] fix: TAW crest freeboard must use the given g in the
 maximum equation too

---
 .../functions/hydraulic/wave_overtopping/taw2002.py       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index 57cd18c..36fdea5 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -757,7 +757,13 @@ def calculate_dimensionless_crest_freeboard(
     )
 
     Rc_diml_max = Rc_diml_max_equation(
-        Hm0=Hm0, q=q, c3=c3, cor3=cor3, gamma_beta=gamma_beta, gamma_f=gamma_f_adj
+        Hm0=Hm0,
+        q=q,
+        c3=c3,
+        cor3=cor3,
+        gamma_beta=gamma_beta,
+        gamma_f=gamma_f_adj,
+        g=g,
     )
 
     Rc_diml = np.min([Rc_diml_eq24, Rc_diml_max], axis=0)
-- 
2.43.0


From 5c619fc839caad97f889c97fdd90c719e1998e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:20 +0000
Subject: [PATCH 06/42] fix: EurOtop (2018) overtopping must honour a user
 supplied gamma_b

As in TAW (2002), gamma_b is computed from the berm only when it is not given.
---
 .../hydraulic/wave_overtopping/eurotop2018.py | 70 ++++++++++---------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 1a0efa3..8f3a9c8 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -265,24 +265,25 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    L_berm = wave_runup_taw2002.calculate_berm_length(
-        Hm0=Hm0,
-        cot_alpha=cot_alpha,
-        cot_alpha_down=cot_alpha_down,
-        cot_alpha_up=cot_alpha_up,
-        B_berm=B_berm,
-    )
+    if np.isnan(gamma_b):
+        L_berm = wave_runup_taw2002.calculate_berm_length(
+            Hm0=Hm0,
+            cot_alpha=cot_alpha,
+            cot_alpha_down=cot_alpha_down,
+            cot_alpha_up=cot_alpha_up,
+            B_berm=B_berm,
+        )
 
-    gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
-        Hm0=Hm0,
-        Tmm10=Tmm10,
-        cot_alpha_average=cot_alpha,
-        B_berm=B_berm,
-        L_berm=L_berm,
-        db=db,
-        gamma_f=gamma_f,
-        gamma_beta=gamma_beta,
-    )
+        gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
+            Hm0=Hm0,
+            Tmm10=Tmm10,
+            cot_alpha_average=cot_alpha,
+            B_berm=B_berm,
+            L_berm=L_berm,
+            db=db,
+            gamma_f=gamma_f,
+            gamma_beta=gamma_beta,
+        )
 
     gamma_f_adj = wave_runup_taw2002.calculate_adjusted_influence_roughness_gamma_f(
         gamma_f=gamma_f, gamma_b=gamma_b, ksi_mm10=ksi_mm10
@@ -678,24 +679,25 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    L_berm = wave_runup_taw2002.calculate_berm_length(
-        Hm0=Hm0,
-        cot_alpha=cot_alpha,
-        cot_alpha_down=cot_alpha_down,
-        cot_alpha_up=cot_alpha_up,
-        B_berm=B_berm,
-    )
+    if np.isnan(gamma_b):
+        L_berm = wave_runup_taw2002.calculate_berm_length(
+            Hm0=Hm0,
+            cot_alpha=cot_alpha,
+            cot_alpha_down=cot_alpha_down,
+            cot_alpha_up=cot_alpha_up,
+            B_berm=B_berm,
+        )
 
-    gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
-        Hm0=Hm0,
-        Tmm10=Tmm10,
-        cot_alpha_average=cot_alpha,
-        B_berm=B_berm,
-        L_berm=L_berm,
-        db=db,
-        gamma_f=gamma_f,
-        gamma_beta=gamma_beta,
-    )
+        gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
+            Hm0=Hm0,
+            Tmm10=Tmm10,
+            cot_alpha_average=cot_alpha,
+            B_berm=B_berm,
+            L_berm=L_berm,
+            db=db,
+            gamma_f=gamma_f,
+            gamma_beta=gamma_beta,
+        )
 
     gamma_f_adj = wave_runup_taw2002.calculate_adjusted_influence_roughness_gamma_f(
         gamma_f=gamma_f, gamma_b=gamma_b, ksi_mm10=ksi_mm10
-- 
2.43.0


From 42b32e0b90941d7ed74418f53a140c30a84c8f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:28 +0000
Subject: [PATCH 07/42] fix: EurOtop (2018) crest freeboard must use the same
 average slope as the discharge with use_best_fit

---
 .../functions/hydraulic/wave_overtopping/eurotop2018.py         | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 8f3a9c8..91eb375 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -664,6 +664,7 @@ def calculate_dimensionless_crest_freeboard(
             db=db,
             gamma_f=gamma_f,
             gamma_beta=gamma_beta,
+            use_best_fit=use_best_fit,
         )
 
         cot_alpha = wave_runup_taw2002.determine_average_slope(
@@ -1181,6 +1182,7 @@ def calculate_dimensionless_crest_freeboard_rubble_mound(
             db=db,
             gamma_f=gamma_f,
             gamma_beta=gamma_beta,
+            use_best_fit=use_best_fit,
         )
 
         cot_alpha = wave_runup_taw2002.determine_average_slope(
-- 
2.43.0


From 642846e1f45d91d9ab29248f4526e3e5b34fbb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:37 +0000
Subject: [PATCH 08/42] fix: EurOtop (2018) maximum discharge must use the
 adjusted roughness, as its inverse does

---
 .../functions/hydraulic/wave_overtopping/eurotop2018.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 91eb375..984c75d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -307,7 +307,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         Hm0=Hm0,
         Rc=Rc,
         gamma_beta=gamma_beta,
-        gamma_f=gamma_f,
+        gamma_f=gamma_f_adj,
         gamma_star=gamma_star,
         c2=c2,
         c3=c3,
-- 
2.43.0


From 85e3eefd50250d072df76657bf6fe500d2274f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:35 +0000
Subject: [PATCH 09/42] fix: Van Gent (2025) crest freeboard must invert the
 discharge when the maximum equation governs

The maximum equation got the raw discharge (no design exponent, no wind, g of
9.81), the wind factor was taken at the discharge including wind, and
max_reached compared the already limited freeboard.
---
 .../hydraulic/wave_overtopping/vangent2025.py | 105 ++++++++++++------
 1 file changed, 71 insertions(+), 34 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 307cbb6..11de403 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -876,20 +876,23 @@ def calculate_dimensionless_crest_freeboard(
     if design_calculation:
         q_diml = np.power(q_diml, 1.0 / 0.857)
 
-    Rc_diml = (
-        np.log((1.0 / 6.8) * cot_alpha * q_diml)
-        * (-1.0 / 5.0)
-        * gamma_f
-        * gamma_b
-        * gamma_v
-        * gamma_beta
-        * ksi_mm10
-        + 0.4 * Hm0_swell / Hm0
+    Rc_diml, max_reached = _calculate_governing_Rc_diml(
+        Hm0=Hm0,
+        Hm0_swell=Hm0_swell,
+        q_diml=q_diml,
+        cot_alpha=cot_alpha,
+        ksi_mm10=ksi_mm10,
+        gamma_f=gamma_f,
+        gamma_b=gamma_b,
+        gamma_v=gamma_v,
+        gamma_beta=gamma_beta,
+        g=g,
     )
 
     if include_influence_wind:
         Rc_diff = np.inf
         n_iter = 0
+        q_diml_iter = q_diml
         while np.max(Rc_diff) > tolerance and n_iter < max_iter:
             n_iter += 1
 
@@ -897,40 +900,27 @@ def calculate_dimensionless_crest_freeboard(
                 Rc=Rc_diml * Hm0,
                 Ac=Ac,
                 Hm0=Hm0,
-                q_diml=q_diml,
+                q_diml=q_diml_iter,
             )
             q_diml_iter = q_diml / gamma_w
 
             Rc_diml_prev = Rc_diml
 
-            Rc_diml = (
-                np.log((1.0 / 6.8) * cot_alpha * q_diml_iter)
-                * (-1.0 / 5.0)
-                * gamma_f
-                * gamma_b
-                * gamma_v
-                * gamma_beta
-                * ksi_mm10
-                + 0.4 * Hm0_swell / Hm0
+            Rc_diml, max_reached = _calculate_governing_Rc_diml(
+                Hm0=Hm0,
+                Hm0_swell=Hm0_swell,
+                q_diml=q_diml_iter,
+                cot_alpha=cot_alpha,
+                ksi_mm10=ksi_mm10,
+                gamma_f=gamma_f,
+                gamma_b=gamma_b,
+                gamma_v=gamma_v,
+                gamma_beta=gamma_beta,
+                g=g,
             )
 
             Rc_diff = np.abs(Rc_diml - Rc_diml_prev)
 
-    Rc_diml_max = Rc_diml_max_equation(
-        Hm0=Hm0,
-        Hm0_swell=Hm0_swell,
-        q=q,
-        cot_alpha=cot_alpha,
-        ksi_mm10=ksi_mm10,
-        gamma_f=gamma_f,
-        gamma_b=gamma_b,
-        gamma_v=gamma_v,
-        gamma_beta=gamma_beta,
-    )
-
-    Rc_diml = np.min([Rc_diml, Rc_diml_max], axis=0)
-    max_reached = np.min([Rc_diml, Rc_diml_max], axis=0) == Rc_diml_max
-
     check_validity_range(
         Hm0=Hm0,
         Tmm10=Tmm10,
@@ -946,6 +936,53 @@ def calculate_dimensionless_crest_freeboard(
     return Rc_diml, max_reached
 
 
+def _calculate_governing_Rc_diml(
+    Hm0: float | npt.NDArray[np.float64],
+    Hm0_swell: float | npt.NDArray[np.float64],
+    q_diml: float | npt.NDArray[np.float64],
+    cot_alpha: float | npt.NDArray[np.float64],
+    ksi_mm10: float | npt.NDArray[np.float64],
+    gamma_f: float | npt.NDArray[np.float64],
+    gamma_b: float | npt.NDArray[np.float64],
+    gamma_v: float | npt.NDArray[np.float64],
+    gamma_beta: float | npt.NDArray[np.float64],
+    g: float,
+) -> tuple[float | npt.NDArray[np.float64], bool | npt.NDArray[np.bool]]:
+    """Dimensionless crest freeboard Rc/Hm0 for the mean discharge without wind, as the inverse of eqs. B1 and B2
+
+    Returns the smallest of both freeboards and whether that is the one of the maximum equation.
+    """
+
+    Rc_diml_eqB1 = (
+        np.log((1.0 / 6.8) * cot_alpha * q_diml)
+        * (-1.0 / 5.0)
+        * gamma_f
+        * gamma_b
+        * gamma_v
+        * gamma_beta
+        * ksi_mm10
+        + 0.4 * Hm0_swell / Hm0
+    )
+
+    Rc_diml_max = Rc_diml_max_equation(
+        Hm0=Hm0,
+        Hm0_swell=Hm0_swell,
+        q=q_diml * np.sqrt(g * Hm0**3),
+        cot_alpha=cot_alpha,
+        ksi_mm10=ksi_mm10,
+        gamma_f=gamma_f,
+        gamma_b=gamma_b,
+        gamma_v=gamma_v,
+        gamma_beta=gamma_beta,
+        g=g,
+    )
+
+    Rc_diml = np.min([Rc_diml_eqB1, Rc_diml_max], axis=0)
+    max_reached = Rc_diml == Rc_diml_max
+
+    return Rc_diml, max_reached
+
+
 def Rc_diml_max_equation(
     Hm0: float | npt.NDArray[np.float64],
     Hm0_swell: float | npt.NDArray[np.float64],
-- 
2.43.0


From 0269bad602e45f5ce885bb444ea817dd2d0ebdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:00 +0000
Subject: [PATCH 10/42] fix: Van Gent (2025) crest freeboard must accept g, as
 the discharge and the dimensionless freeboard do

---
 .../functions/hydraulic/wave_overtopping/vangent2025.py       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 11de403..2d415b1 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -693,6 +693,7 @@ def calculate_crest_freeboard_Rc(
     gamma_beta: float | npt.NDArray[np.float64] = np.nan,
     design_calculation: bool = True,
     include_influence_wind: bool = False,
+    g: float = 9.81,
 ) -> tuple[float | npt.NDArray[np.float64], bool | npt.NDArray[np.bool]]:
     """Calculate the crest freeboard Rc with the Van Gent et al. (2025) formula.
 
@@ -735,6 +736,8 @@ def calculate_crest_freeboard_Rc(
         Use the 95% confidence level for design calculations, by default True
     include_influence_wind : bool, optional
         Include influence of wind on wave overtopping, by default False
+    g : float, optional
+        Gravitational constant (m/s^2), by default 9.81
 
     Returns
     -------
@@ -760,6 +763,7 @@ def calculate_crest_freeboard_Rc(
         gamma_beta=gamma_beta,
         design_calculation=design_calculation,
         include_influence_wind=include_influence_wind,
+        g=g,
     )
 
     Rc = Rc_diml * Hm0
-- 
2.43.0


From 1ec1ad1a340aae902f225e4a2aa036a2116d9834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:07 +0000
Subject: [PATCH 11/42] fix: Van Gent (2025) range checks of Gc, B_berm and db
 must look at those variables

The Gc check tested Rc/Hm0, and the berm checks depended on Rc being given.
---
 .../functions/hydraulic/wave_overtopping/vangent2025.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 2d415b1..a7193cf 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -135,12 +135,12 @@ def check_validity_range(
         core_utility.check_variable_validity_range(
             "Non-dimensional armour width in front of crest wall Gc / Hm0",
             "Van Gent et al. (2025)",
-            Rc / Hm0,
+            Gc / Hm0,
             0.6,
             5.0,
         )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(Rc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(B_berm)):
         core_utility.check_variable_validity_range(
             "Non-dimensional Berm width B / Hm0",
             "Van Gent et al. (2025)",
@@ -149,7 +149,7 @@ def check_validity_range(
             5.0,
         )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(Rc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(db)):
         core_utility.check_variable_validity_range(
             "Non-dimensional Berm height db / Hm0",
             "Van Gent et al. (2025)",
-- 
2.43.0


From 8adcb1ebb174a70b66daa9fe65da7380baf2818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:13 +0000
Subject: [PATCH 12/42] fix: Van Gent (2025) must not silently return NaN when
 gamma_v or the wave angle is not given

gamma_v is computed from eq. B5 when it is not given (its documented default);
the freeboard, on which it depends, and a missing wave angle raise a ValueError,
as a missing gamma_f does.
---
 .../hydraulic/wave_overtopping/vangent2025.py        | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index a7193cf..47dbb50 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -332,6 +332,8 @@ def calculate_dimensionless_overtopping_discharge_q(
     """
 
     if np.isnan(gamma_beta):
+        if np.isnan(beta):
+            raise ValueError("Either gamma_beta or beta should be provided")
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
 
     ksi_mm10 = core_physics.calculate_Iribarren_number_ksi(
@@ -354,6 +356,11 @@ def calculate_dimensionless_overtopping_discharge_q(
         smm10 = core_physics.calculate_wave_steepness_s(H=Hm0, T=Tmm10)
         gamma_f = calculate_influence_friction_gamma_f(Dn50=Dn50, Hm0=Hm0, smm10=smm10)
 
+    if np.isnan(gamma_v):
+        gamma_v = calculate_influence_crest_wall_gamma_v(
+            cot_alpha=cot_alpha, Rc=Rc, Ac=Ac
+        )
+
     q_diml_eqB1 = (
         6.8
         * np.power(cot_alpha, -1.0)
@@ -853,6 +860,8 @@ def calculate_dimensionless_crest_freeboard(
     """
 
     if np.isnan(gamma_beta):
+        if np.isnan(beta):
+            raise ValueError("Either gamma_beta or beta should be provided")
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
 
     ksi_mm10 = core_physics.calculate_Iribarren_number_ksi(
@@ -875,6 +884,9 @@ def calculate_dimensionless_crest_freeboard(
         smm10 = core_physics.calculate_wave_steepness_s(Hm0, Tmm10)
         gamma_f = calculate_influence_friction_gamma_f(Dn50=Dn50, Hm0=Hm0, smm10=smm10)
 
+    if np.isnan(gamma_v):
+        raise ValueError("gamma_v should be provided to calculate the crest freeboard")
+
     q_diml = q / np.sqrt(g * Hm0**3)
 
     if design_calculation:
-- 
2.43.0


From 9625ff96ac283de9e57180d5712cc50122d5317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:19 +0000
Subject: [PATCH 13/42] fix: Van Gent (2021) must not return NaN without
 crossing seas

c_swell is set to zero then, but Hm0_swell keeps its NaN default and 0*NaN is NaN.
---
 .../functions/hydraulic/wave_overtopping/vangent2021_caisson.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
index a7315c2..48e6ebc 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
@@ -201,6 +201,7 @@ def calculate_dimensionless_overtopping_discharge_q(
 
     if not crossing_seas:
         c_swell = 0.0
+        Hm0_swell = 0.0
     else:
         if np.isnan(Hm0_swell):
             raise ValueError(
@@ -400,6 +401,7 @@ def calculate_dimensionless_crest_freeboard(
 
     if not crossing_seas:
         c_swell = 0.0
+        Hm0_swell = 0.0
     else:
         if np.isnan(Hm0_swell):
             raise ValueError(
-- 
2.43.0


From 6b457a363caa9f1b5be9606aa27cf6f00ec0ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:26 +0000
Subject: [PATCH 14/42] fix: Van Gent (2021) must not silently return NaN when
 neither beta nor gamma_beta is given

---
 .../hydraulic/wave_overtopping/vangent2021_caisson.py         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
index 48e6ebc..9faa958 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
@@ -209,6 +209,8 @@ def calculate_dimensionless_overtopping_discharge_q(
             )
 
     if np.isnan(gamma_beta):
+        if np.isnan(beta):
+            raise ValueError("Either gamma_beta or beta should be provided")
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(
             beta=beta,
             gamma_p=gamma_p,
@@ -409,6 +411,8 @@ def calculate_dimensionless_crest_freeboard(
             )
 
     if np.isnan(gamma_beta):
+        if np.isnan(beta):
+            raise ValueError("Either gamma_beta or beta should be provided")
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(
             beta=beta,
             gamma_p=gamma_p,
-- 
2.43.0


From 7b4435ef251ec81b34865e9a5cde4373ba1ee9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:51 +0000
Subject: [PATCH 15/42] fix: De Ridder (2024) eq. 24 crest freeboard must use
 the given g

---
 .../functions/hydraulic/wave_overtopping/deridder2024.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
index 27560fe..384eb1a 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
@@ -147,6 +147,7 @@ def calculate_crest_freeboard_discharge_q_eq24(
         smm10_HF=smm10_HF,
         gamma_f=gamma_f,
         q=q,
+        g=g
     )
 
     Rc = Rc_diml * Hm0
-- 
2.43.0


From 663c2fbf245e6fde1b79d5daf4f89bd0b3afec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:57 +0000
Subject: [PATCH 16/42] fix: De Ridder (2024, 2026) must check the range of the
 short wave steepness they are given

Tmm10_HF was derived for the check from Hm0 and smm10_HF, but Hm0_HF was not
passed, so the check of smm10_HF never ran.
---
 .../functions/hydraulic/wave_overtopping/deridder2024.py      | 4 ++++
 .../functions/hydraulic/wave_overtopping/deridder2026.py      | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
index 384eb1a..d42de92 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
@@ -198,6 +198,7 @@ def calculate_crest_freeboard_discharge_q_eq26(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
@@ -246,6 +247,7 @@ def calculate_dimensionless_crest_freeboard_discharge_q_eq24(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc_diml * Hm0,
     )
@@ -369,6 +371,7 @@ def calculate_dimensionless_overtopping_discharge_eq24(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
     )
@@ -414,6 +417,7 @@ def calculate_dimensionless_overtopping_discharge_eq26(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
index b1086c8..806b2c3 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
@@ -351,6 +351,7 @@ def calculate_dimensionless_overtopping_discharge_eq28(
     )
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         theta=theta,
@@ -420,6 +421,7 @@ def calculate_dimensionless_overtopping_discharge_eq32(
 
     check_validity_range(
         Hm0=Hm0_HF,
+        Hm0_HF=Hm0_HF,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0_HF) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
-- 
2.43.0


From f8ad8e0db73cacef8af2a8f8a7735a6d4326e202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:50 +0000
Subject: [PATCH 17/42] fix: De Ridder (2026) crest freeboards must run the
 validity checks, as the discharges do

---
 .../hydraulic/wave_overtopping/deridder2026.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
index 806b2c3..59b362f 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
@@ -136,6 +136,8 @@ def calculate_crest_freeboard_discharge_q_eq28(
 
     Rc = Rc_diml * Hm0
 
+    check_validity_range(theta=theta)
+
     return Rc
 
 
@@ -183,6 +185,15 @@ def calculate_crest_freeboard_discharge_q_eq32(
         * Hm0_HF
     ) + 0.97 * Hm0_LF
 
+    check_validity_range(
+        Hm0=Hm0_HF,
+        Hm0_HF=Hm0_HF,
+        Tmm10_HF=np.sqrt((2 * np.pi * Hm0_HF) / smm10_HF / 9.81),
+        Rc=Rc,
+        Hm0_LF=Hm0_LF,
+        theta=theta,
+    )
+
     return Rc
 
 
@@ -226,6 +237,13 @@ def calculate_dimensionless_crest_freeboard_discharge_q_eq28(
         * gamma_f
         * gamma_beta
     )
+    check_validity_range(
+        Hm0=Hm0,
+        Hm0_HF=Hm0,
+        Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
+        Rc=Rc_diml * Hm0,
+    )
+
     return Rc_diml
 
 
-- 
2.43.0


From e3e824af3547987652dc9f41200b193144061f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:12 +0000
Subject: [PATCH 18/42] fix: Van Gent (2023) transmission must run its validity
 checks

check_validity_range was defined but never called.
---
 .../functions/hydraulic/wave_transmission/vangent2023.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
index c8b61b1..2b56513 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
@@ -161,4 +161,8 @@ def calculate_wave_transmission_Kt(
 
     Kt = c1 * np.tanh(-((Rc / Hm0) + c2 * np.power(B / Lmm10, c3) + c4)) + c5
 
+    check_validity_range(
+        Hm0=Hm0, Tmm10=Tmm10, Rc=Rc, B=B, structure_type=structure_type
+    )
+
     return Kt
-- 
2.43.0


From f45c72da156ba886ead17c2efbfd4d624a465a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:19 +0000
Subject: [PATCH 19/42] fix: Van Gent (2024) set-up must check B/Hm0 when B is
 given, not when hc is

---
 .../functions/hydraulic/wave_transmission/vangent2024_setup.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
index 05958f8..3ed4f18 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
@@ -85,7 +85,7 @@ def check_validity_range(
                     3.0,
                 )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(hc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(B)):
         match structure_type:
             case "permeable":
                 core_utility.check_variable_validity_range(
-- 
2.43.0


From c7a029d1f7a1e9f335cbbe2fb8ad08f44ccbd529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:58 +0000
Subject: [PATCH 20/42] fix: calculate_local_wavelength must treat every
 combination of scalar and array T and h elementwise

With a scalar h and an array T only the wave length of the first period was
returned (so e.g. the Van Gent (2023) transmission was wrong for arrays of
periods); an array h of one element, or an integer T with an array h, raised.
---
 .../functions/core_physics.py                     | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/core_physics.py b/deltares_coastal_structures_toolbox/functions/core_physics.py
index d6e7737..f3b41e7 100644
--- a/deltares_coastal_structures_toolbox/functions/core_physics.py
+++ b/deltares_coastal_structures_toolbox/functions/core_physics.py
@@ -394,16 +394,13 @@ def calculate_local_wavelength(
     """
 
     # implementation of disper handles arrays for T, but not for h, hence this implementation
-    if isinstance(h, (float, int)):
+    if np.ndim(T) == 0 and np.ndim(h) == 0:
         k = dispersion.disper(w=((2 * np.pi) / T), h=h, g=g)[0]
-    elif len(h) > 1 and isinstance(T, float):
-        k = np.array([])
-        for hsub in h:
-            k = np.append(k, dispersion.disper(w=((2 * np.pi) / T), h=hsub, g=g))
-    elif len(h) > 1 and len(h) == len(T):
-        k = np.array([])
-        for hsub, Tsub in zip(h, T):
-            k = np.append(k, dispersion.disper(w=((2 * np.pi) / Tsub), h=hsub, g=g))
+    else:
+        T_all, h_all = np.broadcast_arrays(T, h)
+        k = np.empty(T_all.shape)
+        for i in np.ndindex(T_all.shape):
+            k[i] = dispersion.disper(w=((2 * np.pi) / T_all[i]), h=h_all[i], g=g)[0]
 
     L = (2 * np.pi) / k
 
-- 
2.43.0


From 2e51fe6cbe6810c46c09f753f9bc2d7b340d9ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:18 +0000
Subject: [PATCH 21/42] fix: the validity check must accept NumPy scalars such
 as np.int64

---
 deltares_coastal_structures_toolbox/functions/core_utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/core_utility.py b/deltares_coastal_structures_toolbox/functions/core_utility.py
index 3d02426..174acfd 100644
--- a/deltares_coastal_structures_toolbox/functions/core_utility.py
+++ b/deltares_coastal_structures_toolbox/functions/core_utility.py
@@ -35,7 +35,7 @@ def check_variable_validity_range(
     if isinstance(values, np.ndarray):
         values = values.tolist()
 
-    if isinstance(values, (int, float)):
+    if isinstance(values, (int, float, np.number)):
         values = [values]
 
     is_valid = []
-- 
2.43.0


From 636f4456e7acc132843192ce19a646d5848c1a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:45 +0000
Subject: [PATCH 22/42] fix: the modified Van der Meer formulae must check the
 stability number with the given water density

---
 .../stability_rock_armour/vandermeer1988_modified.py           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
index cd3b905..f6c1cef 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
@@ -218,6 +218,7 @@ def calculate_damage_number_S(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
 
     return S
@@ -320,6 +321,7 @@ def calculate_nominal_rock_diameter_Dn50(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Dn50
 
@@ -443,5 +445,6 @@ def calculate_significant_wave_height_Hs(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Hs
-- 
2.43.0


From de335032ed8f14501ced4d5a4f3ab454f18cdaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:21 +0000
Subject: [PATCH 23/42] fix: Scaravaglione (2025) must check the stability
 number with the given water density

---
 .../structural/stability_rock_armour/scaravaglione2025.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
index c21e5a2..dbe10f9 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
@@ -204,6 +204,7 @@ def calculate_damage_number_S(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
 
     return S
@@ -280,6 +281,7 @@ def calculate_nominal_rock_diameter_Dn50(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Dn50
 
@@ -368,5 +370,6 @@ def calculate_significant_wave_height_Hm0(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Hm0
-- 
2.43.0


From f3cd6f2a1b8fc3aab020a36b6b419f43c8e429c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:28 +0000
Subject: [PATCH 24/42] fix: Scaravaglione (2025) must not check a NaN
 stability number when rho_armour is not given

---
 .../structural/stability_rock_armour/scaravaglione2025.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
index dbe10f9..590377a 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
@@ -56,7 +56,11 @@ def check_validity_range(
             0.55,
         )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(Dn50)):
+    if (
+        not np.any(np.isnan(Hm0))
+        and not np.any(np.isnan(Dn50))
+        and not np.any(np.isnan(rho_armour))
+    ):
         Ns = core_physics.calculate_stability_number_Ns(
             H=Hm0, D=Dn50, rho_rock=rho_armour, rho_water=rho_water
         )
-- 
2.43.0


From e9d4a02ed2638938233453ad1fd405e739cc231a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:45 +0000
Subject: [PATCH 25/42] fix: Core-Loc unit mass and wave height must check the
 range of the slope, as the other Hudson units do

---
 .../stability_concrete_armour/core_loc_hudson1959.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
index 607e0e5..cd1d601 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
@@ -118,6 +118,8 @@ def calculate_unit_mass_M(
         alpha_Hs=alpha_Hs,
     )
 
+    check_validity_range(cot_alpha=cot_alpha)
+
     return M
 
 
@@ -178,6 +180,8 @@ def calculate_significant_wave_height_Hs(
         alpha_Hs=alpha_Hs,
     )
 
+    check_validity_range(cot_alpha=cot_alpha)
+
     return Hs
 
 
-- 
2.43.0


From 4608d244fe23321994c8eafe743c4fb9dbcddcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:03 +0000
Subject: [PATCH 26/42] fix: Etemad-Shahidi (2021) steepness check must call
 calculate_wave_steepness_s with its parameter names

---
 .../structural/stability_toe_berm/etemadshahidi2021.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index fd13f24..2c6c457 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -62,7 +62,7 @@ def check_validity(
         )
 
     if not np.any(np.isnan(Hs)) and not np.any(np.isnan(Tmm10)):
-        smm10 = core_physics.calculate_wave_steepness_s(H=Hs, Tmm10=Tmm10)
+        smm10 = core_physics.calculate_wave_steepness_s(H=Hs, T=Tmm10)
         core_utility.check_variable_validity_range(
             "Wave steepness sm-1,0",
             "Etemad-Shahidi et al. (2021)",
-- 
2.43.0


From 925a65e868fe1eee516cbf513d8c536e3bcf9a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:26 +0000
Subject: [PATCH 27/42] fix: Etemad-Shahidi (2021) must check Bt/Hs when Bt is
 given, not when ht is

---
 .../structural/stability_toe_berm/etemadshahidi2021.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index 2c6c457..4dac38b 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -98,7 +98,7 @@ def check_validity(
             23.40,
         )
 
-    if not np.any(np.isnan(Hs)) and not np.any(np.isnan(ht)):
+    if not np.any(np.isnan(Hs)) and not np.any(np.isnan(Bt)):
         core_utility.check_variable_validity_range(
             "Relative toe width Bt/Hs",
             "Etemad-Shahidi et al. (2021)",
-- 
2.43.0


From d9d526db2a034e971855f45a83e7bd58624e970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:32 +0000
Subject: [PATCH 28/42] fix: Etemad-Shahidi (2021) must not check a NaN
 stability number when rho_armour is not given

---
 .../structural/stability_toe_berm/etemadshahidi2021.py      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index 4dac38b..a856c76 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -116,7 +116,11 @@ def check_validity(
             3.0,
         )
 
-    if not np.any(np.isnan(Hs)) and not np.any(np.isnan(Dn50)):
+    if (
+        not np.any(np.isnan(Hs))
+        and not np.any(np.isnan(Dn50))
+        and not np.any(np.isnan(rho_armour))
+    ):
         Ns = core_physics.calculate_stability_number_Ns(
             H=Hs, D=Dn50, rho_rock=rho_armour, rho_water=rho_water
         )
-- 
2.43.0


From 94027c6d544a98a21c91e570729d3877c338d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:39 +0000
Subject: [PATCH 29/42] fix: Etemad-Shahidi (2021) wave height iteration must
 stop after max_iter iterations

---
 .../functions/structural/stability_toe_berm/etemadshahidi2021.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index a856c76..84e7960 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -452,6 +452,7 @@ def calculate_significant_wave_height_Hs(
 
         Hs_diff = np.abs(Hs - Hs_prev)
         Hs_prev = Hs
+        n_iter += 1
 
         smm10 = core_physics.calculate_wave_steepness_s(H=Hs, T=Tmm10, g=g)
 
-- 
2.43.0


From ffcf3487f2526bd65003a79d3a5a2d7469827240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:47 +0000
Subject: [PATCH 30/42] fix: Etemad-Shahidi (2021) formulae must run the
 validity checks on all their inputs and results

---
 .../stability_toe_berm/etemadshahidi2021.py   | 39 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index 84e7960..8e68b53 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -252,7 +252,18 @@ def calculate_damage_Nod(
         1.0 / c5,
     )
 
-    check_validity(Hs=Hs, ht=ht)
+    check_validity(
+        Hs=Hs,
+        Tmm10=Tmm10,
+        h=h,
+        ht=ht,
+        Bt=Bt,
+        Dn50=Dn50,
+        m=m,
+        Nod=Nod,
+        rho_armour=rho_rock,
+        rho_water=rho_water,
+    )
 
     return Nod
 
@@ -342,7 +353,18 @@ def calculate_nominal_diameter_Dn50(
         -1.0,
     )
 
-    check_validity(Hs=Hs, ht=ht)
+    check_validity(
+        Hs=Hs,
+        Tmm10=Tmm10,
+        h=h,
+        ht=ht,
+        Bt=Bt,
+        Dn50=Dn50,
+        m=m,
+        Nod=Nod,
+        rho_armour=rho_rock,
+        rho_water=rho_water,
+    )
 
     return Dn50
 
@@ -456,4 +478,17 @@ def calculate_significant_wave_height_Hs(
 
         smm10 = core_physics.calculate_wave_steepness_s(H=Hs, T=Tmm10, g=g)
 
+    check_validity(
+        Hs=Hs,
+        Tmm10=Tmm10,
+        h=h,
+        ht=ht,
+        Bt=Bt,
+        Dn50=Dn50,
+        m=m,
+        Nod=Nod,
+        rho_armour=rho_rock,
+        rho_water=rho_water,
+    )
+
     return Hs
-- 
2.43.0


From 0ccce13121d8a91ea91a62abd0dccc344fb0dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:22 +0000
Subject: [PATCH 31/42] fix: Takahashi (1990) wave height must not look outside
 its search table

---
 .../stability_toe_berm/takahashi1990_caisson.py          | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
index a466f3c..776a9f5 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
@@ -181,7 +181,7 @@ def calculate_significant_wave_height_Hs(
     Hs_table_in = np.arange(
         start=np.minimum(Hs_start, Hs_new),
         step=Hs_start / 20,
-        stop=np.maximum(Hs_start, Hs_new),
+        stop=np.maximum(Hs_start, Hs_new) + Hs_start / 20,
     )
     Hs_table_out = np.array([])
 
@@ -196,9 +196,12 @@ def calculate_significant_wave_height_Hs(
 
     ind = np.argmin(np.abs(Hs_table_in - Hs_table_out))
 
+    ind_low = max(ind - 1, 0)
+    ind_high = min(ind + 1, len(Hs_table_in) - 1)
+
     fromto = [
-        np.minimum(Hs_table_in[ind - 1], Hs_table_out[ind - 1]),
-        np.maximum(Hs_table_in[ind + 1], Hs_table_out[ind + 1]),
+        np.minimum(Hs_table_in[ind_low], Hs_table_out[ind_low]),
+        np.maximum(Hs_table_in[ind_high], Hs_table_out[ind_high]) + 0.0005,
     ]
 
     Hs_table_in = np.arange(start=fromto[0], stop=fromto[1], step=0.0005)
-- 
2.43.0


From 61c09aba2165fa4ab5185c91549996f7b251ac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:28 +0000
Subject: [PATCH 32/42] fix: Takahashi (1990) depth above the toe search must
 end when no depth satisfies the stone size

---
 .../stability_toe_berm/takahashi1990_caisson.py          | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
index 776a9f5..93f3944 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
@@ -294,8 +294,13 @@ def calculate_significant_depth_above_toe_hacc(
     Ns_array = np.array([])
 
     firsteval = Ns < Ns_out
+    max_iter = 10000
 
     while firsteval == (Ns < Ns_out):
+        if len(hacc_array) >= max_iter:
+            raise ValueError(
+                "No depth above the toe found that matches the given stone diameter"
+            )
         hacc_in += dht
         Ns_out = calculate_stability_number_Ns(
             Hs=Hs, Tp=Tp, hacc=hacc_in, Bt=Bt, beta=beta, g=g
@@ -318,6 +323,10 @@ def calculate_significant_depth_above_toe_hacc(
         firsteval = Ns < Ns_out
 
         while firsteval == (Ns < Ns_out):
+            if len(hacc_array) >= max_iter:
+                raise ValueError(
+                    "No depth above the toe found that matches the given stone diameter"
+                )
             hacc_in += dht
             Ns_out = calculate_stability_number_Ns(
                 Hs=Hs, Tp=Tp, hacc=hacc_in, Bt=Bt, beta=beta, g=g
-- 
2.43.0


From c395f45ce6e7a0b06f47c881e0e38812e54de36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:36 +0000
Subject: [PATCH 33/42] fix: Van der Meer (1998) must check the stability
 number Hs/(Delta*Dn50)

---
 .../functions/structural/stability_toe_berm/vandermeer1998.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
index 57e7cf1..a520992 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
@@ -76,7 +76,7 @@ def check_validity(
         core_utility.check_variable_validity_range(
             "Nod vs Ns",
             "van der Meer (1998)",
-            (Nod**-0.15) * (Hs / Delta * Dn50),
+            (Nod**-0.15) * (Hs / (Delta * Dn50)),
             2,
             np.inf,
         )
-- 
2.43.0


From f8db2ea9441c7786ba31fe79c10a53793a0c100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:46 +0000
Subject: [PATCH 34/42] fix: Van der Meer (1998) range warnings must name the
 quantity that is out of range

---
 .../functions/structural/stability_toe_berm/vandermeer1998.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
index a520992..cc479eb 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
@@ -42,7 +42,7 @@ def check_validity(
 
     if not np.any(np.isnan(Hs)):
         core_utility.check_variable_validity_range(
-            "Relative toe height (h)",
+            "Significant wave height Hs",
             "van der Meer (1998)",
             Hs,
             0.01,
@@ -51,7 +51,7 @@ def check_validity(
 
     if not np.any(np.isnan(ht)) and not np.any(np.isnan(h)):
         core_utility.check_variable_validity_range(
-            "Relative toe height (Dn50)",
+            "Relative toe height (h)",
             "van der Meer (1998)",
             ht / h,
             0.4,
-- 
2.43.0


From 62c3a53436612a631ec52f5bce02e71b6a4eab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:47 +0000
Subject: [PATCH 35/42] fix: Van Gent (2007) rear side formulae must check the
 range of the wave steepness

---
 .../functions/structural/stability_rock_rear/vangent2007.py    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
index 2fd7e39..24ee175 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
@@ -215,6 +215,7 @@ def calculate_damage_number_S(
     check_validity_range(
         Dn50=Dn50,
         Hs=Hs,
+        Tmm10=Tmm10,
         Rc=Rc,
         z1p=z1p,
         Rc2_front=Rc2_front,
@@ -293,6 +294,7 @@ def calculate_nominal_rock_diameter_Dn50(
     check_validity_range(
         S=S,
         Hs=Hs,
+        Tmm10=Tmm10,
         Rc=Rc,
         z1p=z1p,
         Rc2_front=Rc2_front,
@@ -399,6 +401,7 @@ def calculate_maximum_significant_wave_height_Hs(
     check_validity_range(
         S=S,
         Hs=Hs,
+        Tmm10=Tmm10,
         Rc=Rc,
         z1p=z1p,
         Rc2_front=Rc2_front,
-- 
2.43.0


From 6a3177c6e20c6037865401b45574bca0d0c44286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:53 +0000
Subject: [PATCH 36/42] fix: Van Gent & Pozueta (2004) must not silently return
 NaN when rho_rock is not given

---
 .../structural/stability_rock_rear/vangentpozueta2004.py    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py
index bc05cb3..c887c8d 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py
@@ -204,6 +204,9 @@ def calculate_damage_number_S(
         Hs=Hs, zXp=z1p, Rc=Rc, Bc=Bc, gamma_f=gamma_f, gamma_f_Crest=gamma_f_Crest
     )
 
+    if np.all(np.isnan(rho_rock)):
+        raise ValueError("rho_rock should be provided")
+
     Delta = core_physics.calculate_buoyant_density_Delta(
         rho_rock=rho_rock, rho_water=rho_water
     )
@@ -403,6 +406,9 @@ def calculate_maximum_significant_wave_height_Hs(
         The maximum allowable significant wave height Hs (m)
     """
 
+    if np.all(np.isnan(rho_rock)):
+        raise ValueError("rho_rock should be provided")
+
     Delta = core_physics.calculate_buoyant_density_Delta(
         rho_rock=rho_rock, rho_water=rho_water
     )
-- 
2.43.0


From 9ef172d9dd87ca011d177f0c3add5a8ab01c68e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:01 +0000
Subject: [PATCH 37/42] fix: Goda (1985) must check the range of the toe berm
 width it is given

---
 .../functions/structural/forces_caisson/goda1985.py       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
index 610a210..e8116c2 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
@@ -348,7 +348,13 @@ def calculate_forces_and_reactions(
 
     # check validity range
     is_valid = check_validity_range(
-        beta=beta, cota_seabed=cota_seabed, Tmax=Tmax, tup=tup, Bup=Bup, h_s=h_s
+        beta=beta,
+        cota_seabed=cota_seabed,
+        Tmax=Tmax,
+        tup=tup,
+        Bup=Bup,
+        h_s=h_s,
+        B1=B1,
     )
 
     if not return_dict:
-- 
2.43.0


From 2c871aab54542c913434339764588948bd234a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 38/42] fix: the overtopping input file writers must accept
 every combination of scalar and array inputs

---
 .../wave_overtopping/denbieman2021.py         | 20 ++++++++++++++++++-
 .../hydraulic/wave_overtopping/vangent2007.py | 19 +++++++++++++++++-
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
index 76d2ef1..f20b216 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
@@ -80,7 +80,25 @@ def write_input_file_XGB_Overtopping(
         Name of the input file, by default "input_XGB_Overtopping"
     """
 
-    if isinstance(beta, float):
+    inputs = (
+        beta,
+        h,
+        Hm0,
+        Tmm10,
+        Bt,
+        ht,
+        B_berm,
+        db,
+        Rc,
+        Ac,
+        Gc,
+        cot_alpha_down,
+        cot_alpha_up,
+        gamma_f_down,
+        gamma_f_up,
+        tan_alpha_f,
+    )
+    if all(np.ndim(value) == 0 for value in inputs):
         index = [0]
     else:
         index = None
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
index 8409d70..89faec9 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
@@ -123,7 +123,24 @@ def write_input_file_NN_Overtopping(
             + "------------------------------------------------\n"
         )
 
-    if isinstance(beta, float):
+    inputs = (
+        beta,
+        h,
+        Hm0,
+        Tmm10,
+        Bt,
+        ht,
+        B_berm,
+        db,
+        Rc,
+        Ac,
+        Gc,
+        cot_alpha_down,
+        cot_alpha_up,
+        gamma_f,
+        tan_alpha_B,
+    )
+    if all(np.ndim(value) == 0 for value in inputs):
         index = [0]
     else:
         index = None
-- 
2.43.0


From 686623a7be44cf9329e87a0a168a13a0781a9fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:14 +0000
Subject: [PATCH 39/42] fix: iterations keep going for elements that have not
 converged when another element is NaN

---
 .../functions/hydraulic/wave_overtopping/vangent2025.py       | 2 +-
 .../functions/hydraulic/wave_runup/taw2002.py                 | 2 +-
 .../structural/stability_rock_armour/etemadshahidi2020.py     | 4 ++--
 .../functions/structural/stability_rock_armour/jumelet2024.py | 2 +-
 .../stability_rock_armour/kramerburcharth2004_lowcrested.py   | 4 ++--
 .../functions/structural/stability_rock_rear/vangent2007.py   | 2 +-
 .../structural/stability_rock_rear/vangentpozueta2004.py      | 2 +-
 .../structural/stability_toe_berm/etemadshahidi2021.py        | 2 +-
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 47dbb50..f9c7578 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -909,7 +909,7 @@ def calculate_dimensionless_crest_freeboard(
         Rc_diff = np.inf
         n_iter = 0
         q_diml_iter = q_diml
-        while np.max(Rc_diff) > tolerance and n_iter < max_iter:
+        while np.any(Rc_diff > tolerance) and n_iter < max_iter:
             n_iter += 1
 
             gamma_w = calculate_influence_wind_gamma_w(
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index fa1bdf4..e73659c 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -454,7 +454,7 @@ def iteration_procedure_z2p(
 
     while (
         n_iter <= max_iter
-        and np.max(abs(z2p_estimate_i1 - z2p_estimate_i0)) > tolerance
+        and np.any(abs(z2p_estimate_i1 - z2p_estimate_i0) > tolerance)
     ):
         z2p_estimate_i0 = z2p_estimate_i1
 
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/etemadshahidi2020.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/etemadshahidi2020.py
index 9646c92..1d32bb6 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/etemadshahidi2020.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/etemadshahidi2020.py
@@ -376,7 +376,7 @@ def calculate_nominal_rock_diameter_Dn50(
     Dn50_s_prev = np.inf
     Cp_s = Cp_init
 
-    while np.max(Dn50_s_diff) > tolerance and n_iter_s < max_iter:
+    while np.any(Dn50_s_diff > tolerance) and n_iter_s < max_iter:
         n_iter_s += 1
 
         Dn50_s = (
@@ -399,7 +399,7 @@ def calculate_nominal_rock_diameter_Dn50(
     Dn50_pl_prev = np.inf
     Cp_pl = Cp_init
 
-    while np.max(Dn50_pl_diff) > tolerance and n_iter_pl < max_iter:
+    while np.any(Dn50_pl_diff > tolerance) and n_iter_pl < max_iter:
         n_iter_pl += 1
 
         Dn50_pl = (
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
index dc69e38..0e306e9 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
@@ -282,7 +282,7 @@ def calculate_significant_wave_height_Hs(
     Hs_diff = np.inf
     Hs_prev = Hs_init
 
-    while np.max(Hs_diff) > tolerance and n_iter < max_iter:
+    while np.any(Hs_diff > tolerance) and n_iter < max_iter:
         n_iter += 1
 
         Fp = calculate_fraction_plunging_waves_Fp(ksi_mm10=ksi_mm10)
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/kramerburcharth2004_lowcrested.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/kramerburcharth2004_lowcrested.py
index 5d7f03a..3939abc 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/kramerburcharth2004_lowcrested.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/kramerburcharth2004_lowcrested.py
@@ -82,7 +82,7 @@ def calculate_nominal_rock_diameter_Dn50(
     Dn50_prev = np.inf
     Dn50 = Hs / (Delta * Ns_init)
 
-    while np.max(Dn50_diff) > tolerance and n_iter < max_iter:
+    while np.any(Dn50_diff > tolerance) and n_iter < max_iter:
         n_iter += 1
 
         Dn50 = (1.0 / 1.36) * ((Hs / Delta) - Rc * (0.06 * (Rc / Dn50) - 0.23))
@@ -192,7 +192,7 @@ def calculate_crest_freeboard_Rc(
     Rc_prev = np.inf
     Rc = Rc_Dn50_init * Dn50
 
-    while np.max(Rc_diff) > tolerance and n_iter < max_iter:
+    while np.any(Rc_diff > tolerance) and n_iter < max_iter:
         n_iter += 1
 
         Rc = ((Hs / Delta) - 1.36 * Dn50) / (0.06 * (Rc / Dn50) - 0.23)
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
index 24ee175..e54d89f 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
@@ -371,7 +371,7 @@ def calculate_maximum_significant_wave_height_Hs(
     Hs_i0 = Hs_i1 + np.inf
     iteration = 0
 
-    while iteration < max_iterations and np.max(np.abs(Hs_i1 - Hs_i0)) > tolerance:
+    while iteration < max_iterations and np.any(np.abs(Hs_i1 - Hs_i0) > tolerance):
 
         iteration += 1
         Hs_i0 = Hs_i1
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py
index c887c8d..4ffabfc 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py
@@ -419,7 +419,7 @@ def calculate_maximum_significant_wave_height_Hs(
     Hs_i0 = Hs_i1 + np.inf
     iteration = 0
 
-    while iteration < max_iterations and np.max(np.abs(Hs_i1 - Hs_i0)) > tolerance:
+    while iteration < max_iterations and np.any(np.abs(Hs_i1 - Hs_i0) > tolerance):
 
         iteration += 1
         Hs_i0 = Hs_i1
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index 8e68b53..27c435a 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -456,7 +456,7 @@ def calculate_significant_wave_height_Hs(
     Hs_diff = np.inf
     Hs_prev = Hs_init
 
-    while np.max(Hs_diff) > 1e-3 and n_iter < max_iter:
+    while np.any(Hs_diff > 1e-3) and n_iter < max_iter:
 
         Hs = (
             Delta
-- 
2.43.0


From 89d04be015ea83de41dddb75a60a40ff6e1c5e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:57 +0000
Subject: [PATCH 40/42] fix: Hudson damage table accepts 100% damage and
 refuses more with a ValueError

---
 .../functions/structural/stability_rock_armour/hudson1959.py  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
index d8deb79..31c8752 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
@@ -137,7 +137,11 @@ def lookup_table_damage_factors(
     mult_factors_rough = np.array([1.0, 1.0, 1.08, 1.14, 1.20, 1.29, 1.41, 1.54, 1.54])
     mult_factors_smooth = np.array([1.0, 1.0, 1.08, 1.19, 1.27, 1.37, 1.47, 1.56, 1.56])
 
+    if not np.all(np.less_equal(damage_percentage, percentages[-1])):
+        raise ValueError("damage_percentage should not exceed 100%")
+
     ind = np.searchsorted(percentages, damage_percentage, "right")
+    ind = np.minimum(ind, percentages.size - 1)
     if rock_type.lower().strip() == "rough":
         factor = mult_factors_rough[ind]
     elif rock_type.lower().strip() == "smooth":
-- 
2.43.0


From fac0573287f03e910e9b0c4041e857c633608ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:50 +0000
Subject: [PATCH 41/42] fix: composite slope with only the lower slope given
 raises instead of returning NaN

---
 .../functions/hydraulic/wave_runup/taw2002.py                 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index e73659c..eb517d5 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -571,7 +571,9 @@ def check_composite_slope(
         Raise error when no slopes are provided
     """
 
-    if np.all(np.isnan(cot_alpha)) and np.all(np.isnan(cot_alpha_down)):
+    if np.all(np.isnan(cot_alpha)) and (
+        np.all(np.isnan(cot_alpha_down)) or np.all(np.isnan(cot_alpha_up))
+    ):
         raise ValueError(
             "Either a single (cot_alpha) or composite (cot_alpha_down & cot_alpha_up) slope should be provided"
         )
-- 
2.43.0


From 1f3117e9e39d58504bab9753f8e5aaff47525329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:06 +0000
Subject: [PATCH 42/42] fix: VanGent2025 without slope raises instead of
 returning NaN

---
 .../functions/hydraulic/wave_overtopping/vangent2025.py     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index f9c7578..0b6ee97 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -331,6 +331,9 @@ def calculate_dimensionless_overtopping_discharge_q(
         Raise an error if gamma_f is not provided and Dn50 is not provided so it cannot be calculated.
     """
 
+    if np.all(np.isnan(cot_alpha)):
+        raise ValueError("The slope cot_alpha should be provided")
+
     if np.isnan(gamma_beta):
         if np.isnan(beta):
             raise ValueError("Either gamma_beta or beta should be provided")
@@ -859,6 +862,9 @@ def calculate_dimensionless_crest_freeboard(
         Raise an error if gamma_f is not provided and Dn50 is not provided so it cannot be calculated.
     """
 
+    if np.all(np.isnan(cot_alpha)):
+        raise ValueError("The slope cot_alpha should be provided")
+
     if np.isnan(gamma_beta):
         if np.isnan(beta):
             raise ValueError("Either gamma_beta or beta should be provided")
-- 
2.43.0

