From a15f97093ae6a32cde7d89d37069156dde7d5164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 01/55] fix: draw Brownian increments from a private generator

Seeding numpy's global generator changed the caller's random stream, and a
generation running at the same time could reseed it between seed and draw.
---
 fixedIncome/src/stochastics/brownian_motion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/brownian_motion.py b/fixedIncome/src/stochastics/brownian_motion.py
index 8e37177..c6af3c3 100644
--- a/fixedIncome/src/stochastics/brownian_motion.py
+++ b/fixedIncome/src/stochastics/brownian_motion.py
@@ -144,8 +144,8 @@ class BrownianMotion(Callable):
 
 
         num_steps = len(self.dt_increments)
-        np.random.seed(seed=seed)
-        brownian_increments = np.random.standard_normal((self.dimension, num_steps)) * np.sqrt(self.dt_increments)
+        random_state = np.random.RandomState(seed)  # private generator: the global one belongs to the caller
+        brownian_increments = random_state.standard_normal((self.dimension, num_steps)) * np.sqrt(self.dt_increments)
         brownian_increments = self.lower_triangular_mat @ brownian_increments  # induce correlation
         return brownian_increments, self.dt_increments
 
-- 
2.43.0


From eb315b8e3b4b05935e2e87b414f76a2eefc908d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 02/55] fix: weight path interpolation towards the nearer grid
 point

The weights were swapped: just after a grid time the next value was returned.
---
 fixedIncome/src/stochastics/brownian_motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/brownian_motion.py b/fixedIncome/src/stochastics/brownian_motion.py
index c6af3c3..efa3555 100644
--- a/fixedIncome/src/stochastics/brownian_motion.py
+++ b/fixedIncome/src/stochastics/brownian_motion.py
@@ -55,7 +55,7 @@ def datetime_to_path_call(
                                                                         end_date=datetime_grid[upper_datetime_index],
                                                                         dcc=day_count_convention)
 
-    interpolation_factor = time_to_next_grid_point / (time_to_next_grid_point + time_since_last_grid_point)
+    interpolation_factor = time_since_last_grid_point / (time_to_next_grid_point + time_since_last_grid_point)
 
     prev_value = path[:, lower_datetime_index]
     next_value = path[:, upper_datetime_index]
-- 
2.43.0


From 0e1444aca1c4c0747fa3f76e9185f06317dce5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 03/55] fix: keep a path's time grid with the process that owns
 the path

The grid was stored on the Brownian motion by every generation, stored or not,
so a path was evaluated on the grid of whichever generation came last: wrong
after set_path=False with another dt or when processes share a Brownian motion.
---
 fixedIncome/src/stochastics/base_processes.py |  4 ++-
 .../src/stochastics/brownian_motion.py        | 30 +++++++++++--------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 2e49a02..5148cb5 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -42,6 +42,7 @@ class DiffusionProcess(abc.Callable):
 
         self._dimension = len(self.drift_diffusion_collection)
         self._path = None
+        self._datetimes = None  # the grid of the path
 
 
     @property
@@ -78,7 +79,7 @@ class DiffusionProcess(abc.Callable):
                                      start_date_time=self.start_date_time,
                                      end_date_time=self.end_date_time,
                                      path=self.path,
-                                     datetime_grid=self.brownian_motion.datetimes,
+                                     datetime_grid=self._datetimes,
                                      day_count_convention=self.day_count_convention)
 
     def generate_path(self,
@@ -108,6 +109,7 @@ class DiffusionProcess(abc.Callable):
 
         solution[:, brownian_increments.shape[1]] = current_val  # solution has one more slot
         if set_path:
+            self._datetimes = self.brownian_motion.generate_datetimes(self.dt)
             self._path = solution
 
         return solution
diff --git a/fixedIncome/src/stochastics/brownian_motion.py b/fixedIncome/src/stochastics/brownian_motion.py
index efa3555..08a56ef 100644
--- a/fixedIncome/src/stochastics/brownian_motion.py
+++ b/fixedIncome/src/stochastics/brownian_motion.py
@@ -121,6 +121,17 @@ class BrownianMotion(Callable):
                                      datetime_grid=self.datetimes,
                                      path=self.path)
 
+    def generate_datetimes(self, dt: timedelta | relativedelta) -> list[datetime]:
+        """ Returns the datetimes at which a path with increment dt is sampled, which includes both end points. """
+        datetimes = Scheduler.generate_dates_by_increments(start_date=self.start_date_time,
+                                                           end_date=self.end_date_time,
+                                                           increment=dt,
+                                                           max_dates=1_000_000)
+        if datetimes[-1] < self.end_date_time:
+            datetimes.append(self.end_date_time)
+
+        return datetimes
+
     def generate_increments(
             self,
             dt: timedelta | relativedelta,
@@ -132,22 +143,15 @@ class BrownianMotion(Callable):
         and multiplying the resulting lower-triangular matrix to the uncorrelated brownian motion increments.
         See Brigo and Mercurio's *Interest Rate Models-Theory and Practice Second Ed.*, page 31.
         """
-        self._datetimes = Scheduler.generate_dates_by_increments(start_date=self.start_date_time,
-                                                           end_date=self.end_date_time,
-                                                           increment=dt,
-                                                           max_dates=1_000_000)
-        if self.datetimes[-1] < self.end_date_time:
-            self.datetimes.append(self.end_date_time)
-
-        self._dt_increments = np.array([DayCountCalculator.compute_accrual_length(start, end, self.day_count_convention)
-                         for start, end in itertools.pairwise(self.datetimes)])
+        dt_increments = np.array([DayCountCalculator.compute_accrual_length(start, end, self.day_count_convention)
+                         for start, end in itertools.pairwise(self.generate_datetimes(dt))])
 
 
-        num_steps = len(self.dt_increments)
+        num_steps = len(dt_increments)
         random_state = np.random.RandomState(seed)  # private generator: the global one belongs to the caller
-        brownian_increments = random_state.standard_normal((self.dimension, num_steps)) * np.sqrt(self.dt_increments)
+        brownian_increments = random_state.standard_normal((self.dimension, num_steps)) * np.sqrt(dt_increments)
         brownian_increments = self.lower_triangular_mat @ brownian_increments  # induce correlation
-        return brownian_increments, self.dt_increments
+        return brownian_increments, dt_increments
 
     def generate_path(self, dt: timedelta | relativedelta, set_path: bool = True, seed: Optional[int] = None) -> np.array:
         """
@@ -160,6 +164,8 @@ class BrownianMotion(Callable):
         brownian_paths[:, 1:] = brownian_increments.cumsum(axis=1)
 
         if set_path:
+            self._datetimes = self.generate_datetimes(dt)
+            self._dt_increments = dt_increments
             self._path = brownian_paths
 
         return brownian_paths
-- 
2.43.0


From f129164ebaef09e5b6945770b9cc5d4f1d3575f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 04/55] fix: step diffusion processes from list and integer
 starting values

A list was extended instead of added to, and an integer array could not be
added to in place.
---
 fixedIncome/src/stochastics/base_processes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 5148cb5..4db06a5 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -92,7 +92,7 @@ class DiffusionProcess(abc.Callable):
         """
         brownian_increments, dt_increments = self.brownian_motion.generate_increments(dt=self.dt, seed=seed)
         solution = np.empty((brownian_increments.shape[0], brownian_increments.shape[1] + 1))
-        current_val = copy.deepcopy(starting_value)
+        current_val = np.array(starting_value, dtype=float, ndmin=1)  # a copy
         time = 0
         for index, (shock, dt) in enumerate(zip(brownian_increments.T, dt_increments)):  # used to be dt_increments.T
             solution[:, index] = current_val
@@ -104,7 +104,7 @@ class DiffusionProcess(abc.Callable):
                 diffusion_shock = drift_diffusion_functions.diffusion(time, current_val) @ shock  # shock contains sqrt(dt) scaling
                 next_step[row_index] = drift_increment + diffusion_shock
 
-            current_val += next_step
+            current_val = current_val + next_step
             time += dt
 
         solution[:, brownian_increments.shape[1]] = current_val  # solution has one more slot
-- 
2.43.0


From a0a5d9026fafeef0cd0775f574dfc1b1a2270b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 05/55] fix: size a diffusion path by its state variables, not
 its shocks

With fewer or more driving shocks than state variables the path had the wrong
number of rows (rows repeated, or an error).
---
 fixedIncome/src/stochastics/base_processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 4db06a5..78da933 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -91,7 +91,7 @@ class DiffusionProcess(abc.Callable):
 
         """
         brownian_increments, dt_increments = self.brownian_motion.generate_increments(dt=self.dt, seed=seed)
-        solution = np.empty((brownian_increments.shape[0], brownian_increments.shape[1] + 1))
+        solution = np.empty((self.dimension, brownian_increments.shape[1] + 1))
         current_val = np.array(starting_value, dtype=float, ndmin=1)  # a copy
         time = 0
         for index, (shock, dt) in enumerate(zip(brownian_increments.T, dt_increments)):  # used to be dt_increments.T
-- 
2.43.0


From 938a2e800cef50d4c3eaacce1a0b9b27f7683f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 06/55] fix: accept the documented float starting value in
 geometric Brownian motion

---
 fixedIncome/src/stochastics/geometric_brownian_motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/geometric_brownian_motion.py b/fixedIncome/src/stochastics/geometric_brownian_motion.py
index 4465326..c8e961e 100644
--- a/fixedIncome/src/stochastics/geometric_brownian_motion.py
+++ b/fixedIncome/src/stochastics/geometric_brownian_motion.py
@@ -86,7 +86,7 @@ class GeometricBrownianMotion:
 
         brownian_increments, dt_increments = self.brownian_motion.generate_increments(dt=self.dt, seed=seed)
         solution = np.empty((self.dimension,  brownian_increments.shape[1]+1))
-        current_val = starting_value.flatten()
+        current_val = np.array(starting_value, dtype=float).flatten()
         time = 0
         for index, (shock, dt) in enumerate(zip(brownian_increments.T, dt_increments)):
             solution[:, index] = current_val
-- 
2.43.0


From 2ec78883b5dd3a8e60951176e9e47330a52a6b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 07/55] fix: replace a short-rate path and everything derived
 from it together

A regenerated path kept the old path's integral and discount curve, an unstored
generation overwrote the stored short rate (or failed for want of a stored
path), a generation failing part-way left rate and state variables of different
paths, and the path was not returned.
---
 fixedIncome/src/stochastics/base_processes.py |  8 ++++++--
 .../base_short_rate_model.py                  | 19 ++++++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 78da933..0da2c23 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -109,11 +109,15 @@ class DiffusionProcess(abc.Callable):
 
         solution[:, brownian_increments.shape[1]] = current_val  # solution has one more slot
         if set_path:
-            self._datetimes = self.brownian_motion.generate_datetimes(self.dt)
-            self._path = solution
+            self.set_path(solution)
 
         return solution
 
+    def set_path(self, path: np.ndarray) -> None:
+        """ Stores a path sampled with the current increment dt, together with its time grid. """
+        self._datetimes = self.brownian_motion.generate_datetimes(self.dt)
+        self._path = path
+
     def _reset_paths_and_curves(self) -> None:
         """
         Helper function to set all the paths to None.
diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 2935b1f..53a5b70 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -62,16 +62,21 @@ class ShortRateModel(DiffusionProcess):
         A function which generates the short rate sample path from the underlying
         state variable diffusion sample paths.
         """
-        #self._reset_paths_and_curves()
-        self.state_variables_diffusion_process.generate_path(starting_value=starting_state_space_values,
-                                                             set_path=set_path,
-                                                             seed=seed)
+        state_variables = self.state_variables_diffusion_process.generate_path(starting_value=starting_state_space_values,
+                                                                               set_path=False,
+                                                                               seed=seed)
 
-        path_length = self.state_variables_diffusion_process.path.shape[1]
-        self._path = np.zeros(shape=(path_length,))
+        path_length = state_variables.shape[1]
+        path = np.zeros(shape=(path_length,))
         for index in range(path_length):
-            self._path[index] = self.short_rate_transformation(self.state_variables_diffusion_process.path[:, index])
+            path[index] = self.short_rate_transformation(state_variables[:, index])
 
+        if set_path:
+            self._reset_paths_and_curves()  # anything derived from the previous path is no longer valid
+            self.state_variables_diffusion_process.set_path(state_variables)
+            self._path = path
+
+        return path
 
     def _reset_paths_and_curves(self) -> None:
         """
-- 
2.43.0


From 05b86847e44f9013cfeb07b1d16872cbe5b59aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 08/55] fix: pass a short-rate model's new time step on to its
 state variables

The state variables kept the old step and the old path after set_dt.
---
 .../stochastics/short_rate_models/base_short_rate_model.py   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 53a5b70..b5a71fe 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -78,6 +78,11 @@ class ShortRateModel(DiffusionProcess):
 
         return path
 
+    def set_dt(self, new_dt: timedelta | relativedelta) -> None:
+        """ Sets a new increment dt, which is also the increment of the underlying state variables. """
+        super().set_dt(new_dt)
+        self.state_variables_diffusion_process.set_dt(new_dt)
+
     def _reset_paths_and_curves(self) -> None:
         """
         Helper function to set all the paths to None.
-- 
2.43.0


From d2924099534d65fe33730d6b33517e77b9198c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 09/55] fix: integrate the short rate over each interval, not
 from the start date

Every trapezoid used the time since the start, so a constant rate did not
integrate to rate times time.
---
 .../stochastics/short_rate_models/base_short_rate_model.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index b5a71fe..e0c9bb8 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -109,7 +109,7 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
         running_integral = 0.0
-        old_time_accrual = 0
+        old_time_accrual = DayCountCalculator.compute_accrual_length(start_date_time, datetimes[0], self.day_count_convention)
         interpolation_values = [0.0]
 
         for start_dt, end_dt in itertools.pairwise(datetimes):
@@ -117,7 +117,7 @@ class ShortRateModel(DiffusionProcess):
             min_rate, max_rate = min(start_rate, end_rate), max(start_rate, end_rate)
             new_time_accrual = DayCountCalculator.compute_accrual_length(start_date_time, end_dt, self.day_count_convention)
             accrual = new_time_accrual - old_time_accrual
-
+            old_time_accrual = new_time_accrual
 
             if min_rate < 0:
                 next_trapezoid_val = max_rate * accrual + (min_rate - max_rate) * accrual / 2
-- 
2.43.0


From c92793de1dc62cc83efd8222129894bd3a9e95a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 10/55] fix: build accrual and discount curves from the
 requested times

Both reused an integral computed on another time list; the accrual curve also
passed too many arguments and repeated its first knot.
---
 .../short_rate_models/base_short_rate_model.py        | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index e0c9bb8..77b4261 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -147,12 +147,10 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
 
-        if self._integrated_path is None:
-            self.generate_integrated_path(start_date_time, end_date_time, datetimes)
+        self.generate_integrated_path(datetimes)
 
-        compound_interpolation_values = [KnotValuePair(start_date_time, 1.0)]
-        compound_interpolation_values += [KnotValuePair(datetime_obj, math.exp(integral))
-                                          for datetime_obj, integral in zip(datetimes, self._integrated_path)]
+        compound_interpolation_values = [KnotValuePair(datetime_obj, math.exp(integral))
+                                         for datetime_obj, integral in zip(datetimes, self._integrated_path)]
 
         self._continuously_compounded_accrual_curve = Curve(interpolation_values=compound_interpolation_values,
                                                             interpolation_method=InterpolationMethod.LINEAR,
@@ -178,8 +176,7 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
 
-        if self._integrated_path is None:
-            self.generate_integrated_path(datetimes)
+        self.generate_integrated_path(datetimes)
 
         discount_interpolation_values = np.exp(-self._integrated_path)
         discount_knot_values = [KnotValuePair(datetime_obj, df)
-- 
2.43.0


From 709c60b28916403cc2575e41743066edde2f2ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 11/55] fix: price Vasicek zero-coupon bonds from the purchase
 date

The rate was taken at the purchase date but the coefficients at the start date,
so a bond maturing at its purchase date was not worth one.
---
 .../affine_yield_curve_models/vasicek_model.py        | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 464a492..c871d1f 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -205,12 +205,15 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
 
         return {'intercept': intercept_deriv, 'coefficient': -exp_factor}
 
-    def _create_bond_yield_coeffs(self, maturity_date) -> None:
+    def _create_bond_yield_coeffs(self, maturity_date: date, purchase_date: Optional[date | datetime] = None) -> None:
         """
         Overrides the class method for setting the coefficients for calculating a zero-coupon bond yield.
         Reference:  Pages 165-171 of Rebonato *Bond Pricing and Yield Curve Modeling*.
         """
-        accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
+        if purchase_date is None:
+            purchase_date = self.start_date_time
+
+        accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
         coefficient = -(1 - math.exp(-self.reversion_speed * accrual)) / self.reversion_speed
@@ -229,7 +232,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_price_coeffs(maturity_date)
+        self._create_bond_price_coeffs(maturity_date, purchase_date)
         return math.exp(self.price_state_variable_coeffs['intercept']
                         + self.price_state_variable_coeffs['coefficient'] * self(purchase_date))
 
@@ -243,7 +246,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_yield_coeffs(maturity_date)
+        self._create_bond_yield_coeffs(maturity_date, purchase_date)
         yield_value = self.yield_state_variable_coeffs['intercept'] \
                       + self.yield_state_variable_coeffs['coefficient'] * self(purchase_date)
 
-- 
2.43.0


From 7cc88dc45386ff7be7337467931d9d63c78600e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 12/55] fix: adjust right extrapolation at the requested date

The adjustment function was called with the date class.
---
 fixedIncome/src/curves/base_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/curves/base_curve.py b/fixedIncome/src/curves/base_curve.py
index 5f8d85f..595ab68 100644
--- a/fixedIncome/src/curves/base_curve.py
+++ b/fixedIncome/src/curves/base_curve.py
@@ -114,7 +114,7 @@ class Curve(Callable):
 
             match self.right_end_behavior:
                 case EndBehavior.CONSTANT:
-                    return last_val + adjustment(date)
+                    return last_val + adjustment(date_obj)
 
                 case EndBehavior.ERROR:
                     raise ValueError(f'Error in interpolate right end behavior. '
-- 
2.43.0


From 4cf306ed360a480a31f9823cfb514358d62a9f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 13/55] fix: reset a curve's knots and interpolator together or
 not at all

A reset that failed left new knots with the old interpolator, and a single-knot
reset to a date beyond its neighbours left the knots out of order.
---
 fixedIncome/src/curves/base_curve.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/curves/base_curve.py b/fixedIncome/src/curves/base_curve.py
index 595ab68..c0fd232 100644
--- a/fixedIncome/src/curves/base_curve.py
+++ b/fixedIncome/src/curves/base_curve.py
@@ -130,14 +130,24 @@ class Curve(Callable):
         """
         Resets the interpolator based on new KnotValuePairs.
         """
-        self._interpolation_values = sorted(list(new_values), key=lambda interp_val: interp_val.knot)
-        self._create_interpolation_object()
+        self._set_interpolation_values(sorted(list(new_values), key=lambda interp_val: interp_val.knot))
+
+    def _set_interpolation_values(self, interpolation_values: list[KnotValuePair]) -> None:
+        """ Sets the sorted knots and their interpolator together, or neither if the interpolator cannot be built. """
+        previous_values = self._interpolation_values
+        self._interpolation_values = interpolation_values
+        try:
+            self._create_interpolation_object()
+        except BaseException:
+            self._interpolation_values = previous_values
+            raise
 
     def reset_interpolation_value(self, new_value: KnotValuePair, index: int) -> None:
         """ Resets the interpolation based on a new KnotValuePair located at the provided index. """
         #TODO: Create checks for knot_dates
-        self._interpolation_values[index] = new_value
-        self._create_interpolation_object()
+        interpolation_values = list(self._interpolation_values)
+        interpolation_values[index] = new_value
+        self._set_interpolation_values(sorted(interpolation_values, key=lambda interp_val: interp_val.knot))
 
 
 
-- 
2.43.0


From f3277c2ef2ca9b4d36a6585f864420c2866ce86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 14/55] fix: give every conversion of a yield curve its own
 discount curve

One discount curve was shared and rewritten in place by every conversion, so a
curve handed out earlier silently changed with the next (bumped) valuation.
---
 .../src/curves/yield_curves/yield_curve.py    | 41 +++++++------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 64b850e..4451076 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -56,7 +56,6 @@ class YieldCurve(Curve):
         self.instruments = instruments
         self.quote_adjustments = quote_adjustments
         self.interpolation_space = interpolation_space
-        self.discount_curve: Optional[DiscountCurve] = None
 
 
     # present value calculators
@@ -82,19 +81,13 @@ class YieldCurve(Curve):
                 interpolation_values = [KnotValuePair(knot=kv_pair.knot, value=self(kv_pair.knot, adjustment_fxcn))
                                         for kv_pair in self.interpolation_values]
 
-                if self.discount_curve is None:
-
-                    self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
-                                                        interpolation_method=self.interpolation_method,
-                                                        index=CurveIndex.US_TREASURY,
-                                                        interpolation_day_count_convention=self.interpolation_day_count_convention,
-                                                        reference_date=self.reference_date,
-                                                        left_end_behavior=EndBehavior.ERROR,
-                                                        right_end_behavior=EndBehavior.ERROR)
-                else:
-                    self.discount_curve.reset_interpolation_values(interpolation_values)
-
-                return self.discount_curve
+                return DiscountCurve(interpolation_values=interpolation_values,
+                                     interpolation_method=self.interpolation_method,
+                                     index=CurveIndex.US_TREASURY,
+                                     interpolation_day_count_convention=self.interpolation_day_count_convention,
+                                     reference_date=self.reference_date,
+                                     left_end_behavior=EndBehavior.ERROR,
+                                     right_end_behavior=EndBehavior.ERROR)
 
             case InterpolationSpace.CONTINUOUSLY_COMPOUNDED_YIELD:
                 max_date = self.interpolation_values[-1].knot
@@ -109,19 +102,13 @@ class YieldCurve(Curve):
                 interpolation_values = [KnotValuePair(knot=date_obj, value=df)
                                         for date_obj, df in zip(date_range, discount_factors)]
 
-                if self.discount_curve is None:
-                    self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
-                                                        interpolation_method=InterpolationMethod.LINEAR,  # because we fill the date range
-                                                        index=CurveIndex.US_TREASURY,
-                                                        interpolation_day_count_convention=self.interpolation_day_count_convention,
-                                                        reference_date=self.reference_date,
-                                                        left_end_behavior=EndBehavior.ERROR,
-                                                        right_end_behavior=EndBehavior.ERROR)
-
-                else:
-                    self.discount_curve.reset_interpolation_values(interpolation_values)
-
-                return self.discount_curve
+                return DiscountCurve(interpolation_values=interpolation_values,
+                                     interpolation_method=InterpolationMethod.LINEAR,  # because we fill the date range
+                                     index=CurveIndex.US_TREASURY,
+                                     interpolation_day_count_convention=self.interpolation_day_count_convention,
+                                     reference_date=self.reference_date,
+                                     left_end_behavior=EndBehavior.ERROR,
+                                     right_end_behavior=EndBehavior.ERROR)
 
             case _:
                 return NotImplemented('Only DISCOUNT_FACTOR and CONTINUOUSLY_COMPOUNDED_YIELD '
-- 
2.43.0


From 0d2b3c844b1986900c6e2c45da8eea061ee67de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 15/55] fix: compute key-rate derivatives without changing the
 key rate

The key rate was left with a half basis point bump (negative if the valuation
failed), so later uses of it and of its collection gave other results.
---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 4451076..072f377 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -5,6 +5,7 @@ the YieldCurve object and the YieldCurveFactory object.
 from __future__ import annotations
 
 import bisect
+import copy
 import numpy as np  # type: ignore
 import matplotlib.pyplot as plt  # type: ignore
 import pandas as pd  # type: ignore
@@ -120,15 +121,13 @@ class YieldCurve(Curve):
         which is defined to be:
             (PV(plus key rate adjustment) - PV) / ONE BASIS POINT
         """
-        key_rate.create_adjustment_function()  # creates the default adjustment function with 1 bp movement
+        key_rate = copy.copy(key_rate)  # bump a copy, the key rate provided stays as it is
         key_rate.set_bump_val(-ONE_BASIS_POINT/2)
         pv_with_negative_adjustment = self.present_value(assets, key_rate)
 
-        key_rate.create_adjustment_function()
         key_rate.set_bump_val(ONE_BASIS_POINT / 2)
         pv_with_positive_adjustment = self.present_value(assets, key_rate)
 
-        key_rate.create_adjustment_function()  # reset key rate bump value
         key_rate_deriv = (pv_with_positive_adjustment - pv_with_negative_adjustment) / ONE_BASIS_POINT
         return key_rate_deriv
 
-- 
2.43.0


From 4973557209620dd7b064b618cf38ea2f11eaebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 16/55] fix: bump a lone key rate at every date

The case was shadowed by the one for the first key rate, which compared dates
with None.
---
 fixedIncome/src/risk/key_rate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 455d19c..4772992 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -175,6 +175,10 @@ class KeyRate(Callable):
 
         match (self.prior_date, self.key_rate_date, self.next_date):
 
+            case (None, _, None):  # only key rate
+                def adjustment_fxcn(input_date: date) -> float:
+                    return self.bump_val
+
             case (None, middle, following):  # first key rate
 
                 def adjustment_fxcn(input_date: date) -> float:
@@ -245,10 +249,6 @@ class KeyRate(Callable):
 
                         return (time_to_next / total_time) * self.bump_val
 
-            case (None, middle, None):  # only key rate
-                def adjustment_fxcn(input_date: date) -> float:
-                    return self.bump_val
-
             case _:
                 raise ValueError(f'Case ({self.prior_date}, {self.key_rate_date}, {self.next_date})'
                                  f' not matched in call to self.create_bump_function method.')
-- 
2.43.0


From 1ca559a0e815469bf323290f8bcb475fe326d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 17/55] fix: give sliced and added key-rate collections their
 own key rates

The derived collection re-aligned the shared key rates to its own neighbours,
so the collection it came from no longer summed to a parallel shift.
---
 fixedIncome/src/risk/key_rate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 4772992..58391f4 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from collections.abc import MutableSequence
 import operator
 import bisect
+import copy
 from datetime import date
 from typing import Optional, Callable, Union, Iterable
 from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountConvention, DayCountCalculator
@@ -288,7 +289,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         """  Retrieves a KeyRateCollection or KeyRate object from the collection via indexing. """
         if isinstance(key, slice):
             cls = type(self)
-            return cls(self.key_rates[key])
+            return cls(copy.copy(key_rate) for key_rate in self.key_rates[key])
 
         index = operator.index(key)
         return self.key_rates[index]
@@ -392,7 +393,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         if isinstance(other, KeyRateCollection):
             other_kr_dates = set(key_rate for key_rate in other)
             all_kr_dates = list(set(kr_date for kr_date in self) | other_kr_dates)
-            return KeyRateCollection(all_kr_dates)
+            return KeyRateCollection(copy.copy(key_rate) for key_rate in all_kr_dates)
         else:
             return NotImplemented
 
-- 
2.43.0


From 3cdd2abb1d8195c2720abc765fe4c017a7b2c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 18/55] fix: assign the first, last or only key rate of a
 collection

The case for the middle key rates came first and compared dates with None.
---
 fixedIncome/src/risk/key_rate.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 58391f4..25b5293 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -303,12 +303,11 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         match self[key].prior_date, self[key].next_date:  # assumed to align with the
                                                                    # previous and next key_rate dates
 
-            case prior_date, next_date:  # one of the middle key rate indices
-                if prior_date < new_key_rate.key_rate_date < next_date:
+            case None, None:  # only key rate in collection
+                try:
                     self.key_rates[key] = new_key_rate
-                else:
-                    raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not strictly within '
-                                     f'interval {prior_date} and {next_date}.')
+                except IndexError:
+                    raise IndexError(f'Failed to set new_key_rate at index {key}.')
 
             case None, next_date:  # first key rate index
                 if new_key_rate.key_rate_date < next_date:
@@ -327,11 +326,12 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
                                      f'strictly greater than {prior_date} when new KeyRate object would be '
                                      f'last in the collection.')
 
-            case None, None:  # only key rate in collection
-                try:
+            case prior_date, next_date:  # one of the middle key rate indices
+                if prior_date < new_key_rate.key_rate_date < next_date:
                     self.key_rates[key] = new_key_rate
-                except IndexError:
-                    raise IndexError(f'Failed to set new_key_rate at index {key}.')
+                else:
+                    raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not strictly within '
+                                     f'interval {prior_date} and {next_date}.')
 
             case _:
                 raise ValueError(f'New key rate object {new_key_rate} could not be set at index {key}.')
-- 
2.43.0


From 300662a0967cdfec1f3555d6bdc9cb51e5aa5365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 19/55] fix: keep key-rate collections sorted and unchanged by
 rejected edits

+= left the key rates in hash order, which misaligned or rejected them depending
on the hash seed, and deleting the only key rate or adding a second one at the
same date raised only after changing the collection.
---
 fixedIncome/src/risk/key_rate.py | 33 +++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 25b5293..f49a408 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from collections.abc import MutableSequence
 import operator
 import bisect
+import itertools
 import copy
 from datetime import date
 from typing import Optional, Callable, Union, Iterable
@@ -269,9 +270,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
     def __init__(self, key_rates: Iterable[KeyRate]) -> None:
         """ Instantiates a KeyRateCollection object. """
         self.iter_index = 0
-        self.key_rates = sorted(list(key_rates))  # Sorts based on key_rate_date for each KeyRate object
-        self._set_dates_in_collection()
-        self._create_combined_adjustment_function()
+        self._set_key_rates(key_rates)
 
     @property
     def adjustment_fxcn(self):
@@ -343,8 +342,9 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         Removes a KeyRate object from the collection by index and re-constructs the adjustment
         function with the remaining KeyRate objects in collection.
         """
-        del self.key_rates[key]
-        self._create_combined_adjustment_function()
+        key_rates = list(self.key_rates)
+        del key_rates[key]
+        self._set_key_rates(key_rates)
 
     def insert(self, new_key_rate_object: KeyRate) -> None:  # required for subclassing MutableSequence ABC
         """ Inerts a Key Rate into the collection. """
@@ -404,10 +404,12 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         by key_rate date. Returns a reference to self.
         """
         try:
+            if isinstance(other, KeyRateCollection):  # the other collection keeps its own key rates
+                other = [copy.copy(key_rate) for key_rate in other]
+
             other_kr_dates = set(key_rate for key_rate in other)
             all_kr_dates = list(set(kr_date for kr_date in self) | other_kr_dates)
-            self.key_rates = all_kr_dates
-            self._create_combined_adjustment_function()
+            self._set_key_rates(all_kr_dates)
             return self
 
         except TypeError:
@@ -457,6 +459,23 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
     #------------------------------------------------------------------------
     # Combined Adjustment
 
+    def _set_key_rates(self, key_rates: Iterable[KeyRate]) -> None:
+        """
+        Makes the provided key rates, sorted by key rate date, the key rates of the collection.
+        Raises ValueError and leaves the collection as it is if there are none or if two have the same date.
+        """
+        key_rates = sorted(key_rates)
+
+        if not key_rates:
+            raise ValueError('A KeyRateCollection cannot be empty.')
+
+        if any(key_rate.key_rate_date == next_key_rate.key_rate_date
+               for key_rate, next_key_rate in itertools.pairwise(key_rates)):
+            raise ValueError('A KeyRateCollection cannot contain two key rates with the same date.')
+
+        self.key_rates = key_rates
+        self._create_combined_adjustment_function()
+
     def _set_dates_in_collection(self) -> None:
         """
         A helper function to set the prior and next dates for each KeyRate object in the collection so that:
-- 
2.43.0


From 8f9cf4294b4ecc36754e9366bd20a4101c2d8157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 20/55] fix: insert and append key rates

insert did not take the index MutableSequence passes and discarded its result.
---
 fixedIncome/src/risk/key_rate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index f49a408..cd1284a 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -346,10 +346,10 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         del key_rates[key]
         self._set_key_rates(key_rates)
 
-    def insert(self, new_key_rate_object: KeyRate) -> None:  # required for subclassing MutableSequence ABC
-        """ Inerts a Key Rate into the collection. """
+    def insert(self, index: int, new_key_rate_object: KeyRate) -> None:  # required for subclassing MutableSequence ABC
+        """ Inserts a Key Rate into the collection at the place given by its date, whatever the index. """
 
-        self + new_key_rate_object
+        self += new_key_rate_object
 
     def __len__(self):
         """ Returns the number of KeyRate objects in the collection. """
-- 
2.43.0


From fa646a4c2addafdab45c7d8b15393623c3528396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 21/55] fix: replace a cashflow in the collection's list too

cashflow_list kept the old cashflow, and stayed [None, None] for swaps.
---
 fixedIncome/src/assets/base_cashflow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/assets/base_cashflow.py b/fixedIncome/src/assets/base_cashflow.py
index bf4f632..3f0e478 100644
--- a/fixedIncome/src/assets/base_cashflow.py
+++ b/fixedIncome/src/assets/base_cashflow.py
@@ -138,6 +138,7 @@ class CashflowCollection(Set):
         Method to put a new cashflow into the Cashflow collection based on key.
         """
         if cashflow_key in self.cashflows:
+            self.cashflow_list[self.keys.index(cashflow_key)] = new_cashflow
             self.cashflows[cashflow_key] = new_cashflow
         else:
             self.cashflow_list.append(new_cashflow)
-- 
2.43.0


From fb71eda9741e1e5f491534460b6db289d0922567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 22/55] fix: return an iterator from
 CashflowCollection.__iter__

A dict view is not an iterator, so every loop over a collection failed.
---
 fixedIncome/src/assets/base_cashflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/base_cashflow.py b/fixedIncome/src/assets/base_cashflow.py
index 3f0e478..ad6461f 100644
--- a/fixedIncome/src/assets/base_cashflow.py
+++ b/fixedIncome/src/assets/base_cashflow.py
@@ -121,7 +121,7 @@ class CashflowCollection(Set):
         return key in self.cashflows
     def __iter__(self):
         """ Iterates through the cashflows in the collection. """
-        return self.cashflows.items()
+        return iter(self.cashflows.items())
 
     def __getitem__(self, item: CashflowKeys | str) -> Cashflow:
         """
-- 
2.43.0


From fb5e69b58ab47cd53b624301d97ffd927e7fdd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 23/55] fix: calibrate yield curves from any iterable of
 instruments

A generator was used up by the first of several loops.
---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 072f377..1178411 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -258,6 +258,7 @@ class YieldCurveFactory(object):
                               interpolation_method: InterpolationMethod,
                               reference_date: date) -> YieldCurve:
 
+        instruments = list(instruments)
         knot_dates = [bond_obj.maturity_date for bond_obj in instruments]
         values = [0.0 for date_obj in knot_dates]
         market_prices = np.array([bond_obj.price for bond_obj in instruments])
-- 
2.43.0


From b740f873d836b032af4a2b8a0d6b0ce5bc59c551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 24/55] fix: set each bootstrapped knot to its solution

The knots were left at the last trial value of the solver, and instruments were
matched by position to the knots, which are in date order.
---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 1178411..9ab71ae 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -300,7 +300,7 @@ class YieldCurveFactory(object):
         """
         Constructs a yield curve by bootstrapping the PV values to match their market prices.
         """
-        instruments = list(instruments)
+        instruments = sorted(instruments, key=lambda instrument: instrument.to_knot_value_pair().knot)
 
         market_prices = [bond_obj.price for bond_obj in instruments]
 
@@ -337,8 +337,7 @@ class YieldCurveFactory(object):
             solution_knot = KnotValuePair(knot=instrument.to_knot_value_pair().knot,
                                           value=float(convergence_solution['x']))
 
-            if index == 4:  # TODO: What is this??
-                yield_curve_obj.present_value(instrument)
+            yield_curve_obj.reset_interpolation_value(new_value=solution_knot, index=index)
 
         return yield_curve_obj
 
-- 
2.43.0


From 33f93d3734f2b9859f21082cb4532c574c9e546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 25/55] fix: raise when a yield curve cannot be calibrated

A curve that does not reprice its instruments was returned when the solver gave up.
---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 9ab71ae..5eb8bb6 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -27,6 +27,9 @@ from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments impo
 from fixedIncome.src.risk.risk_metrics import ONE_BASIS_POINT, Risk, RiskLadder
 
 
+CALIBRATION_TOLERANCE = 1e-6  # largest difference between present value and market price of a calibrated instrument
+
+
 class YieldCurve(Curve):
     def __init__(self,
                  instruments: Iterable[UsTreasuryInstrument],
@@ -291,6 +294,9 @@ class YieldCurveFactory(object):
                        for (instrument, val) in zip(instruments, calibrated_values)]
         yield_curve_obj.reset_interpolation_values(knot_values)
 
+        if not np.all(np.abs(value_to_pv_diffs(calibrated_values)) < CALIBRATION_TOLERANCE):
+            raise ValueError(f'The yield curve could not be calibrated. {convergence_solution.message}')
+
         return yield_curve_obj
 
     def bootstrap_yield_curve(self, instruments: Iterable[UsTreasuryInstrument],
@@ -339,5 +345,8 @@ class YieldCurveFactory(object):
 
             yield_curve_obj.reset_interpolation_value(new_value=solution_knot, index=index)
 
+            if not abs(frzn_pv_diff(solution_knot.value)) < CALIBRATION_TOLERANCE:
+                raise ValueError(f'The yield curve could not be calibrated to {instrument}. {convergence_solution.message}')
+
         return yield_curve_obj
 
-- 
2.43.0


From d7d2b1bf974e2f614ef50bd6abb39cd149ac7054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 26/55] fix: recognise holidays observed in a neighbouring year

New Year's Day on a Saturday is observed on December 31st, which was a business
day.
---
 fixedIncome/src/scheduling_tools/scheduler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/scheduler.py b/fixedIncome/src/scheduling_tools/scheduler.py
index a97794a..dcb026f 100644
--- a/fixedIncome/src/scheduling_tools/scheduler.py
+++ b/fixedIncome/src/scheduling_tools/scheduler.py
@@ -4,7 +4,7 @@ An object for
 Unit tests are contained in fixedIncome.tests.test_scheduling_tools.test_scheduler.py
 """
 
-from datetime import date, datetime, timedelta
+from datetime import date, datetime, timedelta, MINYEAR, MAXYEAR
 from dateutil.relativedelta import relativedelta
 import pandas as pd  # type: ignore
 from fixedIncome.src.scheduling_tools.schedule_enumerations import Weekdays
@@ -100,8 +100,8 @@ class Scheduler(object):
         """
         is_weekday = date_obj.weekday() != Weekdays.SATURDAY.value and date_obj.weekday() != Weekdays.SUNDAY.value
         year = date_obj.year
-        not_holiday = date_obj not in generate_all_holidays(from_year=year,
-                                                            to_year=year,
+        not_holiday = date_obj not in generate_all_holidays(from_year=max(year - 1, MINYEAR),  # may be observed
+                                                            to_year=min(year + 1, MAXYEAR),    # in another year
                                                             holiday_calendar=holiday_calendar)
 
         return not_holiday and is_weekday
-- 
2.43.0


From 688555976fb83a38e58cb2305d29806a59f116e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 27/55] fix: count extra payments in a loan's payments

The payment left out the extra payment its principal part includes, and an
integer extra payment was rejected.
---
 fixedIncome/src/assets/credit/loan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index 6134b65..446db81 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -110,7 +110,7 @@ class Loan(CashflowCollection):
 
         # unpack extra payments
         if extra_payments is not None:
-            if isinstance(extra_payments, float):
+            if isinstance(extra_payments, (int, float)):
                 extra_payments = [extra_payments for payment in payment_dates]
             else:
                 extra_payments = list(extra_payments)
@@ -137,7 +137,7 @@ class Loan(CashflowCollection):
                 payment_amount = principal_payment_amount + interest_payment
 
             payments.append(
-                LoanPayment(payment_date=ed, payment=payment_amount,
+                LoanPayment(payment_date=ed, payment=principal_payment_amount + interest_payment,
                             principal_payment=principal_payment_amount,
                             interest_payment=interest_payment
                             )
-- 
2.43.0


From 6cd4203503fdf51393cb70b2f358b4fc433be55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 28/55] fix: start a month-end loan at the end of its own month

November's last day was used for every month, so loans originated in February
failed.
---
 fixedIncome/src/assets/credit/loan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index 446db81..28c53bc 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -78,7 +78,7 @@ class Loan(CashflowCollection):
         match self._payment_time:
 
             case PaymentTime.END_OF_MONTH:
-                _, last_day = calendar.monthrange(start_date.year, 11)
+                _, last_day = calendar.monthrange(start_date.year, start_date.month)
                 start_date = date(start_date.year, start_date.month, last_day)
 
             case PaymentTime.START_OF_MONTH:
-- 
2.43.0


From b5ac9678ea2bc6e526a4611a22a93f8c26944d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 29/55] fix: compute bond convexity from the present value's
 derivative

---
 fixedIncome/src/assets/credit/corporate_bond.py               | 4 ++--
 .../assets/us_treasury_instruments/us_treasury_instruments.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 9f4fdb3..85d156f 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -431,8 +431,8 @@ class FixedRateBond(CashflowCollection):
         Reference: Tuckman and Serrat, 4th ed. equation (4.14).
         """
         ytm = self.yield_to_maturity()
-        derivative_positive_bump = self.calculate_pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
-        derivative_negative_bump = self.calculate_pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
         return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index dc97ab1..0c4db55 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -378,8 +378,8 @@ class UsTreasuryBond(CashflowCollection):
         Reference: Tuckman and Serrat, 4th ed. equation (4.14).
         """
         ytm = self.yield_to_maturity()
-        derivative_positive_bump = self.calculate_pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
-        derivative_negative_bump = self.calculate_pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
         return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
 
-- 
2.43.0


From b8fb305af1be220808deb77be594b5286592d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 30/55] fix: express the state variables' covariance in their
 own basis

---
 .../affine_yield_curve_models/vasicek_model.py              | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index c871d1f..31b5483 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -538,9 +538,9 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         broadcast_mat = np.ones((self.dimension, self.dimension)) * self.reversion_matrix_eigenvalues
         sum_eigenvalues = broadcast_mat + broadcast_mat.T
         one_minus_exp_eigen_sum = 1 - np.exp(-sum_eigenvalues * accrual)
-        H_mat = self.reversion_matrix_eigenvectors_inv @ self.C_mat @ self.reversion_matrix_eigenvectors
-        covar = one_minus_exp_eigen_sum * H_mat / sum_eigenvalues
-        return covar
+        H_mat = self.reversion_matrix_eigenvectors_inv @ self.C_mat @ self.reversion_matrix_eigenvectors_inv.T
+        covar = one_minus_exp_eigen_sum * H_mat / sum_eigenvalues  # covariance in the basis of eigenvectors
+        return self.reversion_matrix_eigenvectors @ covar @ self.reversion_matrix_eigenvectors.T
 
 
     def short_rate_variance(self,
-- 
2.43.0


From d2d33158db85fde93df1284e4379eb4f5d79dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 31/55] fix: transpose the reversion exponential in
 forward-rate coefficients

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 31b5483..951f2fe 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -921,7 +921,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
                         np.diag(exp_negative_eigen_times_accrual) @ \
                         self.reversion_matrix_eigenvectors_inv
 
-        return -exp_reversion @ self.short_rate_coefficients
+        return -exp_reversion.T @ self.short_rate_coefficients
 
     def _calculate_intercept_deriv_wrt_maturity(self, accrual: float) -> np.array:
         """
-- 
2.43.0


From ccf04d2d104ab807bd92456d2a85707eb70af5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 32/55] fix: pass affine coefficients between a query's steps,
 not through the model

---
 .../vasicek_model.py                          | 81 ++++++++++---------
 1 file changed, 43 insertions(+), 38 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 951f2fe..98fde7f 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -168,7 +168,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
 
     # Affine model functions
 
-    def _create_bond_price_coeffs(self, maturity_date: date, purchase_date: Optional[date | datetime] = None) -> None:
+    def _create_bond_price_coeffs(self, maturity_date: date, purchase_date: Optional[date | datetime] = None) -> dict:
         """
         Overrides the class method for setting the coefficients for calculating a zero-coupon bond price.
         """
@@ -182,7 +182,9 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         term1 = (self.long_term_mean + self.convexity_limit) * (coefficient + accrual)
         term2 = self.volatility**2 / (4 * self.reversion_speed) * coefficient**2
         intercept = -term1 - term2
-        self.price_state_variable_coeffs = {'intercept': intercept, 'coefficient': coefficient}
+        coeffs = {'intercept': intercept, 'coefficient': coefficient}
+        self.price_state_variable_coeffs = coeffs
+        return coeffs
 
     def _calculate_bond_price_coeff_derivatives_wrt_maturity(
             self, maturity_date: date | datetime, purchase_date: Optional[date | datetime] = None
@@ -205,7 +207,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
 
         return {'intercept': intercept_deriv, 'coefficient': -exp_factor}
 
-    def _create_bond_yield_coeffs(self, maturity_date: date, purchase_date: Optional[date | datetime] = None) -> None:
+    def _create_bond_yield_coeffs(self, maturity_date: date, purchase_date: Optional[date | datetime] = None) -> dict:
         """
         Overrides the class method for setting the coefficients for calculating a zero-coupon bond yield.
         Reference:  Pages 165-171 of Rebonato *Bond Pricing and Yield Curve Modeling*.
@@ -220,7 +222,9 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         term1 = (self.long_term_mean + self.convexity_limit) * (coefficient + accrual)
         term2 = self.volatility ** 2 / (4 * self.reversion_speed) * coefficient**2
         intercept = (term1+term2)/accrual
-        self.yield_state_variable_coeffs = {'intercept': intercept, 'coefficient': -coefficient/accrual}
+        coeffs = {'intercept': intercept, 'coefficient': -coefficient/accrual}
+        self.yield_state_variable_coeffs = coeffs
+        return coeffs
 
 
     def zero_coupon_bond_price(self, maturity_date: date | datetime, purchase_date: Optional[date | datetime] = None) -> float:
@@ -232,9 +236,8 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_price_coeffs(maturity_date, purchase_date)
-        return math.exp(self.price_state_variable_coeffs['intercept']
-                        + self.price_state_variable_coeffs['coefficient'] * self(purchase_date))
+        coeffs = self._create_bond_price_coeffs(maturity_date, purchase_date)
+        return math.exp(coeffs['intercept'] + coeffs['coefficient'] * self(purchase_date))
 
     def zero_coupon_yield(self,
                           maturity_date: date | datetime,
@@ -246,9 +249,8 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_yield_coeffs(maturity_date, purchase_date)
-        yield_value = self.yield_state_variable_coeffs['intercept'] \
-                      + self.yield_state_variable_coeffs['coefficient'] * self(purchase_date)
+        coeffs = self._create_bond_yield_coeffs(maturity_date, purchase_date)
+        yield_value = coeffs['intercept'] + coeffs['coefficient'] * self(purchase_date)
 
         return yield_value
 
@@ -261,9 +263,9 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
                                                             maturity_date,
                                                             self.day_count_convention)
-        self._create_bond_price_coeffs(maturity_date)
-        term1 = (-self.price_state_variable_coeffs['coefficient'] - accrual) / (2 * self.reversion_speed**2)
-        term2 = self.price_state_variable_coeffs['coefficient']**2 / (4 * self.reversion_speed)
+        coeffs = self._create_bond_price_coeffs(maturity_date)
+        term1 = (-coeffs['coefficient'] - accrual) / (2 * self.reversion_speed**2)
+        term2 = coeffs['coefficient']**2 / (4 * self.reversion_speed)
         return (self.volatility**2 / accrual) * (term1 + term2)
 
     def price_convexities(self,
@@ -298,8 +300,8 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
                                                             maturity_date,
                                                             self.day_count_convention)
-        self._create_bond_price_coeffs(maturity_date)
-        return -(self.price_state_variable_coeffs['coefficient'] / accrual) * self.volatility
+        coeffs = self._create_bond_price_coeffs(maturity_date)
+        return -(coeffs['coefficient'] / accrual) * self.volatility
 
     def instantaneous_forward_rate(self,
                                    maturity_date: date | datetime,
@@ -353,13 +355,13 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_price_coeffs(maturity_date=maturity_date, purchase_date=purchase_date)
+        coeffs = self._create_bond_price_coeffs(maturity_date=maturity_date, purchase_date=purchase_date)
         accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
 
-        mean_times_accrual = -self.long_term_mean * (self.price_state_variable_coeffs['coefficient'] + accrual) \
-               + self.price_state_variable_coeffs['coefficient'] * self(purchase_date)
+        mean_times_accrual = -self.long_term_mean * (coeffs['coefficient'] + accrual) \
+               + coeffs['coefficient'] * self(purchase_date)
 
         return -mean_times_accrual/accrual
 
@@ -566,9 +568,9 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_price_coeffs(maturity_date, purchase_date)
+        coeffs = self._create_bond_price_coeffs(maturity_date, purchase_date)
         state_variables = self.state_variables_diffusion_process(purchase_date)
-        affine_price_expression = self.price_state_variable_coeffs['intercept'] + self.price_state_variable_coeffs['coefficients'] @ state_variables
+        affine_price_expression = coeffs['intercept'] + coeffs['coefficients'] @ state_variables
         return math.exp(affine_price_expression)
 
     def zero_coupon_bond_price_deriv_wrt_state_variables(self,
@@ -582,7 +584,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
             purchase_date = self.start_date_time
 
         bond_price = self.zero_coupon_bond_price(maturity_date=maturity_date, purchase_date=purchase_date)
-        return bond_price * self.price_state_variable_coeffs['coefficients']
+        return bond_price * self._create_bond_price_coeffs(maturity_date, purchase_date)['coefficients']
 
     def weights_for_riskless_portfolio(self,
                                        maturity_dates: Iterable[date|datetime],
@@ -637,7 +639,8 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
 
         for weight, maturity_date in zip(weights, maturity_dates):
             bond_price = self.zero_coupon_bond_price(maturity_date=maturity_date, purchase_date=purchase_date)
-            price_coefficients = np.expand_dims(self.price_state_variable_coeffs['coefficients'], axis=1)
+            coeffs = self._create_bond_price_coeffs(maturity_date, purchase_date)
+            price_coefficients = np.expand_dims(coeffs['coefficients'], axis=1)
             B_t_times_B_t_transpose = price_coefficients @ price_coefficients.T
             D_mat += bond_price * weight * B_t_times_B_t_transpose
 
@@ -654,12 +657,12 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
             raise ValueError(f'Maturity datetime {maturity_date} can not be less than or equal to the purchase datetime {purchase_date}.')
 
         state_variables = self.state_variables_diffusion_process(purchase_date)
-        self._create_bond_yield_coeffs(maturity_date, purchase_date)
-        yield_to_maturity = self.yield_state_variable_coeffs['intercept'] + self.yield_state_variable_coeffs['coefficients'] @ state_variables
+        coeffs = self._create_bond_yield_coeffs(maturity_date, purchase_date)
+        yield_to_maturity = coeffs['intercept'] + coeffs['coefficients'] @ state_variables
         return yield_to_maturity
 
 
-    def _create_bond_yield_coeffs(self, maturity_date: date, purchase_date: Optional[date | datetime] = None) -> None:
+    def _create_bond_yield_coeffs(self, maturity_date: date, purchase_date: Optional[date | datetime] = None) -> dict:
         """
         Helper method to create the affine intercept alpha and coefficients beta such that the time-T yield
         y_t^T = alpha + <beta, x_t>
@@ -670,14 +673,14 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_price_coeffs(maturity_date, purchase_date)
+        price_coeffs = self._create_bond_price_coeffs(maturity_date, purchase_date)
         accrual = DayCountCalculator.compute_accrual_length(purchase_date, maturity_date, self.day_count_convention)
-        self.yield_state_variable_coeffs = dict()
-        self.yield_state_variable_coeffs['intercept'] = -self.price_state_variable_coeffs['intercept']/accrual
-        self.yield_state_variable_coeffs['coefficients'] = -self.price_state_variable_coeffs['coefficients']/accrual
+        coeffs = {'intercept': -price_coeffs['intercept']/accrual, 'coefficients': -price_coeffs['coefficients']/accrual}
+        self.yield_state_variable_coeffs = coeffs
+        return coeffs
 
 
-    def _create_bond_price_coeffs(self, maturity_date: date, purchase_date: Optional[date | datetime] = None) -> None:
+    def _create_bond_price_coeffs(self, maturity_date: date, purchase_date: Optional[date | datetime] = None) -> dict:
         """
         Reference: Equation (18.136) of Rebonato's *Bond Pricing and Yield Curve Modeling*
         """
@@ -692,7 +695,9 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
 
         B = self._create_bond_price_coefficient_term(accrual, reversion_inv)
         A = self._create_bond_price_intercept_term(accrual, reversion_inv)
-        self.price_state_variable_coeffs = {'intercept': A, 'coefficients': B}
+        coeffs = {'intercept': A, 'coefficients': B}
+        self.price_state_variable_coeffs = coeffs
+        return coeffs
 
     def _create_bond_price_coefficient_term(self, accrual: float, reversion_inv: np.ndarray) -> np.array:
         """
@@ -798,8 +803,8 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         maturity_dates = list(maturity_dates)
         beta_mat = np.empty((self.dimension, len(maturity_dates)))
         for index, maturity in enumerate(maturity_dates):
-            self._create_bond_yield_coeffs(maturity_date=maturity, purchase_date=purchase_date)
-            beta_mat[:, index] = self.yield_state_variable_coeffs['coefficients']
+            coeffs = self._create_bond_yield_coeffs(maturity_date=maturity, purchase_date=purchase_date)
+            beta_mat[:, index] = coeffs['coefficients']
 
         return beta_mat.T @ self.C_mat @ beta_mat
 
@@ -900,14 +905,14 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_price_coeffs(maturity_date, purchase_date)
+        coeffs = self._create_bond_price_coeffs(maturity_date, purchase_date)
         accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
 
         derivatives = {
             'coefficients': self._calculate_coeff_deriv_wrt_maturity(accrual),
-            'intercept': self._calculate_intercept_deriv_wrt_maturity(accrual)
+            'intercept': self._calculate_intercept_deriv_wrt_maturity(coeffs['coefficients'])
         }
         return derivatives
 
@@ -923,14 +928,14 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
 
         return -exp_reversion.T @ self.short_rate_coefficients
 
-    def _calculate_intercept_deriv_wrt_maturity(self, accrual: float) -> np.array:
+    def _calculate_intercept_deriv_wrt_maturity(self, price_coefficients: np.array) -> np.array:
         """
         Helper function to calculate the derivative with respect to maturity time T of the affine price
         intercept term A_{t}^{T}, where P_{t}^{T} = e^{ A_t^T + <B_t^T, x_t>}.
         """
         int_1_deriv = -self.short_rate_intercept
-        int_2_deriv = self.price_state_variable_coeffs['coefficients'].T @ self.reversion_matrix @ self.reversion_level
-        int_3_deriv = 0.5 * self.price_state_variable_coeffs['coefficients'].T @ self.C_mat @ self.price_state_variable_coeffs['coefficients']
+        int_2_deriv = price_coefficients.T @ self.reversion_matrix @ self.reversion_level
+        int_3_deriv = 0.5 * price_coefficients.T @ self.C_mat @ price_coefficients
         return int_1_deriv + int_2_deriv + int_3_deriv
 
 
-- 
2.43.0


From c5c099af63246dd3fac2db5303d666f5256d1d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 33/55] fix: read the maturities of a forward-rate covariance
 once

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 98fde7f..a85b4e7 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -846,11 +846,11 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
+        maturity_dates = list(maturity_dates)
         if min(maturity_dates) <= purchase_date:
             raise ValueError(
                 f'Minimum maturity datetime {min(maturity_dates)} can not be less than or equal to the purchase datetime {purchase_date}.')
 
-        maturity_dates = list(maturity_dates)
         B_mat = np.empty((self.dimension, len(maturity_dates)))
         for index, maturity in enumerate(maturity_dates):
             self._create_bond_yield_coeffs(maturity_date=maturity, purchase_date=purchase_date)
-- 
2.43.0


From 70d53536f9906c86096620615a707037eb438bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 34/55] fix: build each short-rate curve from its own integral

---
 .../base_short_rate_model.py                  | 45 ++++++++++---------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 77b4261..6027918 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -127,8 +127,9 @@ class ShortRateModel(DiffusionProcess):
             running_integral += next_trapezoid_val
             interpolation_values.append(running_integral)
 
-        self._integrated_path = np.array(interpolation_values)
-        return self._integrated_path
+        integrated_path = np.array(interpolation_values)
+        self._integrated_path = integrated_path
+        return integrated_path
 
 
     def accrual_curve(self, datetimes: Optional[list[datetime | date]] = None) -> Curve:
@@ -147,19 +148,20 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
 
-        self.generate_integrated_path(datetimes)
+        integrated_path = self.generate_integrated_path(datetimes)
 
         compound_interpolation_values = [KnotValuePair(datetime_obj, math.exp(integral))
-                                         for datetime_obj, integral in zip(datetimes, self._integrated_path)]
+                                         for datetime_obj, integral in zip(datetimes, integrated_path)]
 
-        self._continuously_compounded_accrual_curve = Curve(interpolation_values=compound_interpolation_values,
-                                                            interpolation_method=InterpolationMethod.LINEAR,
-                                                            interpolation_day_count_convention=self.day_count_convention,
-                                                            reference_date=start_date_time,
-                                                            left_end_behavior=EndBehavior.ERROR,
-                                                            right_end_behavior=EndBehavior.ERROR)
+        accrual_curve = Curve(interpolation_values=compound_interpolation_values,
+                              interpolation_method=InterpolationMethod.LINEAR,
+                              interpolation_day_count_convention=self.day_count_convention,
+                              reference_date=start_date_time,
+                              left_end_behavior=EndBehavior.ERROR,
+                              right_end_behavior=EndBehavior.ERROR)
 
-        return self._continuously_compounded_accrual_curve
+        self._continuously_compounded_accrual_curve = accrual_curve
+        return accrual_curve
 
     def create_discount_curve(self,
                        datetimes: Optional[list[datetime | date]] = None,
@@ -176,20 +178,21 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
 
-        self.generate_integrated_path(datetimes)
+        integrated_path = self.generate_integrated_path(datetimes)
 
-        discount_interpolation_values = np.exp(-self._integrated_path)
+        discount_interpolation_values = np.exp(-integrated_path)
         discount_knot_values = [KnotValuePair(datetime_obj, df)
                                 for datetime_obj, df in zip(datetimes, discount_interpolation_values)]
 
-        self._discount_curve = DiscountCurve(interpolation_values=discount_knot_values,
-                                             interpolation_method=InterpolationMethod.LINEAR,
-                                             index=curve_index,
-                                             interpolation_day_count_convention=self.day_count_convention,
-                                             reference_date=self.brownian_motion.start_date_time,
-                                             left_end_behavior=EndBehavior.ERROR,
-                                             right_end_behavior=EndBehavior.ERROR)
+        discount_curve = DiscountCurve(interpolation_values=discount_knot_values,
+                                       interpolation_method=InterpolationMethod.LINEAR,
+                                       index=curve_index,
+                                       interpolation_day_count_convention=self.day_count_convention,
+                                       reference_date=self.brownian_motion.start_date_time,
+                                       left_end_behavior=EndBehavior.ERROR,
+                                       right_end_behavior=EndBehavior.ERROR)
 
-        return self._discount_curve
+        self._discount_curve = discount_curve
+        return discount_curve
 
 
-- 
2.43.0


From 4b24b3c57bc28d393e136ed0a88c4925ce1ccbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 35/55] fix: make the Vasicek short rate a number, so that it
 can be integrated

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index a85b4e7..6727a0f 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -88,7 +88,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
                                              brownian_motion=brownian_motion,
                                              dt=dt)
 
-        super().__init__(short_rate_transformation=lambda short_rate: short_rate,
+        super().__init__(short_rate_transformation=lambda state_variables: state_variables[0],
                          state_variables_diffusion_process=diffusion_process)
 
         self.convexity_limit = -self.volatility**2 / (2 * self.reversion_speed**2)
-- 
2.43.0


From ea50326414cc9cb576d78a26c9f49025ae291071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 36/55] fix: accrue interest from the last coupon before
 settlement

---
 fixedIncome/src/assets/credit/corporate_bond.py           | 8 ++++----
 .../us_treasury_instruments/us_treasury_instruments.py    | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 85d156f..bafbc0c 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -273,8 +273,8 @@ class FixedRateBond(CashflowCollection):
         settlement_date = self.settlement_date if reference_date is None else Scheduler.calculate_settlement_date(purchase_date=reference_date,
                                                                                                                   settlement_convention=self.settlement_convention,
                                                                                                                   holiday_calendar=self.holiday_calendar)
-        if self.settlement_date < self.dated_date:
-            raise ValueError(f'Settlement date {self.settlement_date} is before the dated date {self.dated_date}'
+        if settlement_date < self.dated_date:
+            raise ValueError(f'Settlement date {settlement_date} is before the dated date {self.dated_date}'
                              f' for us_treasury_instruments\n{self}.')
 
         # Find last payment accrual date.
@@ -284,13 +284,13 @@ class FixedRateBond(CashflowCollection):
             following_date = self[CashflowKeys.COUPON_PAYMENTS][0].unadjusted_payment_date
 
         else:
-            date_index = bisect.bisect_right([payment.payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], self.purchase_date)
+            date_index = bisect.bisect_left([payment.unadjusted_payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], settlement_date)
             previous_date = self[CashflowKeys.COUPON_PAYMENTS][date_index-1].unadjusted_payment_date
             following_date = self[CashflowKeys.COUPON_PAYMENTS][date_index].unadjusted_payment_date
             reference_date = previous_date
 
         accrual_period = DayCountCalculator.compute_accrual_length(
-            reference_date, self.settlement_date, dcc=self.day_count_convention
+            reference_date, settlement_date, dcc=self.day_count_convention
         )
 
         accrual_fraction = accrual_period / DayCountCalculator.compute_accrual_length(
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 0c4db55..8647cc5 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -134,8 +134,8 @@ class UsTreasuryBond(CashflowCollection):
         settlement_date = self.settlement_date if reference_date is None else Scheduler.calculate_settlement_date(purchase_date=reference_date,
                                                                                                                   settlement_convention=self.settlement_convention,
                                                                                                                   holiday_calendar=self.holiday_calendar)
-        if self.settlement_date < self.dated_date:
-            raise ValueError(f'Settlement date {self.settlement_date} is before the dated date {self.dated_date}'
+        if settlement_date < self.dated_date:
+            raise ValueError(f'Settlement date {settlement_date} is before the dated date {self.dated_date}'
                              f' for us_treasury_instruments\n{self}.')
 
         # Find last payment accrual date.
@@ -145,13 +145,13 @@ class UsTreasuryBond(CashflowCollection):
             following_date = self[CashflowKeys.COUPON_PAYMENTS][0].unadjusted_payment_date
 
         else:
-            date_index = bisect.bisect_right([payment.payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], self.purchase_date)
+            date_index = bisect.bisect_left([payment.unadjusted_payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], settlement_date)
             previous_date = self[CashflowKeys.COUPON_PAYMENTS][date_index-1].unadjusted_payment_date
             following_date = self[CashflowKeys.COUPON_PAYMENTS][date_index].unadjusted_payment_date
             reference_date = previous_date
 
         accrual_period = DayCountCalculator.compute_accrual_length(
-            reference_date, self.settlement_date, dcc=self.day_count_convention
+            reference_date, settlement_date, dcc=self.day_count_convention
         )
 
         accrual_fraction = accrual_period / DayCountCalculator.compute_accrual_length(
-- 
2.43.0


From c1508f3e44114a915233758f5494d09b6b3168d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 37/55] fix: reject a lone key rate's replacement by anything
 but a key rate

---
 fixedIncome/src/risk/key_rate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index cd1284a..7849528 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -299,6 +299,9 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         the prior and next date interval
         """
 
+        if not isinstance(new_key_rate, KeyRate):
+            raise TypeError(f'Only KeyRate objects can be set in a KeyRateCollection, not {new_key_rate!r}.')
+
         match self[key].prior_date, self[key].next_date:  # assumed to align with the
                                                                    # previous and next key_rate dates
 
-- 
2.43.0


From a98eafa39fd974c470707fe269b3fe3b807467e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 38/55] fix: extend a key-rate collection by all of the key
 rates or none

---
 fixedIncome/src/risk/key_rate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 7849528..1a0e1e7 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -354,6 +354,11 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
 
         self += new_key_rate_object
 
+    def extend(self, new_key_rate_objects: Iterable[KeyRate]) -> None:
+        """ Adds all of the Key Rates to the collection, or none of them if one cannot be added. """
+
+        self += new_key_rate_objects
+
     def __len__(self):
         """ Returns the number of KeyRate objects in the collection. """
         return len(self.key_rates)
-- 
2.43.0


From 8a6f1d0c9bfac80d025fc57089e8b4e192e2743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 39/55] fix: share one key rate between a portfolio's assets
 with the same horizon

---
 fixedIncome/src/portfolio/base_portfolio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/portfolio/base_portfolio.py b/fixedIncome/src/portfolio/base_portfolio.py
index 9577ed3..505e19c 100644
--- a/fixedIncome/src/portfolio/base_portfolio.py
+++ b/fixedIncome/src/portfolio/base_portfolio.py
@@ -48,9 +48,11 @@ class Portfolio:
         """
         Takes a portfolio and returns a KeyRateCollection, where each
         asset in the portfolio has a corresponding KeyRate in the collection.
+        Assets with the same horizon share one KeyRate.
         """
+        horizons = {portfolio_asset.asset.to_knot_value_pair().knot for portfolio_asset in self}
         kr_list = [KeyRate(day_count_convention=day_count_convention,
-                           key_rate_date=portfolio_asset.asset.to_knot_value_pair().knot) for portfolio_asset in self]
+                           key_rate_date=horizon) for horizon in sorted(horizons)]
 
         return KeyRateCollection(kr_list)
 
-- 
2.43.0


From 0fcef2f55668f5d399c614ef55e31c26504b501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 40/55] fix: accrue a corporate bond's interest at a requested
 date

---
 fixedIncome/src/assets/credit/corporate_bond.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index bafbc0c..e65b44f 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -97,6 +97,10 @@ class FixedRateBond(CashflowCollection):
     def business_day_adjustment(self) -> BusinessDayAdjustment:
         return self._business_day_adjustment
 
+    @property
+    def settlement_convention(self) -> SettlementConvention:
+        return self._settlement_convention
+
     @property
     def holiday_calendar(self) -> dict:
         return self._holiday_calendar
-- 
2.43.0


From 5753a3e47d5c6b70673a1db39a169d15df69a865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:35 +0000
Subject: [PATCH 41/55] fix: efficient frontiers end at the upper return
 requested, not up to an increment beyond it

---
 fixedIncome/src/portfolio/portfolio_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/portfolio/portfolio_optimization.py b/fixedIncome/src/portfolio/portfolio_optimization.py
index a83a0f0..a5314b2 100644
--- a/fixedIncome/src/portfolio/portfolio_optimization.py
+++ b/fixedIncome/src/portfolio/portfolio_optimization.py
@@ -79,7 +79,7 @@ class PortfolioOptimizer:
         if upper_return is None:
             upper_return = self.max_return - return_increment
 
-        returns = np.arange(start=lower_return, stop=upper_return + return_increment, step=return_increment)
+        returns = np.arange(start=lower_return, stop=upper_return + 1e-9, step=return_increment)  # includes the upper return
         weights = np.array([self.find_minimum_variance_portfolio(target_return, allow_short_positions)
                   for target_return in returns])
 
-- 
2.43.0


From 4b92edea0490face1794198bf7642c1429a6c653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:35 +0000
Subject: [PATCH 42/55] fix: portfolio optimisation raises when the solver
 finds no optimal weights

---
 .../src/portfolio/portfolio_optimization.py       | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/portfolio/portfolio_optimization.py b/fixedIncome/src/portfolio/portfolio_optimization.py
index a5314b2..ba7121d 100644
--- a/fixedIncome/src/portfolio/portfolio_optimization.py
+++ b/fixedIncome/src/portfolio/portfolio_optimization.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.optimize import minimize
+from scipy.optimize import minimize, OptimizeResult
 from typing import Optional
 
 
@@ -62,7 +62,7 @@ class PortfolioOptimizer:
                             bounds=bounds,
                            constraints=constraints,
                            method='SLSQP')
-        return results['x']
+        return self._solution(results, constraints)
 
 
     def calculate_efficient_frontier(self,
@@ -139,6 +139,17 @@ class PortfolioOptimizer:
         results = minimize(fun=objective_func, x0=starting_weights, jac=gradient,
                            constraints=constraints, bounds=bounds, method='SLSQP')
 
+        return self._solution(results, constraints)
+
+    def _solution(self, results: OptimizeResult, constraints: list[dict]) -> np.array:
+        ''' Returns the weights found by the solver. Raises ValueError if it found none.
+        A single asset leaves the solver nothing to choose, which it reports as an error.
+        '''
+        single_asset_is_feasible = self.num_assets == 1 and np.allclose(constraints[0]['fun'](results['x']), 0.0)
+
+        if not (results['success'] or single_asset_is_feasible):
+            raise ValueError(f"No optimal portfolio found: {results['message']}.")
+
         return results['x']
 
 
-- 
2.43.0


From 7421706f225d3870df64dc60384a6cf19fdbe363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:35 +0000
Subject: [PATCH 43/55] fix: portfolios are optimised to a tolerance well below
 the variances of returns

---
 fixedIncome/src/portfolio/portfolio_optimization.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/portfolio/portfolio_optimization.py b/fixedIncome/src/portfolio/portfolio_optimization.py
index ba7121d..aca8c66 100644
--- a/fixedIncome/src/portfolio/portfolio_optimization.py
+++ b/fixedIncome/src/portfolio/portfolio_optimization.py
@@ -3,6 +3,9 @@ from scipy.optimize import minimize, OptimizeResult
 from typing import Optional
 
 
+SOLVER_OPTIONS = {'ftol': 1e-10, 'maxiter': 1_000}  # the default tolerance is as large as the variances of daily returns
+
+
 class PortfolioOptimizer:
     def __init__(self, mean_vector: np, covariance_mat: np.array) -> None:
         self._mean_vector = mean_vector
@@ -61,7 +64,8 @@ class PortfolioOptimizer:
         results = minimize(fun=objective_func, x0=starting_weights, jac=gradient,
                             bounds=bounds,
                            constraints=constraints,
-                           method='SLSQP')
+                           method='SLSQP',
+                           options=SOLVER_OPTIONS)
         return self._solution(results, constraints)
 
 
@@ -137,7 +141,8 @@ class PortfolioOptimizer:
 
         starting_weights = np.array([1/self.num_assets for _ in range(self.num_assets)])
         results = minimize(fun=objective_func, x0=starting_weights, jac=gradient,
-                           constraints=constraints, bounds=bounds, method='SLSQP')
+                           constraints=constraints, bounds=bounds, method='SLSQP',
+                           options=SOLVER_OPTIONS)
 
         return self._solution(results, constraints)
 
-- 
2.43.0


From 8c450a23e2f4d14cfe9a04f1905a5d1b8ed0e985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 44/55] fix: allow multivariate Vasicek models without
 calibration parameters to be constructed

---
 .../affine_yield_curve_models/vasicek_model.py           | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 6727a0f..48d888f 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -5,7 +5,6 @@ Reference, *Fixed Income Securities, 4th Ed.* by Tuckman and Serrat, page 205.
 Unit tests are contained in
 fixedIncome.tests.test_stochastics.test_short_rate_models.test_affine_yield_curve_models.test_vasicek_model.py
 """
-from abc import abstractmethod
 import itertools
 import math
 from datetime import datetime, date, timedelta
@@ -447,26 +446,26 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         )
 
     @property
-    @abstractmethod
     def parameter_calibration_dict(self) -> dict:
         """
         Returns the dictionary containing list of parameters used for calibration.
         """
+        raise NotImplementedError
 
-    @abstractmethod
     def set_volatiltiy_parameters_from_dict(self) -> None:
         """ Takes the volatility parameter values stored in the param dict and sets the
         appropriate model parameters. """
+        raise NotImplementedError
 
-    @abstractmethod
     def set_shape_parameters_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
+        raise NotImplementedError
 
-    @abstractmethod
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
+        raise NotImplementedError
 
 
     def expected_state_variable_mean(self,
-- 
2.43.0


From 09c7fb2b9480d31f9fa0c01e6aab0b426092fa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 45/55] fix: take the volatility of Vasicek yields from the
 purchase date in price convexities

---
 .../affine_yield_curve_models/vasicek_model.py    | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 48d888f..a153d31 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -286,20 +286,25 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         bond_prices = np.array([self.zero_coupon_bond_price(maturity_date=maturity_date, purchase_date=purchase_date)
                                 for maturity_date in maturity_dates])
 
-        volatilities = np.array([self.yield_volatility(maturity_date=maturity_date)
+        volatilities = np.array([self.yield_volatility(maturity_date=maturity_date, purchase_date=purchase_date)
                         for maturity_date in maturity_dates])
 
         return -0.5 * accruals**2 * bond_prices * volatilities**2
 
 
-    def yield_volatility(self, maturity_date: date | datetime) -> float:
+    def yield_volatility(self,
+                         maturity_date: date | datetime,
+                         purchase_date: Optional[date | datetime] = None) -> float:
         """
-        Returns the volatility for a zero-coupon bond's yield for time T-maturity bonds.
+        Returns the volatility of the time-t yield for a zero-coupon bond maturing at the specified maturity datetime.
         """
-        accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
+        if purchase_date is None:
+            purchase_date = self.start_date_time
+
+        accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
-        coeffs = self._create_bond_price_coeffs(maturity_date)
+        coeffs = self._create_bond_price_coeffs(maturity_date, purchase_date)
         return -(coeffs['coefficient'] / accrual) * self.volatility
 
     def instantaneous_forward_rate(self,
-- 
2.43.0


From f83c9014521af887ab57c8ed091244bf4b850236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:00 +0000
Subject: [PATCH 46/55] fix: report a failed yield search instead of returning
 where it stopped

---
 fixedIncome/src/assets/credit/corporate_bond.py                | 3 +++
 .../assets/us_treasury_instruments/us_treasury_instruments.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index e65b44f..3a068a3 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -374,6 +374,9 @@ class FixedRateBond(CashflowCollection):
                                        x0=np.array([0.0]),
                                        tol=1E-8)
 
+        if not solution['success']:
+            raise ValueError(f"No yield to maturity found on {reference_date}: {solution['message']}")
+
         return float(solution['x'])
 
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 8647cc5..e329327 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -349,6 +349,9 @@ class UsTreasuryBond(CashflowCollection):
                                        x0=np.array([0.0]),
                                        tol=1E-8)
 
+        if not solution['success']:
+            raise ValueError(f"No yield to maturity found on {reference_date}: {solution['message']}")
+
         return float(solution['x'])
 
     def pv_deriv(self, offset: float = 0, ytm: Optional[float] = None) -> float:
-- 
2.43.0


From 47a38fefef0914c068f338c0db653a2b8c505405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:00 +0000
Subject: [PATCH 47/55] fix: price bonds with the interest accrued at the date
 asked about

---
 fixedIncome/src/assets/credit/corporate_bond.py       |  9 +++++++--
 .../us_treasury_instruments.py                        | 11 ++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 3a068a3..17ea333 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -307,9 +307,14 @@ class FixedRateBond(CashflowCollection):
         """
         Calculates the full price (also referred to as the 'dirty' or 'invoice'
         price.) Which is equal to the clean market price plus the amount
-        of accrued interest.
+        of accrued interest. If a reference date is given, it is the interest accrued by
+        a purchase on that date.
         """
-        reference_date = reference_date if reference_date is not None else self.purchase_date
+        if reference_date is not None and reference_date != self.purchase_date:
+            accrued_interest = self.calculate_accrued_interest(reference_date)
+            return self.price + (accrued_interest / self.principal) * 100.0
+
+        reference_date = self.purchase_date
 
         if self.accrued_interest is None:
             self.accrued_interest = self.calculate_accrued_interest(reference_date)
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index e329327..4611521 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -182,9 +182,14 @@ class UsTreasuryBond(CashflowCollection):
         """
         Calculates the full price (also referred to as the 'dirty' or 'invoice'
         price.) Which is equal to the clean market price plus the amount
-        of accrued interest.
+        of accrued interest. If a reference date is given, it is the interest accrued by
+        a purchase on that date.
         """
-        reference_date = reference_date if reference_date is not None else self.purchase_date
+        if reference_date is not None and reference_date != self.purchase_date:
+            accrued_interest = self.calculate_accrued_interest(reference_date)
+            return self.price + (accrued_interest / self.principal) * 100.0
+
+        reference_date = self.purchase_date
 
         if self.accrued_interest is None:
             self.accrued_interest = self.calculate_accrued_interest(reference_date)
@@ -341,7 +346,7 @@ class UsTreasuryBond(CashflowCollection):
 
         full_price = self.get_full_price(reference_date)
 
-        target_price = self.full_price * self.principal/100
+        target_price = full_price * self.principal/100
         def diff_from_full_price(fixed_rate) -> np.array:
             return np.array([target_price - self.discount_cashflows_by_fixed_rate(fixed_rate, reference_date)])
 
-- 
2.43.0


From 612ac469079fde0f163898f7ccb45110afae56f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:00 +0000
Subject: [PATCH 48/55] fix: scale a bond's duration and convexity by its price
 in the units of its payments

---
 fixedIncome/src/assets/credit/corporate_bond.py               | 4 ++--
 .../assets/us_treasury_instruments/us_treasury_instruments.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 17ea333..31d0258 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -434,7 +434,7 @@ class FixedRateBond(CashflowCollection):
         defined to be:
         Duration = -1/P * dP/d ytm
         """
-        return -self.pv_deriv() / self.full_price  #TODO: determine if I need to use full price of clean price here
+        return -self.pv_deriv() / (self.full_price * self.principal / 100)  #TODO: determine if I need to use full price of clean price here
 
 
     def convexity(self) -> float:
@@ -446,7 +446,7 @@ class FixedRateBond(CashflowCollection):
         derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
         derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
-        return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
+        return second_derivative / (self.full_price * self.principal / 100)  # TODO: Check if full price or clean price is needed
 
 
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 4611521..95fa22e 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -378,7 +378,7 @@ class UsTreasuryBond(CashflowCollection):
         defined to be:
         Duration = -1/P * dP/d ytm
         """
-        return -self.pv_deriv() / self.full_price  #TODO: determine if I need to use full price of clean price here
+        return -self.pv_deriv() / (self.full_price * self.principal / 100)  #TODO: determine if I need to use full price of clean price here
 
     def convexity(self) -> float:
         """
@@ -389,7 +389,7 @@ class UsTreasuryBond(CashflowCollection):
         derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
         derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
-        return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
+        return second_derivative / (self.full_price * self.principal / 100)  # TODO: Check if full price or clean price is needed
 
 
 class UsTreasuryFuture(CashflowCollection):
-- 
2.43.0


From d8ad03dcce3107ad9dd75e2e799c5834a720b846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:01 +0000
Subject: [PATCH 49/55] fix: take payments and price of a Macaulay duration at
 its reference date

---
 fixedIncome/src/assets/credit/corporate_bond.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 31d0258..54f6044 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -408,7 +408,7 @@ class FixedRateBond(CashflowCollection):
         pv_times_accrual = 0.0
         # Accumulate discounted coupon cashflows
         for payment in self[CashflowKeys.COUPON_PAYMENTS]:  # Zero-coupon bonds should have empty iterable here
-            if self.is_payment_received(payment):
+            if self.is_payment_received(payment, reference_date=reference_date):
                 accrual = DayCountCalculator.compute_accrual_length(reference_date, payment.payment_date, self.day_count_convention)
                 accrual_times_num_payments = accrual * self.num_payments_per_year
                 accrual_df = 1 / (1 + fixed_rate / self.num_payments_per_year) ** accrual_times_num_payments
@@ -416,14 +416,14 @@ class FixedRateBond(CashflowCollection):
 
         # add discounted principal re-payment
         for payment in self[CashflowKeys.SINGLE_PAYMENT]:
-            if self.is_payment_received(payment):
+            if self.is_payment_received(payment, reference_date=reference_date):
                 accrual = DayCountCalculator.compute_accrual_length(reference_date, payment.payment_date,
                                                                     self.day_count_convention)
                 accrual_times_num_payments = accrual * self.num_payments_per_year
                 accrual_df = 1 / (1 + fixed_rate / self.num_payments_per_year) ** accrual_times_num_payments
                 pv_times_accrual += accrual_df * payment.payment * accrual
 
-        scaled_full_price = self.full_price * self.principal / 100
+        scaled_full_price = self.get_full_price(reference_date) * self.principal / 100
 
         return pv_times_accrual/scaled_full_price
 
-- 
2.43.0


From cef943e54e9568f918db8008db8f5b3df5a7e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:01 +0000
Subject: [PATCH 50/55] fix: decide which payments a bond's buyer receives by
 its settlement convention

---
 fixedIncome/src/assets/credit/corporate_bond.py               | 4 +++-
 .../assets/us_treasury_instruments/us_treasury_instruments.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 54f6044..ef368e3 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -159,7 +159,9 @@ class FixedRateBond(CashflowCollection):
         if reference_date is None:
             settlement_date = self.settlement_date
         else:
-            settlement_date = Scheduler.add_business_days(reference_date, 1, self.holiday_calendar)
+            settlement_date = Scheduler.calculate_settlement_date(purchase_date=reference_date,
+                                                                  settlement_convention=self.settlement_convention,
+                                                                  holiday_calendar=self.holiday_calendar)
         return payment.unadjusted_payment_date >= settlement_date
 
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 95fa22e..92f7de5 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -247,7 +247,9 @@ class UsTreasuryBond(CashflowCollection):
         if reference_date is None:
             settlement_date = self.settlement_date
         else:
-            settlement_date = Scheduler.add_business_days(reference_date, 1, self.holiday_calendar)
+            settlement_date = Scheduler.calculate_settlement_date(purchase_date=reference_date,
+                                                                  settlement_convention=self.settlement_convention,
+                                                                  holiday_calendar=self.holiday_calendar)
         return payment.unadjusted_payment_date >= settlement_date
 
     def create_principal_repayment_cashflow(self) -> Cashflow:
-- 
2.43.0


From cfc35163c41d74ad374886680420a63755517ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:01 +0000
Subject: [PATCH 51/55] fix: keep coupons of month-end bonds on month ends

---
 fixedIncome/src/assets/credit/corporate_bond.py          | 9 ++++++---
 .../us_treasury_instruments/us_treasury_instruments.py   | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index ef368e3..b6f44c8 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -253,9 +253,12 @@ class FixedRateBond(CashflowCollection):
                 raise ValueError(f"{self.payment_frequency} is not a valid payment frequency.")
 
         if increment is not None:
-            unadjusted_coupon_dates = Scheduler.generate_dates_by_increments(start_date=self.maturity_date,
-                                                                             end_date=self.dated_date + timedelta(1),
-                                                                             increment=increment)
+            # Counted back from maturity, since repeated increments lose the day of a month end
+            unadjusted_coupon_dates = []
+            coupon_date = self.maturity_date
+            while coupon_date > self.dated_date:
+                unadjusted_coupon_dates.append(coupon_date)
+                coupon_date = self.maturity_date + increment * len(unadjusted_coupon_dates)
 
             adjusted_coupon_payment_dates = [self.adjustment_function(coupon_date) for coupon_date in unadjusted_coupon_dates]
             coupon_payments = [BondPayment(unadjusted_payment_date=unadj_date, payment_date=adj_date, payment=self.coupon_payment)
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 92f7de5..75a489a 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -285,9 +285,12 @@ class UsTreasuryBond(CashflowCollection):
                 raise ValueError(f"{self.payment_frequency} is not a valid payment frequency.")
 
         if increment is not None:
-            unadjusted_coupon_dates = Scheduler.generate_dates_by_increments(start_date=self.maturity_date,
-                                                                             end_date=self.dated_date + timedelta(1),
-                                                                             increment=increment)
+            # Counted back from maturity, since repeated increments lose the day of a month end
+            unadjusted_coupon_dates = []
+            coupon_date = self.maturity_date
+            while coupon_date > self.dated_date:
+                unadjusted_coupon_dates.append(coupon_date)
+                coupon_date = self.maturity_date + increment * len(unadjusted_coupon_dates)
 
             adjusted_coupon_payment_dates = [self.adjustment_function(coupon_date) for coupon_date in unadjusted_coupon_dates]
             coupon_payments = [BondPayment(unadjusted_payment_date=unadj_date, payment_date=adj_date, payment=self.coupon_payment)
-- 
2.43.0


From 8ac352043006e3d3e93b26c5d97ffdbd1a23def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:53 +0000
Subject: [PATCH 52/55] fix: recognise the end of February of leap years in
 30/360 accruals

---
 fixedIncome/src/scheduling_tools/day_count_calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/day_count_calculator.py b/fixedIncome/src/scheduling_tools/day_count_calculator.py
index fd71f73..c3a84da 100644
--- a/fixedIncome/src/scheduling_tools/day_count_calculator.py
+++ b/fixedIncome/src/scheduling_tools/day_count_calculator.py
@@ -146,8 +146,8 @@ class DayCountCalculator(object):
 
         # date adjustments in order according to https://en.wikipedia.org/wiki/Day_count_convention#30/360_US
 
-        start_date_last_day_in_feb = (start_month == 2) and (start_day == 28)
-        end_date_last_day_in_feb = (end_month == 2) and (end_day == 28)
+        start_date_last_day_in_feb = (start_month == 2) and ((start_date + timedelta(1)).month == 3)
+        end_date_last_day_in_feb = (end_month == 2) and ((end_date + timedelta(1)).month == 3)
 
         # adjustment (1)
         if start_date_last_day_in_feb and end_date_last_day_in_feb:
-- 
2.43.0


From 4cd1fd235f1443a917759f4b7bc7b373837debaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:53 +0000
Subject: [PATCH 53/55] fix: count part days at both ends of an accrual by
 their own day

---
 .../scheduling_tools/day_count_calculator.py    | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/day_count_calculator.py b/fixedIncome/src/scheduling_tools/day_count_calculator.py
index c3a84da..89656a4 100644
--- a/fixedIncome/src/scheduling_tools/day_count_calculator.py
+++ b/fixedIncome/src/scheduling_tools/day_count_calculator.py
@@ -38,20 +38,23 @@ class DayCountCalculator(object):
                 end_datetime = end_datetime if type(end_datetime) == datetime else datetime.combine(end_datetime,
                                                                                                         time(0))
 
+                if end_inner_date < start_inner_date:  # within one day
+                    return date_count_function(start_outer_date, end_outer_date) \
+                        * (end_datetime - start_datetime).total_seconds() / DayCountCalculator.SECONDS_PER_DAY
+
                 inner_accrual = date_count_function(start_inner_date, end_inner_date)
-                outer_accrual = date_count_function(start_outer_date, end_outer_date)
 
-                accrual_difference = outer_accrual - inner_accrual  # this is the time which be
-                                                                    # allocated to each timestamp proportionally
+                # the accruals of the first and last day, of which the timestamps take proportional parts
+                start_day_accrual = date_count_function(start_outer_date, end_inner_date) - inner_accrual
+                end_day_accrual = date_count_function(start_inner_date, end_outer_date) - inner_accrual
 
                 start_timedelta_seconds = (datetime.combine(start_inner_date, time(0)) - start_datetime).total_seconds()
-                start_inter_outer_width_seconds = (start_inner_date - start_outer_date).total_seconds()
                 end_timedelta_seconds = (end_datetime - datetime.combine(end_inner_date, time(0))).total_seconds()
-                end_inter_outer_width_seconds = (end_outer_date - end_inner_date).total_seconds()
 
-                linear_scaling = (start_timedelta_seconds + end_timedelta_seconds) / (start_inter_outer_width_seconds + end_inter_outer_width_seconds)
+                start_scaling = start_timedelta_seconds / DayCountCalculator.SECONDS_PER_DAY
+                end_scaling = end_timedelta_seconds / DayCountCalculator.SECONDS_PER_DAY
 
-            return inner_accrual + accrual_difference * linear_scaling
+            return inner_accrual + start_day_accrual * start_scaling + end_day_accrual * end_scaling
 
         return increment_from_seconds
 
-- 
2.43.0


From 4640d88576e78098f4d60ca8f946b9adff2ff69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:41 +0000
Subject: [PATCH 54/55] fix: count the last day of a year within that year in
 actual/actual accruals

---
 fixedIncome/src/scheduling_tools/day_count_calculator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/day_count_calculator.py b/fixedIncome/src/scheduling_tools/day_count_calculator.py
index 89656a4..839c2fe 100644
--- a/fixedIncome/src/scheduling_tools/day_count_calculator.py
+++ b/fixedIncome/src/scheduling_tools/day_count_calculator.py
@@ -174,7 +174,10 @@ class DayCountCalculator(object):
     @staticmethod
     @include_datetimes
     def _dcc_act_over_act(start_date: date, end_date: date) -> float:
-        """ Method to compute accrual periods based on actual over actual day count convention."""
+        """
+        Method to compute accrual periods based on actual over actual day count convention.
+        Each day, including the last one of a year, counts as a fraction of the year it lies in.
+        """
 
         # computes the start and end dates of the year containing start_date
         start_date_end_of_this_year = date(start_date.year, 12, 31)  # Always Dec 31st this year
@@ -192,10 +195,10 @@ class DayCountCalculator(object):
         whole_year_difference = end_date.year - start_date.year
 
         # Compute start_date residual fraction of year
-        start_residual_fraction = (start_date_end_of_this_year - start_date).days / (start_date_end_of_this_year - start_date_end_of_last_year).days
+        start_residual_fraction = (start_date_end_of_this_year + timedelta(1) - start_date).days / (start_date_end_of_this_year - start_date_end_of_last_year).days
 
         # Compute end_date residual fraction of year
-        end_residual_fraction = (end_date - end_date_end_of_last_year).days / (end_date_end_of_this_year - end_date_end_of_last_year).days
+        end_residual_fraction = (end_date - end_date_end_of_last_year - timedelta(1)).days / (end_date_end_of_this_year - end_date_end_of_last_year).days
 
         return (whole_year_difference - 1) + start_residual_fraction + end_residual_fraction
 
-- 
2.43.0


From f8b827ec83c512eaf18e4d68cbd4e526e9585f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:17 +0000
Subject: [PATCH 55/55] fix: clearing a KeyRateCollection is rejected before
 anything is removed

---
 fixedIncome/src/risk/key_rate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 1a0e1e7..0fd04cc 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -349,6 +349,10 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         del key_rates[key]
         self._set_key_rates(key_rates)
 
+    def clear(self) -> None:
+        """ Raises ValueError and leaves the collection as it is, because a collection cannot be empty. """
+        self._set_key_rates([])
+
     def insert(self, index: int, new_key_rate_object: KeyRate) -> None:  # required for subclassing MutableSequence ABC
         """ Inserts a Key Rate into the collection at the place given by its date, whatever the index. """
 
-- 
2.43.0

