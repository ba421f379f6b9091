From 07cce430a78f4708b4e700a92d5150291412faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 01/27] fix: compare appliances whose power arrays have
 different lengths

Appliance.__eq__ raised 'operands could not be broadcast together', so a user
could not own both an appliance with a power timeseries and one with a constant
power (adding an appliance compares it with those already there).
---
 ramp/core/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 1578c93..9c93426 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1317,9 +1317,14 @@ class Appliance:
         answer = np.array([])
         for attribute in APPLIANCE_ATTRIBUTES:
             if hasattr(self, attribute) and hasattr(other_appliance, attribute):
+                # array_equal also handles arrays of different lengths (e.g. power)
                 answer = np.append(
                     answer,
-                    [getattr(self, attribute) == getattr(other_appliance, attribute)],
+                    [
+                        np.array_equal(
+                            getattr(self, attribute), getattr(other_appliance, attribute)
+                        )
+                    ],
                 )
             elif (
                 hasattr(self, attribute) is False
-- 
2.43.0


From 419e09e5d8cf533aac106c6844bb796b8250ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 02/27] fix: peak window of a single minute

np.squeeze turned a one element peak window into a 0-d array, and indexing it
raised an IndexError.
---
 ramp/core/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 9c93426..af85489 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -363,9 +363,7 @@ class UseCase:
         for user in self.users:
             tot_max_profile = tot_max_profile + user.maximum_profile
         # Find the peak window within the theoretical max profile
-        peak_window = np.squeeze(
-            np.argwhere(tot_max_profile == np.amax(tot_max_profile))
-        )
+        peak_window = np.flatnonzero(tot_max_profile == np.amax(tot_max_profile))
         # Within the peak_window, randomly calculate the peak_time using a gaussian distribution
         peak_time = round(
             random.normalvariate(
-- 
2.43.0


From a8546be5c688d0bf02614416e646df5d3c302759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 03/27] fix: keep randomised windows ordered when random_var_w
 is larger than 0.5

The start and the end of a window are varied independently, the start could fall
after the end and the simulation stopped with 'negative dimensions are not allowed'.
---
 ramp/core/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index af85489..a5758e2 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1586,7 +1586,8 @@ class Appliance:
         if rand_window[1] > window_range_limits[1]:
             rand_window[1] = window_range_limits[1]
 
-        return rand_window
+        # with a variability larger than 50% the randomised boundaries can cross each other
+        return sorted(rand_window)
 
     @property
     def maximum_profile(self):
-- 
2.43.0


From 2b2a7ea56d8db20622c5b98210e43715c4b7af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 04/27] fix: stop picking switch-on events when none can fall
 within a duty cycle window

rand_switch_on_window() called itself until the picked event overlapped a duty
cycle window, which never ends once the remaining free time lies outside of
these windows.
---
 ramp/core/core.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index a5758e2..063e6a0 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1838,7 +1838,15 @@ class Appliance:
                     *range(s.start, s.stop - self.func_cycle + 1)
                 ]  # this will be fast with cython
         n_choices = len(indexes_choice)
-        if n_choices > 0:
+        duty_cycle_windows = (
+            self.cw11,
+            self.cw12,
+            self.cw21,
+            self.cw22,
+            self.cw31,
+            self.cw32,
+        )
+        while n_choices > 0:
             # Identifies a random switch on time within the available functioning windows
             # step 2c of [1]
             switch_on = indexes_choice[random.randint(0, n_choices - 1)]
@@ -1912,7 +1920,14 @@ class Appliance:
                         + str(self.cw32)
                         + ". Picking another random switch on event. You probably see this warning because your window of use is the same as the duty cycle window and the random variability of the windows of use is greater than zero. If you see this warning only once, no need to worry, this is inherent to stochasticity."
                     )
-                    return self.rand_switch_on_window(rand_time)
+                    # stop picking if none of the switch on events left would fall within a duty cycle window
+                    if not any(
+                        range_within_window(s, s + self.func_cycle - 1, cw)
+                        for s in indexes_choice
+                        for cw in duty_cycle_windows
+                    ):
+                        return None
+                    continue
 
                 if (
                     indexes.size > duty_cycle_duration
@@ -1920,11 +1935,10 @@ class Appliance:
                 ):
                     # Limit switch_on_window to duration of duty_cycle
                     indexes = indexes[0:duty_cycle_duration]
-        else:
-            indexes = None
-            # there are no available windows anymore
+            return indexes
 
-        return indexes
+        # there are no available windows anymore
+        return None
 
     def calc_coincident_switch_on(self, inside_peak_window: bool = True):
         """Computes how many of the 'n' Appliance instance are switched on simultaneously
-- 
2.43.0


From 73010db334a83951d5ba17396c1983042c4853eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 05/27] fix: allow func_cycle to be zero

A switch-on event of zero minute has no indexes, which raised an IndexError.
---
 ramp/core/core.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 063e6a0..48360ab 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1831,11 +1831,14 @@ class Appliance:
             Energy, 2019, https://doi.org/10.1016/j.energy.2019.04.097.
         """
 
+        # a switch-on event lasts at least one minute
+        func_cycle = max(1, self.func_cycle)
+
         indexes_choice = []
         for s in self.free_spots:
-            if s.stop - s.start >= self.func_cycle:
+            if s.stop - s.start >= func_cycle:
                 indexes_choice += [
-                    *range(s.start, s.stop - self.func_cycle + 1)
+                    *range(s.start, s.stop - func_cycle + 1)
                 ]  # this will be fast with cython
         n_choices = len(indexes_choice)
         duty_cycle_windows = (
@@ -1852,7 +1855,7 @@ class Appliance:
             switch_on = indexes_choice[random.randint(0, n_choices - 1)]
             spot_idx = None
             for i, fs in enumerate(self.free_spots):
-                if fs.start <= switch_on <= fs.stop - self.func_cycle:
+                if fs.start <= switch_on <= fs.stop - func_cycle:
                     spot_idx = i
                     break
 
@@ -1860,16 +1863,16 @@ class Appliance:
                 rand_time, self.free_spots[spot_idx].stop - switch_on
             )
 
-            if largest_duration > self.func_cycle:
+            if largest_duration > func_cycle:
                 indexes = np.arange(
                     switch_on,
                     switch_on
-                    + (int(random.uniform(self.func_cycle, largest_duration))),
+                    + (int(random.uniform(func_cycle, largest_duration))),
                 )  # TODO randint
-            elif largest_duration == self.func_cycle:
+            elif largest_duration == func_cycle:
                 indexes = np.arange(switch_on, switch_on + largest_duration)
             else:
-                print("func time", self.func_cycle)
+                print("func time", func_cycle)
                 print("max window", self.free_spots[spot_idx].stop)
                 print("rand_time", rand_time)
                 print("upper_limit", largest_duration)
@@ -1922,7 +1925,7 @@ class Appliance:
                     )
                     # stop picking if none of the switch on events left would fall within a duty cycle window
                     if not any(
-                        range_within_window(s, s + self.func_cycle - 1, cw)
+                        range_within_window(s, s + func_cycle - 1, cw)
                         for s in indexes_choice
                         for cw in duty_cycle_windows
                     ):
-- 
2.43.0


From d737f0967b3054fbf3cadd93bc278a2248f72089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 06/27] fix: appliances with number zero raised a
 ZeroDivisionError off-peak

---
 ramp/core/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 48360ab..4f82ada 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1974,6 +1974,8 @@ class Appliance:
         elif inside_peak_window is False and self.fixed == "no":
             # calculates probability of coincident switch_ons off-peak
             # eq. 3 of [1]
+            if self.number == 0:
+                return 0
             prob = random.uniform(0, (self.number - op_factor) / self.number)
 
             # randomly selects how many appliances are on at the same time
-- 
2.43.0


From 50298df030f289a7fc086731c373333d857e8aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 07/27] fix: apply random_seed before the peak time range is
 drawn, and accept seed 0

---
 ramp/core/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 4f82ada..b6bb91e 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -98,6 +98,10 @@ class UseCase:
         self.daily_profiles = None
         self.random_seed = random_seed
 
+        # Set global random seed if it is specified, before anything random is drawn
+        if self.random_seed is not None:
+            random.seed(self.random_seed)
+
         self.appliances = []
         self.users = []
         if users is None:
@@ -108,10 +112,6 @@ class UseCase:
         if self.date_start is not None and self.date_end is not None:
             self.initialize()
 
-        # Set global random seed if it is specified
-        if self.random_seed:
-            random.seed(self.random_seed)
-
     @property
     def date_start(self):
         """Start date of the daily profiles generated by the UseCase instance"""
-- 
2.43.0


From a6f1771879625d376d8492660b47c39fe148411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 08/27] fix: parallel processing ignored user preferences and
 random_seed

The daily preference was never drawn, the workers were seeded by the operating
system and a day or use case without any appliance raised a KeyError.
---
 ramp/core/core.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index b6bb91e..0a1063f 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -38,7 +38,10 @@ from ramp.errors_logs.errors import InvalidType, InvalidWindow
 
 
 def single_appliance_daily_load_profile(args):
-    app, args = args
+    app, rand_daily_pref, seed, args = args
+    # the worker processes do not share the random state nor the user's daily preference of the main process
+    random.seed(seed)
+    app.user.rand_daily_pref = rand_daily_pref
     app.generate_load_profile(*args, power=app.power[args[0]])
 
     return args[0], app.daily_use
@@ -478,10 +481,18 @@ class UseCase:
         for day_idx, day in enumerate(self.days):
             day_type = get_day_type(day)
             for user in self.users:
-                for app in user.App_list:
-                    for _ in range(user.num_users):
+                for _ in range(user.num_users):
+                    rand_daily_pref = user.pick_daily_preference()
+                    for app in user.App_list:
                         t = t + 1
-                        tasks.append((app, (day_idx, self.peak_time_range, day_type)))
+                        tasks.append(
+                            (
+                                app,
+                                rand_daily_pref,
+                                random.getrandbits(64),
+                                (day_idx, self.peak_time_range, day_type),
+                            )
+                        )
 
         daily_profiles_dict = {}
         timeout = 1
@@ -492,10 +503,11 @@ class UseCase:
                 desc=f"Computing appliances profiles",
                 unit="unit",
             ) as pbar:
-                imap_unordered_it = pool.imap_unordered(
+                # the results are summed up in the order of the tasks to be reproducible
+                imap_it = pool.imap(
                     single_appliance_daily_load_profile, tasks, chunksize=4
                 )
-                for prof_i, daily_load in imap_unordered_it:
+                for prof_i, daily_load in imap_it:
                     if prof_i in daily_profiles_dict:
                         daily_profiles_dict[prof_i].append(daily_load)
                     else:
@@ -504,7 +516,7 @@ class UseCase:
 
             daily_profiles = np.zeros((self.num_days, 1440))
 
-            for day_idx in range(self.num_days):
+            for day_idx in daily_profiles_dict:
                 daily_profiles[day_idx, :] = np.vstack(
                     daily_profiles_dict[day_idx]
                 ).sum(axis=0)
@@ -967,6 +979,12 @@ appliances: no appliances assigned to the user.
             name=name,
         )
 
+    def pick_daily_preference(self):
+        """Randomly pick which of the user preferences applies for a day"""
+        return (
+            0 if self.user_preference == 0 else random.randint(1, self.user_preference)
+        )
+
     def generate_single_load_profile(
         self, prof_i: int = 0, peak_time_range: np.array = None, day_type: int = 0
     ):
@@ -1001,9 +1019,7 @@ appliances: no appliances assigned to the user.
 
         single_load = np.zeros(1440)
 
-        self.rand_daily_pref = (
-            0 if self.user_preference == 0 else random.randint(1, self.user_preference)
-        )
+        self.rand_daily_pref = self.pick_daily_preference()
 
         for (
             App
-- 
2.43.0


From 7cfa61c0b1772035aabc40466524752b74af2aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 09/27] fix: initialize(force=True) kept the number of days of
 the previous dates

---
 ramp/core/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 0a1063f..0d7fde0 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -235,6 +235,9 @@ class UseCase:
                     f"The usecase '{self.name}' is already initialized but argument `force=True` was provided, reinitializing..."
                 )
                 self.days = None
+                if self.date_start is not None and self.date_end is not None:
+                    # the number of days is set by the dates unless num_days is provided
+                    self.__num_days = None
 
             if num_days is not None:
                 self.__num_days = num_days
-- 
2.43.0


From 03a184e3c0cb9966d2a75c3d13c73296f95e766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 10/27] fix: save seasonal power which starts and ends with the
 same value

---
 ramp/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 0d7fde0..a3ac808 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1271,7 +1271,7 @@ class Appliance:
                     dm[attribute + "_end"] = window_value[1]
                 elif attribute == "power":
                     power_values = getattr(self, attribute)
-                    if np.diff(power_values).sum() == 0:
+                    if (np.diff(power_values) == 0).all():
                         power_values = power_values[0]
                     else:
                         power_values = power_values.tolist()
@@ -1288,7 +1288,7 @@ class Appliance:
                         dm[attribute + "_end"] = window_value[1]
                     elif old_attribute == "POWER":
                         power_values = getattr(self, old_attribute)
-                        if np.diff(power_values).sum() == 0:
+                        if (np.diff(power_values) == 0).all():
                             power_values = power_values[0]
                         else:
                             power_values = power_values.tolist()
-- 
2.43.0


From df19ab1170083b2b9085d94041f4155606d00ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 11/27] fix: compute the maximum profile from the windows
 rather than from the last simulated day

---
 ramp/core/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index a3ac808..48b461a 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1618,7 +1618,11 @@ class Appliance:
             It assumes the appliance is always switched-on with maximum power and
             numerosity during all of its potential windows of use
         """
-        return self.daily_use * np.mean(self.power) * self.number
+        # infinitesimal values identify the functioning windows
+        windows_profile = np.zeros(1440)
+        for window in (self.window_1, self.window_2, self.window_3):
+            windows_profile[window[0] : window[1]] = 0.001
+        return windows_profile * np.mean(self.power) * self.number
 
     def specific_cycle(self, cycle_num, **kwargs):
         """assigining specific duty cycle for the appliance (maximum of three cycles can be assigned)
-- 
2.43.0


From 8146b54aa8e42556701fe749aece259ac6083a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 12/27] fix: undefined duty cycle windows captured switch-on
 events starting at midnight

---
 ramp/core/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index cac6936..ce1a784 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -143,9 +143,12 @@ def range_within_window(range_low, range_high, window):
 
     The two cases where there is no overlap between two windows are when the
     range boundaries are both lower than the lowest window value or both
-    higher than the highest window value
+    higher than the highest window value. A window which starts and ends at the
+    same time is not defined, therefore nothing overlaps with it
 
     """
+    if window[0] == window[1]:
+        return False
     return not (
         (range_low < window[0] and range_high < window[0])
         or (range_low > window[1] and range_high > window[1])
-- 
2.43.0


From 23e829a8671f27443d0ef96239de6a8188139723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 13/27] fix: single shot duty cycles whose randomised duration
 is zero raised an IndexError

---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 48b461a..109cc77 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1956,7 +1956,7 @@ class Appliance:
                     continue
 
                 if (
-                    indexes.size > duty_cycle_duration
+                    indexes.size > duty_cycle_duration > 0
                     and self.continuous_duty_cycle == 0
                 ):
                     # Limit switch_on_window to duration of duty_cycle
-- 
2.43.0


From d2b9483d747d74d0f6a9cecc29974b756af6e2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 14/27] fix: take into account users and appliances added after
 the initialization

The peak time range was the one of the (possibly empty) model at the time of the
initialization, and the length of the power timeseries was not checked.
---
 ramp/core/core.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 109cc77..9ff79bc 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -95,6 +95,7 @@ class UseCase:
         self.parallel_processing = parallel_processing
         self._peak_enlarge = peak_enlarge
         self.peak_time_range = None
+        self.__model_changed = False
         self.days = None
         self.__num_days = None
         self.__datetimeindex = None
@@ -158,6 +159,30 @@ class UseCase:
         else:
             raise TypeError("peak enlarge must be a float")
 
+    @property
+    def peak_time_range(self):
+        """Peak time range of the UseCase, it is calculated anew if users or appliances were added after initialization"""
+        if self.__model_changed is True:
+            self.check_appliances_power_values()
+            self.peak_time_range = self.calc_peak_time_range()
+        return self.__peak_time_range
+
+    @peak_time_range.setter
+    def peak_time_range(self, new_peak_time_range):
+        self.__peak_time_range = new_peak_time_range
+        self.__model_changed = False
+
+    def model_changed(self):
+        """Keep track that users or appliances were added after the initialization of the UseCase"""
+        if self.is_initialized is True:
+            self.__model_changed = True
+
+    def check_appliances_power_values(self):
+        """Verify that each appliance has long enough power data for the simulated time"""
+        self.collect_appliances_from_users()
+        for app in self.appliances:
+            app.check_power_values(self.__num_days)
+
     def add_user(self, user) -> None:
         """adds new user to the user property list
 
@@ -174,6 +199,7 @@ class UseCase:
         if isinstance(user, User):
             user.usecase = self
             self.users.append(user)
+            self.model_changed()
         elif isinstance(user, list):
             for u in user:
                 self.add_user(u)
@@ -308,9 +334,7 @@ class UseCase:
                     f"You will simulate {self.__num_days} day(s) from {self.days[0]} until {self.days[-1]+datetime.timedelta(days=1)}"
                 )
 
-            # Verify that each appliance has long enough power data for the simulated time
-            for app in self.appliances:
-                app.check_power_values(self.__num_days)
+            self.check_appliances_power_values()
 
             if peak_enlarge is not None:
                 self.peak_enlarge = peak_enlarge
@@ -329,7 +353,7 @@ class UseCase:
         if (
             self.__num_days is not None
             and self.__datetimeindex is not None
-            and self.peak_time_range is not None
+            and self.__peak_time_range is not None
         ):
             answer = True
         return answer
@@ -716,6 +740,8 @@ appliances: no appliances assigned to the user.
                 if app.name == "":
                     app.name = f"appliance_{len(self.App_list) + 1}"
                 self.App_list.append(app)
+        if self.usecase is not None:
+            self.usecase.model_changed()
 
     def add_appliance(self, *args, **kwargs):
         """Adds an appliance to the user category with all the appliance characteristics in a single function
-- 
2.43.0


From 679ab8cdaf6cc3b7b94f8336dcd034c46b654b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 15/27] fix: generate a single load profile for the user of a
 use case not yet initialized

---
 ramp/core/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 9ff79bc..b4e5c4f 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1043,6 +1043,7 @@ appliances: no appliances assigned to the user.
                     "You are generating ramp demand from a User not bounded to a UseCase instance, a default one has been created for you "
                 )
                 UseCase(name=f"{self.user_name} default usecase", users=[self])
+            if self.usecase.peak_time_range is None:
                 self.usecase.peak_time_range = self.usecase.calc_peak_time_range()
             peak_time_range = self.usecase.peak_time_range
 
-- 
2.43.0


From 49bff3c6883644ff45bb166f2d2fefe21524cfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 16/27] fix: Plot.from_file could not read csv files

---
 ramp/post_process/post_process.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index c0bf98d..b01b335 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -156,9 +156,7 @@ class Plot:
         """
 
         if file.endswith(".csv"):
-            df = pd.read_csv(
-                file, sheet_name=sheet_name, index_col=0, header=0, sep=sep
-            )
+            df = pd.read_csv(file, index_col=0, header=0, sep=sep)
 
         elif file.endswith(".xlsx"):
             df = pd.read_excel(file, sheet_name=sheet_name, index_col=0, header=0)
-- 
2.43.0


From 2ec1fd87eab8658e030d5da5a3793f418c3ebaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 17/27] fix: Plot.shadow did not accept a list of columns

---
 ramp/post_process/post_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index b01b335..0c11f29 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -317,7 +317,7 @@ class Plot:
         else:
             df_main = (self.mean()).df["Mean"].to_frame("Average")
 
-        if columns.lower() == "all":
+        if isinstance(columns, str) and columns.lower() == "all":
             columns = self.columns
 
         df_other = self.df.copy()[columns]
-- 
2.43.0


From 7eadf5ca77573c2658b5c32eddf40c6f7daeca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 18/27] fix: convert input files given by an absolute path or
 located in a folder with a dot in its name

---
 ramp/ramp_convert_old_input_files.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index b8c4525..834bb4d 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -1,6 +1,6 @@
 # %% Import required modules
 
-import sys, os, importlib
+import sys, os, importlib.util
 
 sys.path.append("../")
 import argparse
@@ -87,15 +87,18 @@ def convert_old_user_input_file(
         with open(fname_path, "a") as fp:
             fp.write(convert_names)
 
-    fname = fname_path.replace(".py", "").replace(os.path.sep, ".")
-
     if output_path is None:
         output_path = os.path.dirname(fname_path)
     output_fname = fname_path.split(os.path.sep)[-1].replace(".py", suffix)
     output_fname = os.path.join(output_path, output_fname)
 
     sys.path.insert(0, os.path.dirname(os.path.abspath(fname_path)))
-    file_module = importlib.import_module(fname)
+    # load the module from its path, which does not need to be relative to the current folder
+    spec = importlib.util.spec_from_file_location(
+        os.path.basename(fname_path).replace(".py", ""), fname_path
+    )
+    file_module = importlib.util.module_from_spec(spec)
+    spec.loader.exec_module(file_module)
 
     user_list = file_module.User_list
 
-- 
2.43.0


From da1a83ac3dfb00d811af306115bc9ee6fa3cbc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 19/27] fix: use default values for the empty cells of
 spreadsheet input files

---
 ramp/core/constants.py | 11 +++++++++++
 ramp/core/core.py      | 14 ++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/ramp/core/constants.py b/ramp/core/constants.py
index 846a8e9..34e7c72 100644
--- a/ramp/core/constants.py
+++ b/ramp/core/constants.py
@@ -125,6 +125,17 @@ APPLIANCE_ARGS = (
     "name",
 )
 
+INTEGER_ARGS = (
+    "number",
+    "num_windows",
+    "func_time",
+    "func_cycle",
+    "fixed_cycle",
+    "continuous_duty_cycle",
+    "pref_index",
+    "wd_we_type",
+)
+
 MAX_WINDOWS = 3
 WINDOWS_PARAMETERS = ("window_1", "window_2", "window_3", "random_var_w")
 DUTY_CYCLE_PARAMETERS = (
diff --git a/ramp/core/core.py b/ramp/core/core.py
index b4e5c4f..2e814c3 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -17,6 +17,7 @@ from ramp.core.constants import (
     NEW_TO_OLD_MAPPING,
     APPLIANCE_ATTRIBUTES,
     APPLIANCE_ARGS,
+    INTEGER_ARGS,
     WINDOWS_PARAMETERS,
     DUTY_CYCLE_PARAMETERS,
     switch_on_parameters,
@@ -627,7 +628,7 @@ class UseCase:
                 raise ValueError(
                     "'num_users' should be the same for a given user profile"
                 )
-            user_preference = user_df.user_preference.unique()
+            user_preference = user_df.user_preference.fillna(0).unique()
             if len(user_preference) == 1:
                 user_preference = user_preference[0]
             else:
@@ -636,7 +637,7 @@ class UseCase:
                 )
 
             # create user and add it to usecase
-            user = User(user_name, num_users, user_preference)
+            user = User(user_name, int(num_users), int(user_preference))
             self.add_user(user)
             # itereate through the lines of the DataFrame, each line representing one Appliance instance
             for row in user_df.loc[
@@ -645,8 +646,13 @@ class UseCase:
                 # assign Appliance arguments
                 appliance_parameters = {}
                 for k in APPLIANCE_ARGS:
-                    if k in row:
-                        appliance_parameters[k] = row[k]
+                    # an empty cell means that the default value should be used
+                    if k in row and not pd.isna(row[k]):
+                        val = row[k]
+                        if k in INTEGER_ARGS and val == int(val):
+                            # columns containing empty cells are parsed as floats
+                            val = int(val)
+                        appliance_parameters[k] = val
 
                 # assign windows arguments
                 for k in WINDOWS_PARAMETERS:
-- 
2.43.0


From 5a3e318d6e2bc8dbc0e77716a4a3658a43a869ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 20/27] fix: power timeseries of two columns used the
 timestamps as power

---
 ramp/core/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 2e814c3..1f54da3 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1218,7 +1218,8 @@ class Appliance:
             power = power.values[:, 0]
 
         elif isinstance(power, str):
-            power = pd.read_json(power).values[:, 0]
+            # if there are two columns, the first one contains the timestamps
+            power = pd.read_json(power).values[:, -1].astype(float)
 
         elif isinstance(power, (float, int)):
             power = power * np.ones(self.user.num_days + 1)
-- 
2.43.0


From c6dfa2c3b23cc2c8ed3f2881db7b953f72b183dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 21/27] fix: load users with an empty name

---
 ramp/core/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 1f54da3..515512e 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -619,6 +619,8 @@ class UseCase:
         """
 
         df = read_input_file(filename=filename)
+        # an empty user_name is an empty cell in the file
+        df["user_name"] = df["user_name"].fillna("")
         for user_name in df.user_name.unique():
             user_df = df.loc[df.user_name == user_name]
             num_users = user_df.num_users.unique()
-- 
2.43.0


From d8ec3093d4494009aaa6c4638e37f8349cbf7893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 22/27] fix: legacy User.Appliance used the user given as first
 argument as the number of appliances

---
 ramp/core/core.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 515512e..8481fa2 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -970,7 +970,18 @@ appliances: no appliances assigned to the user.
         """
         return self.save()
 
-    def Appliance(
+    def Appliance(self, *args, **kwargs):
+        """Back-compatibility with legacy code, in which the user is the first argument
+
+        Notes
+        ------
+        refer to Appliance class docs
+        """
+        if len(args) > 0 and isinstance(args[0], User):
+            args = args[1:]
+        return self._legacy_appliance(*args, **kwargs)
+
+    def _legacy_appliance(
         self,
         number=1,
         power=0,
@@ -987,13 +998,6 @@ appliances: no appliances assigned to the user.
         wd_we_type=2,
         name="",
     ):
-        """Back-compatibility with legacy code
-
-        Notes
-        ------
-        refer to Appliance class docs
-        """
-
         warnings.warn(
             "This function is deprecated and not supported since version v0.4.0. Instead use the add_appliance method.",
             DeprecationWarning,
-- 
2.43.0


From c15a619b513ce6756d4d5da869499f3d99008432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 23/27] fix: do not keep picking switch-on events which cannot
 reach a duty cycle window

---
 ramp/core/core.py | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 8481fa2..e662452 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1904,14 +1904,6 @@ class Appliance:
                     *range(s.start, s.stop - func_cycle + 1)
                 ]  # this will be fast with cython
         n_choices = len(indexes_choice)
-        duty_cycle_windows = (
-            self.cw11,
-            self.cw12,
-            self.cw21,
-            self.cw22,
-            self.cw31,
-            self.cw32,
-        )
         while n_choices > 0:
             # Identifies a random switch on time within the available functioning windows
             # step 2c of [1]
@@ -1986,13 +1978,32 @@ class Appliance:
                         + str(self.cw32)
                         + ". Picking another random switch on event. You probably see this warning because your window of use is the same as the duty cycle window and the random variability of the windows of use is greater than zero. If you see this warning only once, no need to worry, this is inherent to stochasticity."
                     )
-                    # stop picking if none of the switch on events left would fall within a duty cycle window
-                    if not any(
-                        range_within_window(s, s + func_cycle - 1, cw)
-                        for s in indexes_choice
-                        for cw in duty_cycle_windows
-                    ):
-                        return None
+                    duty_cycle_windows = [
+                        (int(cw[0]), int(cw[1]))
+                        for cw in (
+                            self.cw11,
+                            self.cw12,
+                            self.cw21,
+                            self.cw22,
+                            self.cw31,
+                            self.cw32,
+                        )
+                    ]
+                    # from now on only pick among the switch on events which can reach a duty cycle window
+                    indexes_choice = [
+                        s
+                        for fs in self.free_spots
+                        for s in range(fs.start, fs.stop - func_cycle + 1)
+                        if any(
+                            range_within_window(
+                                s,
+                                s + max(func_cycle, min(rand_time, fs.stop - s) - 1) - 1,
+                                cw,
+                            )
+                            for cw in duty_cycle_windows
+                        )
+                    ]
+                    n_choices = len(indexes_choice)
                     continue
 
                 if (
-- 
2.43.0


From 6b10ea1130c7407d17a32544625a8eb94946a288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 24/27] fix: power timeseries located in a sheet whose name is
 quoted in the cell reference

---
 ramp/core/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index ce1a784..722fed4 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -36,6 +36,9 @@ def read_input_file(filename):
             # the timeseries is provided as a range of values in the spreadsheet
             if "=" in v:
                 ts_sheet_name, ts_range = v.replace("=", "").split("!")
+                # names which contain spaces or special characters are quoted
+                if ts_sheet_name.startswith("'") and ts_sheet_name.endswith("'"):
+                    ts_sheet_name = ts_sheet_name[1:-1].replace("''", "'")
                 cr = CellRange(ts_range)
                 if cr.size["columns"] == 1:
                     ts = json.dumps(
-- 
2.43.0


From d4277820c72de116c50b5b08621f207e9aaf8d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:19 +0000
Subject: [PATCH 25/27] fix: run .py inputs whose path has spaces, with the
 current interpreter

---
 ramp/ramp_run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramp/ramp_run.py b/ramp/ramp_run.py
index 861f7e4..e099e80 100644
--- a/ramp/ramp_run.py
+++ b/ramp/ramp_run.py
@@ -24,6 +24,7 @@ import os
 
 # %% Import required modules
 
+import subprocess
 import sys
 from ramp.core.core import UseCase
 import ramp.post_process as pp
@@ -61,7 +62,7 @@ def run_usecase(
             return Profiles_list
     elif fname.endswith(".py"):
         if os.path.exists(fname):
-            os.system(f"python {fname}")
+            subprocess.run([sys.executable, fname])
         else:
             raise FileNotFoundError(f"{fname} is not an existing file")
     else:
-- 
2.43.0


From c471c5231a1067c81464cc9e15218022a7259597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 26/27] fix: the graph of all daily profiles was cut at the
 height of the first one

---
 ramp/post_process/post_process.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index 0c11f29..8aa453b 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -36,13 +36,14 @@ def Profile_cloud_plot(stoch_profiles, stoch_profiles_avg):
     plt.figure(figsize=(10, 5))
     for n in stoch_profiles:
         plt.plot(np.arange(1440), n, "#b0c4de")
-        plt.xlabel("Time (hours)")
-        plt.ylabel("Power (W)")
-        plt.ylim(ymin=0)
-        # plt.ylim(ymax=5000)
-        plt.margins(x=0)
-        plt.margins(y=0)
     plt.plot(np.arange(1440), stoch_profiles_avg, "#4169e1")
+    plt.xlabel("Time (hours)")
+    plt.ylabel("Power (W)")
+    # the limits are set once all the profiles are drawn, otherwise those after the first one could be cut
+    plt.ylim(ymin=0)
+    # plt.ylim(ymax=5000)
+    plt.margins(x=0)
+    plt.margins(y=0)
     plt.xticks(
         [0, 240, 480, (60 * 12), (60 * 16), (60 * 20), (60 * 24)],
         [0, 4, 8, 12, 16, 20, 24],
-- 
2.43.0


From d243d96f6dd69f2fe43c534203ac806506e589a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:29 +0000
Subject: [PATCH 27/27] fix: events were removed from only one of the free
 ranges, windows which touch or overlap were used twice

The range was also chosen with an off by one test, so that an event at the
first minute of a window could be removed from the window ending there.
---
 ramp/core/core.py | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index e662452..6e8b1ff 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1567,34 +1567,19 @@ class Appliance:
         ------
         nothing but can modify self.free_spots
         """
-        # identify which of the unallocated time ranges contain the switch-on event
-        spot_idx = None
-        for i, fs in enumerate(self.free_spots):
-            if indexes[0] >= fs.start and indexes[-1] <= fs.stop:
-                spot_idx = i
-                break
-        if spot_idx is not None:
-            spot_to_split = self.free_spots.pop(spot_idx)
-
-            if indexes[0] == spot_to_split.start and indexes[-1] == spot_to_split.stop:
-                pass  # nothing to do as the whole range should be removed, which is already the case from line above
-            elif indexes[0] == spot_to_split.start:
-                # reinsert a range going from end of indexes up to the end of picked range
-                self.free_spots.insert(
-                    spot_idx, slice(indexes[-1] + 1, spot_to_split.stop, None)
-                )
-            elif indexes[-1] == spot_to_split.stop:
-                # reinsert a range going from beginning of picked range up to the beginning of indexes
-                self.free_spots.insert(
-                    spot_idx, slice(spot_to_split.start, indexes[0], None)
-                )
+        start, stop = indexes[0], indexes[-1] + 1
+        free_spots = []
+        # the event is removed from all the ranges it belongs to, there are several of them where windows overlap
+        for spot in self.free_spots:
+            if stop <= spot.start or spot.stop <= start:
+                free_spots.append(spot)
             else:
-                # split the range into 2 smaller ranges
-                new_spot1 = slice(spot_to_split.start, indexes[0], None)
-                new_spot2 = slice(indexes[-1] + 1, spot_to_split.stop, None)
-
-                self.free_spots.insert(spot_idx, new_spot2)
-                self.free_spots.insert(spot_idx, new_spot1)
+                # what remains of the range before and after the event
+                if spot.start < start:
+                    free_spots.append(slice(spot.start, start, None))
+                if stop < spot.stop:
+                    free_spots.append(slice(stop, spot.stop, None))
+        self.free_spots = free_spots
 
     def update_daily_use(self, coincidence, power, indexes):
         """Update the daily use depending on existence of duty cycles of the Appliance instance
-- 
2.43.0

