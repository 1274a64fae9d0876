From 7576fd14f85542a415733070075f7264c4beedfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 01/33] fix: honour random_seed=0

---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 1578c93..6eaa5ff 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -109,7 +109,7 @@ class UseCase:
             self.initialize()
 
         # Set global random seed if it is specified
-        if self.random_seed:
+        if self.random_seed is not None:
             random.seed(self.random_seed)
 
     @property
-- 
2.43.0


From 8a0d225f9277513158a6ee837e345ecab40605e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 02/33] fix: seed the random generator before the peak time
 range is drawn in UseCase.__init__

---
 ramp/core/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 6eaa5ff..5c65da5 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -98,6 +98,10 @@ class UseCase:
         self.daily_profiles = None
         self.random_seed = random_seed
 
+        # Set global random seed if it is specified, before the peak time range is drawn by initialize()
+        if self.random_seed is not None:
+            random.seed(self.random_seed)
+
         self.appliances = []
         self.users = []
         if users is None:
@@ -108,10 +112,6 @@ class UseCase:
         if self.date_start is not None and self.date_end is not None:
             self.initialize()
 
-        # Set global random seed if it is specified
-        if self.random_seed is not None:
-            random.seed(self.random_seed)
-
     @property
     def date_start(self):
         """Start date of the daily profiles generated by the UseCase instance"""
-- 
2.43.0


From 488e6b4a24fb9a43738da7b2bf5ef0088a265abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 03/33] fix: calc_peak_time_range failed when the theoretical
 peak lasts a single minute

---
 ramp/core/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 5c65da5..7c4feeb 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -363,9 +363,7 @@ class UseCase:
         for user in self.users:
             tot_max_profile = tot_max_profile + user.maximum_profile
         # Find the peak window within the theoretical max profile
-        peak_window = np.squeeze(
-            np.argwhere(tot_max_profile == np.amax(tot_max_profile))
-        )
+        peak_window = np.flatnonzero(tot_max_profile == np.amax(tot_max_profile))
         # Within the peak_window, randomly calculate the peak_time using a gaussian distribution
         peak_time = round(
             random.normalvariate(
-- 
2.43.0


From 76d47009b0701f14ee983ab5292b9f9c95946508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 04/33] fix: Appliance.maximum_profile depended on the last
 generated daily profile

---
 ramp/core/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 7c4feeb..f344221 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1593,7 +1593,10 @@ class Appliance:
             It assumes the appliance is always switched-on with maximum power and
             numerosity during all of its potential windows of use
         """
-        return self.daily_use * np.mean(self.power) * self.number
+        windows_profile = np.zeros(1440)
+        for window in (self.window_1, self.window_2, self.window_3):
+            windows_profile[window[0] : window[1]] = 0.001
+        return windows_profile * np.mean(self.power) * self.number
 
     def specific_cycle(self, cycle_num, **kwargs):
         """assigining specific duty cycle for the appliance (maximum of three cycles can be assigned)
-- 
2.43.0


From 562402269c559e23159247ea0887ac00151b3653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 05/33] fix: random windows could end before they start when
 random_var_w > 0.5

---
 ramp/core/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index f344221..6eeae45 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1580,6 +1580,9 @@ class Appliance:
             rand_window[0] = window_range_limits[0]
         if rand_window[1] > window_range_limits[1]:
             rand_window[1] = window_range_limits[1]
+        # the two edges are drawn independently, a window can not end before it starts
+        if rand_window[1] < rand_window[0]:
+            rand_window[1] = rand_window[0]
 
         return rand_window
 
-- 
2.43.0


From 7b197ca70881e71c927c0dc0ff0fdc194840d34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 06/33] fix: func_cycle=0 raised an IndexError when a switch-on
 event of zero length was drawn

---
 ramp/core/core.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 6eeae45..12b8036 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1831,11 +1831,14 @@ class Appliance:
             Energy, 2019, https://doi.org/10.1016/j.energy.2019.04.097.
         """
 
+        # a switch-on event lasts one minute at least, also if func_cycle is 0
+        func_cycle = max(1, self.func_cycle)
+
         indexes_choice = []
         for s in self.free_spots:
-            if s.stop - s.start >= self.func_cycle:
+            if s.stop - s.start >= func_cycle:
                 indexes_choice += [
-                    *range(s.start, s.stop - self.func_cycle + 1)
+                    *range(s.start, s.stop - func_cycle + 1)
                 ]  # this will be fast with cython
         n_choices = len(indexes_choice)
         if n_choices > 0:
@@ -1844,7 +1847,7 @@ class Appliance:
             switch_on = indexes_choice[random.randint(0, n_choices - 1)]
             spot_idx = None
             for i, fs in enumerate(self.free_spots):
-                if fs.start <= switch_on <= fs.stop - self.func_cycle:
+                if fs.start <= switch_on <= fs.stop - func_cycle:
                     spot_idx = i
                     break
 
@@ -1852,16 +1855,15 @@ class Appliance:
                 rand_time, self.free_spots[spot_idx].stop - switch_on
             )
 
-            if largest_duration > self.func_cycle:
+            if largest_duration > func_cycle:
                 indexes = np.arange(
                     switch_on,
-                    switch_on
-                    + (int(random.uniform(self.func_cycle, largest_duration))),
+                    switch_on + (int(random.uniform(func_cycle, largest_duration))),
                 )  # TODO randint
-            elif largest_duration == self.func_cycle:
+            elif largest_duration == func_cycle:
                 indexes = np.arange(switch_on, switch_on + largest_duration)
             else:
-                print("func time", self.func_cycle)
+                print("func time", func_cycle)
                 print("max window", self.free_spots[spot_idx].stop)
                 print("rand_time", rand_time)
                 print("upper_limit", largest_duration)
-- 
2.43.0


From 4f9b21129f18cebb73ebff010b35a4aa83bc29d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 07/33] fix: endless recursion when no switch-on event can fall
 within a duty cycle window

---
 ramp/core/core.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 12b8036..a703ac9 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1821,7 +1821,7 @@ class Appliance:
             )
         return rand_time
 
-    def rand_switch_on_window(self, rand_time: int):
+    def rand_switch_on_window(self, rand_time: int, within_cycles: bool = False):
         """Identifies a random switch on window within the available functioning windows
 
         This corresponds to step 2c. of:
@@ -1840,6 +1840,23 @@ class Appliance:
                 indexes_choice += [
                     *range(s.start, s.stop - func_cycle + 1)
                 ]  # this will be fast with cython
+        if within_cycles is True:
+            # only keep the switch on times for which the event falls within a duty cycle window
+            indexes_choice = [
+                i
+                for i in indexes_choice
+                if any(
+                    range_within_window(i, i + func_cycle - 1, cw)
+                    for cw in (
+                        self.cw11,
+                        self.cw12,
+                        self.cw21,
+                        self.cw22,
+                        self.cw31,
+                        self.cw32,
+                    )
+                )
+            ]
         n_choices = len(indexes_choice)
         if n_choices > 0:
             # Identifies a random switch on time within the available functioning windows
@@ -1914,7 +1931,7 @@ class Appliance:
                         + str(self.cw32)
                         + ". Picking another random switch on event. You probably see this warning because your window of use is the same as the duty cycle window and the random variability of the windows of use is greater than zero. If you see this warning only once, no need to worry, this is inherent to stochasticity."
                     )
-                    return self.rand_switch_on_window(rand_time)
+                    return self.rand_switch_on_window(rand_time, within_cycles=True)
 
                 if (
                     indexes.size > duty_cycle_duration
-- 
2.43.0


From 189a89908a507374a8fd652eca83786c9bb217bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 08/33] fix: minutes were booked twice when the windows of use
 of an appliance touch or overlap

---
 ramp/core/core.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index a703ac9..89807c8 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1506,7 +1506,7 @@ class Appliance:
         # identify which of the unallocated time ranges contain the switch-on event
         spot_idx = None
         for i, fs in enumerate(self.free_spots):
-            if indexes[0] >= fs.start and indexes[-1] <= fs.stop:
+            if indexes[0] >= fs.start and indexes[-1] < fs.stop:
                 spot_idx = i
                 break
         if spot_idx is not None:
@@ -2054,9 +2054,13 @@ class Appliance:
 
         # steps 2c-2e repeated until the sum of the durations of all the switch-on events equals rand_time
 
-        self.free_spots = [
-            slice(rw[0], rw[1], None) for rw in rand_windows if rw[0] != rw[1]
-        ]
+        # windows which touch or overlap form a single free spot, otherwise their common minutes could be used twice
+        self.free_spots = []
+        for start, stop in sorted(rw for rw in rand_windows if rw[0] != rw[1]):
+            if self.free_spots and start <= self.free_spots[-1].stop:
+                start = self.free_spots[-1].start
+                stop = max(stop, self.free_spots.pop().stop)
+            self.free_spots.append(slice(start, stop, None))
 
         tot_time = 0
         while tot_time <= rand_time and rand_time != 0:
-- 
2.43.0


From c613b76ac3d3a51b8bd5cdbf313a53056e293172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 09/33] fix: an appliance with occasional_use=0 could run when
 the draw is exactly 0

---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 89807c8..dda3bbe 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -2006,7 +2006,7 @@ class Appliance:
 
         # skip this appliance in any of the following applies
         if (
-            random.uniform(0, 1) > self.occasional_use
+            random.uniform(0, 1) >= self.occasional_use
             # evaluates if daily preference coincides with the randomised daily preference number
             or (self.pref_index != 0 and self.user.rand_daily_pref != self.pref_index)
             # checks if the app is allowed in the given yearly behaviour pattern
-- 
2.43.0


From e9893a120c5fe33f0cd5ae1e234a05d7f5e7914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 10/33] fix: a power series with equal first and last values
 was saved as a constant power

---
 ramp/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index dda3bbe..9189fd8 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1252,7 +1252,7 @@ class Appliance:
                     dm[attribute + "_end"] = window_value[1]
                 elif attribute == "power":
                     power_values = getattr(self, attribute)
-                    if np.diff(power_values).sum() == 0:
+                    if not np.diff(power_values).any():
                         power_values = power_values[0]
                     else:
                         power_values = power_values.tolist()
@@ -1269,7 +1269,7 @@ class Appliance:
                         dm[attribute + "_end"] = window_value[1]
                     elif old_attribute == "POWER":
                         power_values = getattr(self, old_attribute)
-                        if np.diff(power_values).sum() == 0:
+                        if not np.diff(power_values).any():
                             power_values = power_values[0]
                         else:
                             power_values = power_values.tolist()
-- 
2.43.0


From 93b1c990e71b80d2c69e2cfddad8a32e0e8c63fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 11/33] fix: empty optional cells of the input spreadsheet were
 loaded as nan instead of the default value

---
 ramp/core/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 9189fd8..7e038bb 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -583,14 +583,16 @@ class UseCase:
             user_df = df.loc[df.user_name == user_name]
             num_users = user_df.num_users.unique()
             if len(num_users) == 1:
-                num_users = num_users[0]
+                num_users = 1 if pd.isna(num_users[0]) else int(num_users[0])
             else:
                 raise ValueError(
                     "'num_users' should be the same for a given user profile"
                 )
             user_preference = user_df.user_preference.unique()
             if len(user_preference) == 1:
-                user_preference = user_preference[0]
+                user_preference = (
+                    0 if pd.isna(user_preference[0]) else int(user_preference[0])
+                )
             else:
                 raise ValueError(
                     "'user_preference' should be the same for a given user profile"
@@ -603,10 +605,16 @@ class UseCase:
             for row in user_df.loc[
                 :, ~user_df.columns.isin(["user_name", "num_users", "user_preference"])
             ].to_dict(orient="records"):
+                # a column with empty cells is read as floats, restore its integers
+                row = {
+                    k: int(v) if isinstance(v, float) and v.is_integer() else v
+                    for k, v in row.items()
+                }
                 # assign Appliance arguments
                 appliance_parameters = {}
                 for k in APPLIANCE_ARGS:
-                    if k in row:
+                    # empty cells take the default value
+                    if k in row and not pd.isna(row[k]):
                         appliance_parameters[k] = row[k]
 
                 # assign windows arguments
-- 
2.43.0


From dcbdf04b67509dfdeb81e2bd0276d827c636e6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 12/33] fix: forced reinitialisation of a usecase ignored its
 new dates

---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 7e038bb..58f3704 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -246,7 +246,7 @@ class UseCase:
                 self.days = pd.date_range(
                     start=self.date_start, end=self.date_end
                 )  # TODO add one extra day
-                if self.__num_days is not None:
+                if num_days is not None and self.__num_days is not None:
                     if self.__num_days != len(self.days):
                         # logging.warning
                         print(
-- 
2.43.0


From eb764717661224a46e65add3290b37cbcd82f736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 13/33] fix: power of users added after the creation of the
 usecase was not checked against the number of days

---
 ramp/core/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 58f3704..48865a9 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -171,6 +171,9 @@ class UseCase:
         if isinstance(user, User):
             user.usecase = self
             self.users.append(user)
+            if self.is_initialized is True:
+                for app in user.App_list:
+                    app.check_power_values(self.num_days)
         elif isinstance(user, list):
             for u in user:
                 self.add_user(u)
@@ -303,6 +306,7 @@ class UseCase:
                 )
 
             # Verify that each appliance has long enough power data for the simulated time
+            self.collect_appliances_from_users()
             for app in self.appliances:
                 app.check_power_values(self.__num_days)
 
-- 
2.43.0


From e5cc1c07889eb0ce66d84346f833b10b58b244be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 14/33] fix: generating a profile of a user bound to an
 uninitialised usecase raised a TypeError

---
 ramp/core/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 48865a9..ea7ea1a 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1008,6 +1008,7 @@ appliances: no appliances assigned to the user.
                     "You are generating ramp demand from a User not bounded to a UseCase instance, a default one has been created for you "
                 )
                 UseCase(name=f"{self.user_name} default usecase", users=[self])
+            if self.usecase.peak_time_range is None:
                 self.usecase.peak_time_range = self.usecase.calc_peak_time_range()
             peak_time_range = self.usecase.peak_time_range
 
-- 
2.43.0


From 14043674a414ef1476b8f87e0fe56dbb77af6cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 15/33] fix: Plot.from_file could not read csv files

---
 ramp/post_process/post_process.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index c0bf98d..22ccb21 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -156,9 +156,7 @@ class Plot:
         """
 
         if file.endswith(".csv"):
-            df = pd.read_csv(
-                file, sheet_name=sheet_name, index_col=0, header=0, sep=sep
-            )
+            df = pd.read_csv(file, index_col=0, header=0, sep=sep, parse_dates=True)
 
         elif file.endswith(".xlsx"):
             df = pd.read_excel(file, sheet_name=sheet_name, index_col=0, header=0)
-- 
2.43.0


From 0e52bfa9c57ab9e8efc4a8f29ac3f3d38f191902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 16/33] fix: the command line drew the peak time range before
 the users were loaded

---
 ramp/ramp_run.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramp/ramp_run.py b/ramp/ramp_run.py
index 861f7e4..b48f15e 100644
--- a/ramp/ramp_run.py
+++ b/ramp/ramp_run.py
@@ -51,6 +51,8 @@ def run_usecase(
         )
         usecase.initialize(num_days=num_days)
         usecase.load(fname)
+        # the peak time range must account for the users which have just been loaded
+        usecase.peak_time_range = usecase.calc_peak_time_range()
         Profiles_list = usecase.generate_daily_load_profiles(flat=False)
 
         if plot is True:
-- 
2.43.0


From dad5f4813cd145dc0dc3ec717bedc5f1a33cf02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 17/33] fix: parallel generation raised a KeyError for use
 cases without appliances

---
 ramp/core/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index ea7ea1a..debfde3 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -508,10 +508,9 @@ class UseCase:
 
             daily_profiles = np.zeros((self.num_days, 1440))
 
-            for day_idx in range(self.num_days):
-                daily_profiles[day_idx, :] = np.vstack(
-                    daily_profiles_dict[day_idx]
-                ).sum(axis=0)
+            # a day without any task (no users or no appliances) has no load
+            for day_idx, daily_loads in daily_profiles_dict.items():
+                daily_profiles[day_idx, :] = np.vstack(daily_loads).sum(axis=0)
 
         if flat is True:
             answer = daily_profiles.reshape(1, self.num_days * 1440).squeeze()
-- 
2.43.0


From 98b61926f70d2df0412a2228b2eca354942adfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 18/33] fix: parallel generation ignored the daily preference
 of the users

---
 ramp/core/core.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index debfde3..e7ff021 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -38,7 +38,8 @@ from ramp.errors_logs.errors import InvalidType, InvalidWindow
 
 
 def single_appliance_daily_load_profile(args):
-    app, args = args
+    app, rand_daily_pref, args = args
+    app.user.rand_daily_pref = rand_daily_pref
     app.generate_load_profile(*args, power=app.power[args[0]])
 
     return args[0], app.daily_use
@@ -482,10 +483,18 @@ class UseCase:
         for day_idx, day in enumerate(self.days):
             day_type = get_day_type(day)
             for user in self.users:
-                for app in user.App_list:
-                    for _ in range(user.num_users):
+                for _ in range(user.num_users):
+                    # each single user follows one preference per day, for all its appliances
+                    rand_daily_pref = user.draw_daily_preference()
+                    for app in user.App_list:
                         t = t + 1
-                        tasks.append((app, (day_idx, self.peak_time_range, day_type)))
+                        tasks.append(
+                            (
+                                app,
+                                rand_daily_pref,
+                                (day_idx, self.peak_time_range, day_type),
+                            )
+                        )
 
         daily_profiles_dict = {}
         timeout = 1
@@ -978,6 +987,12 @@ appliances: no appliances assigned to the user.
             name=name,
         )
 
+    def draw_daily_preference(self):
+        """Randomised preference followed by a single user during one day, 0 if the user has no preferences"""
+        return (
+            0 if self.user_preference == 0 else random.randint(1, self.user_preference)
+        )
+
     def generate_single_load_profile(
         self, prof_i: int = 0, peak_time_range: np.array = None, day_type: int = 0
     ):
@@ -1013,9 +1028,7 @@ appliances: no appliances assigned to the user.
 
         single_load = np.zeros(1440)
 
-        self.rand_daily_pref = (
-            0 if self.user_preference == 0 else random.randint(1, self.user_preference)
-        )
+        self.rand_daily_pref = self.draw_daily_preference()
 
         for (
             App
-- 
2.43.0


From 69ecb4c38d601f75ae4811b199000a1a5aa60719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 19/33] fix: parallel generation was not reproducible with
 random_seed

---
 ramp/core/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index e7ff021..7d1ad7c 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -38,7 +38,8 @@ from ramp.errors_logs.errors import InvalidType, InvalidWindow
 
 
 def single_appliance_daily_load_profile(args):
-    app, rand_daily_pref, args = args
+    app, rand_daily_pref, seed, args = args
+    random.seed(seed)
     app.user.rand_daily_pref = rand_daily_pref
     app.generate_load_profile(*args, power=app.power[args[0]])
 
@@ -492,6 +493,7 @@ class UseCase:
                             (
                                 app,
                                 rand_daily_pref,
+                                random.getrandbits(64),
                                 (day_idx, self.peak_time_range, day_type),
                             )
                         )
@@ -505,10 +507,10 @@ class UseCase:
                 desc=f"Computing appliances profiles",
                 unit="unit",
             ) as pbar:
-                imap_unordered_it = pool.imap_unordered(
+                imap_it = pool.imap(
                     single_appliance_daily_load_profile, tasks, chunksize=4
                 )
-                for prof_i, daily_load in imap_unordered_it:
+                for prof_i, daily_load in imap_it:
                     if prof_i in daily_profiles_dict:
                         daily_profiles_dict[prof_i].append(daily_load)
                     else:
-- 
2.43.0


From 52e6fd32e696beec7d2e788d37954088c3e04cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 20/33] fix: parallel generation waited forever when a worker
 process got killed

---
 ramp/core/core.py | 86 +++++++++++++++++++++++++++++++----------------
 1 file changed, 57 insertions(+), 29 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 7d1ad7c..5ca80c4 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -8,6 +8,7 @@ if needed, specific duty cycles
 import numpy as np
 import pandas as pd
 from tqdm import tqdm
+import concurrent.futures
 import multiprocessing
 import warnings
 import random
@@ -37,13 +38,31 @@ from typing import List, Union, Iterable
 from ramp.errors_logs.errors import InvalidType, InvalidWindow
 
 
+# appliances and peak time range of the usecase, within the workers of the parallel generation
+worker_appliances = []
+worker_peak_time_range = None
+
+
+def set_worker_appliances(appliances, peak_time_range):
+    global worker_appliances, worker_peak_time_range
+    worker_appliances = appliances
+    worker_peak_time_range = peak_time_range
+
+
 def single_appliance_daily_load_profile(args):
-    app, rand_daily_pref, seed, args = args
+    app_idx, rand_daily_pref, seed, (prof_i, day_type) = args
+    app = worker_appliances[app_idx]
     random.seed(seed)
     app.user.rand_daily_pref = rand_daily_pref
-    app.generate_load_profile(*args, power=app.power[args[0]])
+    app.generate_load_profile(
+        prof_i, worker_peak_time_range, day_type, power=app.power[prof_i]
+    )
 
-    return args[0], app.daily_use
+    return prof_i, app.daily_use
+
+
+def appliances_daily_load_profiles(tasks):
+    return [single_appliance_daily_load_profile(task) for task in tasks]
 
 
 warnings.simplefilter("always", DeprecationWarning)
@@ -478,50 +497,59 @@ class UseCase:
                     "You must provide days either with start and end date and run initialize() method of UseCase instance or as an argument of 'generate_daily_load_profiles'"
                 )
 
-        max_parallel_processes = multiprocessing.cpu_count()
+        max_parallel_processes = min(multiprocessing.cpu_count(), 61)  # Windows limit
         tasks = []
-        t = 0
+        self.collect_appliances_from_users()
         for day_idx, day in enumerate(self.days):
             day_type = get_day_type(day)
+            t = 0
             for user in self.users:
                 for _ in range(user.num_users):
                     # each single user follows one preference per day, for all its appliances
                     rand_daily_pref = user.draw_daily_preference()
-                    for app in user.App_list:
-                        t = t + 1
+                    for app_idx in range(t, t + len(user.App_list)):
                         tasks.append(
                             (
-                                app,
+                                app_idx,
                                 rand_daily_pref,
                                 random.getrandbits(64),
-                                (day_idx, self.peak_time_range, day_type),
+                                (day_idx, day_type),
                             )
                         )
-
-        daily_profiles_dict = {}
-        timeout = 1
-
-        with multiprocessing.Pool(max_parallel_processes) as pool:
+                t = t + len(user.App_list)
+
+        # a day without any task (no users or no appliances) has no load
+        daily_profiles = np.zeros((self.num_days, 1440))
+        chunksize = 4
+
+        # contrary to multiprocessing.Pool, which would wait forever, the executor raises if a worker gets killed
+        # the appliances are sent once to each worker: the queue of the executor must not fill up with large tasks
+        with concurrent.futures.ProcessPoolExecutor(
+            max_parallel_processes,
+            initializer=set_worker_appliances,
+            initargs=(self.appliances, self.peak_time_range),
+        ) as pool:
             with tqdm(
                 total=len(tasks),
                 desc=f"Computing appliances profiles",
                 unit="unit",
             ) as pbar:
-                imap_it = pool.imap(
-                    single_appliance_daily_load_profile, tasks, chunksize=4
-                )
-                for prof_i, daily_load in imap_it:
-                    if prof_i in daily_profiles_dict:
-                        daily_profiles_dict[prof_i].append(daily_load)
-                    else:
-                        daily_profiles_dict[prof_i] = [daily_load]
-                    pbar.update()
-
-            daily_profiles = np.zeros((self.num_days, 1440))
-
-            # a day without any task (no users or no appliances) has no load
-            for day_idx, daily_loads in daily_profiles_dict.items():
-                daily_profiles[day_idx, :] = np.vstack(daily_loads).sum(axis=0)
+                futures = []
+                try:
+                    for i in range(0, len(tasks), chunksize):
+                        futures.append(
+                            pool.submit(
+                                appliances_daily_load_profiles, tasks[i : i + chunksize]
+                            )
+                        )
+                    # the results are summed up in the order of the tasks, to be reproducible
+                    for future in futures:
+                        for prof_i, daily_load in future.result():
+                            daily_profiles[prof_i, :] += daily_load
+                            pbar.update()
+                finally:
+                    for future in futures:
+                        future.cancel()
 
         if flat is True:
             answer = daily_profiles.reshape(1, self.num_days * 1440).squeeze()
-- 
2.43.0


From 3bdcfe4541859c116fa330834cb7ddc6b76c37cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 21/33] fix: IndexError when the randomised duration of a
 non-continuous duty cycle is zero

---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 5ca80c4..13e454c 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1993,7 +1993,7 @@ class Appliance:
                     and self.continuous_duty_cycle == 0
                 ):
                     # Limit switch_on_window to duration of duty_cycle
-                    indexes = indexes[0:duty_cycle_duration]
+                    indexes = indexes[0 : max(1, duty_cycle_duration)]
         else:
             indexes = None
             # there are no available windows anymore
-- 
2.43.0


From 2639ce1cfb11fdd116dc655828cca3c8b740e59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 22/33] fix: ramp_convert could leave the converted input file
 truncated or half modified

---
 ramp/ramp_convert_old_input_files.py | 43 +++++++++++++++-------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index b8c4525..6e05f02 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -1,6 +1,6 @@
 # %% Import required modules
 
-import sys, os, importlib
+import sys, os, shutil, importlib
 
 sys.path.append("../")
 import argparse
@@ -61,31 +61,34 @@ def convert_old_user_input_file(
 
     """
 
-    line_to_change = -1
-
     # Check if the lines to save the names of the Appliance instances is already there
     # And check if the import of the User class is correct, otherwise adapt the file
-    with open(fname_path, "r") as fp:
+    with open(fname_path, "r", newline="") as fp:
         lines = fp.readlines()
-        if "# Code automatically added by ramp_convert_old_input_files.py\n" in lines:
-            keep_names = False
-        for i, l in enumerate(lines):
-            if "from core import" in l:
-                line_to_change = i
-        # Change import statement by explicitly naming the full package path
-        lines[line_to_change] = lines[line_to_change].replace(
-            "from core import", "from ramp.core.core import"
-        )
-
-    # Modify import statement in file
-    if line_to_change != -1:
-        with open(fname_path, "w") as fp:
-            fp.writelines(lines)
+    if "# Code automatically added by ramp_convert_old_input_files.py\n" in lines:
+        keep_names = False
+    # Change import statement by explicitly naming the full package path
+    new_lines = [
+        l.replace("from core import", "from ramp.core.core import") for l in lines
+    ]
 
     # Add code to the input file to assign the variable name of the Appliance instances to their name attribute
     if keep_names is True:
-        with open(fname_path, "a") as fp:
-            fp.write(convert_names)
+        new_lines.append(convert_names)
+
+    # The input file is replaced at once, so that it can not be left truncated or half modified
+    if new_lines != lines:
+        fname_real_path = os.path.realpath(fname_path)
+        tmp_fname = fname_real_path + ".tmp"
+        try:
+            with open(tmp_fname, "w", newline="") as fp:
+                fp.writelines(new_lines)
+            shutil.copymode(fname_real_path, tmp_fname)
+            os.replace(tmp_fname, fname_real_path)
+        except BaseException:
+            if os.path.exists(tmp_fname):
+                os.remove(tmp_fname)
+            raise
 
     fname = fname_path.replace(".py", "").replace(os.path.sep, ".")
 
-- 
2.43.0


From 7aab33b05bd63092ab7f91306b4b802f3638361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 23/33] fix: ramp_convert failed for absolute paths and reused
 previously imported modules

---
 ramp/ramp_convert_old_input_files.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index 6e05f02..23b148e 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -1,6 +1,6 @@
 # %% Import required modules
 
-import sys, os, shutil, importlib
+import sys, os, shutil, runpy
 
 sys.path.append("../")
 import argparse
@@ -90,17 +90,13 @@ def convert_old_user_input_file(
                 os.remove(tmp_fname)
             raise
 
-    fname = fname_path.replace(".py", "").replace(os.path.sep, ".")
-
     if output_path is None:
         output_path = os.path.dirname(fname_path)
-    output_fname = fname_path.split(os.path.sep)[-1].replace(".py", suffix)
+    output_fname = os.path.splitext(os.path.basename(fname_path))[0] + suffix
     output_fname = os.path.join(output_path, output_fname)
 
     sys.path.insert(0, os.path.dirname(os.path.abspath(fname_path)))
-    file_module = importlib.import_module(fname)
-
-    user_list = file_module.User_list
+    user_list = runpy.run_path(fname_path)["User_list"]
 
     UseCase(users=user_list).save(output_fname)
 
-- 
2.43.0


From b1e308716b1f2439233f99d1aa962e2e8463aaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 24/33] fix: ramp_convert flushes the converted input file to
 disk before it replaces the previous one

---
 ramp/ramp_convert_old_input_files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index 23b148e..4deba03 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -83,6 +83,8 @@ def convert_old_user_input_file(
         try:
             with open(tmp_fname, "w", newline="") as fp:
                 fp.writelines(new_lines)
+                fp.flush()
+                os.fsync(fp.fileno())
             shutil.copymode(fname_real_path, tmp_fname)
             os.replace(tmp_fname, fname_real_path)
         except BaseException:
-- 
2.43.0


From 7206ff29d80da42f3b2b8ce7e2a61dfca5c5c440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 25/33] fix: comparing appliances whose power series differ in
 length raised a ValueError

A user could not own both a constant-power appliance and one with a daily power series.
---
 ramp/core/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 13e454c..a539198 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1370,9 +1370,14 @@ class Appliance:
         answer = np.array([])
         for attribute in APPLIANCE_ATTRIBUTES:
             if hasattr(self, attribute) and hasattr(other_appliance, attribute):
+                # array_equal, as the daily power values of two appliances can differ in length
                 answer = np.append(
                     answer,
-                    [getattr(self, attribute) == getattr(other_appliance, attribute)],
+                    [
+                        np.array_equal(
+                            getattr(self, attribute), getattr(other_appliance, attribute)
+                        )
+                    ],
                 )
             elif (
                 hasattr(self, attribute) is False
-- 
2.43.0


From dc9172af92c3e67e37298956fd9e3b564eb2f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:09 +0000
Subject: [PATCH 26/33] fix: a daily power series given with its timestamps was
 read as the timestamps

---
 ramp/core/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index a539198..f57a67d 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1221,7 +1221,8 @@ class Appliance:
             power = power.values[:, 0]
 
         elif isinstance(power, str):
-            power = pd.read_json(power).values[:, 0]
+            # either the values only, or the timestamps followed by the values
+            power = pd.read_json(power).iloc[:, -1].to_numpy()
 
         elif isinstance(power, (float, int)):
             power = power * np.ones(self.user.num_days + 1)
-- 
2.43.0


From 98683017958184a08e2a890e4eac47a46240846f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:02 +0000
Subject: [PATCH 27/33] fix: a saved use case with a user without name could
 not be loaded

---
 ramp/core/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index f57a67d..6a44559 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -621,6 +621,9 @@ class UseCase:
         """
 
         df = read_input_file(filename=filename)
+        # an empty user name is saved as an empty cell
+        unnamed = df.user_name.isna() & df.num_users.notna()
+        df["user_name"] = df.user_name.astype(object).mask(unnamed, "")
         for user_name in df.user_name.unique():
             user_df = df.loc[df.user_name == user_name]
             num_users = user_df.num_users.unique()
-- 
2.43.0


From f6e1efbf905a348ea084dbd07e2aaff7aaec0bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:23 +0000
Subject: [PATCH 28/33] fix: ramp_convert named the appliances twice once the
 line endings of the input file had changed

---
 ramp/ramp_convert_old_input_files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index 4deba03..3abfdae 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -65,7 +65,10 @@ def convert_old_user_input_file(
     # And check if the import of the User class is correct, otherwise adapt the file
     with open(fname_path, "r", newline="") as fp:
         lines = fp.readlines()
-    if "# Code automatically added by ramp_convert_old_input_files.py\n" in lines:
+    # (whatever the line endings became since then)
+    if "# Code automatically added by ramp_convert_old_input_files.py" in [
+        l.rstrip("\r\n") for l in lines
+    ]:
         keep_names = False
     # Change import statement by explicitly naming the full package path
     new_lines = [
-- 
2.43.0


From 77e524b9ce7d16fcf05224e9a1f2f5fe21ee74f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:08 +0000
Subject: [PATCH 29/33] fix: the command line wrote the results of several
 inputs over one another when given a single output

---
 ramp/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/cli.py b/ramp/cli.py
index 394f238..bfc7296 100644
--- a/ramp/cli.py
+++ b/ramp/cli.py
@@ -160,7 +160,7 @@ def main():
             num_days = [None] * len(fnames)
 
         if month_files is False:
-            if len(ofnames) == 1:
+            if ofnames == [None]:
                 ofnames = ofnames * len(fnames)
             elif len(fnames) != len(ofnames):
                 raise ValueError(
-- 
2.43.0


From 1f4816f91f75eb01c490a652f9ac3b2de3578f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:03 +0000
Subject: [PATCH 30/33] fix: refuse to write the results of several input files
 to the same output file

---
 ramp/cli.py                       | 12 ++++++++++++
 ramp/post_process/post_process.py |  9 +++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/ramp/cli.py b/ramp/cli.py
index bfc7296..0ad5cfe 100644
--- a/ramp/cli.py
+++ b/ramp/cli.py
@@ -5,6 +5,7 @@ import os.path
 import pandas as pd
 import numpy as np
 from ramp.ramp_run import run_usecase
+from ramp.post_process.post_process import get_output_path
 
 BASE_PATH = os.path.dirname(os.path.abspath(__file__))
 
@@ -167,6 +168,17 @@ def main():
                     f"The number of output file paths({len(ofnames)}) should match the number of input files paths ({len(fnames)})"
                 )
 
+            # the results of one input file must not overwrite those of another one
+            output_paths = [
+                os.path.realpath(get_output_path(fname=fname, ofname=ofname))
+                for fname, ofname in zip(fnames, ofnames)
+                if fname.endswith(".xlsx")
+            ]
+            if len(set(output_paths)) != len(output_paths):
+                raise ValueError(
+                    "The results of several input files would be written to the same output file, please provide different output file paths with option -o"
+                )
+
             for i, fname in enumerate(fnames):
                 run_usecase(
                     fname=fname,
diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index 22ccb21..c31a41b 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -75,8 +75,7 @@ for i in range (len(Profile)):
 # Export Profiles
 
 
-def export_series(stoch_profiles_series, j=None, fname=None, ofname=None):
-    series_frame = pd.DataFrame(stoch_profiles_series)
+def get_output_path(j=None, fname=None, ofname=None):
     path_to_write = None
     if ofname is not None:
         path_to_write = ofname
@@ -91,6 +90,12 @@ def export_series(stoch_profiles_series, j=None, fname=None, ofname=None):
                 "results",
                 f'output_file_{os.path.split(fname)[-1].replace(".", "_")}.csv',
             )
+    return path_to_write
+
+
+def export_series(stoch_profiles_series, j=None, fname=None, ofname=None):
+    series_frame = pd.DataFrame(stoch_profiles_series)
+    path_to_write = get_output_path(j, fname, ofname)
 
     if path_to_write is not None:
         print(f"Writing RAMP results to {path_to_write}")
-- 
2.43.0


From 0c7ce8ca78ebaa5de065e0e13cc482baa548eabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 31/33] fix: rejected windows were left in the appliance

---
 ramp/core/core.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 6a44559..020fce9 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1451,35 +1451,36 @@ class Appliance:
                     "No windows is declared, default window of 24 hours is selected"
                 )
             )
-            self.window_1 = np.array([0, 1440])
-        else:
-            self.window_1 = window_1
+            window_1 = np.array([0, 1440])
 
         if window_2 is None:
             if self.num_windows >= 2:
                 raise InvalidWindow(
                     "Windows 2 is not provided although 2 windows were declared"
                 )
-        else:
-            self.window_2 = window_2
+            window_2 = self.window_2
 
         if window_3 is None:
             if self.num_windows == 3:
                 raise InvalidWindow(
                     "Windows 3 is not provided although 3 windows were declared"
                 )
-        else:
-            self.window_3 = window_3
+            window_3 = self.window_3
 
         # check that the time allocated by the windows is larger or equal to the func_time of the appliance
         window_time = 0
-        for i in range(1, self.num_windows + 1, 1):
-            window_time = window_time + np.diff(getattr(self, f"window_{i}"))[0]
+        new_windows = (window_1, window_2, window_3)
+        for i in range(self.num_windows):
+            window_time = window_time + np.diff(new_windows[i])[0]
         if window_time < self.func_time:
             raise InvalidWindow(
                 f"The sum of all windows time intervals for the appliance '{self.name}' of user '{self.user.user_name}' is smaller than the time the appliance is supposed to be on ({window_time} < {self.func_time}). Please check your input file for typos."
             )
 
+        # the windows are assigned once they have been checked, rejected ones leave the appliance unchanged
+        self.window_1 = window_1
+        self.window_2 = window_2
+        self.window_3 = window_3
         self.random_var_w = random_var_w
         self.daily_use = np.zeros(1440)  # create an empty daily use profile
         self.daily_use[self.window_1[0] : (self.window_1[1])] = np.full(
-- 
2.43.0


From 5cbdf958e45fc73ecfbf7dace46e38c3f6033242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 32/33] fix: a use case could not generate profiles anymore
 after a rejected reinitialization

---
 ramp/core/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 020fce9..ba2a7fe 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -250,6 +250,7 @@ class UseCase:
                 f"You will typically see this message if you provide 'date_start' and 'date_end' to a UseCase instance and want to call the method initialize() on top of that"
             )
         else:
+            previous_days = (self.days, self.__num_days)
             if self.is_initialized is True and force is True:
                 # logging.info
                 print(
@@ -328,8 +329,13 @@ class UseCase:
 
             # Verify that each appliance has long enough power data for the simulated time
             self.collect_appliances_from_users()
-            for app in self.appliances:
-                app.check_power_values(self.__num_days)
+            try:
+                for app in self.appliances:
+                    app.check_power_values(self.__num_days)
+            except ValueError:
+                # the usecase keeps the days it was able to generate profiles for
+                self.days, self.__num_days = previous_days
+                raise
 
             if peak_enlarge is not None:
                 self.peak_enlarge = peak_enlarge
-- 
2.43.0


From 15b64e88fb09b8402744840b38d8b097f49da8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:15 +0000
Subject: [PATCH 33/33] fix: a user whose power timeseries are too short was
 kept in the use case which refused it

---
 ramp/core/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index ba2a7fe..cb496a8 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -190,11 +190,16 @@ class UseCase:
             any type rather than User will raise the error.
         """
         if isinstance(user, User):
+            previous_usecase = user.usecase
             user.usecase = self
-            self.users.append(user)
             if self.is_initialized is True:
-                for app in user.App_list:
-                    app.check_power_values(self.num_days)
+                try:
+                    for app in user.App_list:
+                        app.check_power_values(self.num_days)
+                except ValueError:
+                    user.usecase = previous_usecase
+                    raise
+            self.users.append(user)
         elif isinstance(user, list):
             for u in user:
                 self.add_user(u)
-- 
2.43.0

