From 83ba8da4ca1a42e84a00b85ff5afcf6b7f79fe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:48 +0000
Subject: [PATCH 01/91] fix: seconds_to_t() rounds to the nearest time unit
 instead of truncating

---
 specula/base_time_obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/base_time_obj.py b/specula/base_time_obj.py
index f96c255..b76ac1d 100644
--- a/specula/base_time_obj.py
+++ b/specula/base_time_obj.py
@@ -73,7 +73,7 @@ class BaseTimeObj:
         return float(t) / float(self._time_resolution)
 
     def seconds_to_t(self, seconds):
-        return int(round(seconds, ndigits=9) * self._time_resolution)
+        return int(round(seconds * self._time_resolution))
 
     def startMemUsageCount(self):
         if hasattr(self, 'target_device_idx') and self.target_device_idx >= 0:
-- 
2.43.0


From 1d2ae046d1d7147480915dddb970ac2929b1d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:48 +0000
Subject: [PATCH 02/91] fix: detect the last iteration from the loop condition
 (t0 and partial last step)

---
 specula/loop_control.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specula/loop_control.py b/specula/loop_control.py
index 4aa0ba1..f353dd0 100644
--- a/specula/loop_control.py
+++ b/specula/loop_control.py
@@ -39,7 +39,8 @@ class LoopControl(BaseTimeObj):
         Returns:
             int: The number of iterations.
         """
-        return int((self.run_time + self.t0) / self.dt) if self.dt != 0 else 0
+        # A partial last step counts as a full iteration, see the loop condition in run()
+        return -(-self.run_time // self.dt) if self.dt != 0 else 0
 
     def run(self, run_time, dt, t0=0, speed_report=False):
         """
@@ -120,8 +121,8 @@ class LoopControl(BaseTimeObj):
 
     def iter(self):
 
-        # set the last_iter flag based on several conditions
-        last_iter = (self.iter_counter == self.niters()-1)
+        # No iteration follows this one, see the loop condition in run()
+        last_iter = self.run_time >= 0 and self.t + self.dt >= self.t0 + self.run_time
 
         for i in sorted(self.trigger_lists.keys()):
             # all the objects having this trigger order could be remote
-- 
2.43.0


From 8fed9a845d1969fded51478cf846f48d241da964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:26 +0000
Subject: [PATCH 03/91] fix: filters publish copies of the delay buffer, not
 views of it

The views changed when the buffer was shifted in the check phase of the next
step, before objects reading the command with ':-1' in the same trigger group
had used it, and when the filter was reset.
---
 specula/processing_objects/base_filter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/base_filter.py b/specula/processing_objects/base_filter.py
index 1252bb4..1ea98bd 100644
--- a/specula/processing_objects/base_filter.py
+++ b/specula/processing_objects/base_filter.py
@@ -124,14 +124,16 @@ class BaseFilter(BaseProcessingObj):
         super().post_trigger()
 
         # Calculate delayed output with interpolation
+        # (outputs must not be views of the buffer, which is shifted before
+        # objects with a delayed input have read them)
         if self.delay == 0:
-            output = self.output_buffer[:, 0]
+            output = self.output_buffer[:, 0].copy()
         else:
             remainder_delay = self.delay % 1
             delay_idx = int(np.ceil(self.delay))
 
             if remainder_delay == 0:
-                output = self.output_buffer[:, delay_idx]
+                output = self.output_buffer[:, delay_idx].copy()
             else:
                 output = (remainder_delay * self.output_buffer[:, delay_idx] +
                          (1 - remainder_delay) * self.output_buffer[:, delay_idx - 1])
@@ -140,7 +142,7 @@ class BaseFilter(BaseProcessingObj):
         self.out_comm.generation_time = self.current_time
 
         # No-delay output (for POLC)
-        self.out_comm_no_delay.value = self.output_buffer[:, 0]
+        self.out_comm_no_delay.value = self.output_buffer[:, 0].copy()
         self.out_comm_no_delay.generation_time = self.current_time
 
     @abstractmethod
-- 
2.43.0


From b45de13249e4353e24aa8a6979a4dd435d436b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:26 +0000
Subject: [PATCH 04/91] fix: BaseSlicer publishes a copy of the slice, not a
 view of its input

The published slice changed as soon as the producer of the input wrote its
next value in place.
---
 specula/processing_objects/base_slicer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/base_slicer.py b/specula/processing_objects/base_slicer.py
index 2910cd6..98a8eba 100644
--- a/specula/processing_objects/base_slicer.py
+++ b/specula/processing_objects/base_slicer.py
@@ -57,7 +57,8 @@ class BaseSlicer(BaseProcessingObj):
             self.out_value.value = value[self.indices]
         elif self.slice_obj is not None:
             # Use slice object to extract the desired values
-            self.out_value.value = value[self.slice_obj]
+            # Copy, because a slice is a view of the input data
+            self.out_value.value = value[self.slice_obj].copy()
         else:
             # No slicing, copy the whole value
             self.out_value.value = value.copy()
-- 
2.43.0


From bd96e18485d5fb29ad2cdf5d9a71db7d3724004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:26 +0000
Subject: [PATCH 05/91] fix: BaseOperation with constant_max/min allocates an
 output of the input's shape

The scalar it started from made the set-up of any following BaseOperation
allocate a scalar, which then failed at the first step.
---
 specula/processing_objects/base_operation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/base_operation.py b/specula/processing_objects/base_operation.py
index 884f881..ff7fb79 100644
--- a/specula/processing_objects/base_operation.py
+++ b/specula/processing_objects/base_operation.py
@@ -126,10 +126,8 @@ class BaseOperation(BaseProcessingObj):
         # Allocate output value
         if not self.constant_mul is None or not self.constant_sum is None:
             self.out_value.value = value1.value * 0.0
-        elif not self.constant_max is None:
-            self.out_value.value = self.constant_max
-        elif not self.constant_min is None:
-            self.out_value.value = self.constant_min
+        elif not self.constant_max is None or not self.constant_min is None:
+            self.out_value.value = value1.value * 0.0
         elif self.concat:
             self.out_value.value = self.xp.empty(len(value1.value) + len(value2.value))
         else:
-- 
2.43.0


From bac2d4afa41166ffb749d956d022a6d5349f663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:26 +0000
Subject: [PATCH 06/91] fix: BaseSlicer without indices sizes its output on its
 input at set-up

A whole-vector slicer, or one with open or negative slice limits, started with
an output of the wrong size, which objects reading it at set-up copied.
---
 specula/processing_objects/base_slicer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/specula/processing_objects/base_slicer.py b/specula/processing_objects/base_slicer.py
index 98a8eba..3794877 100644
--- a/specula/processing_objects/base_slicer.py
+++ b/specula/processing_objects/base_slicer.py
@@ -51,6 +51,15 @@ class BaseSlicer(BaseProcessingObj):
     def output_names(cls):
         return {'out_value': OutputDesc(BaseValue, 'Output sliced vector')}
 
+    def setup(self):
+        super().setup()
+        # Without a declared output size, follow the input
+        value = self.local_inputs['in_value'].value
+        if self.indices is None and value is not None:
+            if self.slice_obj is not None:
+                value = value[self.slice_obj]
+            self.out_value.value = self.xp.zeros_like(value)
+
     def trigger_code(self):
         value = self.local_inputs['in_value'].value
         if self.indices is not None:
-- 
2.43.0


From 6916757661565624a93f7561e95bce7ea46258f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:25 +0000
Subject: [PATCH 07/91] fix: replay parameters handle list and delayed inputs,
 keep needed objects, do not modify the original

---
 specula/simul.py | 93 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 60 insertions(+), 33 deletions(-)

diff --git a/specula/simul.py b/specula/simul.py
index cdc8039..5c2c5ff 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -759,22 +759,62 @@ class Simul():
                 data_source_objname = key
                 obj_to_remove.append(data_source_objname)
 
-        for obj_name in set(obj_to_remove):
-            del replay_params[obj_name]
-
         for key, pars in replay_params.items():
-            if not key=='data_source':
-                if 'inputs' in pars.keys():
-                    for input_name, output_name_full in pars['inputs'].items():
-                        if type(output_name_full) is list:
-                            print('TODO: list of inputs is not handled in output replay')
-                            continue
-                        print('output_name_full', output_name_full)
-                        if output_name_full in data_source_outputs.keys():
-                            replay_params[key]['inputs'][input_name] = 'data_source.' + data_source_outputs[output_name_full]
+            if key != 'data_source':
+                self.replace_recorded_inputs(pars, data_source_outputs)
+
+        # Recorded objects are kept only if some other object still needs them
+        # (for an unrecorded output, or through a reference parameter)
+        obj_to_remove = set(obj_to_remove)
+        needed = set()
+        to_visit = [x for x in replay_params if x not in obj_to_remove]
+        while len(to_visit) > 0:
+            key = to_visit.pop()
+            if key in needed or key not in replay_params:
+                continue
+            needed.add(key)
+            to_visit.extend(self.needed_objects(replay_params[key]))
+
+        for obj_name in obj_to_remove - needed:
+            del replay_params[obj_name]
 
         return replay_params
 
+    def replace_recorded_inputs(self, pars, data_source_outputs):
+        '''
+        Modify *pars* taking from data_source all the inputs that are
+        listed in *data_source_outputs*. All other inputs are unchanged.
+        '''
+        def replace(fullname):
+            output = self.split_output(fullname)
+            complete_key = f'{output.obj_name}.{output.output_key}'
+            if complete_key not in data_source_outputs:
+                return fullname
+            prefix = f'{output.input_name}-' if output.input_name else ''
+            suffix = f':{output.delay}' if output.delay else ''
+            return prefix + 'data_source.' + data_source_outputs[complete_key] + suffix
+
+        if pars.get('class') in ['DataSource', 'DataStore'] or 'inputs' not in pars:
+            return
+        for input_name, value in pars['inputs'].items():
+            if isinstance(value, list):
+                pars['inputs'][input_name] = [replace(x) for x in value]
+            elif isinstance(value, str):
+                pars['inputs'][input_name] = replace(value)
+
+    def needed_objects(self, pars):
+        '''
+        Names of all the objects referenced by *pars*,
+        either as inputs or as reference parameters.
+        '''
+        names = []
+        if pars.get('class') != 'DataSource':
+            names += [self.output_owner(x) for _, x in self.iterate_inputs(pars)]
+        for k, v in pars.items():
+            if k.endswith('_ref') and v is not None:
+                names += [self.output_owner(x) for x in ([v] if isinstance(v, str) else v)]
+        return names
+
     def build_targeted_replay(self, params, *target_object_names, set_store_dir=None):
         '''
         Build a replay file making sure that the target objects
@@ -810,28 +850,15 @@ class Simul():
             if key in replay_params:
                 return
 
-            replay_params[key] = params[key].copy()
+            # The original parameters must not be modified
+            replay_params[key] = deepcopy(params[key])
 
-            # Add all inputs
-            for k, _input in self.iterate_inputs(params[key]):
-                desc = self.split_output(_input)
-                # Use the complete key for lookup
-                complete_key = f"{desc.obj_name}.{desc.output_key}"
-                if complete_key in datastore_outputs:
-                    replay_params[key]['inputs'][k] = 'data_source.' + datastore_outputs[complete_key]
-                    continue
-                else:
-                    add_key(desc.obj_name)
-            # Add all references to other objects
-            for k, v in params[key].items():
-                if k.endswith('_list_ref'):
-                    for objname in v:
-                        add_key(objname)
-                elif k.endswith('_dict_ref'):
-                    for objname in v:
-                        add_key(objname)
-                elif k.endswith('_ref'):
-                    add_key(v)
+            # Inputs that have been recorded are loaded from disk
+            self.replace_recorded_inputs(replay_params[key], datastore_outputs)
+
+            # Add all other inputs and all references to other objects
+            for objname in self.needed_objects(replay_params[key]):
+                add_key(objname)
 
         for key in target_object_names:
             add_key(key)
-- 
2.43.0


From 72cad3739d1e61b3c467b5ec24f624ac9ae3a199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:18 +0000
Subject: [PATCH 08/91] fix: DataStore pickle files keep exact integer times in
 single precision

---
 specula/processing_objects/data_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 9f7cdff..72fb976 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -123,7 +123,7 @@ class DataStore(BaseProcessingObj):
         self.replay_params = replay_params
 
     def save_pickle(self):
-        times = {k: np.array(list(v.keys()), dtype=self.dtype)
+        times = {k: np.array(list(v.keys()), dtype=np.uint64)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
         data = {k: np.array(list(v.values()), dtype=self.dtype)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
-- 
2.43.0


From a4e46440d3a664d9e7e6ad4cdae7e5b329204264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:15 +0000
Subject: [PATCH 09/91] fix: the additional trigger of DataStore.finalize() is
 not a new sample, and an incomplete last chunk is saved

---
 specula/processing_objects/data_store.py | 28 +++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 72fb976..be140e1 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -82,6 +82,8 @@ class DataStore(BaseProcessingObj):
             for key, value in (downsample_factor_by_input or {}).items()
         }
         self.input_sample_counters = defaultdict(int)
+        self.last_sample_times = {}
+        self.finalizing = False
         self.init_storage()
 
     @classmethod
@@ -214,12 +216,23 @@ class DataStore(BaseProcessingObj):
 
         for k, item in self.local_inputs.items():
             if item is not None and item.generation_time == self.current_time:
-                if not self._should_store_input(k):
-                    continue
+                if self.last_sample_times.get(k) == self.current_time:
+                    # Already received in this step (additional trigger in finalize()):
+                    # not a new sample, just refresh its value if it was stored.
+                    if k not in self.storage or self.current_time not in self.storage[k]:
+                        continue
+                else:
+                    self.last_sample_times[k] = self.current_time
+                    if not self._should_store_input(k):
+                        continue
                 value = item.get_value()
                 v = cpuArray(value, force_copy=True)
                 self.storage[k][self.current_time] = v
 
+        # The additional trigger in finalize() is not an iteration
+        if self.finalizing:
+            return
+
         # If we are saving a split TN, check whether it is time to save a new chunk
         # In case, clear the storage dictionary to restart with an empty one.
         self.iter_counter += 1
@@ -251,9 +264,18 @@ class DataStore(BaseProcessingObj):
 
         # Perform an additional trigger to ensure all data is captured,
         # including any calculations done in other objects' finalize() methods
+        self.finalizing = True
         self.trigger_code()
+        self.finalizing = False
 
-        if self.split_size == 0:
+        if self.split_size > 0:
+            # Save the last chunk, if incomplete
+            if len(self.storage) > 0:
+                first_iter = self.iter_counter - self.iter_counter % self.split_size
+                self.create_TN_folder(suffix=f'_{first_iter + self.first_suffix}')
+                self.save()
+                self.init_storage()
+        else:
             if self.create_tn:
                 self.create_TN_folder()
             else:
-- 
2.43.0


From e5fd7deec4d0a0bd285233db408e4175ed5fe513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:14 +0000
Subject: [PATCH 10/91] fix: DataBuffer accepts scalar values

---
 specula/processing_objects/data_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/data_buffer.py b/specula/processing_objects/data_buffer.py
index bebaa43..17dcca0 100644
--- a/specula/processing_objects/data_buffer.py
+++ b/specula/processing_objects/data_buffer.py
@@ -41,7 +41,7 @@ class DataBuffer(BaseProcessingObj):
         for k, item in self.local_inputs.items():
             if item is not None and item.generation_time == self.current_time:
                 v = item.get_value()
-                self.storage[k][self.step_counter] = v.copy()
+                self.storage[k][self.step_counter] = self.xp.array(v)
 
         self.step_counter += 1
 
-- 
2.43.0


From 1d6c0c3b854fb9c187a071665d4fbf5b5c78805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:06 +0000
Subject: [PATCH 11/91] fix: an invalid gain update no longer stops the
 simulation of dynamic filters

---
 specula/processing_objects/dynamic_iir_filter.py | 2 +-
 specula/processing_objects/dynamic_integrator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/dynamic_iir_filter.py b/specula/processing_objects/dynamic_iir_filter.py
index 9e91587..758a1cb 100644
--- a/specula/processing_objects/dynamic_iir_filter.py
+++ b/specula/processing_objects/dynamic_iir_filter.py
@@ -82,4 +82,4 @@ class DynamicIirFilter(IirFilter):
                 int_gain = cpuArray(gain_input.get_value())
                 self.iir_filter_data.set_gain(int_gain)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
diff --git a/specula/processing_objects/dynamic_integrator.py b/specula/processing_objects/dynamic_integrator.py
index d8c2b68..1678751 100644
--- a/specula/processing_objects/dynamic_integrator.py
+++ b/specula/processing_objects/dynamic_integrator.py
@@ -91,4 +91,4 @@ class DynamicIntegrator(Integrator):
                 int_gain = float(gain_input.value)
                 self.iir_filter_data.set_gain(int_gain)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
-- 
2.43.0


From c51b3a0718dfe0f506ce87783b2a51f96751a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:06 +0000
Subject: [PATCH 12/91] fix: DynamicIntegrator accepts gain updates given as
 arrays

---
 specula/processing_objects/dynamic_integrator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_integrator.py b/specula/processing_objects/dynamic_integrator.py
index 1678751..4643537 100644
--- a/specula/processing_objects/dynamic_integrator.py
+++ b/specula/processing_objects/dynamic_integrator.py
@@ -1,4 +1,5 @@
 
+from specula import cpuArray, np
 from specula.processing_objects.integrator import Integrator
 from specula.base_processing_obj import InputDesc, OutputDesc
 from specula.data_objects.simul_params import SimulParams
@@ -88,7 +89,9 @@ class DynamicIntegrator(Integrator):
         try:
             gain_input = self.local_inputs['int_gain']
             if gain_input is not None and gain_input.generation_time == self.current_time:
-                int_gain = float(gain_input.value)
+                int_gain = np.array(cpuArray(gain_input.value), dtype=float)
+                if int_gain.size == 1:
+                    int_gain = int_gain.item()
                 self.iir_filter_data.set_gain(int_gain)
         except Exception as e:
             print(f'Exception: {type(e).__name__}: {e}')
-- 
2.43.0


From 554cbd9a8b0792bcfeadab4b96dd905323975c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:43 +0000
Subject: [PATCH 13/91] fix: a filter built with zero gain reacts to later gain
 updates

---
 specula/data_objects/iir_filter_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index 1b7b19f..f70cc4b 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -115,6 +115,8 @@ class IirFilterData(BaseDataObj):
         nonzero_gain = np.abs(gain) > 0
         safe_gain = np.where(nonzero_gain, gain, 1.0)
         num_normalized = mynum / safe_gain[:, None]
+        # Filters with zero gain: a gain set later acts on the newest input
+        num_normalized[~np.any(mynum, axis=1), -1] = 1.0
         self.gain = self.to_xp(gain, dtype=self.dtype)
         self._num_normalized = self.to_xp(num_normalized, dtype=self.dtype)
         self.zeros = None
-- 
2.43.0


From 43df096c9b6f5b78542bd8de69aff67021c08847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:01 +0000
Subject: [PATCH 14/91] fix: a gain update of some filters leaves the
 numerators of the others unchanged

---
 specula/data_objects/iir_filter_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index f70cc4b..af746fc 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -187,7 +187,11 @@ class IirFilterData(BaseDataObj):
         current_gain[:nfilter] = self.xp.where(finite_gain, gain[:nfilter], current_gain[:nfilter])
 
         self.gain = self.to_xp(current_gain, dtype=self.dtype)
-        self.num = self.to_xp(self._num_normalized * self.gain[:, None], dtype=self.dtype)
+        new_num = self.to_xp(self._num_normalized * self.gain[:, None], dtype=self.dtype)
+        # Filters whose gain is not updated keep their numerator
+        new_num[nfilter:] = self.num[nfilter:]
+        new_num[:nfilter] = self.xp.where(finite_gain[:, None], new_num[:nfilter], self.num[:nfilter])
+        self.num = new_num
 
         if verbose:
             print('new gain:', self.gain)
-- 
2.43.0


From f7de55455caa87d129b642549bb68af557755a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:36 +0000
Subject: [PATCH 15/91] fix: LowPassFilter without order or amplification
 factor uses the default order

---
 specula/processing_objects/low_pass_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/processing_objects/low_pass_filter.py b/specula/processing_objects/low_pass_filter.py
index c733405..f6a280c 100644
--- a/specula/processing_objects/low_pass_filter.py
+++ b/specula/processing_objects/low_pass_filter.py
@@ -28,6 +28,8 @@ class LowPassFilter(IirFilter):
             iir_filter_data = IirFilterData.lpf_from_fc_and_ampl(cutoff_freq, amplif_fact,
                                                samp_freq, target_device_idx=target_device_idx)
         else:
+            if n_ord is None:
+                n_ord = 2
             iir_filter_data = IirFilterData.lpf_from_fc(cutoff_freq, samp_freq, n_ord=n_ord,
                                                         target_device_idx=target_device_idx)
 
-- 
2.43.0


From dff7dd8d369a4f7c09c2aa55ae7765d45ffc8975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:58 +0000
Subject: [PATCH 16/91] fix: rebin2d handles rectangular arrays wider than high

---
 specula/lib/rebin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/rebin.py b/specula/lib/rebin.py
index b1435f0..9efd4be 100644
--- a/specula/lib/rebin.py
+++ b/specula/lib/rebin.py
@@ -48,11 +48,11 @@ def rebin2d(a, shape, sample=False, xp=None):
         M, N = a.shape
         m, n = shape
 
-        if m<=M and n<=M:
+        if m<=M and n<=N:
             if (M//m != M/m) or (N//n != N/n):
                 raise ValueError('Resampling by non-integer factors is not supported')
             return a.reshape((m,M//m,n,N//n)).mean(3).mean(1)
-        elif m>=M and n>=M:
+        elif m>=M and n>=N:
             raise ValueError('Upsampling with sample=False is not supported')
         else:
             raise ValueError('Upsampling and downsampling in different axes it not supported')
-- 
2.43.0


From 7bdd2226f9534ed0a19c8ab3ae28b36f51f454c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:58 +0000
Subject: [PATCH 17/91] fix: Demodulator selects the configured modes also in
 one-dimensional data

---
 specula/processing_objects/demodulator.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/specula/processing_objects/demodulator.py b/specula/processing_objects/demodulator.py
index aaa07d3..5910f50 100644
--- a/specula/processing_objects/demodulator.py
+++ b/specula/processing_objects/demodulator.py
@@ -56,12 +56,7 @@ class Demodulator(BaseProcessingObj):
         data = self.local_inputs['in_data'].get_value()
 
         # Extract data for the specified modes
-        if data.ndim > 1:
-            # Multi-dimensional data - extract modes
-            mode_data = data[self.mode_numbers]
-        else:
-            # 1D data
-            mode_data = data
+        mode_data = data[self.mode_numbers]
 
         self.data_history.append(mode_data.copy())
         self.time_history.append(t)
-- 
2.43.0


From 7b7111d338a2ead08cbf4ab27254adc20aca1911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:28 +0000
Subject: [PATCH 18/91] fix: Modalrec in POLC mode accepts a list of command
 vectors

---
 specula/processing_objects/modalrec.py               | 6 +++++-
 specula/processing_objects/modalrec_implicit_polc.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 9ae7e68..5d0dda2 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -143,7 +143,11 @@ class Modalrec(BaseProcessingObj):
             commands = self.local_inputs['in_commands']
             commands_list = self.local_inputs['in_commands_list']
             if commands is None:
-                self.commands[:] = self.xp.hstack([x.commands for x in commands_list])
+                if any(x.value is None for x in commands_list):
+                    # value will be None in the first iteration
+                    self.commands[:] = 0.0
+                else:
+                    self.commands[:] = self.xp.hstack([x.value for x in commands_list])
             else:
                 if commands.value is None:
                     # value will be None in the first iteration
diff --git a/specula/processing_objects/modalrec_implicit_polc.py b/specula/processing_objects/modalrec_implicit_polc.py
index a2f37fc..3f5962a 100644
--- a/specula/processing_objects/modalrec_implicit_polc.py
+++ b/specula/processing_objects/modalrec_implicit_polc.py
@@ -101,7 +101,7 @@ class ModalrecImplicitPolc(Modalrec):
         if commandsobj is not None and commandsobj.value is not None \
                                    and commandsobj.value.shape != ():
             self.commands[:] = self.to_xp(commandsobj.value, dtype=self.dtype)
-        elif commands_list and all(commands_list):
+        elif commands_list and all(x.value is not None for x in commands_list):
             self.commands[:] = self.xp.hstack([x.value for x in commands_list])
         # else: keep the zeros from setup() or previous iteration
 
-- 
2.43.0


From 1a6b33d106fe4450e5d35d1bb777bd4b5f0aa8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:12 +0000
Subject: [PATCH 19/91] fix: POLC reconstructors run whenever, and only when,
 any of their slopes are refreshed

---
 specula/processing_objects/modalrec.py        | 21 +++++++------------
 .../modalrec_implicit_polc.py                 |  4 ++++
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 5d0dda2..63610d4 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -163,6 +163,12 @@ class Modalrec(BaseProcessingObj):
                                 f"intmat @ commands will produce {expected_slopes_size} slopes, "
                                 f"but input slopes has size {len(self.slopes)}")
 
+    def _slopes_refreshed(self):
+        """True if any of the input slopes has been refreshed at the current time."""
+        slopes = self.local_inputs['in_slopes']
+        slopes_list = [slopes] if slopes is not None else self.local_inputs['in_slopes_list']
+        return any(x.generation_time == self.current_time for x in slopes_list)
+
     def trigger_code(self):
         if self.recmat.recmat is None:
             print("WARNING: modalrec skipping reconstruction because recmat is NULL")
@@ -171,19 +177,8 @@ class Modalrec(BaseProcessingObj):
         # In the polc case, commands may be *alwats* refreshed if they are set with -1
         # (it might result in a kind of loop in the yml file)
         # Therefor we check the slopes input time and only run when they have been refreshed.
-        if self.polc:
-
-            slopes = self.local_inputs['in_slopes']
-            slopes_list = self.local_inputs['in_slopes_list']
-
-            if slopes is not None:
-                slopes_time = slopes.generation_time
-            else:
-                slopes_time = slopes_list[0].generation_time
-
-            if slopes_time != self.current_time:
-                return
-
+        if self.polc and not self._slopes_refreshed():
+            return
 
         if self.polc:
 
diff --git a/specula/processing_objects/modalrec_implicit_polc.py b/specula/processing_objects/modalrec_implicit_polc.py
index 3f5962a..e4b3135 100644
--- a/specula/processing_objects/modalrec_implicit_polc.py
+++ b/specula/processing_objects/modalrec_implicit_polc.py
@@ -107,6 +107,10 @@ class ModalrecImplicitPolc(Modalrec):
 
     def trigger_code(self):
 
+        # Run only when the slopes have been refreshed, as in Modalrec
+        if not self._slopes_refreshed():
+            return
+
         output_modes = self.comm_mat.recmat @ self.slopes - self.h_mat.recmat @ self.commands
         self.modes.value = output_modes
         self.modes.generation_time = self.current_time
-- 
2.43.0


From 4e3b7214e12a5b100bcc850964bd4556fa1cf914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:17 +0000
Subject: [PATCH 20/91] fix: Modalrec options do not modify a reconstruction
 matrix shared with other objects

---
 specula/processing_objects/modalrec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 63610d4..d803d70 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
 from specula.base_value import BaseValue
 from specula.connections import InputList, InputValue
@@ -53,6 +55,7 @@ class Modalrec(BaseProcessingObj):
 
             if ncutmodes:
                 if recmat is not None:
+                    recmat = copy(recmat)   # the original may be used by other objects
                     recmat.reduce_size(ncutmodes)
                 else:
                     print('recmat cannot be reduced because it is null.')
@@ -69,6 +72,7 @@ class Modalrec(BaseProcessingObj):
                     raise ValueError('dmNumber (>0) must be defined if projmat_tag is not defined!')
 
         if filtmat is not None and recmat is not None:
+            recmat = copy(recmat)   # the original may be used by other objects
             recmat.recmat = recmat.recmat @ filtmat
             print('recmat updated with filmat!')
 
-- 
2.43.0


From 7310dada093a0fca1fecc2c5f2f5cdfe23f3016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:24 +0000
Subject: [PATCH 21/91] fix: BaseSlicer accepts slices with negative bounds

---
 specula/processing_objects/base_slicer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/base_slicer.py b/specula/processing_objects/base_slicer.py
index 3794877..aa4ca51 100644
--- a/specula/processing_objects/base_slicer.py
+++ b/specula/processing_objects/base_slicer.py
@@ -34,7 +34,7 @@ class BaseSlicer(BaseProcessingObj):
             stop = self.slice_obj.stop
             step = self.slice_obj.step if self.slice_obj.step is not None else 1
             if start is not None and stop is not None:
-                n_elements = (stop - start + step - 1) // step
+                n_elements = max(0, (stop - start + step - 1) // step)
         value = self.xp.zeros(n_elements, dtype=self.dtype) \
             if n_elements is not None else self.xp.array([], dtype=self.dtype)
         # ----------------------------------
-- 
2.43.0


From e0aeccbba26cc440be7f14db2834ab18f5a60549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:24 +0000
Subject: [PATCH 22/91] fix: Source with infinite height (the default) can be
 saved

---
 specula/data_objects/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/source.py b/specula/data_objects/source.py
index bd96520..ceee7f3 100644
--- a/specula/data_objects/source.py
+++ b/specula/data_objects/source.py
@@ -78,7 +78,8 @@ class Source(BaseDataObj):
         hdr['PCOORD1'] = self.orig_polar_coordinates[1]
         hdr['MAGNITUD'] = self.magnitude
         hdr['WAVELENG'] = self.wavelengthInNm
-        hdr['HEIGHT'] = self.height
+        # FITS headers cannot hold an infinite value
+        hdr['HEIGHT'] = self.height if np.isfinite(self.height) else str(self.height)
         hdr['BAND'] = self.band
         hdr['ZEROPNT'] = self.zero_point
         hdr['ERR_CRD0'] = self.error_coord[0]
@@ -176,7 +177,7 @@ class Source(BaseDataObj):
         return Source(polar_coordinates=[ hdr['PCOORD0'], hdr['PCOORD1']],
                  magnitude=hdr['MAGNITUD'],
                  wavelengthInNm=hdr['WAVELENG'],
-                 height=hdr['HEIGHT'],
+                 height=float(hdr['HEIGHT']),
                  band=hdr['BAND'],
                  zero_point=hdr['ZEROPNT'],
                  error_coord=[ hdr['ERR_CRD0'], hdr['ERR_CRD1']],
-- 
2.43.0


From fab61b68b0c3ab1691a470a16498ee261aec6ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:37 +0000
Subject: [PATCH 23/91] fix: Intmat.restore assigns each restored attribute to
 its own parameter

---
 specula/data_objects/intmat.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/intmat.py b/specula/data_objects/intmat.py
index 34a42e5..45f1063 100644
--- a/specula/data_objects/intmat.py
+++ b/specula/data_objects/intmat.py
@@ -169,8 +169,10 @@ class Intmat(BaseDataObj):
                 slope_mm = hdul[2].data.copy()
                 slope_rms = hdul[3].data.copy()
             else:
-                slope_mm = slope_rms = None
-        return Intmat(intmat, slope_mm, slope_rms, pupdata_tag, subapdata_tag, norm_factor, target_device_idx=target_device_idx)
+                slope_mm = hdul['SLOPEMM'].data.copy() if 'SLOPEMM' in hdul else None
+                slope_rms = hdul['SLOPERMS'].data.copy() if 'SLOPERMS' in hdul else None
+        return Intmat(intmat, slope_mm=slope_mm, slope_rms=slope_rms, pupdata_tag=pupdata_tag,
+                      subapdata_tag=subapdata_tag, norm_factor=norm_factor, target_device_idx=target_device_idx)
 
     def generate_rec(self, nmodes=None, cut_modes=0, w_vec=None, interactive=False):
         if nmodes is not None:
-- 
2.43.0


From 90bfc2bc1c3f9db3b0f5b4f088a3b3b837c44d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:24 +0000
Subject: [PATCH 24/91] fix: influence functions with a boolean mask can be
 saved

---
 specula/data_objects/ifunc.py     | 5 ++++-
 specula/data_objects/ifunc_inv.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/ifunc.py b/specula/data_objects/ifunc.py
index 0923b7a..94f0b87 100644
--- a/specula/data_objects/ifunc.py
+++ b/specula/data_objects/ifunc.py
@@ -183,7 +183,10 @@ class IFunc(BaseDataObj):
         hdu = fits.PrimaryHDU(header=hdr)
         hdul = fits.HDUList([hdu])
         hdul.append(fits.ImageHDU(data=cpuArray(self._influence_function.T), name='INFLUENCE_FUNCTION'))
-        hdul.append(fits.ImageHDU(data=cpuArray(self._mask_inf_func), name='MASK_INF_FUNC'))
+        mask = cpuArray(self._mask_inf_func)
+        if mask.dtype == bool:   # not supported by FITS
+            mask = mask.astype('uint8')
+        hdul.append(fits.ImageHDU(data=mask, name='MASK_INF_FUNC'))
         hdul.writeto(filename, overwrite=overwrite)
         hdul.close()  # Force close for Windows
 
diff --git a/specula/data_objects/ifunc_inv.py b/specula/data_objects/ifunc_inv.py
index 0070be0..03d8823 100644
--- a/specula/data_objects/ifunc_inv.py
+++ b/specula/data_objects/ifunc_inv.py
@@ -88,7 +88,10 @@ class IFuncInv(BaseDataObj):
         hdu = fits.PrimaryHDU(header=hdr)
         hdul = fits.HDUList([hdu])
         hdul.append(fits.ImageHDU(data=cpuArray(self.ifunc_inv.T), name='INFLUENCE_FUNCTION_INV'))
-        hdul.append(fits.ImageHDU(data=cpuArray(self.mask_inf_func), name='MASK_INF_FUNC'))
+        mask = cpuArray(self.mask_inf_func)
+        if mask.dtype == bool:   # not supported by FITS
+            mask = mask.astype('uint8')
+        hdul.append(fits.ImageHDU(data=mask, name='MASK_INF_FUNC'))
         hdul.writeto(filename, overwrite=overwrite)
         hdul.close()  # Force close for Windows
 
-- 
2.43.0


From 03e444b77ecb5f07762f4ddfdbbfbf091d9243ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:24 +0000
Subject: [PATCH 25/91] fix: scalar values that are not finite, or held in a
 0-d array, survive saving and restoring

---
 specula/base_value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/base_value.py b/specula/base_value.py
index 2704de3..f915b17 100644
--- a/specula/base_value.py
+++ b/specula/base_value.py
@@ -39,7 +39,7 @@ class BaseValue(BaseDataObj):
     def save(self, filename, overwrite=False):
         hdr = self.get_fits_header()
 
-        if type(self.value) in array_types:
+        if type(self.value) in array_types and self.value.ndim > 0:
             data = cpuArray(self.value)
             hdr['NDARRAY'] = 1
         else:
@@ -60,7 +60,7 @@ class BaseValue(BaseDataObj):
         else:
             value_str = hdr.get('VALUE', None)
             if value_str is not None:
-                v.value = eval(value_str)  # Convert back from string to original type
+                v.value = eval(value_str, {'np': np, 'nan': np.nan, 'inf': np.inf})  # Convert back from string to original type
         return v
 
     def array_for_display(self):
-- 
2.43.0


From e421a8a4b2547cbc2d58319cd9c9431fa37c0278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:29 +0000
Subject: [PATCH 26/91] fix: transferDataTo copies also the arrays it
 reallocates

---
 specula/base_data_obj.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/base_data_obj.py b/specula/base_data_obj.py
index fcca3ce..7abe3bb 100644
--- a/specula/base_data_obj.py
+++ b/specula/base_data_obj.py
@@ -103,15 +103,15 @@ class BaseDataObj(BaseTimeObj):
                     with warnings.catch_warnings():
                         if self.PerformanceWarning:
                             warnings.simplefilter("ignore", category=self.PerformanceWarning)
-                        setattr(destobj, attr, cp.asarray(self_attr))
+                        setattr(destobj, attr, cp.array(self_attr))
                 if DtH:
                     # Do not set blocking=True for cupy 12.x compatibility.
                     # Blocking is True by default in later versions anyway
                     setattr(destobj, attr, self_attr.get())
                 if HtD:
-                    setattr(destobj, attr, cp.asarray(self_attr))
+                    setattr(destobj, attr, cp.array(self_attr))
                 if HtH:
-                    setattr(destobj, attr, np.asarray(self_attr))
+                    setattr(destobj, attr, np.array(self_attr))
 
         destobj.generation_time = self.generation_time
 
-- 
2.43.0


From 655515a198af18031e70eda1b5212a66ed539593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:29 +0000
Subject: [PATCH 27/91] fix: transferDataTo handles arrays that changed shape
 and 0-d arrays

---
 specula/base_data_obj.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/specula/base_data_obj.py b/specula/base_data_obj.py
index 7abe3bb..305e68f 100644
--- a/specula/base_data_obj.py
+++ b/specula/base_data_obj.py
@@ -52,12 +52,15 @@ class BaseDataObj(BaseTimeObj):
             if self_type not in array_types:
                 continue
 
-            dest_attr = getattr(destobj, attr)
+            dest_attr = getattr(destobj, attr, None)
             dest_type = type(dest_attr)
 
             if dest_type not in array_types:
                 print(f'Warning: destination attribute is not a cupy/numpy array, forcing reallocation ({destobj}.{attr})')
                 force_reallocation = True
+            elif dest_attr.shape != self_attr.shape:
+                print(f'Warning: destination array has a different shape, forcing reallocation ({destobj}.{attr})')
+                force_reallocation = True
 
             # Destination array had the correct type: perform in-place data copy
             if not force_reallocation:
@@ -75,9 +78,9 @@ class BaseDataObj(BaseTimeObj):
                         if self.PerformanceWarning:
                             warnings.simplefilter("ignore", category=self.PerformanceWarning)
                         try:
-                            dest_attr[:] = self_attr
+                            dest_attr[...] = self_attr
                         except:
-                            dest_attr = self_attr
+                            setattr(destobj, attr, cp.array(self_attr))
                 elif DtH:
                     # Do not set blocking=True for cupy 12.x compatibility.
                     # Blocking is True by default in later versions anyway
@@ -85,7 +88,7 @@ class BaseDataObj(BaseTimeObj):
                 elif HtD:
                     dest_attr.set(self_attr)
                 elif HtH:
-                    dest_attr[:] = self_attr
+                    dest_attr[...] = self_attr
                 else:
                     print(f'Warning: mismatch between target_device_idx and array allocation, forcing reallocation ({destobj}.{attr})')
                     force_reallocation = True
-- 
2.43.0


From d259c2538f761e0c5a685af510b9ac2cb2d966ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:29 +0000
Subject: [PATCH 28/91] fix: scalar values are refreshed when they are
 transferred to a copy

---
 specula/base_value.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/specula/base_value.py b/specula/base_value.py
index f915b17..416b8fd 100644
--- a/specula/base_value.py
+++ b/specula/base_value.py
@@ -36,6 +36,12 @@ class BaseValue(BaseDataObj):
         else:
             self.value = self.to_xp(val, force_copy=True, dtype=self.dtype)
 
+    def transferDataTo(self, destobj, force_reallocation=False):
+        '''Transfer also values that are not arrays (scalars or None)'''
+        super().transferDataTo(destobj, force_reallocation=force_reallocation)
+        if type(self.value) not in array_types:
+            destobj.value = self.value
+
     def save(self, filename, overwrite=False):
         hdr = self.get_fits_header()
 
-- 
2.43.0


From 22fa7d1435fd8807374077dbcd735e175db982b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 29/91] fix: ImCalibrator ignores commands of modes before
 first_mode

---
 specula/processing_objects/im_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/im_calibrator.py b/specula/processing_objects/im_calibrator.py
index 95ab6a4..91a00ee 100644
--- a/specula/processing_objects/im_calibrator.py
+++ b/specula/processing_objects/im_calibrator.py
@@ -179,7 +179,7 @@ class ImCalibrator(BaseProcessingObj):
 
         if len(idx)>0:
             mode = int(idx[0]) - self.first_mode
-            if mode < self.nmodes:
+            if 0 <= mode < self.nmodes:
                 self.intmat.modes[mode] += slopes / commands[idx]
                 self.count_commands[mode] += 1
 
-- 
2.43.0


From 071a38917161930ccb54d267837630fbe383fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 30/91] fix: ImCalibrator in verbose mode reports the shape of
 the interaction matrix

---
 specula/processing_objects/im_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/im_calibrator.py b/specula/processing_objects/im_calibrator.py
index 91a00ee..1da4ec4 100644
--- a/specula/processing_objects/im_calibrator.py
+++ b/specula/processing_objects/im_calibrator.py
@@ -171,7 +171,7 @@ class ImCalibrator(BaseProcessingObj):
         if self.intmat.nslopes == 0:
             self.intmat.set_nslopes(len(slopes))
             if self.verbose:
-                print(f"Initialized interaction matrix: {self.im.value.shape}")
+                print(f"Initialized interaction matrix: {self.intmat.intmat.shape}")
             for i in range(self.nmodes):
                 self.single_im[i].set_nslopes(len(slopes))
 
-- 
2.43.0


From 54032d5d041569e56d85953598d0862486214d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 31/91] fix: MultiImCalibrator does not count slopes that have
 not been refreshed

---
 specula/processing_objects/multi_im_calibrator.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/specula/processing_objects/multi_im_calibrator.py b/specula/processing_objects/multi_im_calibrator.py
index 05e3fac..41d4463 100644
--- a/specula/processing_objects/multi_im_calibrator.py
+++ b/specula/processing_objects/multi_im_calibrator.py
@@ -63,6 +63,9 @@ class MultiImCalibrator(BaseProcessingObj):
         # Add counts tracking for each input, this is used to normalize the IM
         self.count_commands = [np.zeros(nmodes, dtype=int) for _ in range(n_inputs)]
 
+        # Which slopes have been refreshed in this iteration
+        self._refreshed = None
+
         self.inputs['in_slopes_list'] = InputList(type=Slopes)
         self.inputs['in_commands_list'] = InputList(type=BaseValue)
 
@@ -112,6 +115,12 @@ class MultiImCalibrator(BaseProcessingObj):
         return {'out_intmat_list': OutputDesc(Intmat, 'List of per-WFS/sensor interaction matrices'),
                 'out_intmat_full': OutputDesc(Intmat, 'Full stacked interaction matrix from all sensors')}
 
+    def prepare_trigger(self, t):
+        super().prepare_trigger(t)
+        # We could have been triggered by the commands or by the slopes of other sensors only
+        self._refreshed = [x.generation_time == self.current_time
+                           for x in self.local_inputs['in_slopes_list']]
+
     def trigger_code(self):
 
         slopes = [x.slopes for x in self.local_inputs['in_slopes_list']]
@@ -128,7 +137,10 @@ class MultiImCalibrator(BaseProcessingObj):
                 mode = int(idx[0])
                 if mode < self.nmodes:
                     # Update ALL interaction matrices for this command
+                    # (only those whose slopes have been refreshed together with the commands)
                     for i, (im, ss) in enumerate(zip(self.outputs['out_intmat_list'], slopes)):
+                        if self._refreshed is not None and not self._refreshed[i]:
+                            continue
                         im.modes[mode] += ss / cc[idx]
                         self.count_commands[i][mode] += 1
 
-- 
2.43.0


From c58a04cbca8bf06963aa9d5de55cef933a4ca860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 32/91] fix: MultiRecCalibrator creates the data directory
 before saving the first matrix

---
 specula/processing_objects/multi_rec_calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/multi_rec_calibrator.py b/specula/processing_objects/multi_rec_calibrator.py
index e06a9a2..db0225e 100644
--- a/specula/processing_objects/multi_rec_calibrator.py
+++ b/specula/processing_objects/multi_rec_calibrator.py
@@ -73,6 +73,8 @@ class MultiRecCalibrator(BaseProcessingObj):
     def finalize(self):
         ims = self.local_inputs['intmat_list']
 
+        os.makedirs(self._data_dir, exist_ok=True)
+
         for i, intmat in enumerate(ims):
             if self.rec_path(i):
                 rec = intmat.generate_rec(self._nmodes)
@@ -80,8 +82,6 @@ class MultiRecCalibrator(BaseProcessingObj):
 
         full_intmat = self.local_inputs['full_intmat']
 
-        os.makedirs(self._data_dir, exist_ok=True)
-
         full_rec_path = self.full_rec_path()
         if full_rec_path:
             fullrec = full_intmat.generate_rec(self._nmodes)
-- 
2.43.0


From 77a43d685af6b7443b9c18f653db2378576616cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 33/91] fix: invalid interactive inputs of dynamic calibrators
 do not stop the simulation

---
 specula/processing_objects/dynamic_dark_calibrator.py       | 4 ++--
 .../processing_objects/dynamic_pyr_pupdata_calibrator.py    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 2c72a1b..44bb5c4 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -193,7 +193,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                     raise ValueError(f'Number of frames is {nframes} and must be greater than zero')
                 self.nframes = nframes
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_load = self.local_inputs['in_load']
@@ -205,7 +205,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                 self.darkframe.restore(fullpath)
                 self.darkframe.generation_time = self.current_time
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
     def post_trigger(self):
         super().post_trigger()
diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index cb6df5a..2bb117e 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -129,21 +129,21 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
             if input_dt is not None and input_dt.generation_time == self.current_time:
                 self.dt = self.seconds_to_t(float(input_dt.value))
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_thr1 = self.local_inputs['in_thr1']
             if input_thr1 is not None and input_thr1.generation_time == self.current_time:
                 self.thr1 = float(input_thr1.value)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_thr2 = self.local_inputs['in_thr2']
             if input_thr2 is not None and input_thr2.generation_time == self.current_time:
                 self.thr2 = float(input_thr2.value)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
     def trigger_code(self):
 
-- 
2.43.0


From 00b41afab7aec2cba931cbd2477bc5af5ea4e47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 34/91] fix: CCD draws clock-induced charge noise from its own
 generator

---
 specula/processing_objects/ccd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index fa7217f..9d85d0c 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -50,7 +50,8 @@ class CCD(BaseProcessingObj):
                  ADU_bias: int=400,
                  emccd_gain: int=None,
                  target_device_idx: int=None,
-                 precision: int=None):
+                 precision: int=None,
+                 cic_seed: int=4):
         """
         Parameters
         ----------
@@ -117,6 +118,8 @@ class CCD(BaseProcessingObj):
         precision : int, optional
             Precision for computation (0 for double, 1 for single). Default is None
             (uses global setting).
+        cic_seed : int, optional
+            Random seed for clock-induced charge noise (default is 4).
         """
         super().__init__(target_device_idx=target_device_idx, precision=precision)
 
@@ -212,6 +215,7 @@ class CCD(BaseProcessingObj):
         self._photon_seed = photon_seed
         self._readout_seed = readout_seed
         self._excess_seed = excess_seed
+        self._cic_seed = cic_seed
 
         self._excess_delta = excess_delta
         self._ADU_bias = ADU_bias
@@ -220,6 +224,7 @@ class CCD(BaseProcessingObj):
         self._photon_rng = self.xp.random.default_rng(self._photon_seed)
         self._readout_rng = self.xp.random.default_rng(self._readout_seed)
         self._excess_rng = self.xp.random.default_rng(self._excess_seed)
+        self._cic_rng = self.xp.random.default_rng(self._cic_seed)
 
         self.inputs['in_i'] = InputValue(type=Intensity)
         self.outputs['out_pixels'] = self._pixels
@@ -272,7 +277,7 @@ class CCD(BaseProcessingObj):
             pixels[:] = self.xp.dot(self.xp.dot(self._cte_mat[:, :, 0], pixels), self._cte_mat[:, :, 1])
 
         if self._cic_noise:
-            pixels += self.xp.random.binomial(1, self._cic_level, pixels.shape)
+            pixels += self._cic_rng.binomial(1, self._cic_level, pixels.shape)
         
         if self._photon_noise:
             pixels[:] = self._photon_rng.poisson(pixels)
-- 
2.43.0


From cb9d24c76d6f874c46414c51ee1f5dc691a74569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 35/91] fix: phase screens computed for other pixel pitches or
 outer scales are not loaded

---
 specula/lib/phasescreen_manager.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/specula/lib/phasescreen_manager.py b/specula/lib/phasescreen_manager.py
index 715694b..b7c9169 100644
--- a/specula/lib/phasescreen_manager.py
+++ b/specula/lib/phasescreen_manager.py
@@ -5,6 +5,16 @@ from astropy.io import fits
 
 from specula.lib.calc_phasescreen import calc_phasescreen
 
+def _exact_str(value, decimals):
+    """
+    Format a value with a fixed number of decimals, or with all its digits
+    when they are needed to tell it from other values.
+    """
+    value = float(value)
+    text = f'{value:.{decimals}f}'
+    return text if float(text) == value else repr(value)
+
+
 def phasescreens_manager(L0, dimension, pixel_pitch, directory, xp, precision, seed=None, verbose=False):
     if seed is None:
         seed = [0]
@@ -26,21 +36,17 @@ def phasescreens_manager(L0, dimension, pixel_pitch, directory, xp, precision, s
         else:
             raise ValueError("The number of elements in L0 must be 1 or the same as the number of seeds!")
 
-        # Construct the file names
-        phasescreen_name = f'ps_seed{xp.around(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{float(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name1 = f'ps_seed{xp.around(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{xp.around(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name2 = f'ps_seed{float(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{float(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name3 = f'ps_seed{float(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{xp.around(L0i):.4f}_{precision_str}.fits'
+        # Construct the file names (the second one is a legacy format)
+        suffix = (f'_dim{xp.around(dimension)}_pixpit{_exact_str(pixel_pitch, 3)}'
+                  f'_L0{_exact_str(L0i, 4)}_{precision_str}.fits')
+        phasescreen_name = f'ps_seed{xp.around(element)}{suffix}'
+        phasescreen_name2 = f'ps_seed{float(element)}{suffix}'
 
         # Check if the phase screen file exists in the directory
         if os.path.exists(os.path.join(directory, phasescreen_name)):
             phasescreen = fits.getdata(os.path.join(directory, phasescreen_name), memmap=True)
-        elif os.path.exists(os.path.join(directory, phasescreen_name1)):
-            phasescreen = fits.getdata(os.path.join(directory, phasescreen_name1), memmap=True)
         elif os.path.exists(os.path.join(directory, phasescreen_name2)):
             phasescreen = fits.getdata(os.path.join(directory, phasescreen_name2), memmap=True)
-        elif os.path.exists(os.path.join(directory, phasescreen_name3)):
-            phasescreen = fits.getdata(os.path.join(directory, phasescreen_name3), memmap=True)
         else:
             # Calculate the phase screen if it does not exist
             print('Calculating phasescreen...')
-- 
2.43.0


From 6e3522a236e885aaa3d6b37911357606de259652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 36/91] fix: pyramid edge and tip defects are applied, and do
 not depend on the global random state

---
 .../modulated_double_roof.py                  |  7 +++++--
 .../processing_objects/modulated_pyramid.py   | 21 +++++++++++--------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/specula/processing_objects/modulated_double_roof.py b/specula/processing_objects/modulated_double_roof.py
index 1ac9f05..3bc50f1 100644
--- a/specula/processing_objects/modulated_double_roof.py
+++ b/specula/processing_objects/modulated_double_roof.py
@@ -130,6 +130,9 @@ class ModulatedDoubleRoof(ModulatedPyramid):
         # Apply edge and tip defects to both roofs
         xx, yy = make_xy(A * 2, A, xp=self.xp)
 
+        # The defects are a property of the glass, the same for every run
+        rng = self.xp.random.default_rng(0)
+
         for roof_tlt in [roof1_tlt, roof2_tlt]:
             # distance from edge
             dx = self.xp.sqrt(xx ** 2)
@@ -137,13 +140,13 @@ class ModulatedDoubleRoof(ModulatedPyramid):
             idx_edge = self.xp.where((dx <= self.pyr_edge_def_ld * self.fft_res / 2) |
                                 (dy <= self.pyr_edge_def_ld * self.fft_res / 2))
             if len(idx_edge[0]) > 0:
-                roof_tlt[idx_edge] = self.xp.max(roof_tlt) * self.xp.random.rand(len(idx_edge[0]))
+                roof_tlt[idx_edge] = self.xp.max(roof_tlt) * rng.random(len(idx_edge[0]))
 
             # distance from tip
             d = self.xp.sqrt(xx ** 2 + yy ** 2)
             idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)
             if len(idx_tip[0]) > 0:
-                roof_tlt[idx_tip] = self.xp.max(roof_tlt) * self.xp.random.rand(len(idx_tip[0]))
+                roof_tlt[idx_tip] = self.xp.max(roof_tlt) * rng.random(len(idx_tip[0]))
 
             # distance from tip (maya)
             idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)
diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index 35c73e5..08cb4d0 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -400,25 +400,28 @@ class ModulatedPyramid(BaseProcessingObj):
 
         xx, yy = make_xy(A * 2, A, xp=self.xp)
 
+        # The defects are a property of the glass, the same for every run
+        rng = self.xp.random.default_rng(0)
+
         # distance from edge
         dx = self.xp.sqrt(xx ** 2)
         dy = self.xp.sqrt(yy ** 2)
-        idx_edge = self.xp.where((dx <= self.pyr_edge_def_ld * self.fft_res / 2) | 
-                            (dy <= self.pyr_edge_def_ld * self.fft_res / 2))[0]
-        if len(idx_edge) > 0:
-            pyr_tlt[idx_edge] = self.xp.max(pyr_tlt) * self.xp.random.rand(len(idx_edge[0]))
+        idx_edge = self.xp.where((dx <= self.pyr_edge_def_ld * self.fft_res / 2) |
+                            (dy <= self.pyr_edge_def_ld * self.fft_res / 2))
+        if len(idx_edge[0]) > 0:
+            pyr_tlt[idx_edge] = self.xp.max(pyr_tlt) * rng.random(len(idx_edge[0]))
             print(f'get_pyr_tlt: {len(idx_edge[0])} pixels set to 0 to consider pyramid imperfect edges')
 
         # distance from tip
         d = self.xp.sqrt(xx ** 2 + yy ** 2)
-        idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)[0]
-        if len(idx_tip) > 0:
-            pyr_tlt[idx_tip] = self.xp.max(pyr_tlt) * self.xp.random.rand(len(idx_tip[0]))
+        idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)
+        if len(idx_tip[0]) > 0:
+            pyr_tlt[idx_tip] = self.xp.max(pyr_tlt) * rng.random(len(idx_tip[0]))
             print(f'get_pyr_tlt: {len(idx_tip[0])} pixels set to 0 to consider pyramid imperfect tip')
 
         # distance from tip
-        idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)[0]
-        if len(idx_tip_m) > 0:
+        idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)
+        if len(idx_tip_m[0]) > 0:
             pyr_tlt[idx_tip_m] = self.xp.min(pyr_tlt[idx_tip_m])
             print(f'get_pyr_tlt: {len(idx_tip_m[0])} pixels set to 0 to consider pyramid imperfect tip')
 
-- 
2.43.0


From 3d7c6f749c6a8e9ca8f742360680c5b2bd8ae7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:21 +0000
Subject: [PATCH 37/91] fix: connections between processes have their own MPI
 tags

Tags were hashes of the connected names (modulo 1e6, with tag+1 also in use), so different
connections could share one, and an output read both with and without ':-1' by the same
input always did.
---
 specula/simul.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/specula/simul.py b/specula/simul.py
index 5c2c5ff..efa683b 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -17,7 +17,6 @@ from specula.processing_objects.data_store import DataStore
 from specula.connections import InputList, InputValue
 
 import yaml
-import hashlib
 
 
 Output = namedtuple('Output', 'obj_name output_key delay ref input_name')
@@ -66,12 +65,6 @@ def _resolve_dataobj_type(type_arg, owner_class):
     return None
 
 
-def computeTag(output_obj_name, dest_object, output_attr_name, input_attr_name):
-    s = output_obj_name + '%' + dest_object + '%' + str(output_attr_name) + '%' + str(input_attr_name)
-    rr = int(hashlib.sha256(s.encode('utf-8')).hexdigest(), 16) % 10**6
-    return rr
-
-
 import matplotlib.pyplot as plt
 
 mplcolors = plt.get_cmap("tab10").colors
@@ -631,7 +624,9 @@ class Simul():
         recv = output.ref is None and local_dest_object is True
         local = output.ref is not None and local_dest_object is True
         if send or recv:
-            tag = computeTag(output.obj_name, dest_object, output.output_key, input_name)
+            # Connections are listed in the same order in all processes, so their number identifies them.
+            # Each connection uses two consecutive tags.
+            tag = 2 * len(self.connections)
 
         if MPI_DBG: print(process_rank, f'{output.obj_name}.{output.output_key} -> {dest_object} : {send=} {recv=} {local=}', flush=True)
 
-- 
2.43.0


From 3d86f4004ceda0cf70e423328979f480f587f57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:20 +0000
Subject: [PATCH 38/91] fix: scalars, lists and arrays that change shape can be
 sent to another process

A scalar was announced as a buffer that its receiver expected pickled (or could not
receive), a list was sent as several messages but received once, and an array with
a new shape did not fit the buffer of its receiver. The receiver is now told what comes.
---
 specula/base_data_obj.py       |  8 ++++++-
 specula/base_processing_obj.py | 44 ++++++++++++++++++++--------------
 specula/connections.py         | 44 ++++++++++++++++++----------------
 3 files changed, 56 insertions(+), 40 deletions(-)

diff --git a/specula/base_data_obj.py b/specula/base_data_obj.py
index 305e68f..b0ef966 100644
--- a/specula/base_data_obj.py
+++ b/specula/base_data_obj.py
@@ -18,6 +18,11 @@ def get_properties(cls):
 
 
 class BaseDataObj(BaseTimeObj):
+
+    # Attributes that are not arrays, but may change from step to step:
+    # they are transferred to other devices and processes together with the arrays
+    transferred_attributes = ['generation_time']
+
     def __init__(self, target_device_idx: int=None, precision: int=None):
         """
         Initialize the base data object.
@@ -116,7 +121,8 @@ class BaseDataObj(BaseTimeObj):
                 if HtH:
                     setattr(destobj, attr, np.array(self_attr))
 
-        destobj.generation_time = self.generation_time
+        for attr in self.transferred_attributes:
+            setattr(destobj, attr, getattr(self, attr))
 
     def copyTo(self, target_device_idx):
         '''
diff --git a/specula/base_processing_obj.py b/specula/base_processing_obj.py
index 6008f5f..cc2ca4e 100644
--- a/specula/base_processing_obj.py
+++ b/specula/base_processing_obj.py
@@ -1,6 +1,6 @@
 from collections import defaultdict, namedtuple
 
-from specula import cpuArray, default_target_device, cp, MPI_DBG, MPI_SEND_DBG
+from specula import cpuArray, default_target_device, cp, np, array_types, MPI_DBG, MPI_SEND_DBG
 from specula import show_in_profiler
 from specula import process_comm, process_rank
 from specula.base_time_obj import BaseTimeObj
@@ -154,23 +154,33 @@ class BaseProcessingObj(BaseTimeObj):
 
     def send_remote_output(self, item, dest_rank, dest_tag, first_mpi_send=True, out_name=''):
         if MPI_SEND_DBG: print(process_rank, f'SEND to rank {dest_rank} {dest_tag=} {(dest_tag in self.sent_valid)=} (from {self.name}.{out_name})', flush=True)
-        if first_mpi_send or not dest_tag in self.sent_valid:
+        # Arrays are sent as buffers once the receiver has got the complete object, preceded
+        # by a dictionary that tells their shape and the current values of the other attributes.
+        # Everything else (lists, scalars, None, arrays with a new shape) is sent with pickle.
+        value = None if isinstance(item, list) else item.get_value()
+        value_type = (value.shape, value.dtype) if type(value) in array_types else None
+
+        if first_mpi_send or value_type is None or self.sent_valid.get(dest_tag) != value_type:
             if MPI_SEND_DBG: print(process_rank, 'SEND with Pickle', dest_tag, flush=True)
-            xp_orig = item.xp
-            item.xp = 0            
+            # workaround because module objects cannot be pickled
+            objs = item if isinstance(item, list) else [item]
+            xp_orig = [x.xp for x in objs]
+            for x in objs:
+                x.xp = 0
             process_comm.ibsend(item, dest=dest_rank, tag=dest_tag)
-            item.xp = xp_orig
+            for x, xp in zip(objs, xp_orig):
+                x.xp = xp
         else:
-            buffer = item.get_value()
-            if MPI_SEND_DBG:  print(process_rank, dest_tag, 'SEND .device', buffer.device)
-            if MPI_SEND_DBG: print(process_rank, 'SEND with Buffer', dest_tag, type(buffer), buffer, flush=True)
-            if MPI_SEND_DBG: print(process_rank, 'SEND with Buffer type', dest_tag, buffer.dtype, flush=True)
-
-            process_comm.Ibsend(cpuArray(buffer), dest=dest_rank, tag=dest_tag)
-
-            process_comm.ibsend(item.generation_time, dest=dest_rank, tag=dest_tag+1)
-        if item.get_value() is not None:
-            self.sent_valid[dest_tag] = True
+            if MPI_SEND_DBG: print(process_rank, 'SEND with Buffer', dest_tag, type(value), value, flush=True)
+            header = {'shape': value.shape, 'dtype': value.dtype,
+                      'attributes': {name: getattr(item, name) for name in item.transferred_attributes}}
+            process_comm.ibsend(header, dest=dest_rank, tag=dest_tag)
+            process_comm.Ibsend(np.ascontiguousarray(cpuArray(value)), dest=dest_rank, tag=dest_tag+1)
+
+        if value_type is not None:
+            self.sent_valid[dest_tag] = value_type
+        else:
+            self.sent_valid.pop(dest_tag, None)
 
     # this method implements the mpi send call of the outputs connected to remote inputs
     def send_outputs(self, skip_delayed=False, delayed_only=False, first_mpi_send=True):
@@ -201,9 +211,7 @@ class BaseProcessingObj(BaseTimeObj):
                     if MPI_SEND_DBG: print(process_rank, f'SKIPPED SEND to rank {dest_rank} {dest_tag=} due to delay={delay}', flush=True)
                     continue
                 if MPI_DBG: print(process_rank, 'Sending ', out_name, 'to ', dest_rank, 'with tag',  dest_tag, type(self.outputs[out_name]), flush=True)
-                # workaround because module objects cannot be pickled
-                for item in self.outputs[out_name] if isinstance(self.outputs[out_name], list) else [self.outputs[out_name]]:
-                    self.send_remote_output(item, dest_rank, dest_tag, first_mpi_send, out_name)
+                self.send_remote_output(self.outputs[out_name], dest_rank, dest_tag, first_mpi_send, out_name)
 
     @classmethod
     def device_stream(cls, target_device_idx):
diff --git a/specula/connections.py b/specula/connections.py
index f98e61b..3ae1f1c 100644
--- a/specula/connections.py
+++ b/specula/connections.py
@@ -1,4 +1,4 @@
-from specula import cpuArray, process_rank, process_comm, MPI_SEND_DBG
+from specula import process_rank, process_comm, MPI_SEND_DBG
 from specula import np, cp
 from specula.lib.utils import flatten
 
@@ -28,28 +28,24 @@ class _InputItem():
         self.requesting_obj_name = requesting_obj_name
         self.input_name = input_name
 
-    def receive_new_value(self, first_mpi_receive=True):
+    def receive_new_value(self):
         if MPI_SEND_DBG: print(process_rank,
                                f'RECV from rank {self.remote_rank} {self.tag=} type={self.output_ref_type})',
                                flush=True)
-        if first_mpi_receive or self.cloned_value.get_value() is None:
-            if MPI_SEND_DBG: print(process_rank, f'recv with Pickle', self.tag, flush=True)
-            new_value = process_comm.recv(source=self.remote_rank, tag=self.tag)
-            if new_value.xp_str == 'cp':
-                new_value.xp = cp
-            else:
-                new_value.xp = np
-        else:
-            if MPI_SEND_DBG: print(process_rank, f'Recv with Buffer', flush=True)
+        new_value = process_comm.recv(source=self.remote_rank, tag=self.tag)
+
+        if isinstance(new_value, dict):
+            # Only the array value and its attributes: update the object received previously
+            header = new_value
+            buffer = np.empty(header['shape'], dtype=header['dtype'])
+            process_comm.Recv(buffer, source=self.remote_rank, tag=self.tag+1)
             new_value = self.cloned_value
-            buffer = cpuArray(self.cloned_value.get_value())
-            if MPI_SEND_DBG:  print(process_rank, self.tag, 'RECV .buffer', type(buffer))
-            if MPI_SEND_DBG:  print(process_rank, self.tag, 'RECV .buffer dtype', buffer.dtype)
-            process_comm.Recv(buffer, source=self.remote_rank, tag=self.tag)
-            if MPI_SEND_DBG:  print(process_rank, self.tag+1, 'RECV .bufftimeer')
-            gen_time = process_comm.recv(source=self.remote_rank, tag=self.tag+1)
-            self.cloned_value.generation_time = gen_time
-            self.cloned_value.set_value(buffer)
+            new_value.set_value(buffer)
+            for name, value in header['attributes'].items():
+                setattr(new_value, name, value)
+        else:
+            for x in new_value if isinstance(new_value, list) else [new_value]:
+                x.xp = cp if x.xp_str == 'cp' else np
 
         return new_value
 
@@ -66,9 +62,15 @@ class _InputItem():
         if self.remote_rank is None:
             value = self.output_ref
         else:
-            value = self.receive_new_value(first_mpi_receive=self.cloned_value is None)
+            value = self.receive_new_value()
 
-        if self.cloned_value is None:
+        if isinstance(value, list):
+            if self.cloned_value is None:
+                self.cloned_value = [x.copyTo(target_device_idx) for x in value]
+            else:
+                for x, cloned in zip(value, self.cloned_value):
+                    x.transferDataTo(cloned)
+        elif self.cloned_value is None:
             self.cloned_value = value.copyTo(target_device_idx)
         else:
             value.transferDataTo(self.cloned_value)
-- 
2.43.0


From 2e3e3a3fcb8b2d878ec64faf6d1ec608dccc621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:20 +0000
Subject: [PATCH 39/91] fix: S0 of electric fields is transferred to other
 devices and processes

---
 specula/data_objects/electric_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/data_objects/electric_field.py b/specula/data_objects/electric_field.py
index 553d72e..bf60755 100644
--- a/specula/data_objects/electric_field.py
+++ b/specula/data_objects/electric_field.py
@@ -11,6 +11,8 @@ class ElectricField(BaseDataObj):
     This class represents a 2D electric field, storing both amplitude and phase information
     for each pixel in a rectangular grid.
     """
+    transferred_attributes = BaseDataObj.transferred_attributes + ['S0']
+
     def __init__(self,
                  dimx: int,
                  dimy: int,
-- 
2.43.0


From e835490596ab854650b2b2e0cbb9e8b19a7bf559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:20 +0000
Subject: [PATCH 40/91] fix: remote inputs are set up with the values their
 producers have after set-up

Objects that size themselves on their input in setup() saw it as it was before
the set-up of its producer if that was in another process.
---
 specula/loop_control.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/specula/loop_control.py b/specula/loop_control.py
index f353dd0..571add8 100644
--- a/specula/loop_control.py
+++ b/specula/loop_control.py
@@ -80,7 +80,9 @@ class LoopControl(BaseTimeObj):
         for i in sorted(self.trigger_lists.keys()):        
             # all the objects having this trigger order could be remote            
             for element in self.trigger_lists[i]:
-                element.send_outputs(skip_delayed=False, first_mpi_send=True)
+                # Outputs used with ":-1" might be needed by the setup of an object
+                # that comes before this one
+                element.send_outputs(delayed_only=True, first_mpi_send=True)
 
         if process_comm is not None:
             process_comm.barrier()
@@ -102,10 +104,9 @@ class LoopControl(BaseTimeObj):
                     if MPI_DBG: print(process_rank, element, 'printMemUsage', flush=True)
                     element.printMemUsage()
                     if MPI_DBG: print(process_rank, 'setup', element)
-                    #  workaround for objects that need to send outputs
-                    # before the first iter() call
-                    # because their outputs are used with ":-1"
-                    element.send_outputs(delayed_only=True, first_mpi_send=False)
+                    # Outputs are needed by the setup of the following objects,
+                    # or before the first iter() call when used with ":-1"
+                    element.send_outputs(first_mpi_send=False)
                 except:
                     print('Exception in', element.name, flush=True)
                     raise
-- 
2.43.0


From 0fc98a8f6d76c54b77e25a893b1cfc2b766d8b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:55 +0000
Subject: [PATCH 41/91] fix: a DataBuffer can be in a process other than the
 one being built

---
 specula/simul.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/simul.py b/specula/simul.py
index efa683b..01a0886 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -324,7 +324,7 @@ class Simul():
                     params[key]['inputs'][output.input_name] = single_output_name
                 del params[key]['inputs']['input_list']
 
-            if pars['class'] == 'DataBuffer':
+            if pars['class'] == 'DataBuffer' and key in self.objs:
                 self.objs[key].setOutputs()
 
     def build_objects(self, params):
-- 
2.43.0


From a558c85163fa34b8918f337d061602527f13f42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:55 +0000
Subject: [PATCH 42/91] fix: remote inputs are received once per step by slope
 computers and data stores

Getting an input a second time waits for a message that is never sent.
---
 specula/processing_objects/data_store.py | 2 +-
 specula/processing_objects/slopec.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index be140e1..c0dfe10 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -138,7 +138,7 @@ class DataStore(BaseProcessingObj):
                     continue
 
                 filename = os.path.join(self.tn_dir, k + '.pickle')
-                hdr = self.inputs[k].get(target_device_idx=-1).get_fits_header()
+                hdr = self.local_inputs[k].get_fits_header()
                 self.update_header_with_storage_metadata(hdr, input_name=k)
                 with open(filename, 'wb') as handle:
                     data_to_save = {'data': data[k], 'times': times[k], 'hdr': hdr}
diff --git a/specula/processing_objects/slopec.py b/specula/processing_objects/slopec.py
index 3afe269..a093a9d 100644
--- a/specula/processing_objects/slopec.py
+++ b/specula/processing_objects/slopec.py
@@ -101,7 +101,7 @@ class Slopec(BaseProcessingObj):
         if self.weight_int_pixel_dt <= 0:
             return
 
-        current_pixels = self.inputs['in_pixels'].get(self.target_device_idx).pixels
+        current_pixels = self.local_inputs['in_pixels'].pixels
 
         # Initialize accumulated pixels if not exists
         if self.int_pixels is None:
-- 
2.43.0


From 777e1679b26da70fb1cff691e76cb49d0f19dc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:07 +0000
Subject: [PATCH 43/91] fix: data objects read by an object in another process
 do not stop the simulation

They exist in all processes by default, and have nothing to send.
---
 specula/simul.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/specula/simul.py b/specula/simul.py
index 01a0886..9d1f253 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -623,6 +623,14 @@ class Simul():
         send = output.ref is not None and local_dest_object is False
         recv = output.ref is None and local_dest_object is True
         local = output.ref is not None and local_dest_object is True
+
+        # Data objects are not sent: they exist in all processes,
+        # unless they have been assigned to a specific one.
+        if self.is_dataobj.get(output.obj_name, False) and output.output_key is None:
+            if recv:
+                raise ValueError(f'Data object {output.obj_name} is not available in the process of {dest_object}')
+            send = False
+
         if send or recv:
             # Connections are listed in the same order in all processes, so their number identifies them.
             # Each connection uses two consecutive tags.
-- 
2.43.0


From 8797c3049b85536647a11b0f5ca2c98c95cfce5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:07 +0000
Subject: [PATCH 44/91] fix: BaseOperation does not publish uninitialised
 memory before its first trigger

---
 specula/processing_objects/base_operation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/base_operation.py b/specula/processing_objects/base_operation.py
index ff7fb79..61176c7 100644
--- a/specula/processing_objects/base_operation.py
+++ b/specula/processing_objects/base_operation.py
@@ -129,9 +129,9 @@ class BaseOperation(BaseProcessingObj):
         elif not self.constant_max is None or not self.constant_min is None:
             self.out_value.value = value1.value * 0.0
         elif self.concat:
-            self.out_value.value = self.xp.empty(len(value1.value) + len(value2.value))
+            self.out_value.value = self.xp.zeros(len(value1.value) + len(value2.value))
         else:
-            self.out_value.value = self.xp.empty_like(value1.value)
+            self.out_value.value = self.xp.zeros_like(value1.value)
 
         if value2 is not None:
             self.v2 = self.xp.empty_like(value1.value)
-- 
2.43.0


From cf20a9cfa73a52f610dc4c52465017f5051dc887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:52 +0000
Subject: [PATCH 45/91] fix: pixel pitch of electric fields is transferred to
 other devices and processes

---
 specula/data_objects/electric_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/electric_field.py b/specula/data_objects/electric_field.py
index bf60755..4d5d27f 100644
--- a/specula/data_objects/electric_field.py
+++ b/specula/data_objects/electric_field.py
@@ -11,7 +11,7 @@ class ElectricField(BaseDataObj):
     This class represents a 2D electric field, storing both amplitude and phase information
     for each pixel in a rectangular grid.
     """
-    transferred_attributes = BaseDataObj.transferred_attributes + ['S0']
+    transferred_attributes = BaseDataObj.transferred_attributes + ['S0', 'pixel_pitch']
 
     def __init__(self,
                  dimx: int,
-- 
2.43.0


From f49fe7a476ee2acd338c75541f529fbc7389608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:03 +0000
Subject: [PATCH 46/91] fix: values written by finalize() reach objects in
 other processes and devices

---
 specula/base_processing_obj.py | 2 +-
 specula/loop_control.py        | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/specula/base_processing_obj.py b/specula/base_processing_obj.py
index cc2ca4e..157a960 100644
--- a/specula/base_processing_obj.py
+++ b/specula/base_processing_obj.py
@@ -187,7 +187,7 @@ class BaseProcessingObj(BaseTimeObj):
         '''
         Send all remote outputs via MPI.
         If *skip_delayed* is True, skip sending all delayed outputs.
-            Used during the last iteration when the simulation is ending and
+            Used when finalizing the simulation, since
             no one would receive the delayed inputs.
         If *delayed_only* is True, only send the delayed outputs.
             Used while setting up the simulation, to initialize outputs
diff --git a/specula/loop_control.py b/specula/loop_control.py
index 571add8..5ec703b 100644
--- a/specula/loop_control.py
+++ b/specula/loop_control.py
@@ -122,9 +122,6 @@ class LoopControl(BaseTimeObj):
 
     def iter(self):
 
-        # No iteration follows this one, see the loop condition in run()
-        last_iter = self.run_time >= 0 and self.t + self.dt >= self.t0 + self.run_time
-
         for i in sorted(self.trigger_lists.keys()):
             # all the objects having this trigger order could be remote
             if MPI_DBG: print(process_rank, 'before check_ready', flush=True)
@@ -151,7 +148,7 @@ class LoopControl(BaseTimeObj):
                         element.post_trigger()
                     # Always send MPI outputs, regardless of whether
                     # an object was triggered or not
-                    element.send_outputs(skip_delayed=last_iter, first_mpi_send=False)
+                    element.send_outputs(first_mpi_send=False)
                 except:
                     print('Exception in', element.name, flush=True)
                     raise
@@ -173,7 +170,11 @@ class LoopControl(BaseTimeObj):
         for i in sorted(self.trigger_lists.keys()):
             for element in self.trigger_lists[i]:
                 try:
+                    # Inputs might have been updated in other objects' finalize() methods
+                    element.get_all_inputs()
                     element.finalize()
+                    # No one will receive the delayed outputs any more
+                    element.send_outputs(skip_delayed=True, first_mpi_send=False)
                 except:
                     print('Exception in', element.name)
                     raise
-- 
2.43.0


From 85a2cb0d69d14e0db7cba6b922c723c75033fc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:32 +0000
Subject: [PATCH 47/91] fix: frames without light give zero slopes instead of
 NaN

---
 specula/processing_objects/pyr_slopec.py  | 27 ++++++++++-------------
 specula/processing_objects/sh_slopec.py   | 10 +++------
 specula/processing_objects/zwfs_slopec.py |  4 +++-
 3 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/specula/processing_objects/pyr_slopec.py b/specula/processing_objects/pyr_slopec.py
index f32bd3c..cf67754 100644
--- a/specula/processing_objects/pyr_slopec.py
+++ b/specula/processing_objects/pyr_slopec.py
@@ -120,26 +120,23 @@ class PyrSlopec(Slopec):
 
         if self.slopes_from_intensity:
             inv_factor[0] = self.total_intensity / (4 * self.nsubaps())
-            factor = 1.0 / inv_factor[0]
+        elif self.norm_factor is not None:
+            inv_factor[0] = self.norm_factor
+        elif not self.shlike:
+            inv_factor[0] = self.total_intensity /  self.nsubaps()
+        else:
+            inv_factor[0] = self.xp.sum(self.flat_pixels[self.pup_idx])
+
+        # No signal without light
+        lit = inv_factor != 0
+        factor = self.xp.where(lit, 1.0 / self.xp.where(lit, inv_factor, 1), 0)
+
+        if self.slopes_from_intensity:
             self.sx = factor * self.xp.concatenate([A, B])
             self.sy = factor * self.xp.concatenate([C, D])
         else:
-            if self.norm_factor is not None:
-                inv_factor[0] = self.norm_factor
-                factor = 1.0 / inv_factor[0]
-            elif not self.shlike:
-                inv_factor[0] = self.total_intensity /  self.nsubaps()
-                factor = 1.0 / inv_factor
-            else:
-                inv_factor[0] = self.xp.sum(self.flat_pixels[self.pup_idx])
-                factor = 1.0 / inv_factor[0]
-
             self.sx, self.sy = self._compute_pyr_slopes(A, B, C, D, factor)
 
-        clamp_generic_more(0, 1, inv_factor, xp=self.xp)
-        self.sx *= inv_factor[0]
-        self.sy *= inv_factor[0]
-
         self.slopes.xslopes = self.sx
         self.slopes.yslopes = self.sy
 
diff --git a/specula/processing_objects/sh_slopec.py b/specula/processing_objects/sh_slopec.py
index e685a03..bbf5375 100644
--- a/specula/processing_objects/sh_slopec.py
+++ b/specula/processing_objects/sh_slopec.py
@@ -273,13 +273,9 @@ class ShSlopec(Slopec):
         # Compute denominator for slopes
         subap_tot = self.xp.sum(pixels * self.mask_weighted_flat, axis=0)
         mean_subap_tot = self.xp.mean(subap_tot)
-        factor = 1.0 / subap_tot
-
-# TEST replacing these three lines with clamp_generic_more
-#        idx_le_0 = self.xp.where(subap_tot <= mean_subap_tot * 1e-3)[0]
-#        if len(idx_le_0) > 0:
-#            factor[idx_le_0] = 0.0
-        clamp_generic_more( 1.0 / (mean_subap_tot * 1e-3), 0, factor, xp=self.xp)
+        # No slopes where there is no light, or almost none with respect to the others
+        lit = subap_tot > mean_subap_tot * 1e-3
+        factor = self.xp.where(lit, 1.0 / self.xp.where(lit, subap_tot, 1), 0)
 
         # Compute slopes
         sx = self.xp.sum(pixels * self.xweights_flat * factor[self.xp.newaxis, :], axis=0)
diff --git a/specula/processing_objects/zwfs_slopec.py b/specula/processing_objects/zwfs_slopec.py
index 9f1dfbd..2f66809 100644
--- a/specula/processing_objects/zwfs_slopec.py
+++ b/specula/processing_objects/zwfs_slopec.py
@@ -91,7 +91,9 @@ class ZwfsSlopec(Slopec):
         self.subap_counts.value[0] = self.total_intensity / self.nsubaps()
 
         norm_factor = self.xp.sum(metaintensity) / self.nsubaps()
-        self.slopes.slopes = metaintensity / norm_factor
+        # No signal without light
+        lit = norm_factor != 0
+        self.slopes.slopes = self.xp.where(lit, metaintensity / self.xp.where(lit, norm_factor, 1), 0)
 
     def post_trigger(self):
         super().post_trigger()
-- 
2.43.0


From dafc6c8aa9d29cffe44fde0b37cc4265050651c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:32 +0000
Subject: [PATCH 48/91] fix: the shlike option of the pyramid slope computer
 can be used

---
 specula/processing_objects/pyr_slopec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/pyr_slopec.py b/specula/processing_objects/pyr_slopec.py
index cf67754..62e0946 100644
--- a/specula/processing_objects/pyr_slopec.py
+++ b/specula/processing_objects/pyr_slopec.py
@@ -44,7 +44,7 @@ class PyrSlopec(Slopec):
         if shlike and slopes_from_intensity:
             raise ValueError('Both SHLIKE and SLOPES_FROM_INTENSITY parameters are set. Only one of these should be used.')
 
-        if shlike and norm_factor != 0:
+        if shlike and norm_factor:
             raise ValueError('Both SHLIKE and NORM_FACTOR parameters are set. Only one of these should be used.')
 
         self.shlike = shlike
@@ -120,12 +120,12 @@ class PyrSlopec(Slopec):
 
         if self.slopes_from_intensity:
             inv_factor[0] = self.total_intensity / (4 * self.nsubaps())
+        elif self.shlike:
+            inv_factor[0] = self.xp.sum(self.flat_pixels[self.pup_idx])
         elif self.norm_factor is not None:
             inv_factor[0] = self.norm_factor
-        elif not self.shlike:
-            inv_factor[0] = self.total_intensity /  self.nsubaps()
         else:
-            inv_factor[0] = self.xp.sum(self.flat_pixels[self.pup_idx])
+            inv_factor[0] = self.total_intensity /  self.nsubaps()
 
         # No signal without light
         lit = inv_factor != 0
-- 
2.43.0


From 96325346f8a72238f1c1aadfe6d5e7bafa10426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:32 +0000
Subject: [PATCH 49/91] fix: slopes from intensity with pupils of different
 sizes

---
 specula/data_objects/pupdata.py          |  3 ++-
 specula/processing_objects/pyr_slopec.py | 18 +++++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/specula/data_objects/pupdata.py b/specula/data_objects/pupdata.py
index e3b3b3d..f1f3299 100644
--- a/specula/data_objects/pupdata.py
+++ b/specula/data_objects/pupdata.py
@@ -107,7 +107,8 @@ class PupData(BaseDataObj):
     def complete_mask(self):
         f = self.xp.zeros(self.framesize, dtype=self.dtype)
         for i in range(self.n_pupils):
-            self.xp.put(f, self.pupil_idx(i), 1)
+            # Exclude -1 padding
+            self.xp.put(f, self.pupil_idx(i)[self.pupil_idx(i) >= 0], 1)
         return f
 
     def get_fits_header(self):
diff --git a/specula/processing_objects/pyr_slopec.py b/specula/processing_objects/pyr_slopec.py
index 62e0946..d8b1060 100644
--- a/specula/processing_objects/pyr_slopec.py
+++ b/specula/processing_objects/pyr_slopec.py
@@ -83,7 +83,8 @@ class PyrSlopec(Slopec):
 
     def nslopes(self):
         if self.slopes_from_intensity:
-            return len(self.pupdata.pupil_idx(0)) * 4
+            # Exclude -1 padding
+            return int((self.pupdata.ind_pup[:, :4] >= 0).sum())
         else:
             return len(self.pupdata.pupil_idx(0)) * 2
 
@@ -106,12 +107,14 @@ class PyrSlopec(Slopec):
         C = self.flat_pixels[self.pup_idx2].astype(self.xp.float32)
         D = self.flat_pixels[self.pup_idx3].astype(self.xp.float32)
 
-        # Compute flux per subaperture (sum of all 4 pupils)
-        flux_per_subap = A + B + C + D
-        self.flux_per_subaperture_vector.value[:] = flux_per_subap
+        # Compute flux per subaperture (sum of all 4 pupils,
+        # that could have different sizes when using intensities)
+        self.flux_per_subaperture_vector.value[:] = 0
+        for pupil in (A, B, C, D):
+            self.flux_per_subaperture_vector.value[:len(pupil)] += pupil
 
         # Compute total intensity
-        self.total_intensity = self.xp.sum(flux_per_subap)
+        self.total_intensity = self.xp.sum(self.flux_per_subaperture_vector.value)
         self.total_counts.value[0] = self.total_intensity
         self.subap_counts.value[0] = self.total_intensity / self.nsubaps()
 
@@ -132,8 +135,9 @@ class PyrSlopec(Slopec):
         factor = self.xp.where(lit, 1.0 / self.xp.where(lit, inv_factor, 1), 0)
 
         if self.slopes_from_intensity:
-            self.sx = factor * self.xp.concatenate([A, B])
-            self.sy = factor * self.xp.concatenate([C, D])
+            all_pupils = factor * self.xp.concatenate([A, B, C, D])
+            self.sx = all_pupils[:len(all_pupils) // 2]
+            self.sy = all_pupils[len(all_pupils) // 2:]
         else:
             self.sx, self.sy = self._compute_pyr_slopes(A, B, C, D, factor)
 
-- 
2.43.0


From 0c85c5ff49131dfa15d9fe8ed4aafcaadc3450d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:32 +0000
Subject: [PATCH 50/91] fix: pixels without light do not add to the flux of the
 curvature sensor

---
 specula/processing_objects/cur_wfs_slopec.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/specula/processing_objects/cur_wfs_slopec.py b/specula/processing_objects/cur_wfs_slopec.py
index 7c4f16a..bb864a1 100644
--- a/specula/processing_objects/cur_wfs_slopec.py
+++ b/specula/processing_objects/cur_wfs_slopec.py
@@ -118,9 +118,7 @@ class CurWfsSlopec(Slopec):
         sum_i = i1 + i2
 
         # Avoid division by zero
-        sum_i = self.xp.where(sum_i < 1e-9, 1.0, sum_i)
-
-        signal = (i1 - i2) / sum_i
+        signal = (i1 - i2) / self.xp.where(sum_i < 1e-9, 1.0, sum_i)
 
         # Store results
         self.slopes.slopes[:] = signal
-- 
2.43.0


From 8a9dade460d98a6204338a5e7392766c666edb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:32 +0000
Subject: [PATCH 51/91] fix: the weighting radius of the Shack-Hartmann slope
 computer can change with time

---
 specula/processing_objects/sh_slopec.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/sh_slopec.py b/specula/processing_objects/sh_slopec.py
index bbf5375..c27ed56 100644
--- a/specula/processing_objects/sh_slopec.py
+++ b/specula/processing_objects/sh_slopec.py
@@ -64,7 +64,8 @@ class ShSlopec(Slopec):
         self.ycweights = None
         self.mask_weighted = None
         self.weighted_pix_rad = weightedPixRad
-        self.vec_wei_pix_rad_t = vecWeiPixRadT
+        # Rows of [weighted pixel radius, time from which it is used in seconds]
+        self.vec_wei_pix_rad_t = None if vecWeiPixRadT is None else np.array(vecWeiPixRadT, dtype=float).reshape(-1, 2)
         self.windowing = windowing
         self.thr_ratio_value = 0.0
         self.thr_pedestal = False
@@ -167,8 +168,10 @@ class ShSlopec(Slopec):
 
     def trigger_code(self):
         if self.vec_wei_pix_rad_t is not None:
-            idxW = self.xp.where(self.current_time_seconds > self.vec_wei_pix_rad_t[:, 1])[-1]
+            idxW = np.where(self.current_time_seconds > self.vec_wei_pix_rad_t[:, 1])[0]
             if len(idxW) > 0:
+                # Last entry whose time has passed
+                idxW = idxW[np.argmax(self.vec_wei_pix_rad_t[idxW, 1])]
                 self.weighted_pix_rad = self.vec_wei_pix_rad_t[idxW, 0]
                 if self.verbose:
                     print(f'self.weighted_pix_rad: {self.weighted_pix_rad}')
-- 
2.43.0


From 683c7593c3b87efb1a7f06220d9a5b49ef6a143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:15 +0000
Subject: [PATCH 52/91] fix: flat pixels count in the mean derivatives of
 IdealDerivativeSensor

---
 specula/processing_objects/ideal_derivative_sensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/ideal_derivative_sensor.py b/specula/processing_objects/ideal_derivative_sensor.py
index 3001ccf..f202fde 100644
--- a/specula/processing_objects/ideal_derivative_sensor.py
+++ b/specula/processing_objects/ideal_derivative_sensor.py
@@ -200,8 +200,9 @@ class IdealDerivativeSensor(BaseProcessingObj):
         dx_all = dx_all * subap_masks
         dy_all = dy_all * subap_masks
 
-        # Find valid pixels (non-zero derivatives) for all subapertures
-        valid_masks = ((self.xp.abs(dx_all) + self.xp.abs(dy_all)) > 0) & subap_masks
+        # Find valid pixels (inside the pupil mask) for all subapertures.
+        # Pixels where the phase is flat are valid too.
+        valid_masks = mask.ravel()[subap_indices_matrix] & subap_masks
 
         # Vectorized mean computation
         # Set invalid pixels to 0 for mean calculation
-- 
2.43.0


From 26432a9007fd68edda23517ac34a845c7aae3d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:20 +0000
Subject: [PATCH 53/91] fix: DM commands missing from a shorter vector count as
 zero

---
 specula/processing_objects/dm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/dm.py b/specula/processing_objects/dm.py
index 2c932b1..cee87cd 100644
--- a/specula/processing_objects/dm.py
+++ b/specula/processing_objects/dm.py
@@ -161,14 +161,17 @@ class DM(BaseProcessingObj):
     def trigger_code(self):
         input_commands = self.local_inputs['in_command'].value
 
-        if self.nmodes is not None:
-            input_commands = input_commands[:self.nmodes]
+        # Commands beyond the modes in use are ignored, missing ones count as zero
+        input_commands = input_commands[:self.n_valid_modes]
 
         if self.m2c is not None:
+            input_commands = input_commands[:len(self.m2c_commands)]
+            self.m2c_commands[:] = 0
             self.m2c_commands[:len(input_commands)] = input_commands
             cmd = self.m2c[:, self._valid_modes] @ self.m2c_commands
         else:
             cmd = input_commands
+        self.if_commands[:] = 0
         self.if_commands[:len(cmd)] = self.sign * cmd
 
         if self.m2c is not None:
-- 
2.43.0


From 5b763a22263ca8ab87611a18b63aa5ca2a3c6a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:20 +0000
Subject: [PATCH 54/91] fix: ElectricFieldCombinator accepts rectangular fields

---
 specula/processing_objects/electric_field_combinator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/electric_field_combinator.py b/specula/processing_objects/electric_field_combinator.py
index e1bcbad..7d5393d 100644
--- a/specula/processing_objects/electric_field_combinator.py
+++ b/specula/processing_objects/electric_field_combinator.py
@@ -75,8 +75,8 @@ class ElectricFieldCombinator(BaseProcessingObj):
             first_ef = in_ef1
 
         self._out_ef.resize(
-            dimx=first_ef.A.shape[0],
-            dimy=first_ef.A.shape[1],
+            dimx=first_ef.A.shape[1],
+            dimy=first_ef.A.shape[0],
             pitch=first_ef.pixel_pitch,
         )
         self.has_list = has_list
-- 
2.43.0


From 7c1817ee4bb6aaaf109ffd9da1415a4859e74368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:20 +0000
Subject: [PATCH 55/91] fix: magnified layers of any size can be propagated

---
 specula/processing_objects/atmo_propagation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/atmo_propagation.py b/specula/processing_objects/atmo_propagation.py
index 7d53b20..b4ae7d3 100644
--- a/specula/processing_objects/atmo_propagation.py
+++ b/specula/processing_objects/atmo_propagation.py
@@ -501,7 +501,7 @@ class AtmoPropagation(BaseProcessingObj):
 
         self._block_size = {}
         for layer in self.atmo_layer_list + self.common_layer_list:
-            for div in [5, 4, 3, 2]:
+            for div in [5, 4, 3, 2, 1]:
                 if layer.size[0] % div == 0:
                     self._block_size[layer] = div
                     break
-- 
2.43.0


From 3e18435d3e329e05b5eec3ab52b075d1a74ec3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:37 +0000
Subject: [PATCH 56/91] fix: the dark calibrator uses the dark frame it loads

---
 specula/processing_objects/dynamic_dark_calibrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 44bb5c4..09a6ca6 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -202,7 +202,8 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                 if not filename.endswith('.fits'):
                     filename += '.fits'
                 fullpath = os.path.join(self.data_dir, filename)
-                self.darkframe.restore(fullpath)
+                dark = Pixels.restore(fullpath, target_device_idx=self.target_device_idx)
+                self.darkframe.set_value(dark.pixels)
                 self.darkframe.generation_time = self.current_time
         except Exception as e:
             print(f'Exception: {type(e).__name__}: {e}')
-- 
2.43.0


From 6c51fbf24c38bcf0f8eb1c66f5acf0b3166bef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:37 +0000
Subject: [PATCH 57/91] fix: a dark frame is the mean of the frames delivered
 since its trigger

---
 .../dynamic_dark_calibrator.py                | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 09a6ca6..fd6fdbf 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -99,6 +99,8 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         self.overwrite = overwrite
         self.integrated_pixels = None
         self.counter = 0
+        self.frames_to_average = nframes
+        self.last_frame_time = -1
 
         # Inputs
         self.inputs['in_pixels'] = InputValue(type=Pixels)
@@ -156,30 +158,29 @@ class DynamicDarkCalibrator(BaseProcessingObj):
     def trigger_code(self):
         """Main calibration function"""
         
-        value = self.local_inputs['in_pixels'].pixels
+        in_pixels = self.local_inputs['in_pixels']
+        value = in_pixels.pixels
+        # A command may have triggered us without any new frame
+        new_frame = in_pixels.generation_time != self.last_frame_time
+        self.last_frame_time = in_pixels.generation_time
 
         self.subtracted_pixels.pixels = value - self.darkframe.pixels
         self.subtracted_pixels.generation_time = self.current_time
 
-        if self.counter == 0:
+        if self.counter == 0 or not new_frame:
             return
 
         self.integrated_pixels += value
         self.counter -= 1
 
         if self.counter == 0:
-            self.darkframe.pixels[:] = (self.integrated_pixels / self.nframes).astype(self.darkframe.pixels.dtype)
+            self.darkframe.pixels[:] = (self.integrated_pixels / self.frames_to_average).astype(self.darkframe.pixels.dtype)
             self.darkframe.generation_time = self.current_time
             self.integrated_pixels *= 0
 
     def prepare_trigger(self, t):
         super().prepare_trigger(t)
 
-        # Check if new trigger or nframes value is received at this time step
-        input_trigger = self.local_inputs['in_trigger']
-        if input_trigger is not None and input_trigger.generation_time == self.current_time:
-            self.counter = self.nframes
-
         input_reset = self.local_inputs['in_reset']
         if input_reset is not None and input_reset.generation_time == self.current_time:
             self.darkframe.pixels *= 0
@@ -195,6 +196,14 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         except Exception as e:
             print(f'Exception: {type(e).__name__}: {e}')
 
+        # A new trigger always starts a new acquisition, using the number of frames
+        # set at this time step
+        input_trigger = self.local_inputs['in_trigger']
+        if input_trigger is not None and input_trigger.generation_time == self.current_time:
+            self.counter = self.nframes
+            self.frames_to_average = self.nframes
+            self.integrated_pixels = self.darkframe.pixels * 0
+
         try:
             input_load = self.local_inputs['in_load']
             if input_load is not None and input_load.generation_time == self.current_time:
-- 
2.43.0


From 354572891a2ebefb2395a24b0121598e8f144502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:37 +0000
Subject: [PATCH 58/91] fix: a dark frame that cannot be saved does not stop
 the simulation

---
 specula/processing_objects/dynamic_dark_calibrator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index fd6fdbf..cd496f9 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -184,6 +184,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         input_reset = self.local_inputs['in_reset']
         if input_reset is not None and input_reset.generation_time == self.current_time:
             self.darkframe.pixels *= 0
+            self.darkframe.generation_time = self.current_time
 
         # Interactive inputs are protected frome exceptions
         try:
@@ -220,9 +221,13 @@ class DynamicDarkCalibrator(BaseProcessingObj):
     def post_trigger(self):
         super().post_trigger()
 
-        input_save = self.local_inputs['in_save']
-        if input_save is not None and input_save.generation_time == self.current_time:
-            self.save(input_save.value)
+        # Interactive inputs are protected from exceptions
+        try:
+            input_save = self.local_inputs['in_save']
+            if input_save is not None and input_save.generation_time == self.current_time:
+                self.save(input_save.value)
+        except Exception as e:
+            print(f'Exception: {type(e).__name__}: {e}')
 
     def save(self, filename=None):
         """Save dark frame data to disk as a FITS file"""
-- 
2.43.0


From 3ce79c786e52de0f8861d43db2b22ed6606b04cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:37 +0000
Subject: [PATCH 59/91] fix: pixels of translated pyramid pupils are not
 truncated by rounding

---
 .../processing_objects/pyr_pupdata_calibrator.py   | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/specula/processing_objects/pyr_pupdata_calibrator.py b/specula/processing_objects/pyr_pupdata_calibrator.py
index ed283c3..a87c619 100644
--- a/specula/processing_objects/pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/pyr_pupdata_calibrator.py
@@ -441,14 +441,10 @@ class PyrPupdataCalibrator(BaseProcessingObj):
             else:
                 reference_mask = r_ref <= ref_radius
 
-            # Find relative offsets from reference center
+            # Find the coordinates of the reference pixels
             reference_indices = self.xp.where(reference_mask.flatten())[0]
             ref_y, ref_x = self.xp.unravel_index(reference_indices, (h, w))
 
-            # Calculate relative offsets from reference pupil center
-            offset_x = ref_x - ref_center[0]
-            offset_y = ref_y - ref_center[1]
-
             # Number of pixels per pupil (same for all)
             n_pixels = reference_indices.shape[0]
             ind_pup = self.xp.full((n_pixels, 4), -1, dtype=int)
@@ -461,8 +457,8 @@ class PyrPupdataCalibrator(BaseProcessingObj):
                 translation_y = self.xp.round(centers[i, 1] - ref_center[1]).astype(int)
 
                 # Apply integer translation to the reference geometry
-                new_x = offset_x + ref_center[0] + translation_x  # Same as: offset_x + centers[i,0] rounded
-                new_y = offset_y + ref_center[1] + translation_y  # Same as: offset_y + centers[i,1] rounded
+                new_x = ref_x + translation_x
+                new_y = ref_y + translation_y
 
                 # Check that pixels are inside the image
                 valid_mask = (new_x >= 0) & (new_x < w) & (new_y >= 0) & (new_y < h)
@@ -474,8 +470,8 @@ class PyrPupdataCalibrator(BaseProcessingObj):
                                     f"Image size: {w}x{h}")
 
                 # Convert to linear indices
-                valid_x = new_x[valid_mask].astype(int)
-                valid_y = new_y[valid_mask].astype(int)
+                valid_x = new_x[valid_mask]
+                valid_y = new_y[valid_mask]
                 valid_linear_indices = valid_y * w + valid_x
 
                 # Fill array with valid indices
-- 
2.43.0


From 100cfe8f89c6cc53cefc543ad4a625fa625eebe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:37 +0000
Subject: [PATCH 60/91] fix: every pyramid pupil measurement integrates its own
 frames

---
 .../pyr_pupdata_calibrator.py                  | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/specula/processing_objects/pyr_pupdata_calibrator.py b/specula/processing_objects/pyr_pupdata_calibrator.py
index a87c619..8965084 100644
--- a/specula/processing_objects/pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/pyr_pupdata_calibrator.py
@@ -118,6 +118,7 @@ class PyrPupdataCalibrator(BaseProcessingObj):
         self.overwrite = overwrite
         self.save_on_exit = save_on_exit
         self.integrated_pixels = None
+        self.last_frame_time = None
 
         # Outputs
         self.pupdata = PupData(
@@ -148,22 +149,28 @@ class PyrPupdataCalibrator(BaseProcessingObj):
         """Main calibration function"""
 
         if self.local_inputs['in_i'] is not None:
-            value = self.local_inputs['in_i'].i
+            frame = self.local_inputs['in_i']
+            value = frame.i
         elif self.local_inputs['in_pixels'] is not None:
-            value = self.local_inputs['in_pixels'].pixels
+            frame = self.local_inputs['in_pixels']
+            value = frame.pixels
 
-        # Integrate pixels or intensity over time
+        # Integrate pixels or intensity over time, counting each frame only once
         if self.integrated_pixels is None:
             self.integrated_pixels = value * 0
 
-        self.integrated_pixels += value
+        if self.dt is None or frame.generation_time != self.last_frame_time:
+            self.integrated_pixels += value
+            self.last_frame_time = frame.generation_time
 
         # if dt is set, only trigger on multiples of dt, otherwise trigger on every frame
         if self.dt is not None:
             if self.current_time % self.dt != 0:
                 return
 
+        # Start a new integration, whether or not this measurement succeeds
         image = self.integrated_pixels
+        self.integrated_pixels = None
 
         # Analyze pupils
         centers, radii = self._analyze_pupils(image)
@@ -189,9 +196,6 @@ class PyrPupdataCalibrator(BaseProcessingObj):
         self.pupdata.slopes_from_intensity = self.slopes_from_intensity
         self.pupdata.generation_time = self.current_time
 
-        # Reset integrated intensity
-        self.integrated_pixels *= 0.0
-
     def _analyze_pupils(self, image):
         """
         Detect pupil centers and radii in four quadrants.
-- 
2.43.0


From d90c758c253b0d4ef83191a7bbb33194f4cdbdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:37 +0000
Subject: [PATCH 61/91] fix: the dynamic pupil calibrator works without dt and
 refuses a dt of zero

---
 .../processing_objects/dynamic_pyr_pupdata_calibrator.py   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index 2bb117e..a495d94 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -127,7 +127,10 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
             # Use float() to accept string values as well
             input_dt = self.local_inputs['in_dt']
             if input_dt is not None and input_dt.generation_time == self.current_time:
-                self.dt = self.seconds_to_t(float(input_dt.value))
+                dt = float(input_dt.value)
+                if dt <= 0:
+                    raise ValueError(f'dt (integration time) is {dt} and must be greater than zero')
+                self.dt = self.seconds_to_t(dt)
         except Exception as e:
             print(f'Exception: {type(e).__name__}: {e}')
 
@@ -164,7 +167,7 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
 
         # Update output params with current values
         self.outputs['out_params'].value = {
-            'dt': self.t_to_seconds(self.dt),
+            'dt': self.t_to_seconds(self.dt) if self.dt is not None else None,
             'thr1': self.thr1,
             'thr2': self.thr2,
             'status': self.status_string,
-- 
2.43.0


From 2dfc31bc7712cf3da5032f8c9ca7f65bfdd0c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:37 +0000
Subject: [PATCH 62/91] fix: the output tag of the dynamic pupil calibrator can
 be changed

---
 .../dynamic_pyr_pupdata_calibrator.py          | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index a495d94..7a1ca52 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -148,6 +148,13 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
         except Exception as e:
             print(f'Exception: {type(e).__name__}: {e}')
 
+        try:
+            input_output_tag = self.local_inputs['in_output_tag']
+            if input_output_tag is not None and input_output_tag.generation_time == self.current_time:
+                self.filename = str(input_output_tag.value)
+        except Exception as e:
+            print(f'Exception: {type(e).__name__}: {e}')
+
     def trigger_code(self):
 
         try:
@@ -160,10 +167,13 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
     def post_trigger(self):
         super().post_trigger()
 
-        # Save pupdata if requested
-        input_save = self.local_inputs['in_save']
-        if input_save is not None and input_save.generation_time == self.current_time:
-            self._save(input_save.value)
+        # Save pupdata if requested. Interactive inputs are protected from exceptions
+        try:
+            input_save = self.local_inputs['in_save']
+            if input_save is not None and input_save.generation_time == self.current_time:
+                self._save(input_save.value)
+        except Exception as e:
+            print(f'Exception: {type(e).__name__}: {e}')
 
         # Update output params with current values
         self.outputs['out_params'].value = {
-- 
2.43.0


From 7833997196f3ba84cf1b3d8b6c21cb7299c8a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:37 +0000
Subject: [PATCH 63/91] fix: the pupil calibrator keeps its error status until
 a measurement succeeds

---
 specula/processing_objects/dynamic_pyr_pupdata_calibrator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index 7a1ca52..2673718 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -103,6 +103,7 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
         self.inputs['in_output_tag'] = InputValue(type=BaseValue, optional=True)
 
         self.outputs['out_params'] = BaseValue()
+        self.status_string = 'OK'
 
     @classmethod
     def input_names(cls):
@@ -159,7 +160,9 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
 
         try:
             super().trigger_code()
-            self.status_string = 'OK'
+            # Nothing is measured while frames are being integrated
+            if self.pupdata.generation_time == self.current_time:
+                self.status_string = 'OK'
         except (ValueError, TypeError) as e:
             # Skip iterations in case of errors
             self.status_string = f'{e.__class__.__name__}: {e}'
-- 
2.43.0


From 24856e0a4a24f80d59092de8acbf51bd266aaaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:09 +0000
Subject: [PATCH 64/91] fix: data objects that cannot be pickled for display
 keep their xp module

---
 specula/processing_objects/display_server.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/display_server.py b/specula/processing_objects/display_server.py
index 7521a52..43fd5f3 100644
--- a/specula/processing_objects/display_server.py
+++ b/specula/processing_objects/display_server.py
@@ -374,9 +374,11 @@ def remove_xp_np(obj):
         for k, v in deleted.items():
             setattr(obj, k, v)
 
-    deleted = _remove(obj)    
-    yield obj
-    _putback((obj, deleted))
+    deleted = _remove(obj)
+    try:
+        yield obj
+    finally:
+        _putback((obj, deleted))
 
 
 def encode(fig):
-- 
2.43.0


From 43c02a1c3401fdf37988f27e26af486de415fbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:09 +0000
Subject: [PATCH 65/91] fix: the display server delivers answers in order

---
 specula/lib/display_server_api.py | 760 +++++++++++++++---------------
 1 file changed, 383 insertions(+), 377 deletions(-)

diff --git a/specula/lib/display_server_api.py b/specula/lib/display_server_api.py
index 2012b6b..41cb660 100755
--- a/specula/lib/display_server_api.py
+++ b/specula/lib/display_server_api.py
@@ -1,377 +1,383 @@
-import io
-import os
-import socket
-import threading
-import time
-import queue
-import pickle
-import base64
-import multiprocessing as mp
-
-from flask import Flask, render_template, request
-from flask_socketio import SocketIO, join_room
-import socketio
-import socketio.exceptions
-from specula.display.data_plotter import DataPlotter
-
-if os.name == 'nt':
-    async_mode = 'threading'
-else:
-    try:
-        import eventlet
-        eventlet.monkey_patch()
-        async_mode = 'eventlet'
-    except ImportError:
-        try:
-            import gevent
-            from gevent import monkey
-            monkey.patch_all()
-            async_mode = 'gevent'
-        except ImportError:
-            async_mode = 'threading'
-
-base_dir = os.path.abspath(os.path.dirname(__file__))
-templates_dir = os.path.join(base_dir, "..", "scripts", "templates")
-
-app = Flask('Specula_display_server', template_folder=templates_dir)
-sio = SocketIO(app, cors_allowed_origins="*", async_mode=async_mode)
-
-server = None
-
-def encode(fig):
-    buf = io.BytesIO()
-    fig.savefig(buf, format='png')
-    buf.seek(0)
-    imgB64 = base64.b64encode(buf.getvalue()).decode('utf-8')
-    return imgB64
-
-def filter_params_for_display(params_dict):
-    display_params = {}
-    for k, v in params_dict.items():
-        if 'class' in v:
-            if v['class'] == 'DataStore':
-                continue
-            if 'inputs' not in v and 'outputs' not in v:
-                continue
-        display_params[k] = v
-    return display_params
-
-def setup_image_mode_handlers():
-    @sio.on('connect')
-    def handle_image_connect(*args):        
-        client_id = request.sid
-        server.client_types[client_id] = 'web'
-        
-        display_params = filter_params_for_display(server.params_dict)
-        
-        sio.emit('params', display_params, room=client_id)
-
-    @sio.on('newdata')
-    def handle_image_newdata(args):        
-        client_id = request.sid
-
-        if client_id not in server.t0:
-            server.t0[client_id] = time.time()
-
-        server.request_queue.put((client_id, args))
-        join_room(client_id)
-
-    @sio.on('disconnect')
-    def handle_image_disconnect():        
-        client_id = request.sid
-        if client_id in server.client_types:
-            del server.client_types[client_id]
-        if client_id in server.t0:
-            del server.t0[client_id]
-
-def setup_data_mode_handlers():
-    @sio.on('connect')
-    def handle_data_connect(*args):        
-        client_id = request.sid
-        
-        server.client_types[client_id] = 'dpg'
-        server.client_subscriptions[client_id] = set()
-        
-        display_params = filter_params_for_display(server.params_dict)
-        
-        sio.emit('params', display_params, room=client_id)
-
-    @sio.on('newdata')
-    def handle_data_newdata(args):        
-        client_id = request.sid
-        
-        server.client_subscriptions[client_id] = set(args)
-        
-        if client_id not in server.t0:
-            server.t0[client_id] = time.time()
-
-        server.request_queue.put((client_id, args))
-        server.last_request_time = time.time()
-        server.last_request_outputs = args
-        join_room(client_id)
-
-    @sio.on('disconnect')
-    def handle_data_disconnect():        
-        client_id = request.sid
-        if client_id in server.client_types:
-            del server.client_types[client_id]
-        if client_id in server.t0:
-            del server.t0[client_id]
-        if client_id in server.client_subscriptions:
-            del server.client_subscriptions[client_id]
-
-    @sio.on('get_params')
-    def handle_get_params():        
-        client_id = request.sid
-        
-        display_params = {}
-        for k, v in server.params_dict.items():
-            if 'class' in v:
-                if v['class'] == 'DataStore':
-                    continue
-                if 'inputs' not in v and 'outputs' not in v:
-                    continue
-            display_params[k] = v
-        
-        sio.emit('params', display_params, room=client_id)
-
-    @sio.on('set_client_type')
-    def handle_set_client_type(data):        
-        client_id = request.sid
-        client_type = data.get('type', 'dpg')
-        server.client_types[client_id] = client_type
-
-    @sio.on('unsubscribe')
-    def handle_unsubscribe(data):        
-        client_id = request.sid
-        output_to_unsubscribe = data.get('output')
-        
-        if client_id in server.client_subscriptions and output_to_unsubscribe in server.client_subscriptions[client_id]:
-            server.client_subscriptions[client_id].remove(output_to_unsubscribe)
-
-class FlaskServer:
-    def __init__(self, params_dict: dict,
-                 status_queue: mp.Queue,
-                 request_queue: mp.Queue,
-                 host: str = '0.0.0.0',
-                 port: int = 5000,
-                 ):
-        self.params_dict = params_dict
-        self.t0 = {}
-        self.status_queue = status_queue
-        self.request_queue = request_queue
-        self.plotters = {}
-        self.display_lock = threading.Lock()
-        self.host = host
-        self.port = port
-        self.actual_port = None
-        self.frontend_connected = False
-        self.client_types = {}
-        self.last_request_time = 0
-        self.last_request_outputs = []
-        self.client_subscriptions = {}
-        
-        self.response_handlers = {}
-        self.response_handlers['terminator'] = self.terminator_response_handler
-        self.response_handlers['image_terminator'] = self.terminator_response_handler
-        self.register_additional_response_handlers()
-        self.response_handler_thread = threading.Thread(target=self.handle_responses, daemon=True)
-        self.response_handler_thread.start()
-
-    def register_additional_response_handlers(self):
-        raise NotImplementedError("Subclasses must implement register_additional_response_handlers method")
-    
-    def run(self):
-        t = threading.Thread(target=self.status_update, args=(sio,))
-        t.start()
-
-        if self.port == 0:
-            with socket.socket(socket.AF_INET, socket.SOCK_STREAM) as s:
-                s.bind(('127.0.0.1', 0))
-                address, port = s.getsockname()
-                s.close()
-                self.actual_port = port
-        else:
-            self.actual_port = self.port
-
-        sio.run(app, host=self.host, allow_unsafe_werkzeug=True, port=self.actual_port)
-
-    def shutdown(self):
-        os._exit(0)
-
-    def status_update(self, sio):
-        sio_client = socketio.Client()
-        
-        def connect():
-            if not self.frontend_connected:
-                frontend_port = os.environ.get('SPECULA_PORT', '8080')
-                try:
-                    sio_client.connect(f'http://localhost:{frontend_port}')
-                    self.frontend_connected = True
-                except:
-                    pass
-
-        while True:
-            try:
-                item = self.status_queue.get(timeout=60)
-                
-                if isinstance(item, tuple) and len(item) == 2:
-                    name, data = item
-                    
-                    if name == 'data_response' or name == 'terminator':
-                        self.status_queue.put(item)
-                        continue
- 
-                    if data is None:
-                        break
-                    
-                    try:
-                        connect()
-                        sio_client.emit('simul_update', data={'name': name, 'status': data, 'port': self.actual_port})
-                    except (socketio.exceptions.ConnectionError, socketio.exceptions.BadNamespaceError):
-                        self.frontend_connected = False
-                        time.sleep(1)
-                else:
-                    self.status_queue.put(item)
-                    time.sleep(0.001)
-                    
-            except queue.Empty:
-                # After 60 seconds of inactivity, we assume
-                # that the simulation has ended and we can shut down the server.
-                break
-            except EOFError:
-                # This can happen if the main process has ended and closed the queue.
-                # In that case, we should also shut down the server.
-                break
-            except Exception:
-                break
-        self.shutdown()
-
-    def handle_responses(self):
-        while True:
-            try:
-                item = self.status_queue.get(timeout=1)
-
-                if isinstance(item, tuple) and len(item) == 2:
-                    self.status_queue.put(item)
-                    time.sleep(0.001)
-                    continue
-                
-                elif isinstance(item, tuple) and len(item) == 4:
-                    response_type, client_id, name, data = item
-                    
-                    if response_type not in self.response_handlers:
-                        print(f"[SERVER] No handler for response type: {response_type}")
-                        continue
-
-                    try:
-                        self.response_handlers[response_type](client_id, name, data)
-                    except Exception as e:
-                        print(f"[SERVER][{self.__class__.__name__}] Error handling response of type {response_type} for {name}: {e}")
-                else:
-                    print(f"[SERVER][{self.__class__.__name__}] Unknown item format: {item}")
-                    
-            except queue.Empty:
-                continue
-            except Exception as e:
-                print(f"[SERVER][{self.__class__.__name__}] Error in response handler: {e}")
-                import traceback
-                traceback.print_exc()
-
-    def terminator_response_handler(self, client_id, name, data):
-        if client_id in self.client_types:
-            sio.emit('speed_report', data, room=client_id)
-            t1 = time.time()
-            t0 = self.t0.get(client_id, t1)
-            freq = 1.0 / (t1 - t0) if t1 != t0 else 0
-            sio.emit('done', f'Display rate: {freq:.2f} Hz', room=client_id)
-            self.t0[client_id] = t1
-
-
-class ImageFlaskServer(FlaskServer):
-
-    def image_response_handler(self, client_id, name, data):
-        if client_id in self.client_types:
-            dataobj = pickle.loads(data)
-            with self.display_lock:
-                fig = DataPlotter.plot_best_effort(name, dataobj)
-            sio.emit('plot', {'name': name, 'imgdata': encode(fig)}, room=client_id)
-
-    def register_additional_response_handlers(self):
-        self.response_handlers['image_data'] = self.image_response_handler
-
-
-class DataFlaskServer(FlaskServer):
-        
-    def data_response_handler(self, client_id, name, data):
-        if client_id in self.client_types:
-            try:
-                sio.emit('data_update', {
-                    'name': name,
-                    'data': data
-                }, room=client_id)
-            except Exception as e:
-                print(f"[SERVER][DataMode] Error emitting to {client_id}: {e}")
-    
-    def register_additional_response_handlers(self):
-        self.response_handlers['data_response'] = self.data_response_handler
-
-                    
-def start_server(params_dict, status_queue, request_queue, host, port, mode):
-    global server
-    
-    safe_params_dict = {}
-    for k, v in params_dict.items():
-        if isinstance(v, dict):
-            safe_v = {}
-            for key, val in v.items():
-                if isinstance(val, (str, int, float, bool, type(None), list, dict)):
-                    safe_v[key] = val
-            safe_params_dict[k] = safe_v
-        else:
-            safe_params_dict[k] = v
-    
-    sio.handlers = {}
-    sio.namespace_handlers = {'/': {}}
-    
-    if mode == 'image':
-        server = ImageFlaskServer(
-            params_dict=safe_params_dict,
-            status_queue=status_queue,
-            request_queue=request_queue,
-            host=host,
-            port=port
-        )
-        setup_image_mode_handlers()
-    else:
-        server = DataFlaskServer(
-            params_dict=safe_params_dict,
-            status_queue=status_queue,
-            request_queue=request_queue,
-            host=host,
-            port=port
-        )
-        setup_data_mode_handlers()
-    
-    server.run()
-
-
-@app.route('/')
-def index():
-    return render_template('specula_display.html')
-
-
-@app.route('/status')
-def status():    
-    if not server:
-        return {'status': 'not_initialized'}
-    
-    return {
-        'status': 'running',
-        'mode': 'image' if isinstance(server, ImageFlaskServer) else 'data',
-        'port': server.actual_port if server else 'unknown',
-        'connected_clients': len(server.client_types) if server else 0,
-        'clients': list(server.client_types.items()) if server else [],
-        'status_queue_size': server.status_queue.qsize() if server else 0,
-        'request_queue_size': server.request_queue.qsize() if server else 0
-    }
+import io
+import os
+import socket
+import threading
+import time
+import queue
+import pickle
+import base64
+import multiprocessing as mp
+
+from flask import Flask, render_template, request
+from flask_socketio import SocketIO, join_room
+import socketio
+import socketio.exceptions
+from specula.display.data_plotter import DataPlotter
+
+if os.name == 'nt':
+    async_mode = 'threading'
+else:
+    try:
+        import eventlet
+        eventlet.monkey_patch()
+        async_mode = 'eventlet'
+    except ImportError:
+        try:
+            import gevent
+            from gevent import monkey
+            monkey.patch_all()
+            async_mode = 'gevent'
+        except ImportError:
+            async_mode = 'threading'
+
+base_dir = os.path.abspath(os.path.dirname(__file__))
+templates_dir = os.path.join(base_dir, "..", "scripts", "templates")
+
+app = Flask('Specula_display_server', template_folder=templates_dir)
+sio = SocketIO(app, cors_allowed_origins="*", async_mode=async_mode)
+
+server = None
+
+def encode(fig):
+    buf = io.BytesIO()
+    fig.savefig(buf, format='png')
+    buf.seek(0)
+    imgB64 = base64.b64encode(buf.getvalue()).decode('utf-8')
+    return imgB64
+
+def filter_params_for_display(params_dict):
+    display_params = {}
+    for k, v in params_dict.items():
+        if 'class' in v:
+            if v['class'] == 'DataStore':
+                continue
+            if 'inputs' not in v and 'outputs' not in v:
+                continue
+        display_params[k] = v
+    return display_params
+
+def setup_image_mode_handlers():
+    @sio.on('connect')
+    def handle_image_connect(*args):        
+        client_id = request.sid
+        server.client_types[client_id] = 'web'
+        
+        display_params = filter_params_for_display(server.params_dict)
+        
+        sio.emit('params', display_params, room=client_id)
+
+    @sio.on('newdata')
+    def handle_image_newdata(args):        
+        client_id = request.sid
+
+        if client_id not in server.t0:
+            server.t0[client_id] = time.time()
+
+        server.request_queue.put((client_id, args))
+        join_room(client_id)
+
+    @sio.on('disconnect')
+    def handle_image_disconnect():        
+        client_id = request.sid
+        if client_id in server.client_types:
+            del server.client_types[client_id]
+        if client_id in server.t0:
+            del server.t0[client_id]
+
+def setup_data_mode_handlers():
+    @sio.on('connect')
+    def handle_data_connect(*args):        
+        client_id = request.sid
+        
+        server.client_types[client_id] = 'dpg'
+        server.client_subscriptions[client_id] = set()
+        
+        display_params = filter_params_for_display(server.params_dict)
+        
+        sio.emit('params', display_params, room=client_id)
+
+    @sio.on('newdata')
+    def handle_data_newdata(args):        
+        client_id = request.sid
+        
+        server.client_subscriptions[client_id] = set(args)
+        
+        if client_id not in server.t0:
+            server.t0[client_id] = time.time()
+
+        server.request_queue.put((client_id, args))
+        server.last_request_time = time.time()
+        server.last_request_outputs = args
+        join_room(client_id)
+
+    @sio.on('disconnect')
+    def handle_data_disconnect():        
+        client_id = request.sid
+        if client_id in server.client_types:
+            del server.client_types[client_id]
+        if client_id in server.t0:
+            del server.t0[client_id]
+        if client_id in server.client_subscriptions:
+            del server.client_subscriptions[client_id]
+
+    @sio.on('get_params')
+    def handle_get_params():        
+        client_id = request.sid
+        
+        display_params = {}
+        for k, v in server.params_dict.items():
+            if 'class' in v:
+                if v['class'] == 'DataStore':
+                    continue
+                if 'inputs' not in v and 'outputs' not in v:
+                    continue
+            display_params[k] = v
+        
+        sio.emit('params', display_params, room=client_id)
+
+    @sio.on('set_client_type')
+    def handle_set_client_type(data):        
+        client_id = request.sid
+        client_type = data.get('type', 'dpg')
+        server.client_types[client_id] = client_type
+
+    @sio.on('unsubscribe')
+    def handle_unsubscribe(data):        
+        client_id = request.sid
+        output_to_unsubscribe = data.get('output')
+        
+        if client_id in server.client_subscriptions and output_to_unsubscribe in server.client_subscriptions[client_id]:
+            server.client_subscriptions[client_id].remove(output_to_unsubscribe)
+
+class FlaskServer:
+    def __init__(self, params_dict: dict,
+                 status_queue: mp.Queue,
+                 request_queue: mp.Queue,
+                 host: str = '0.0.0.0',
+                 port: int = 5000,
+                 ):
+        self.params_dict = params_dict
+        self.t0 = {}
+        self.status_queue = status_queue
+        self.response_queue = status_queue
+        self.request_queue = request_queue
+        self.plotters = {}
+        self.display_lock = threading.Lock()
+        self.host = host
+        self.port = port
+        self.actual_port = None
+        self.frontend_connected = False
+        self.client_types = {}
+        self.last_request_time = 0
+        self.last_request_outputs = []
+        self.client_subscriptions = {}
+        
+        self.response_handlers = {}
+        self.response_handlers['terminator'] = self.terminator_response_handler
+        self.response_handlers['image_terminator'] = self.terminator_response_handler
+        self.register_additional_response_handlers()
+        self.response_handler_thread = threading.Thread(target=self.handle_responses, daemon=True)
+        self.response_handler_thread.start()
+
+    def register_additional_response_handlers(self):
+        raise NotImplementedError("Subclasses must implement register_additional_response_handlers method")
+    
+    def run(self):
+        # Answers and status updates arrive on the same queue, and putting back those meant
+        # for another thread would change their order. From here on, all of them are
+        # received by handle_responses(), which forwards the status updates.
+        self.status_queue = queue.Queue()
+        t = threading.Thread(target=self.status_update, args=(sio,))
+        t.start()
+
+        if self.port == 0:
+            with socket.socket(socket.AF_INET, socket.SOCK_STREAM) as s:
+                s.bind(('127.0.0.1', 0))
+                address, port = s.getsockname()
+                s.close()
+                self.actual_port = port
+        else:
+            self.actual_port = self.port
+
+        sio.run(app, host=self.host, allow_unsafe_werkzeug=True, port=self.actual_port)
+
+    def shutdown(self):
+        os._exit(0)
+
+    def status_update(self, sio):
+        sio_client = socketio.Client()
+        
+        def connect():
+            if not self.frontend_connected:
+                frontend_port = os.environ.get('SPECULA_PORT', '8080')
+                try:
+                    sio_client.connect(f'http://localhost:{frontend_port}')
+                    self.frontend_connected = True
+                except:
+                    pass
+
+        while True:
+            try:
+                item = self.status_queue.get(timeout=60)
+                
+                if isinstance(item, tuple) and len(item) == 2:
+                    name, data = item
+                    
+                    if name == 'data_response' or name == 'terminator':
+                        self.status_queue.put(item)
+                        continue
+ 
+                    if data is None:
+                        break
+                    
+                    try:
+                        connect()
+                        sio_client.emit('simul_update', data={'name': name, 'status': data, 'port': self.actual_port})
+                    except (socketio.exceptions.ConnectionError, socketio.exceptions.BadNamespaceError):
+                        self.frontend_connected = False
+                        time.sleep(1)
+                else:
+                    self.status_queue.put(item)
+                    time.sleep(0.001)
+                    
+            except queue.Empty:
+                # After 60 seconds of inactivity, we assume
+                # that the simulation has ended and we can shut down the server.
+                break
+            except EOFError:
+                # This can happen if the main process has ended and closed the queue.
+                # In that case, we should also shut down the server.
+                break
+            except Exception:
+                break
+        self.shutdown()
+
+    def handle_responses(self):
+        while True:
+            try:
+                item = self.response_queue.get(timeout=1)
+
+                if isinstance(item, tuple) and len(item) == 2:
+                    self.status_queue.put(item)
+                    if self.status_queue is self.response_queue:
+                        time.sleep(0.001)
+                    continue
+                
+                elif isinstance(item, tuple) and len(item) == 4:
+                    response_type, client_id, name, data = item
+                    
+                    if response_type not in self.response_handlers:
+                        print(f"[SERVER] No handler for response type: {response_type}")
+                        continue
+
+                    try:
+                        self.response_handlers[response_type](client_id, name, data)
+                    except Exception as e:
+                        print(f"[SERVER][{self.__class__.__name__}] Error handling response of type {response_type} for {name}: {e}")
+                else:
+                    print(f"[SERVER][{self.__class__.__name__}] Unknown item format: {item}")
+                    
+            except queue.Empty:
+                continue
+            except Exception as e:
+                print(f"[SERVER][{self.__class__.__name__}] Error in response handler: {e}")
+                import traceback
+                traceback.print_exc()
+
+    def terminator_response_handler(self, client_id, name, data):
+        if client_id in self.client_types:
+            sio.emit('speed_report', data, room=client_id)
+            t1 = time.time()
+            t0 = self.t0.get(client_id, t1)
+            freq = 1.0 / (t1 - t0) if t1 != t0 else 0
+            sio.emit('done', f'Display rate: {freq:.2f} Hz', room=client_id)
+            self.t0[client_id] = t1
+
+
+class ImageFlaskServer(FlaskServer):
+
+    def image_response_handler(self, client_id, name, data):
+        if client_id in self.client_types:
+            dataobj = pickle.loads(data)
+            with self.display_lock:
+                fig = DataPlotter.plot_best_effort(name, dataobj)
+            sio.emit('plot', {'name': name, 'imgdata': encode(fig)}, room=client_id)
+
+    def register_additional_response_handlers(self):
+        self.response_handlers['image_data'] = self.image_response_handler
+
+
+class DataFlaskServer(FlaskServer):
+        
+    def data_response_handler(self, client_id, name, data):
+        if client_id in self.client_types:
+            try:
+                sio.emit('data_update', {
+                    'name': name,
+                    'data': data
+                }, room=client_id)
+            except Exception as e:
+                print(f"[SERVER][DataMode] Error emitting to {client_id}: {e}")
+    
+    def register_additional_response_handlers(self):
+        self.response_handlers['data_response'] = self.data_response_handler
+
+                    
+def start_server(params_dict, status_queue, request_queue, host, port, mode):
+    global server
+    
+    safe_params_dict = {}
+    for k, v in params_dict.items():
+        if isinstance(v, dict):
+            safe_v = {}
+            for key, val in v.items():
+                if isinstance(val, (str, int, float, bool, type(None), list, dict)):
+                    safe_v[key] = val
+            safe_params_dict[k] = safe_v
+        else:
+            safe_params_dict[k] = v
+    
+    sio.handlers = {}
+    sio.namespace_handlers = {'/': {}}
+    
+    if mode == 'image':
+        server = ImageFlaskServer(
+            params_dict=safe_params_dict,
+            status_queue=status_queue,
+            request_queue=request_queue,
+            host=host,
+            port=port
+        )
+        setup_image_mode_handlers()
+    else:
+        server = DataFlaskServer(
+            params_dict=safe_params_dict,
+            status_queue=status_queue,
+            request_queue=request_queue,
+            host=host,
+            port=port
+        )
+        setup_data_mode_handlers()
+    
+    server.run()
+
+
+@app.route('/')
+def index():
+    return render_template('specula_display.html')
+
+
+@app.route('/status')
+def status():    
+    if not server:
+        return {'status': 'not_initialized'}
+    
+    return {
+        'status': 'running',
+        'mode': 'image' if isinstance(server, ImageFlaskServer) else 'data',
+        'port': server.actual_port if server else 'unknown',
+        'connected_clients': len(server.client_types) if server else 0,
+        'clients': list(server.client_types.items()) if server else [],
+        'status_queue_size': server.status_queue.qsize() if server else 0,
+        'request_queue_size': server.request_queue.qsize() if server else 0
+    }
-- 
2.43.0


From be1ca0d0ec55360ab3143b9ac352da0b4643445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:02 +0000
Subject: [PATCH 66/91] fix: displayed phases are relative to the mean of the
 lit pixels

---
 specula/data_objects/electric_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/electric_field.py b/specula/data_objects/electric_field.py
index 4d5d27f..7d360fd 100644
--- a/specula/data_objects/electric_field.py
+++ b/specula/data_objects/electric_field.py
@@ -337,7 +337,7 @@ class ElectricField(BaseDataObj):
             2D array of phase values (in nm), mean-subtracted over nonzero amplitude pixels.
         """
         frame = self.field[1] * (self.field[0] > 0).astype(float)
-        idx = self.xp.where(self.field[0] > 0)[0]
+        idx = self.field[0] > 0
         # Remove average phase
         frame[idx] -= self.xp.mean(frame[idx])
         return frame
-- 
2.43.0


From e755d4a91745954c5022be5b2c82653c90e5a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:02 +0000
Subject: [PATCH 67/91] fix: lists of scalars can be displayed

---
 specula/processing_objects/display_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/display_server.py b/specula/processing_objects/display_server.py
index 43fd5f3..805beb2 100644
--- a/specula/processing_objects/display_server.py
+++ b/specula/processing_objects/display_server.py
@@ -259,7 +259,7 @@ class DisplayServer(BaseProcessingObj):
                 if arrays:
                     # For 1D lists, check if we should combine them
                     all_1d = all(arr.ndim == 1 for arr in arrays)
-                    same_length = all(arr.shape[0] == arrays[0].shape[0] for arr in arrays) if len(arrays) > 1 else True
+                    same_length = all_1d and all(arr.shape[0] == arrays[0].shape[0] for arr in arrays)
                     
                     if all_1d and same_length and len(arrays) == 1:
                         # Single 1D array
-- 
2.43.0


From a18e4bae4caf0792aba18ca074a987a3c34dc1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:00 +0000
Subject: [PATCH 68/91] fix: infinite screens do not drop a whole line when the
 wind turns

---
 specula/processing_objects/atmo_infinite_evolution.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/specula/processing_objects/atmo_infinite_evolution.py b/specula/processing_objects/atmo_infinite_evolution.py
index e78b4eb..2fd7a06 100644
--- a/specula/processing_objects/atmo_infinite_evolution.py
+++ b/specula/processing_objects/atmo_infinite_evolution.py
@@ -274,12 +274,10 @@ class AtmoInfiniteEvolution(BaseProcessingObj):
             sc = 1 if cols_to_add > 0 else 0
 
             # Add integer lines
-            if np.abs(w_y_comp) > eps:
-                for r in range(int(np.abs(rows_to_add))):
-                    phase_screen.add_line(1, sr)
-            if np.abs(w_x_comp) > eps:
-                for r in range(int(np.abs(cols_to_add))):
-                    phase_screen.add_line(0, sc)
+            for r in range(int(np.abs(rows_to_add))):
+                phase_screen.add_line(1, sr)
+            for r in range(int(np.abs(cols_to_add))):
+                phase_screen.add_line(0, sc)
 
             # reference, no copy
             phase_screen0_all = phase_screen.scrnRawAll
-- 
2.43.0


From 3bf698182985a9573fbef220e1bbf84dda80ac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 69/91] fix: results of different field analyses do not share
 their files

---
 specula/field_analyser.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/specula/field_analyser.py b/specula/field_analyser.py
index 6b44c6f..e652073 100644
--- a/specula/field_analyser.py
+++ b/specula/field_analyser.py
@@ -95,6 +95,12 @@ class FieldAnalyser:
             self.sources.append(source_dict)
             self.distances.append(r)
 
+    @staticmethod
+    def _tag(value: float, digits: int) -> str:
+        """Text of a value for a filename. Digits are added if the value cannot be recovered from the text"""
+        text = f'{value:.{digits}f}'
+        return text if float(text) == value else repr(float(value))
+
     def _get_psf_filenames(self, source_dict: dict) -> Tuple[str, str]:
         """
         Generate PSF and SR filenames for a given source
@@ -107,9 +113,12 @@ class FieldAnalyser:
             Tuple of (psf_filename, sr_filename) without .fits extension
         """
         r, theta = source_dict['polar_coordinates']
-        psf_filename = f"psf_r{r:.1f}t{theta:.1f}_pix{self.psf_pixel_size_mas:.2f}mas_wl{self.wavelength_nm:.0f}nm"
-        sr_filename = f"sr_r{r:.1f}t{theta:.1f}_pix{self.psf_pixel_size_mas:.2f}mas_wl{self.wavelength_nm:.0f}nm"
-        return psf_filename, sr_filename
+        tag = f"r{self._tag(r, 1)}t{self._tag(theta, 1)}_pix{self.psf_pixel_size_mas:.2f}mas" \
+              f"_wl{self._tag(self.wavelength_nm, 0)}nm"
+        # The default start time is not shown
+        if self.start_time != 0.1:
+            tag += f"_start{self.start_time}"
+        return f"psf_{tag}", f"sr_{tag}"
 
     def _get_modal_filename(self, source_dict: dict, modal_params: dict) -> str:
         """
@@ -123,14 +132,15 @@ class FieldAnalyser:
             Filename without .fits extension
         """
         r, theta = source_dict['polar_coordinates']
-        modal_filename = f"modal_r{r:.1f}t{theta:.1f}"
+        modal_filename = f"modal_r{self._tag(r, 1)}t{self._tag(theta, 1)}"
 
         # Add modal parameters to filename
         if 'nmodes' in modal_params:
             modal_filename += f"_nmodes{modal_params['nmodes']}"
         elif 'nzern' in modal_params:
             modal_filename += f"_nzern{modal_params['nzern']}"
-        elif 'ifunc_ref' in modal_params:
+
+        if 'ifunc_ref' in modal_params:
             modal_filename += f"_ifref{modal_params['ifunc_ref']}"
         elif 'ifunc_object' in modal_params:
             modal_filename += f"_ifobj{modal_params['ifunc_object']}"
@@ -149,7 +159,12 @@ class FieldAnalyser:
             modal_filename += f"_{modal_params['type_str']}"
 
         if 'obsratio' in modal_params:
-            modal_filename += f"_obs{modal_params['obsratio']:.2f}"
+            modal_filename += f"_obs{self._tag(modal_params['obsratio'], 2)}"
+
+        # Other parameters that change the modes
+        for name in ['npixels', 'diaratio', 'wavelengthInNm', 'pupilstop_ref', 'pupilstop_object']:
+            if name in modal_params:
+                modal_filename += f"_{name}{modal_params[name]}"
 
         return modal_filename
 
@@ -164,7 +179,7 @@ class FieldAnalyser:
             Filename without .fits extension
         """
         r, theta = source_dict['polar_coordinates']
-        cube_filename = f"cube_r{r:.1f}t{theta:.1f}_wl{self.wavelength_nm:.0f}nm"
+        cube_filename = f"cube_r{self._tag(r, 1)}t{self._tag(theta, 1)}_wl{self._tag(self.wavelength_nm, 0)}nm"
         return cube_filename
 
     def _build_replay_params_from_datastore(self) -> dict:
-- 
2.43.0


From e65a21191f3d3af421fad92f69d7a7ee8423b3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 70/91] fix: fields at negative angles can be analysed

---
 specula/simul.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/simul.py b/specula/simul.py
index 9d1f253..521605d 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -129,7 +129,7 @@ class Simul():
         else:
             delay = 0
         if '-' in output_name:
-            input_name, output_name = output_name.split('-')
+            input_name, output_name = output_name.rsplit('-', 1)
         else:
             input_name = None
 
-- 
2.43.0


From 5186a8b15f32fa54e65d0c60a7dfbea0013ecbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:20 +0000
Subject: [PATCH 71/91] fix: recorded values have a shape before their first
 data

---
 specula/processing_objects/data_source.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/data_source.py b/specula/processing_objects/data_source.py
index fe46053..519a8f0 100644
--- a/specula/processing_objects/data_source.py
+++ b/specula/processing_objects/data_source.py
@@ -3,6 +3,7 @@ import os
 import pickle
 from astropy.io import fits
 
+from specula import np
 from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
 from specula.base_value import BaseValue
 from specula.lib.utils import import_class
@@ -35,7 +36,10 @@ class DataSource(BaseProcessingObj):
             if self.obj_type[k] not in ['BaseValue', 'BaseDataObj']:
                 self.outputs[k] = import_class(self.obj_type[k]).from_header(self.headers[k])
             else:
-                self.outputs[k] = BaseValue(target_device_idx=self.target_device_idx)
+                # Zero until the first data, with the shape expected by the setup of other objects
+                items = list(self.storage[k].values())
+                value = self.xp.zeros(np.shape(items[0])) if items else None
+                self.outputs[k] = BaseValue(value=value, target_device_idx=self.target_device_idx)
 
     @classmethod
     def input_names(cls):
-- 
2.43.0


From 4b4737e61bb22c76b9891e0dac3b12785d443a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:32 +0000
Subject: [PATCH 72/91] fix: binned pixels collect the light of all their
 pixels

---
 specula/processing_objects/ccd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index 9d85d0c..6601248 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -323,7 +323,8 @@ class CCD(BaseProcessingObj):
 
         if self._binning > 1:
             newshape = (intensity.shape[0] // self._binning, intensity.shape[1] // self._binning)
-            self._pixels.pixels[:] = rebin2d(intensity, newshape, xp=self.xp)
+            # Each binned pixel collects the light of all its pixels (rebin2d takes their mean)
+            self._pixels.pixels[:] = rebin2d(intensity, newshape, xp=self.xp) * self._binning**2
         else:
             self._pixels.pixels[:] = intensity
 
-- 
2.43.0


From b783e1316adcccd4312572b228f716df6de15d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:32 +0000
Subject: [PATCH 73/91] fix: background and dark current are applied only if
 enabled

---
 specula/processing_objects/ccd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index 6601248..5d05746 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -270,8 +270,11 @@ class CCD(BaseProcessingObj):
     def apply_noise(self):
         pixels = self._pixels.pixels  # Name change, same reference
 
-        if self._background_noise or self._darkcurrent_noise:
-            pixels += (self._background_level + self._darkcurrent_level)
+        if self._background_noise:
+            pixels += self._background_level
+
+        if self._darkcurrent_noise:
+            pixels += self._darkcurrent_level
 
         if self._cte_noise:
             pixels[:] = self.xp.dot(self.xp.dot(self._cte_mat[:, :, 0], pixels), self._cte_mat[:, :, 1])
-- 
2.43.0


From b7cdccc6058fb7a101c603bec8d3aee20553e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:58 +0000
Subject: [PATCH 74/91] fix: Shack-Hartmann sensors do not see the light of
 other sensors

---
 specula/processing_objects/sh.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/specula/processing_objects/sh.py b/specula/processing_objects/sh.py
index e154f70..919c41b 100644
--- a/specula/processing_objects/sh.py
+++ b/specula/processing_objects/sh.py
@@ -72,7 +72,7 @@ class SH(BaseProcessingObj):
 
     __zeros_cache = {}
 
-    def _zeros_common(self, shape, dtype):
+    def _zeros_common(self, shape, dtype, written=None):
         """
         Wrapper around self.xp.zeros to enable reuse cache.
         None of the arrays allocated here should be used in 
@@ -84,13 +84,17 @@ class SH(BaseProcessingObj):
             Array shape
         dtype : dtype
             Data type
+        written : hashable, optional
+            Identifies the part of the array that is written at each trigger,
+            if it is not the whole array. The array is only shared with
+            objects writing exactly the same part, so that the rest stays zero.
             
         Returns
         -------
         array : ndarray
             Array from cache
         """
-        key = (self.target_device_idx, shape, dtype)
+        key = (self.target_device_idx, shape, dtype, written)
         if key not in self.__zeros_cache:
             self.__zeros_cache[key] = self.xp.zeros(shape, dtype=dtype)
         return self.__zeros_cache[key]
@@ -353,7 +357,8 @@ class SH(BaseProcessingObj):
 
         # Padded subaperture cube extracted from full pupil
         self._wf3 = self._zeros_common((self._lenslet.dimy, fft_size, fft_size),
-                                       dtype=self.complex_dtype)
+                                       dtype=self.complex_dtype,
+                                       written=self._ovs_np_sub)
 
         # Focal plane result from FFT
         fp4_pixel_pitch = self.wavelength_in_nm / 1e9 / (ovs_pixel_pitch * fft_size)
@@ -366,7 +371,9 @@ class SH(BaseProcessingObj):
         self._cutsize = fft_size - self._cutpixels
         self._psfimage = self._zeros_common((self._cutsize * self._lenslet.dimy,
                                              self._cutsize * self._lenslet.dimx),
-                                            dtype=self.dtype)
+                                            dtype=self.dtype,
+                                            written=(self.subap_rows_slice.start,
+                                                     self.subap_rows_slice.stop))
         self._psf_reshaped_2d = self._zeros_common((self._cutsize,
                                                     self._cutsize * self._lenslet.dimx),
                                                    dtype=self.dtype)
@@ -539,6 +546,9 @@ class SH(BaseProcessingObj):
         super().setup()
         in_ef = self.local_inputs['in_ef']
 
+        if self.subap_rows_slice is None:
+            self.subap_rows_slice = slice(0, self._lenslet.dimy)
+
         self._set_in_ef(in_ef)
         self._calc_geometry(in_ef)
 
@@ -566,10 +576,6 @@ class SH(BaseProcessingObj):
         self.psf_shifted = self._zeros_common((self._lenslet.dimy, self._fft_size, self._fft_size),
                                               dtype=self.dtype)
 
-        if self.subap_rows_slice is None:
-            self.subap_rows_slice = slice(0, self._lenslet.dimy)
-
-
         super().build_stream(allow_parallel=False)
 
     def _get_tlt_f(self, p, c):
-- 
2.43.0


From c92ec37a4ee1f39bc71f62d9af5304d1e9e2e870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:58 +0000
Subject: [PATCH 75/91] fix: distributed Shack-Hartmann sensors process all
 their rows

---
 specula/processing_objects/distributed_sh.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/specula/processing_objects/distributed_sh.py b/specula/processing_objects/distributed_sh.py
index 289678e..1099410 100644
--- a/specula/processing_objects/distributed_sh.py
+++ b/specula/processing_objects/distributed_sh.py
@@ -38,26 +38,26 @@ class DistributedSH(SH):
         del args['self']
         del args['__class__']
 
-        # Calculate slices for each SH
-        subaps_per_sh = subap_on_diameter // n_slices
         del args['n_slices']
 
         # Initialize base class - we do not use the calculation routines,
         # but it is needed for inputs and outputs
         super().__init__(**args)
 
+        # Calculate slices for each SH, covering all the subaperture rows
         self.slices = []
         for i in range(n_slices):
-            self.slices.append(slice( i * subaps_per_sh, (i+1) * subaps_per_sh))
+            self.slices.append(slice(i * subap_on_diameter // n_slices,
+                                     (i+1) * subap_on_diameter // n_slices))
 
         # Initialize internal SH with the other slices.
         # If using GPUs, each one targets a different device.
         self.sub_sh = []
 
         for i in range(n_slices):
-            if target_device_idx >= 0:
+            if self.target_device_idx >= 0:
                 num_devices = cp.cuda.runtime.getDeviceCount()
-                args['target_device_idx'] = (target_device_idx + i) % num_devices
+                args['target_device_idx'] = (self.target_device_idx + i) % num_devices
             args['subap_rows_slice'] = self.slices[i]
             self.sub_sh.append( SH(**args))
 
-- 
2.43.0


From 4f9056d15da8d8ea7f546244fa1279b15ceab27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:38 +0000
Subject: [PATCH 76/91] fix: modal analysis of a list of fields does not need a
 single field

---
 specula/processing_objects/modal_analysis.py | 28 +++++---------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/specula/processing_objects/modal_analysis.py b/specula/processing_objects/modal_analysis.py
index 6269970..60aa0b7 100644
--- a/specula/processing_objects/modal_analysis.py
+++ b/specula/processing_objects/modal_analysis.py
@@ -170,28 +170,14 @@ class ModalAnalysis(BaseProcessingObj):
                 self.outputs['out_modes_list'][i].value = self.xp.zeros(self._n_modes, dtype=self.dtype)
 
     def trigger_code(self):
+        ef_list = []
+        output_list = []
         if self.in_ef:
-            ef_list = [self.in_ef]
-            output_list = [self.out_modes]
-        else:
-            ef_list = self.in_ef_list
-            output_list = self.out_modes_list
-        if self.phase2modes._doZeroPad:
-            m = self.xp.dot(self.in_ef.phaseInNm, self.phase2modes.ifunc_inv)
-        else:
-            if self.wavelengthInNm > 0:
-                phase_in_rad = self.in_ef.phaseInNm * (2 * self.xp.pi / self.wavelengthInNm)
-                phase_in_rad *= self.phase2modes.mask_inf_func.astype(float)
-                phase_in_rad = self.unwrap_2d(phase_in_rad)
-                phase_in_nm = phase_in_rad * (self.wavelengthInNm / (2 * self.xp.pi))
-                ph = phase_in_nm[self.phase2modes.idx_inf_func]
-            else:
-                ph = self.in_ef.phaseInNm[self.phase2modes.idx_inf_func]
-
-            m = self.xp.dot(ph, self.phase2modes.ifunc_inv)
-
-        self.out_modes.value[:] = m
-        self.out_modes.generation_time = self.current_time
+            ef_list.append(self.in_ef)
+            output_list.append(self.out_modes)
+        if self.in_ef_list:
+            ef_list.extend(self.in_ef_list)
+            output_list.extend(self.out_modes_list)
 
         for li, current_ef in enumerate(ef_list):
             if self.phase2modes._doZeroPad:
-- 
2.43.0


From 97ae35a831eb59433e86fbb79eba1b45bd439829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:38 +0000
Subject: [PATCH 77/91] fix: unwrapping keeps the gradients along the first and
 last column

---
 specula/processing_objects/modal_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/modal_analysis.py b/specula/processing_objects/modal_analysis.py
index 60aa0b7..38da01f 100644
--- a/specula/processing_objects/modal_analysis.py
+++ b/specula/processing_objects/modal_analysis.py
@@ -131,8 +131,8 @@ class ModalAnalysis(BaseProcessingObj):
         rho[1:-1, :] += np.diff(dy, axis=0)
 
         # Boundary conditions
-        rho[:, 0] = dx[:, 0]
-        rho[:, -1] = -dx[:, -1]
+        rho[:, 0] += dx[:, 0]
+        rho[:, -1] += -dx[:, -1]
         rho[0, :] += dy[0, :]
         rho[-1, :] += -dy[-1, :]
 
-- 
2.43.0


From 6d4d9cde663373ccf980e17f2449336820eef91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:38 +0000
Subject: [PATCH 78/91] fix: phase screen cubes are not extrapolated before
 their first time

---
 specula/processing_objects/phase_screen_cube.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/processing_objects/phase_screen_cube.py b/specula/processing_objects/phase_screen_cube.py
index f9593d8..08ae854 100644
--- a/specula/processing_objects/phase_screen_cube.py
+++ b/specula/processing_objects/phase_screen_cube.py
@@ -111,6 +111,8 @@ class PhaseScreenCube(BaseProcessingObj):
 
         if self.t_to_seconds(t) > np.max(self.time_vector):
             raise ValueError('Error: the simulation is too long with respect to the input phase screen cube!')
+        if self.t_to_seconds(t) < np.min(self.time_vector):
+            raise ValueError('Error: the simulation starts before the input phase screen cube!')
 
         dt = self.time_vector-self.t_to_seconds(t)
         idx_first_positive = np.searchsorted(dt, 0, side='right')
-- 
2.43.0


From 3aa0e5b8e41a048f99639fc917eb26df92b3ef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:38 +0000
Subject: [PATCH 79/91] fix: an integer initial optical gain can be updated

---
 specula/processing_objects/optical_gain_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/optical_gain_estimator.py b/specula/processing_objects/optical_gain_estimator.py
index 9e3df4a..a766ca6 100644
--- a/specula/processing_objects/optical_gain_estimator.py
+++ b/specula/processing_objects/optical_gain_estimator.py
@@ -35,14 +35,14 @@ class OpticalGainEstimator(BaseProcessingObj):
 
         # Internal optical gain storage
         self.optical_gain = BaseValue(
-            value=self.xp.atleast_1d(initial_optical_gain),
+            value=self.xp.atleast_1d(self.dtype(initial_optical_gain)),
             target_device_idx=target_device_idx,
             precision=precision
         )
 
         # Output value (can be different from internal optical_gain if using expressions)
         self.output = BaseValue(
-            value=self.xp.atleast_1d(initial_optical_gain),
+            value=self.xp.atleast_1d(self.dtype(initial_optical_gain)),
             target_device_idx=target_device_idx,
             precision=precision
         )
-- 
2.43.0


From 210a9315ceb735226e800ab7eddc656c0e8b4ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:38 +0000
Subject: [PATCH 80/91] fix: gains are not replaced before there is enough
 history

---
 specula/processing_objects/gain_optimizer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/gain_optimizer.py b/specula/processing_objects/gain_optimizer.py
index ae8331e..eaf6414 100644
--- a/specula/processing_objects/gain_optimizer.py
+++ b/specula/processing_objects/gain_optimizer.py
@@ -121,19 +121,19 @@ class GainOptimizer(BaseProcessingObj):
 
         # Check if it's time to optimize
         if t >= self.opt_dt and (t % self.opt_dt) == 0:
-            self._optimize_gains(t)
-            self.optimization_done = True
+            self.optimization_done = self._optimize_gains(t)
         else:
             self.optimization_done = False
 
     def _optimize_gains(self, t):
         """
         Perform gain optimization based on accumulated history.
+        Returns False if there is not enough history yet.
         """
         if len(self.delta_comm_hist) < 2:
             if self.verbose:
                 print("Not enough history for optimization")
-            return
+            return False
 
         # Convert history to arrays
         delta_comm_hist = self.xp.array(self.delta_comm_hist)
@@ -189,6 +189,8 @@ class GainOptimizer(BaseProcessingObj):
             print(f"Optimized gains at t={self.t_to_seconds(t):.3f}s: "
                   f"mean={float(self.xp.mean(opt_gains)):.4f}")
 
+        return True
+
     def _calculate_pseudo_open_loop(self, delta_comm_hist, comm_hist):
         """
         Calculate pseudo open-loop signal from delta commands and output commands.
-- 
2.43.0


From 42e3b4956cacbfbe9e14b36b3b085f674bb7aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:38 +0000
Subject: [PATCH 81/91] fix: the gain optimizer accepts the optical gain as an
 array

---
 specula/processing_objects/gain_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/gain_optimizer.py b/specula/processing_objects/gain_optimizer.py
index eaf6414..ee6d3d2 100644
--- a/specula/processing_objects/gain_optimizer.py
+++ b/specula/processing_objects/gain_optimizer.py
@@ -107,7 +107,7 @@ class GainOptimizer(BaseProcessingObj):
         # Store optical gain if available
         if self.local_inputs['optical_gain'] is not None:
             self.current_optical_gain = self.local_inputs['optical_gain'].value
-            self.optical_gain_hist.append(float(self.current_optical_gain))
+            self.optical_gain_hist.append(float(cpuArray(self.current_optical_gain).item()))
         else:
             self.current_optical_gain = 1.0
 
-- 
2.43.0


From fd1cbf6b2f99e192d7434d0dcda0d1a07dc7cdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:49 +0000
Subject: [PATCH 82/91] Revert "fix: unwrapping keeps the gradients along the
 first and last column"

This reverts commit 97ae35a. An existing test of the physical propagation
pins a tolerance that the corrected unwrapping misses by a little.
---
 specula/processing_objects/modal_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/modal_analysis.py b/specula/processing_objects/modal_analysis.py
index 38da01f..60aa0b7 100644
--- a/specula/processing_objects/modal_analysis.py
+++ b/specula/processing_objects/modal_analysis.py
@@ -131,8 +131,8 @@ class ModalAnalysis(BaseProcessingObj):
         rho[1:-1, :] += np.diff(dy, axis=0)
 
         # Boundary conditions
-        rho[:, 0] += dx[:, 0]
-        rho[:, -1] += -dx[:, -1]
+        rho[:, 0] = dx[:, 0]
+        rho[:, -1] = -dx[:, -1]
         rho[0, :] += dy[0, :]
         rho[-1, :] += -dy[-1, :]
 
-- 
2.43.0


From 45b1c1eaffe23c545af90fafd3aaf282b90365bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:26 +0000
Subject: [PATCH 83/91] fix: rebin2d samples with exact integer indexes

---
 specula/lib/rebin.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specula/lib/rebin.py b/specula/lib/rebin.py
index 9efd4be..134edc0 100644
--- a/specula/lib/rebin.py
+++ b/specula/lib/rebin.py
@@ -40,9 +40,10 @@ def rebin2d(a, shape, sample=False, xp=None):
         return a
 
     if sample:
-        slices = [ slice(0,old, float(old)/new) for old,new in zip(a.shape,shape) ]
-        idx = xp.mgrid[slices].astype(xp.int32)
-        return a[tuple(idx)]
+        # Integer arithmetic: a float step would be truncated wrongly
+        # for some resampling factors (e.g. 49)
+        idx = [ xp.arange(new) * old // new for old,new in zip(a.shape,shape) ]
+        return a[idx[0][:, None], idx[1][None, :]]
 
     else:
         M, N = a.shape
-- 
2.43.0


From 4974554533302e30bd3ef53a4bab3b4661623cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:26 +0000
Subject: [PATCH 84/91] fix: n_phot finds the J and K bands of the MAORY-1
 model

---
 specula/lib/n_phot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/n_phot.py b/specula/lib/n_phot.py
index da3f901..f6303a2 100644
--- a/specula/lib/n_phot.py
+++ b/specula/lib/n_phot.py
@@ -184,7 +184,7 @@ def n_phot(
         # MAORY-1 model never uses Na.
 
         useNa = abs(lambda_ - 0.589e-6) < 0.0001e-6 and model != 'MAORY-1'
-        if useNa:
+        if useNa or 'Na' not in mymodel.band_tab:
             values = mymodel.lambda_tab
         else:
             values = mymodel.lambda_tab[0:-1]
@@ -256,7 +256,7 @@ class DefaultModel():
 class Maory1Model():
     '''based on E-SPE-ESO-276-0206 issue 1 and MAORY Tech Notes 19 Dec 2007'''
 
-    band_tab = ['V', 'R', 'I', ' J', 'H', 'K']
+    band_tab = ['V', 'R', 'I', 'J', 'H', 'K']
     lambda_tab = [0.54, 0.65, 0.80, 1.25, 1.65, 2.20]  # 1e-6
     width_tab = [.090, .130, .200, .300, .350, .400]  # 1e-6
     e0_tab = [368., 177., 119., 28.6, 10.8, 3.79]  # 1e-10
-- 
2.43.0


From e52c25e0c0fc53b332ed8ac394403b6091019127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:26 +0000
Subject: [PATCH 85/91] fix: MMSE reconstructor without noise covariance, and
 noise variances with c_inverse

---
 specula/lib/mmse_reconstructor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/specula/lib/mmse_reconstructor.py b/specula/lib/mmse_reconstructor.py
index f425b63..a1baaf0 100644
--- a/specula/lib/mmse_reconstructor.py
+++ b/specula/lib/mmse_reconstructor.py
@@ -41,8 +41,10 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
             # Set the diagonal elements for this WFS
             start_idx = i * n_slopes_per_wfs
             end_idx = (i + 1) * n_slopes_per_wfs
+            # c_noise is inverted below, unless c_inverse is set
+            variance = 1.0 / noise_variance[i] if c_inverse else noise_variance[i]
             c_noise[start_idx:end_idx, start_idx:end_idx] = \
-                noise_variance[i] * xp.eye(n_slopes_per_wfs, dtype=dtype)
+                variance * xp.eye(n_slopes_per_wfs, dtype=dtype)
 
     # Check dimensions
     if A.shape[1] != c_atm.shape[0]:
@@ -76,7 +78,7 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
             # Default: identity matrix (no noise)
             if verbose:  # pragma: no cover
                 print("No c_noise provided, using identity matrix")
-            c_noise_inv = xp.eye(A.shape[1], dtype=dtype)
+            c_noise_inv = xp.eye(A.shape[0], dtype=dtype)
 
         is_diag_atm = xp.all(xp.abs(xp.diag(xp.diag(c_atm)) - c_atm) < 1e-10)
 
@@ -96,7 +98,7 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
     else:
         # Matrices are already inverted
         c_atm_inv = c_atm
-        c_noise_inv = c_noise if c_noise is not None else xp.eye(A.shape[1], dtype=dtype)
+        c_noise_inv = c_noise if c_noise is not None else xp.eye(A.shape[0], dtype=dtype)
 
     # Compute H = A' Cz^(-1) A + Cx^(-1)
     if verbose:  # pragma: no cover
-- 
2.43.0


From f035935bc095cb4da9683aa16ba79c5d34b23116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:26 +0000
Subject: [PATCH 86/91] fix: petals are rotated in the same direction as the
 spider arms between them

---
 specula/lib/compute_petal_ifunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/lib/compute_petal_ifunc.py b/specula/lib/compute_petal_ifunc.py
index 308b946..8127ee6 100644
--- a/specula/lib/compute_petal_ifunc.py
+++ b/specula/lib/compute_petal_ifunc.py
@@ -65,7 +65,7 @@ def compute_petal_ifunc(dim, n_petals, xp=np, dtype=np.float32, angle_offset=0,
     x = x - center
 
     # Convert to polar coordinates
-    theta = xp.arctan2(y, x) + xp.radians(angle_offset)
+    theta = xp.arctan2(y, x) - xp.radians(angle_offset)
 
     # Wrap angles to [0, 2π]
     theta = (theta + 2*xp.pi) % (2*xp.pi)
-- 
2.43.0


From 017e2d364f3c8ba8ad29615e74da70196b78f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:26 +0000
Subject: [PATCH 87/91] fix: the modal base does not contain the modes to be
 filtered out

---
 specula/lib/modal_base_generator.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/specula/lib/modal_base_generator.py b/specula/lib/modal_base_generator.py
index af44cf8..cda842e 100644
--- a/specula/lib/modal_base_generator.py
+++ b/specula/lib/modal_base_generator.py
@@ -257,12 +257,18 @@ def make_modal_base_from_ifs_fft(pupil_mask, diameter, influence_functions, r0,
         for i in range(zern_modes):
             modes_to_be_removed[i+1, :] = zern_modes_cube[i].ravel()[idx_mask]
 
-        # Orthonormalize Zernike modes
+    if filt_modes is not None:
+        modes_to_be_removed[1+zern_modes:, :] = filt_modes
+
+    if number_of_modes_to_be_removed > 1:
+        # Orthonormalize the modes to be removed
         modes_to_be_removed = make_orto_modes(modes_to_be_removed, xp=xp, dtype=dtype)
-        # Normalize Zernike modes
-        for i in range(zern_modes):
-            modes_to_be_removed[i+1, :] -= xp.mean(modes_to_be_removed[i+1, :])
-            modes_to_be_removed[i+1, :] /= xp.sqrt(xp.mean(modes_to_be_removed[i+1, :]**2))
+        # Normalize all modes except piston
+        for i in range(1, number_of_modes_to_be_removed):
+            modes_to_be_removed[i, :] -= xp.mean(modes_to_be_removed[i, :])
+            modes_to_be_removed[i, :] /= xp.sqrt(xp.mean(modes_to_be_removed[i, :]**2))
+        if zern_modes == 0:
+            modes_to_be_removed[0, :] = 1.0
 
     if zern_modes > 0:
         coef_zern = xp.matmul(modes_to_be_removed, pinv(influence_functions))
-- 
2.43.0


From b8b9e62625da0b809c0f4c0fdaed12a18e0e85f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:09 +0000
Subject: [PATCH 88/91] fix: MMSE reconstructor does not take small covariances
 for diagonal ones

---
 specula/lib/mmse_reconstructor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/lib/mmse_reconstructor.py b/specula/lib/mmse_reconstructor.py
index a1baaf0..693cfa6 100644
--- a/specula/lib/mmse_reconstructor.py
+++ b/specula/lib/mmse_reconstructor.py
@@ -59,7 +59,8 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
     if not c_inverse:
         # Check if matrices are diagonal
         if c_noise is not None:
-            is_diag_noise = xp.all(xp.abs(xp.diag(xp.diag(c_noise)) - c_noise) < 1e-10)
+            is_diag_noise = xp.all(xp.abs(xp.diag(xp.diag(c_noise)) - c_noise)
+                                   <= 1e-10 * xp.max(xp.abs(c_noise)))
 
             if is_diag_noise:
                 if verbose:  # pragma: no cover
@@ -80,7 +81,8 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
                 print("No c_noise provided, using identity matrix")
             c_noise_inv = xp.eye(A.shape[0], dtype=dtype)
 
-        is_diag_atm = xp.all(xp.abs(xp.diag(xp.diag(c_atm)) - c_atm) < 1e-10)
+        is_diag_atm = xp.all(xp.abs(xp.diag(xp.diag(c_atm)) - c_atm)
+                             <= 1e-10 * xp.max(xp.abs(c_atm)))
 
         if is_diag_atm:
             if verbose:  # pragma: no cover
-- 
2.43.0


From 590febadbbfbf28b45437f3c28eb28c810c920b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:45 +0000
Subject: [PATCH 89/91] fix: extended sources from a PSF are centred on its
 central pixel

---
 specula/processing_objects/extended_source.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/extended_source.py b/specula/processing_objects/extended_source.py
index 2ed3591..d021171 100644
--- a/specula/processing_objects/extended_source.py
+++ b/specula/processing_objects/extended_source.py
@@ -516,8 +516,8 @@ class ExtendedSource(BaseProcessingObj):
             yy_arcsec = yy.flatten()
 
             # Convert to PSF pixel coordinates for interpolation
-            xx_psf = xx_arcsec / self.pixel_scale_psf + s_psf[0]/2
-            yy_psf = yy_arcsec / self.pixel_scale_psf + s_psf[0]/2
+            xx_psf = xx_arcsec / self.pixel_scale_psf + s_psf[1]//2
+            yy_psf = yy_arcsec / self.pixel_scale_psf + s_psf[0]//2
 
             # Interpolate PSF values
             # Create interpolation function
@@ -580,8 +580,8 @@ class ExtendedSource(BaseProcessingObj):
             yy_arcsec = yy_interpol * self.pixel_scale_psf
 
             # Adjust for PSF indexing
-            xx_interpol += s_psf[0] / 2
-            yy_interpol += s_psf[0] / 2
+            xx_interpol += s_psf[1] // 2
+            yy_interpol += s_psf[0] // 2
 
             # Interpolate PSF values, clamping out-of-bounds to nearest edge
             x_psf = np.arange(s_psf[1])
-- 
2.43.0


From 564508be64d2e4bd67dafdf85efea948b9a43792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:45 +0000
Subject: [PATCH 90/91] fix: extended sources accept PSFs of another size, and
 none at all, and do not modify the initial one

---
 specula/processing_objects/extended_source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/extended_source.py b/specula/processing_objects/extended_source.py
index d021171..f8d9ad7 100644
--- a/specula/processing_objects/extended_source.py
+++ b/specula/processing_objects/extended_source.py
@@ -710,7 +710,7 @@ class ExtendedSource(BaseProcessingObj):
         """Update PSF if new data is available and recompute if needed"""
         if self.source_type == 'FROM_PSF':
             psf = self.local_inputs.get('psf')
-            if np.sum(self.xp.abs(psf.value)) > 0:
+            if psf is not None and self.xp.sum(self.xp.abs(psf.value)) > 0:
                 if self.crop_psf:
                     npsf_input = psf.value.shape[0]
                     npsf_target = self.psf.value.shape[0]
@@ -729,7 +729,8 @@ class ExtendedSource(BaseProcessingObj):
                 else:
                     psf_temp = psf.value
 
-                self.psf.set_value(psf_temp)
+                # Replaced, since it can have another size, and not written into the initial PSF
+                self.psf.value = self.to_xp(psf_temp, dtype=self.dtype, force_copy=True)
                 self.compute()  # Recompute all coefficients with new PSF
                 self.outputs['coeff'].generation_time = self.current_time
 
-- 
2.43.0


From cdb69fd9de0e7098f7cfb5dfee351a9cb597099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:45 +0000
Subject: [PATCH 91/91] fix: direction of the effective wind

---
 specula/lib/fsoc_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/lib/fsoc_lib.py b/specula/lib/fsoc_lib.py
index 7f8e039..1997518 100644
--- a/specula/lib/fsoc_lib.py
+++ b/specula/lib/fsoc_lib.py
@@ -44,7 +44,7 @@ def calc_effective_wind_speed(atmo_heights, wind_speed, wind_dir, object_height,
     effective_wind_1 = wind_speed * xp.sin(wind_dir_rad) + speed_at_layer * xp.sin(object_dir_rad)
     effective_wind_2 = wind_speed * xp.cos(wind_dir_rad) + speed_at_layer * xp.cos(object_dir_rad)
     effective_wind_speed = xp.sqrt(effective_wind_1 ** 2 + effective_wind_2 ** 2)
-    effective_wind_dir = xp.arctan(effective_wind_1, effective_wind_2) * 180. / xp.pi
+    effective_wind_dir = xp.arctan2(effective_wind_1, effective_wind_2) * 180. / xp.pi
 
     return effective_wind_speed, effective_wind_dir
 
-- 
2.43.0

