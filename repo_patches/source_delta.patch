From d616617d3ffb6303d74d2814b3406635a7a8ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:12 +0000
Subject: [PATCH 01/44] fix: keep tendency diagnostics of one component
 instance out of its class properties

---
 sympl/_core/base_components.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 2583fbd..10feec5 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -26,6 +26,18 @@ def apply_scale_factors(array_state, scale_factors):
         array_state[key] *= factor
 
 
+def copy_properties_to_instance(component, *attributes):
+    """
+    Gives the component its own copy of any of the given property dictionaries
+    defined on its class, so that they can be extended without changing the
+    properties of other instances.
+    """
+    for attribute in attributes:
+        if isinstance(getattr(type(component), attribute, None), dict) and (
+                attribute not in vars(component)):
+            setattr(component, attribute, dict(getattr(component, attribute)))
+
+
 def is_component_class(cls):
     return any(issubclass(cls, cls2) for cls2 in (Stepper, TendencyComponent, ImplicitTendencyComponent, DiagnosticComponent))
 
@@ -517,6 +529,8 @@ class Stepper(object):
 
     def _insert_tendency_properties(self):
         added_names = []
+        copy_properties_to_instance(
+            self, 'diagnostic_properties', 'input_properties')
         for name, properties in self.output_properties.items():
             tendency_name = self._get_tendency_name(name)
             if properties['units'] == '':
@@ -775,6 +789,7 @@ class TendencyComponent(object):
 
     def _insert_tendency_properties(self):
         added_names = []
+        copy_properties_to_instance(self, 'diagnostic_properties')
         for name, properties in self.tendency_properties.items():
             tendency_name = self._get_tendency_name(name)
             if 'dims' in properties.keys():
@@ -998,6 +1013,7 @@ class ImplicitTendencyComponent(object):
 
     def _insert_tendency_properties(self):
         added_names = []
+        copy_properties_to_instance(self, 'diagnostic_properties')
         for name, properties in self.tendency_properties.items():
             tendency_name = self._get_tendency_name(name)
             if 'dims' in properties.keys():
-- 
2.43.0


From c15143fd386225d6ca218d78461c73c79e01195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 02/44] fix: allow tendencies_in_diagnostics on time steppers
 for any spelling of the input units

---
 sympl/_core/tendencystepper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sympl/_core/tendencystepper.py b/sympl/_core/tendencystepper.py
index 65950c7..95b6d90 100644
--- a/sympl/_core/tendencystepper.py
+++ b/sympl/_core/tendencystepper.py
@@ -73,6 +73,11 @@ class TendencyStepper(Stepper):
                 return_value, self._tendency_properties)
         return return_value
 
+    def _insert_tendency_properties(self):
+        # already included by the properties of this class
+        return [self._get_tendency_name(name)
+                for name in self._tendency_properties.keys()]
+
     def _insert_tendencies_to_diagnostic_properties(
             self, diagnostic_properties, tendency_properties):
         for quantity_name, properties in tendency_properties.items():
-- 
2.43.0


From a799985076ca934bdde388e63afc22d36f7374bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:36 +0000
Subject: [PATCH 03/44] fix: treat offset units inside compound units as
 differences

---
 sympl/_components/basic.py |  2 +-
 sympl/_core/units.py       | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/sympl/_components/basic.py b/sympl/_components/basic.py
index 0c627f4..d6584ad 100644
--- a/sympl/_components/basic.py
+++ b/sympl/_components/basic.py
@@ -285,7 +285,7 @@ class RelaxationTendencyComponent(TendencyComponent):
         return {
             self._quantity_name: {
                 "dims": ["*"],
-                "units": str(ureg(self._units) / ureg("s")),
+                "units": str(ureg("{} s^-1".format(self._units))),
             }
         }
 
diff --git a/sympl/_core/units.py b/sympl/_core/units.py
index d2977e8..13a0073 100644
--- a/sympl/_core/units.py
+++ b/sympl/_core/units.py
@@ -5,12 +5,15 @@ import pint
 class UnitRegistry(pint.UnitRegistry):
 
     def __call__(self, input_string, **kwargs):
-        return super(UnitRegistry, self).__call__(
-            input_string.replace(
-                u'%', 'percent').replace(
-                u'°', 'degree'
-            ),
-            **kwargs)
+        input_string = input_string.replace(
+            u'%', 'percent').replace(
+            u'°', 'degree')
+        try:
+            return super(UnitRegistry, self).__call__(input_string, **kwargs)
+        except pint.errors.OffsetUnitCalculusError:
+            # as part of a compound unit (e.g. "degC s^-1"), a unit with an
+            # offset refers to a difference
+            return self.Quantity(1, self.parse_units(input_string))
 
 
 unit_registry = UnitRegistry()
-- 
2.43.0


From b4fb49b45e05303b19e579cf41c5835a515c0304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:53 +0000
Subject: [PATCH 04/44] fix: define degrees_north and degrees_east as angles

---
 sympl/_core/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/units.py b/sympl/_core/units.py
index 13a0073..29e29e6 100644
--- a/sympl/_core/units.py
+++ b/sympl/_core/units.py
@@ -17,8 +17,8 @@ class UnitRegistry(pint.UnitRegistry):
 
 
 unit_registry = UnitRegistry()
-unit_registry.define('degrees_north = degree_north = degree_N = degrees_N = degreeN = degreesN')
-unit_registry.define('degrees_east = degree_east = degree_E = degrees_E = degreeE = degreesE')
+unit_registry.define('degrees_north = degree = degree_north = degree_N = degrees_N = degreeN = degreesN')
+unit_registry.define('degrees_east = degree = degree_east = degree_E = degrees_E = degreeE = degreesE')
 unit_registry.define('percent = 0.01*count = %')
 
 
-- 
2.43.0


From b7226f840740f5ff1204bc247fbe613cbfe6766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 05/44] fix: leave quantities without tendencies untouched in
 SSPRungeKutta

---
 sympl/_components/timesteppers.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index d0f7328..533e30f 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -57,9 +57,13 @@ class SSPRungeKutta(TendencyStepper):
     def _step_3_stages(self, state, timestep):
         diagnostics, state_1 = self._euler_stepper(state, timestep)
         _, state_1_5 = self._euler_stepper(state_1, timestep)
-        state_2 = add(multiply(0.75, state), multiply(0.25, state_1_5))
+        old = get_stepped_quantities(state, state, state_1)
+        new = get_stepped_quantities(state_1_5, state, state_1)
+        state_2 = add(multiply(0.75, old), multiply(0.25, new))
+        copy_untouched_quantities(state, state_2)
         _, state_2_5 = self._euler_stepper(state_2, timestep)
-        out_state = add(multiply(1./3, state), multiply(2./3, state_2_5))
+        new = get_stepped_quantities(state_2_5, state, state_1)
+        out_state = add(multiply(1./3, old), multiply(2./3, new))
         return diagnostics, out_state
 
     def _step_2_stages(self, state, timestep):
@@ -67,10 +71,23 @@ class SSPRungeKutta(TendencyStepper):
         diagnostics, state_1 = self._euler_stepper(state, timestep)
         assert state_1 is not None
         _, state_2 = self._euler_stepper(state_1, timestep)
-        out_state = multiply(0.5, add(state, state_2))
+        old = get_stepped_quantities(state, state, state_1)
+        new = get_stepped_quantities(state_2, state, state_1)
+        out_state = multiply(0.5, add(old, new))
         return diagnostics, out_state
 
 
+def get_stepped_quantities(stage_state, state, next_state):
+    """
+    Returns the items of stage_state for the quantities which were changed by
+    the step from state to next_state.
+    """
+    return {
+        name: stage_state[name] for name, value in next_state.items()
+        if value is not state[name]
+    }
+
+
 class AdamsBashforth(TendencyStepper):
     """A TendencyStepper using the Adams-Bashforth scheme."""
 
-- 
2.43.0


From 0ca3a36bd5f380384a9bf8e48c7866555b7b268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:40 +0000
Subject: [PATCH 06/44] fix: do not scale the results of a wrapped component in
 place

---
 sympl/_core/wrappers.py | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 63bb902..3a448d6 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -3,6 +3,18 @@ from .._core.base_components import (
 )
 
 
+def scale_quantities(quantities, scale_factors):
+    """
+    Returns a copy of the dictionary quantities in which the quantities
+    that have a scale factor are multiplied by it.
+    """
+    return_dict = quantities.copy()
+    for name, scale_factor in scale_factors.items():
+        return_dict[name] = quantities[name]*float(scale_factor)
+        return_dict[name].attrs = quantities[name].attrs
+    return return_dict
+
+
 class ScalingWrapper(object):
     """
     Wraps any component and scales either inputs, outputs or tendencies
@@ -151,38 +163,24 @@ class ScalingWrapper(object):
             if timestep is None:
                 raise TypeError('Must give timestep to call Stepper.')
             diagnostics, new_state = self._component(scaled_state, timestep)
-            for name in self._output_scale_factors.keys():
-                scale_factor = self._output_scale_factors[name]
-                new_state[name] *= float(scale_factor)
-            for name in self._diagnostic_scale_factors.keys():
-                scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+            new_state = scale_quantities(new_state, self._output_scale_factors)
+            diagnostics = scale_quantities(diagnostics, self._diagnostic_scale_factors)
             return diagnostics, new_state
         elif isinstance(self._component, TendencyComponent):
             tendencies, diagnostics = self._component(scaled_state)
-            for tend_field in self._tendency_scale_factors.keys():
-                scale_factor = self._tendency_scale_factors[tend_field]
-                tendencies[tend_field] *= float(scale_factor)
-            for name in self._diagnostic_scale_factors.keys():
-                scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+            tendencies = scale_quantities(tendencies, self._tendency_scale_factors)
+            diagnostics = scale_quantities(diagnostics, self._diagnostic_scale_factors)
             return tendencies, diagnostics
         elif isinstance(self._component, ImplicitTendencyComponent):
             if timestep is None:
                 raise TypeError('Must give timestep to call ImplicitTendencyComponent.')
             tendencies, diagnostics = self._component(scaled_state, timestep)
-            for tend_field in self._tendency_scale_factors.keys():
-                scale_factor = self._tendency_scale_factors[tend_field]
-                tendencies[tend_field] *= float(scale_factor)
-            for name in self._diagnostic_scale_factors.keys():
-                scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+            tendencies = scale_quantities(tendencies, self._tendency_scale_factors)
+            diagnostics = scale_quantities(diagnostics, self._diagnostic_scale_factors)
             return tendencies, diagnostics
         elif isinstance(self._component, DiagnosticComponent):
             diagnostics = self._component(scaled_state)
-            for name in self._diagnostic_scale_factors.keys():
-                scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+            diagnostics = scale_quantities(diagnostics, self._diagnostic_scale_factors)
             return diagnostics
         else:  # Should never reach this
             raise RuntimeError(
-- 
2.43.0


From f32b862bcb85a65862413ce24ec6af55e31a4bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 07/44] fix: pass quantities which are not inputs through
 ScalingWrapper

---
 sympl/_core/wrappers.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 3a448d6..71f1f4b 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -147,17 +147,7 @@ class ScalingWrapper(object):
         *args
             The return values of the underlying component.
         """
-        scaled_state = {}
-        if 'time' in state:
-            scaled_state['time'] = state['time']
-
-        for input_field in self.input_properties.keys():
-            if input_field in self._input_scale_factors:
-                scale_factor = self._input_scale_factors[input_field]
-                scaled_state[input_field] = state[input_field]*float(scale_factor)
-                scaled_state[input_field].attrs = state[input_field].attrs
-            else:
-                scaled_state[input_field] = state[input_field]
+        scaled_state = scale_quantities(state, self._input_scale_factors)
 
         if isinstance(self._component, Stepper):
             if timestep is None:
-- 
2.43.0


From 1c527ff2eb5f41361196d6f5673c3f3562e51630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:44 +0000
Subject: [PATCH 08/44] fix: combine dims with a wildcard symmetrically and
 soundly

---
 sympl/_core/combine_properties.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sympl/_core/combine_properties.py b/sympl/_core/combine_properties.py
index 623a3cf..d866132 100644
--- a/sympl/_core/combine_properties.py
+++ b/sympl/_core/combine_properties.py
@@ -32,7 +32,7 @@ def combine_dims(dims1, dims2):
     dims2_wildcard = '*' in dims2
     dims2.discard('*')
     unmatched_dims = set(dims1).union(dims2).difference(dims_out)
-    shared_dims = set(dims2).intersection(dims2)
+    shared_dims = set(dims1).intersection(dims2)
     if dims1_wildcard and dims2_wildcard:
         dims_out.insert(0, '*')  # either dim can match anything
         dims_out.extend(unmatched_dims)
@@ -42,12 +42,12 @@ def combine_dims(dims1, dims2):
                 'dims {} and {} are incompatible'.format(dims1, dims2))
         dims_out.extend(unmatched_dims)
     elif dims1_wildcard:
-        if shared_dims != set(dims2):
+        if shared_dims != set(dims1):
             raise InvalidPropertyDictError(
                 'dims {} and {} are incompatible'.format(dims1, dims2))
         dims_out.extend(unmatched_dims)
     elif dims2_wildcard:
-        if shared_dims != set(dims1):
+        if shared_dims != set(dims2):
             raise InvalidPropertyDictError(
                 'dims {} and {} are incompatible'.format(dims1, dims2))
         dims_out.extend(unmatched_dims)
-- 
2.43.0


From 2444250ef9457357f532d97a9940cfc8ffd417a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:52 +0000
Subject: [PATCH 09/44] fix: restore outputs returned under any of the names
 accepted by the output checks

---
 sympl/_core/restore_dataarray.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/sympl/_core/restore_dataarray.py b/sympl/_core/restore_dataarray.py
index 33da61d..510b471 100644
--- a/sympl/_core/restore_dataarray.py
+++ b/sympl/_core/restore_dataarray.py
@@ -15,14 +15,20 @@ def ensure_values_are_arrays(array_dict):
             array_dict[name] = np.asarray(value)
 
 
-def get_alias_or_name(name, output_properties, input_properties):
+def get_alias_or_name(name, output_properties, input_properties, raw_arrays):
+    """
+    Returns the key under which raw_arrays holds the quantity with the given
+    name, which can be any of its aliases or the name itself.
+    """
+    raw_names = []
     if "alias" in output_properties[name].keys():
-        raw_name = output_properties[name]["alias"]
-    elif name in input_properties.keys() and "alias" in input_properties[name].keys():
-        raw_name = input_properties[name]["alias"]
-    else:
-        raw_name = name
-    return raw_name
+        raw_names.append(output_properties[name]["alias"])
+    if name in input_properties.keys() and "alias" in input_properties[name].keys():
+        raw_names.append(input_properties[name]["alias"])
+    for raw_name in raw_names:
+        if raw_name in raw_arrays.keys():
+            return raw_name
+    return name
 
 
 def check_array_shape(out_dims, raw_array, name, dim_lengths):
@@ -112,7 +118,9 @@ def restore_data_arrays_with_properties(
     for name, out_dims in dims_from_out_properties.items():
         if name in ignore_names:
             continue
-        raw_name = get_alias_or_name(name, output_properties, input_properties)
+        raw_name = get_alias_or_name(
+            name, output_properties, input_properties, raw_arrays
+        )
         if "*" in out_dims:
             for dim_name, length in zip(out_dims, raw_arrays[raw_name].shape):
                 if dim_name not in dim_lengths and dim_name != "*":
-- 
2.43.0


From 8b1f85b08a07e1f804c8e5479fb894e098c32c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:00 +0000
Subject: [PATCH 10/44] fix: do not drop aliased outputs when ignoring missing
 outputs

---
 sympl/_core/restore_dataarray.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sympl/_core/restore_dataarray.py b/sympl/_core/restore_dataarray.py
index 510b471..34e32bf 100644
--- a/sympl/_core/restore_dataarray.py
+++ b/sympl/_core/restore_dataarray.py
@@ -102,10 +102,11 @@ def restore_data_arrays_with_properties(
     if ignore_names is None:
         ignore_names = []
     if ignore_missing:
-        ignore_names = (
-            set(output_properties.keys())
-            .difference(raw_arrays.keys())
-            .union(ignore_names)
+        ignore_names = set(ignore_names).union(
+            name
+            for name in output_properties.keys()
+            if get_alias_or_name(name, output_properties, input_properties, raw_arrays)
+            not in raw_arrays
         )
     wildcard_names, dim_lengths = get_wildcard_matches_and_dim_lengths(
         input_state, input_properties
-- 
2.43.0


From e3bf82bdfcd109d0cde55cac3ce1e6aefd3420a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:19 +0000
Subject: [PATCH 11/44] fix: report tendencies of Stepper outputs which have an
 alias

---
 sympl/_core/base_components.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 10feec5..f82e3bd 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -1,6 +1,7 @@
 import abc
 from .get_np_arrays import get_numpy_arrays_with_properties
-from .restore_dataarray import restore_data_arrays_with_properties
+from .restore_dataarray import (
+    restore_data_arrays_with_properties, get_alias_or_name)
 from .time import timedelta
 from .exceptions import (
     InvalidPropertyDictError, ComponentExtraOutputError,
@@ -651,8 +652,11 @@ class Stepper(object):
             self, raw_state, raw_new_state, timestep, raw_diagnostics):
         for name in self.output_properties.keys():
             tendency_name = self._get_tendency_name(name)
+            old_name = self.input_properties[name].get('alias', name)
+            new_name = get_alias_or_name(
+                name, self.output_properties, self.input_properties, raw_new_state)
             raw_diagnostics[tendency_name] = (
-                (raw_new_state[name] - raw_state[name]) /
+                (raw_new_state[new_name] - raw_state[old_name]) /
                 timestep.total_seconds() * self.time_unit_timedelta.total_seconds())
 
     @abc.abstractmethod
-- 
2.43.0


From ff34336ffdfc0a1fbb49db3a085f544078ba777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:25 +0000
Subject: [PATCH 12/44] fix: label tendency diagnostics of a Stepper with its
 time unit

---
 sympl/_core/base_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index f82e3bd..a232d6b 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -535,9 +535,9 @@ class Stepper(object):
         for name, properties in self.output_properties.items():
             tendency_name = self._get_tendency_name(name)
             if properties['units'] == '':
-                units = 's^-1'
+                units = '{}^-1'.format(self.time_unit_name)
             else:
-                units = '{} s^-1'.format(properties['units'])
+                units = '{} {}^-1'.format(properties['units'], self.time_unit_name)
             if 'dims' in properties.keys():
                 dims = properties['dims']
             else:
-- 
2.43.0


From 8eee7e27c85cb3f4de1d86a7d5581036ffa292ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:09 +0000
Subject: [PATCH 13/44] fix: report tendencies of Steppers which define
 diagnostic_properties by a property

---
 sympl/_core/base_components.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index a232d6b..2d616aa 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -514,6 +514,7 @@ class Stepper(object):
         self._input_checker = InputChecker(self)
         self._diagnostic_checker = DiagnosticChecker(self)
         self._output_checker = OutputChecker(self)
+        self._tendency_diagnostic_properties = {}
         if tendencies_in_diagnostics:
             self._diagnostic_checker.set_ignored_diagnostics(
                 self._insert_tendency_properties())
@@ -542,7 +543,7 @@ class Stepper(object):
                 dims = properties['dims']
             else:
                 dims = self.input_properties[name]['dims']
-            self.diagnostic_properties[tendency_name] = {
+            self._tendency_diagnostic_properties[tendency_name] = {
                 'units': units,
                 'dims': dims,
             }
@@ -570,6 +571,7 @@ class Stepper(object):
                     )
                 )
             added_names.append(tendency_name)
+        self.diagnostic_properties.update(self._tendency_diagnostic_properties)
         return added_names
 
     def _get_tendency_name(self, name):
@@ -640,8 +642,11 @@ class Stepper(object):
         if self.tendencies_in_diagnostics:
             self._insert_tendencies_to_diagnostics(
                 raw_state, raw_new_state, timestep, raw_diagnostics)
+        # includes any tendencies when diagnostic_properties could not be extended
+        diagnostic_properties = dict(
+            self._tendency_diagnostic_properties, **self.diagnostic_properties)
         diagnostics = restore_data_arrays_with_properties(
-            raw_diagnostics, self.diagnostic_properties,
+            raw_diagnostics, diagnostic_properties,
             state, self.input_properties)
         new_state.update(restore_data_arrays_with_properties(
             raw_new_state, self.output_properties,
-- 
2.43.0


From cb0ab7dc8a0a42a565ef3bb745429654111fe3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:15 +0000
Subject: [PATCH 14/44] fix: leave the tracer registry unchanged when a tracer
 is registered again or refused

---
 sympl/_core/tracers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/tracers.py b/sympl/_core/tracers.py
index ef67982..32ee05f 100644
--- a/sympl/_core/tracers.py
+++ b/sympl/_core/tracers.py
@@ -38,10 +38,11 @@ def register_tracer(name, units):
                 name, _tracer_unit_dict[name], units
             )
         )
-    _tracer_unit_dict[name] = units
-    _tracer_names.append(name)
     for packer in _packers:
         packer.ensure_tracer_not_in_outputs(name, units)
+    if name not in _tracer_unit_dict:
+        _tracer_unit_dict[name] = units
+        _tracer_names.append(name)
 
 
 def get_tracer_unit_dict():
-- 
2.43.0


From cea1f4efdc0102b6325daf9c67630b979ef5b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:22 +0000
Subject: [PATCH 15/44] fix: count a prepended tracer which is also registered
 only once

---
 sympl/_core/init_np_arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/init_np_arrays.py b/sympl/_core/init_np_arrays.py
index c6298a2..bb78fdb 100644
--- a/sympl/_core/init_np_arrays.py
+++ b/sympl/_core/init_np_arrays.py
@@ -42,7 +42,8 @@ def initialize_numpy_arrays_with_properties(
         output_properties, input_properties, [])
     out_dict = {}
     tracer_names = list(get_tracer_names())
-    tracer_names.extend(entry[0] for entry in prepend_tracers)
+    tracer_names.extend(
+        entry[0] for entry in prepend_tracers if entry[0] not in tracer_names)
     for name, out_dims in dims_from_out_properties.items():
         if tracer_dims is None or name not in tracer_names:
             out_shape = []
-- 
2.43.0


From dc25dcfc573ec2e3deea044fc2443505b8ea5611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:15 +0000
Subject: [PATCH 16/44] fix: convert remembered tendencies and values to the
 units of the state being stepped

---
 sympl/_components/timesteppers.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index 533e30f..e35cff3 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -145,6 +145,8 @@ class AdamsBashforth(TendencyStepper):
         state = state.copy()
         tendencies, diagnostics = self.prognostic(state, timestep)
         convert_tendencies_units_for_state(tendencies, state)
+        for previous_tendencies in self._tendencies_list:
+            convert_tendencies_units_for_state(previous_tendencies, state)
         self._tendencies_list.append(tendencies)
         new_state = self._perform_step(state, timestep)
         copy_untouched_quantities(state, new_state)
@@ -190,6 +192,19 @@ def convert_tendencies_units_for_state(tendencies, state):
             tendencies[quantity_name] = tendencies[quantity_name].to_units(desired_units)
 
 
+def get_state_in_units_of_other_state(state, other_state, names):
+    """
+    Returns a dictionary with the quantities with the given names in state,
+    converted to the units they have in other_state.
+    """
+    return_state = {}
+    for name in names:
+        return_state[name] = state[name]
+        if isinstance(state[name], get_backend().get_container_type()) and ('units' in state[name].attrs):
+            return_state[name] = state[name].to_units(other_state[name].attrs['units'])
+    return return_state
+
+
 class Leapfrog(TendencyStepper):
     """A TendencyStepper using the Leapfrog scheme.
 
@@ -269,8 +284,10 @@ class Leapfrog(TendencyStepper):
         if self._old_state is None:
             new_state = step_forward_euler(state, tendencies, timestep)
         else:
+            old_state = get_state_in_units_of_other_state(
+                self._old_state, state, tendencies.keys())
             state, new_state = step_leapfrog(
-                self._old_state, state, tendencies, timestep,
+                old_state, state, tendencies, timestep,
                 asselin_strength=self._asselin_strength, alpha=self._alpha)
         copy_untouched_quantities(state, new_state)
         self._old_state = state
-- 
2.43.0


From 6006d853bd031bd5b834c82a5a2cd04505bbb8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 17/44] fix: list constants when the condensible does not
 define all of them

---
 sympl/_core/constants.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sympl/_core/constants.py b/sympl/_core/constants.py
index 15d2ae4..f2c2316 100644
--- a/sympl/_core/constants.py
+++ b/sympl/_core/constants.py
@@ -14,6 +14,8 @@ class ConstantDict(dict):
             if len(name_list) > 0:
                 return_string += category.title() + '\n'
             for name in name_list:
+                if name not in self.keys():
+                    continue  # not defined for the current condensible
                 printed_names.add(name)
                 units = self[name].attrs['units']
                 units = units.replace('dimensionless', '')
-- 
2.43.0


From a1aa0250c7f49dd8a60b7f96181cc5033435e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 18/44] fix: refuse unknown calendars

---
 sympl/_core/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sympl/_core/time.py b/sympl/_core/time.py
index f0401d8..87a14a8 100644
--- a/sympl/_core/time.py
+++ b/sympl/_core/time.py
@@ -65,6 +65,8 @@ def datetime(
         return ct.DatetimeJulian(**kwargs)
     elif calendar.lower() == 'gregorian':
         return ct.DatetimeGregorian(**kwargs)
+    else:
+        raise ValueError('Unknown calendar {}'.format(calendar))
 
 
 __all__ = (datetime, timedelta)
-- 
2.43.0


From 111c1b4838326d56e093752c9e9e0a02ae862da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:00 +0000
Subject: [PATCH 19/44] fix: allow NetCDFMonitor.write with no new states

---
 sympl/_components/netcdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 0f0fb7e..bb3e35e 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -171,6 +171,8 @@ class NetCDFMonitor(Monitor):
             If cached states do not all have the same quantities
             as every other cached and written state.
         """
+        if len(self._cached_state_dict) == 0:
+            return  # nothing to write
         with nc4.Dataset(self._filename, self._write_mode) as dataset:
             self._ensure_cached_state_keys_compatible_with_dataset(dataset)
             time_list, state_list = self._get_ordered_times_and_states()
-- 
2.43.0


From 0308f2b95e1c5208ef806b321f465d4a6167f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:07 +0000
Subject: [PATCH 20/44] fix: store quantities without dimensions in NetCDF
 files

---
 sympl/_components/netcdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index bb3e35e..a06df98 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -184,7 +184,7 @@ class NetCDFMonitor(Monitor):
             for name, value in all_states.items():
                 ensure_variable_exists(dataset, name, value)
                 dataset.variables[name][
-                    it_start:it_end, :] = value.values[:, :]
+                    it_start:it_end, ...] = value.values
         self._cached_state_dict = {}
 
     def _ensure_time_exists(self, dataset, possible_reference_time):
@@ -251,7 +251,7 @@ class RestartMonitor(Monitor):
         dataset = xr.open_dataset(self._filename)
         state = {}
         for name, value in dataset.data_vars.items():
-            state[name] = DataArray(value[0, :])  # remove time axis
+            state[name] = DataArray(value[0, ...])  # remove time axis
         state['time'] = datetime64_to_datetime(dataset['time'][0].values)
         return state
 
@@ -288,7 +288,7 @@ def combine_states(states):
             dims=('time',) + value.dims, attrs=value.attrs)
     for i, state in enumerate(states):
         for name in state.keys():
-            return_dict[name][i, :] = state[name][:]
+            return_dict[name][i, ...] = state[name]
     return return_dict
 
 
-- 
2.43.0


From 8b731b28cef522fa8b44eb992204682a8875fcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:15 +0000
Subject: [PATCH 21/44] fix: write states to NetCDF files with the values they
 had when they were stored

---
 sympl/_components/netcdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index a06df98..acfcc95 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -86,6 +86,10 @@ class NetCDFMonitor(Monitor):
             cache_state = {name: state[name] for name in name_list}
         else:
             cache_state = state.copy()
+        # the state may be modified in-place before it is written
+        for name, value in cache_state.items():
+            if isinstance(value, xr.DataArray):
+                cache_state[name] = value.copy(deep=True)
 
         # raise an exception if the state has any empty string variables
         for full_var_name in cache_state.keys():
-- 
2.43.0


From 3850f0df8ed0bdcfd41db1bf838994cd3c10f494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:22 +0000
Subject: [PATCH 22/44] fix: do not let aliases replace the time or overwrite
 other quantities in NetCDF files

---
 sympl/_components/netcdf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index acfcc95..65419d4 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -91,6 +91,8 @@ class NetCDFMonitor(Monitor):
             if isinstance(value, xr.DataArray):
                 cache_state[name] = value.copy(deep=True)
 
+        cache_state.pop('time')  # stored as key, not needed in state dict
+
         # raise an exception if the state has any empty string variables
         for full_var_name in cache_state.keys():
             if len(full_var_name) == 0:
@@ -109,9 +111,13 @@ class NetCDFMonitor(Monitor):
                         errstr = 'Tried to alias variable "{}" to an empty string.\n' + \
                                  'xarray will not allow empty strings as variable names.'
                         raise ValueError(errstr.format(full_var_name))
-                    cache_state[alias_name] = cache_state.pop(full_var_name)
+                    value = cache_state.pop(full_var_name)
+                    if alias_name in cache_state or alias_name == 'time':
+                        raise ValueError(
+                            'Tried to alias variable "{}" to "{}", which is the name of another '
+                            'variable.'.format(full_var_name, alias_name))
+                    cache_state[alias_name] = value
 
-        cache_state.pop('time')  # stored as key, not needed in state dict
         if state['time'] in self._cached_state_dict.keys():
             self._cached_state_dict[state['time']].update(cache_state)
         else:
-- 
2.43.0


From 6f0cddf41d3401cd47ed8a0cdf161939c6d8587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:26 +0000
Subject: [PATCH 23/44] fix: refuse states which are incompatible with the
 NetCDF file before changing it

---
 sympl/_components/netcdf.py | 48 +++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 65419d4..64a8097 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -186,11 +186,13 @@ class NetCDFMonitor(Monitor):
         with nc4.Dataset(self._filename, self._write_mode) as dataset:
             self._ensure_cached_state_keys_compatible_with_dataset(dataset)
             time_list, state_list = self._get_ordered_times_and_states()
+            # check everything before changing the file
+            all_states = combine_states(state_list)
+            ensure_states_are_compatible(dataset, all_states)
             self._ensure_time_exists(dataset, time_list[0])
             it_start = dataset.dimensions['time'].size
             it_end = it_start + len(time_list)
             append_times_to_dataset(time_list, dataset, self._time_units)
-            all_states = combine_states(state_list)
             for name, value in all_states.items():
                 ensure_variable_exists(dataset, name, value)
                 dataset.variables[name][
@@ -293,8 +295,11 @@ def combine_states(states):
     return_dict = {}
     n_states = len(states)
     for name, value in states[0].items():
+        for state in states[1:]:
+            ensure_values_are_compatible(name, value, state[name])
+        dtype = np.result_type(*[state[name].values.dtype for state in states])
         return_dict[name] = DataArray(
-            np.zeros((n_states,) + value.shape, dtype=value.values.dtype),
+            np.zeros((n_states,) + value.shape, dtype=dtype),
             dims=('time',) + value.dims, attrs=value.attrs)
     for i, state in enumerate(states):
         for name in state.keys():
@@ -302,6 +307,45 @@ def combine_states(states):
     return return_dict
 
 
+def ensure_values_are_compatible(name, value, other_value):
+    """Raises InvalidStateError if the two given DataArrays cannot be values
+    of the same quantity at different times."""
+    if (dict(zip(value.dims, value.shape)) !=
+            dict(zip(other_value.dims, other_value.shape))):
+        raise InvalidStateError(
+            'NetCDFMonitor was passed different dimensions for quantity {} for '
+            'different times: {} vs. {}'.format(
+                name, value.sizes, other_value.sizes))
+    if value.attrs.get('units') != other_value.attrs.get('units'):
+        raise InvalidStateError(
+            'NetCDFMonitor was passed different units for quantity {} for '
+            'different times: {} vs. {}'.format(
+                name, value.attrs.get('units'), other_value.attrs.get('units')))
+
+
+def ensure_states_are_compatible(dataset, all_states):
+    """Raises an exception if the given combined states cannot be appended to
+    the dataset, without modifying the dataset."""
+    dim_lengths = {
+        name: dimension.size for name, dimension in dataset.dimensions.items()}
+    for name, data in all_states.items():
+        for dim_name, length in zip(data.dims[1:], data.shape[1:]):
+            if dim_lengths.setdefault(dim_name, length) != length:
+                raise IOError(
+                    'Dimension {} of quantity {} has length {}, but is length '
+                    '{} in file or on another quantity'.format(
+                        dim_name, name, length, dim_lengths[dim_name]))
+        if name in dataset.variables:
+            variable = dataset.variables[name]
+            ensure_variable_is_compatible(variable, name, data)
+            if variable.dtype != str and not np.can_cast(
+                    data.values.dtype, variable.dtype):
+                raise InvalidStateError(
+                    'Quantity {} has type {} but is stored as type {} in the '
+                    'netCDF file'.format(
+                        name, data.values.dtype, variable.dtype))
+
+
 def ensure_variable_exists(dataset, name, data):
     """Dataset should be nc4.Dataset, name should be a string, and data should
     be a DataArray.
-- 
2.43.0


From bdf9d8e82a9b27101dff1376abac57a95bea84d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:08 +0000
Subject: [PATCH 24/44] fix: store times in NetCDF files exactly, on their own
 calendar and in the units of the file

---
 sympl/_components/netcdf.py | 47 +++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 64a8097..e7fcbca 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -190,11 +190,12 @@ class NetCDFMonitor(Monitor):
             all_states = combine_states(state_list)
             ensure_states_are_compatible(dataset, all_states)
             self._ensure_time_exists(dataset, time_list[0])
+            for name, value in all_states.items():
+                ensure_variable_exists(dataset, name, value)
             it_start = dataset.dimensions['time'].size
             it_end = it_start + len(time_list)
-            append_times_to_dataset(time_list, dataset, self._time_units)
+            append_times_to_dataset(time_list, dataset)
             for name, value in all_states.items():
-                ensure_variable_exists(dataset, name, value)
                 dataset.variables[name][
                     it_start:it_end, ...] = value.values
         self._cached_state_dict = {}
@@ -213,7 +214,7 @@ class NetCDFMonitor(Monitor):
                     'units', '{} since {}'.format(
                         self._time_units, possible_reference_time))
                 dataset.variables['time'].setncattr(
-                    'calendar', 'proleptic_gregorian')
+                    'calendar', get_calendar(possible_reference_time))
 
 
 class RestartMonitor(Monitor):
@@ -268,23 +269,33 @@ class RestartMonitor(Monitor):
         return state
 
 
-def append_times_to_dataset(times, dataset, time_units):
-    """Appends the given list of times to the dataset. Assumes the time units
-    in the NetCDF4 dataset correspond to the string time_units."""
+def append_times_to_dataset(times, dataset):
+    """Appends the given list of times to the dataset, in the time units of the
+    dataset."""
     it_start = dataset.dimensions['time'].size
     it_end = it_start + len(times)
-    if isinstance(times[0], timedelta):
-        times_list = []
-        for time in times:
-            times_list.append(time.total_seconds())
-        time_array = from_unit_to_another(
-            np.array(times_list), 'seconds', time_units)
-        dataset.variables['time'][it_start:it_end] = time_array[:]
-    else:  # assume datetime
-        dataset.variables['time'][it_start:it_end] = nc4.date2num(
-            times, dataset.variables['time'].units,
-            calendar='proleptic_gregorian'
-        )
+    variable = dataset.variables['time']
+    calendar = getattr(variable, 'calendar', None)
+    if any(get_calendar(time) != calendar for time in times):
+        raise InvalidStateError(
+            'Cannot store times {} in NetCDF file with time units {} and '
+            'calendar {}'.format(times, variable.units, calendar))
+    if calendar is None:  # timedelta
+        time_unit = timedelta(
+            seconds=from_unit_to_another(1., variable.units, 'seconds'))
+        variable[it_start:it_end] = [time // time_unit for time in times]
+    else:
+        variable[it_start:it_end] = nc4.date2num(
+            times, variable.units, calendar=calendar)
+
+
+def get_calendar(time):
+    """Returns the calendar name of a datetime-like object, or None if given a
+    timedelta."""
+    if isinstance(time, timedelta):
+        return None
+    else:
+        return getattr(time, 'calendar', None) or 'proleptic_gregorian'
 
 
 def combine_states(states):
-- 
2.43.0


From 25bdd7dabe4864552f38af345aefac1d80856121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:15 +0000
Subject: [PATCH 25/44] fix: keep a complete restart file at all times and
 recover from failed stores

---
 sympl/_components/netcdf.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index e7fcbca..58ad3fd 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -242,15 +242,17 @@ class RestartMonitor(Monitor):
         new_filename = self._filename + '.new'
         if os.path.isfile(new_filename):
             raise IOError('Filename {} already exists'.format(new_filename))
-        netcdf_monitor = NetCDFMonitor(new_filename)
-        netcdf_monitor.store(state)
-        netcdf_monitor.write()
-
-        if os.path.isfile(self._filename):
-            os.rename(self._filename, self._filename + '.old')
-        os.rename(new_filename, self._filename)
-        if os.path.isfile(self._filename + '.old'):
-            os.remove(self._filename + '.old')
+        try:
+            netcdf_monitor = NetCDFMonitor(new_filename)
+            netcdf_monitor.store(state)
+            netcdf_monitor.write()
+            # replaces any existing file atomically, so that there is a
+            # complete restart file at all times
+            os.replace(new_filename, self._filename)
+        except BaseException:
+            if os.path.isfile(new_filename):
+                os.remove(new_filename)
+            raise
 
     def load(self):
         """
-- 
2.43.0


From 74efd7af56597c99904c4fa4fc71bbda35467ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:13 +0000
Subject: [PATCH 26/44] fix: load restart files with the quantities, units and
 time that were stored

---
 sympl/_components/netcdf.py | 45 +++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 58ad3fd..b012473 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -3,11 +3,11 @@ from .._core.exceptions import (
     DependencyError, InvalidStateError)
 from .._core.units import from_unit_to_another
 from .._core.dataarray import DataArray
-from .._core.util import same_list, datetime64_to_datetime
+from .._core.util import same_list
 import xarray as xr
 import os
 import numpy as np
-from datetime import timedelta
+from datetime import datetime, timedelta
 from six import string_types
 
 try:
@@ -243,7 +243,8 @@ class RestartMonitor(Monitor):
         if os.path.isfile(new_filename):
             raise IOError('Filename {} already exists'.format(new_filename))
         try:
-            netcdf_monitor = NetCDFMonitor(new_filename)
+            netcdf_monitor = NetCDFMonitor(
+                new_filename, time_units='microseconds')
             netcdf_monitor.store(state)
             netcdf_monitor.write()
             # replaces any existing file atomically, so that there is a
@@ -263,14 +264,35 @@ class RestartMonitor(Monitor):
         state : dict
             The model state stored in the restart file.
         """
-        dataset = xr.open_dataset(self._filename)
         state = {}
-        for name, value in dataset.data_vars.items():
-            state[name] = DataArray(value[0, ...])  # remove time axis
-        state['time'] = datetime64_to_datetime(dataset['time'][0].values)
+        with nc4.Dataset(self._filename) as dataset:
+            dataset.set_auto_maskandscale(False)  # give values as stored
+            for name, variable in dataset.variables.items():
+                if name == 'time':
+                    state['time'] = get_first_time(variable)
+                else:
+                    state[name] = DataArray(
+                        variable[0, ...], dims=variable.dimensions[1:],
+                        attrs={key: variable.getncattr(key)
+                               for key in variable.ncattrs()})
         return state
 
 
+def get_first_time(variable):
+    """Returns the first time in the given time variable, as a datetime, a
+    datetime-like object of the calendar of the variable, or a timedelta."""
+    if not hasattr(variable, 'calendar'):
+        return int(variable[0]) * get_time_unit(variable)
+    time = nc4.num2date(
+        variable[0], variable.units, calendar=variable.calendar,
+        only_use_cftime_datetimes=True)
+    if variable.calendar == 'proleptic_gregorian':
+        time = datetime(
+            time.year, time.month, time.day, time.hour, time.minute,
+            time.second, time.microsecond)
+    return time
+
+
 def append_times_to_dataset(times, dataset):
     """Appends the given list of times to the dataset, in the time units of the
     dataset."""
@@ -283,14 +305,19 @@ def append_times_to_dataset(times, dataset):
             'Cannot store times {} in NetCDF file with time units {} and '
             'calendar {}'.format(times, variable.units, calendar))
     if calendar is None:  # timedelta
-        time_unit = timedelta(
-            seconds=from_unit_to_another(1., variable.units, 'seconds'))
+        time_unit = get_time_unit(variable)
         variable[it_start:it_end] = [time // time_unit for time in times]
     else:
         variable[it_start:it_end] = nc4.date2num(
             times, variable.units, calendar=calendar)
 
 
+def get_time_unit(variable):
+    """Returns the time unit of the given variable as a timedelta."""
+    return timedelta(
+        seconds=from_unit_to_another(1., variable.units, 'seconds'))
+
+
 def get_calendar(time):
     """Returns the calendar name of a datetime-like object, or None if given a
     timedelta."""
-- 
2.43.0


From 38f433efa9c97deab1c8e83a6637dc8c2201e985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 27/44] fix: refuse outputs with a wildcard whose shape
 contradicts the declared dims

An array with the right number of elements but its axes in another order, or
with another number of axes, was reshaped to the dimensions of the state, so
that its values ended up at the wrong coordinates.
---
 sympl/_core/restore_dataarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/restore_dataarray.py b/sympl/_core/restore_dataarray.py
index 34e32bf..606fa8e 100644
--- a/sympl/_core/restore_dataarray.py
+++ b/sympl/_core/restore_dataarray.py
@@ -32,6 +32,7 @@ def get_alias_or_name(name, output_properties, input_properties, raw_arrays):
 
 
 def check_array_shape(out_dims, raw_array, name, dim_lengths):
+    """Any wildcard in out_dims is not checked."""
     if len(out_dims) != len(raw_array.shape):
         raise InvalidPropertyDictError(
             "Returned array for {} has shape {} "
@@ -122,6 +123,7 @@ def restore_data_arrays_with_properties(
         raw_name = get_alias_or_name(
             name, output_properties, input_properties, raw_arrays
         )
+        check_array_shape(out_dims, raw_arrays[raw_name], name, dim_lengths)
         if "*" in out_dims:
             for dim_name, length in zip(out_dims, raw_arrays[raw_name].shape):
                 if dim_name not in dim_lengths and dim_name != "*":
@@ -133,7 +135,6 @@ def restore_data_arrays_with_properties(
                 raw_arrays[raw_name], target_shape, name, out_dims
             )
         else:
-            check_array_shape(out_dims, raw_arrays[raw_name], name, dim_lengths)
             out_dims_without_wildcard = out_dims
             out_array = raw_arrays[raw_name]
         out_dict[name] = get_backend().create_quantity(
-- 
2.43.0


From d88efa5e15d9fa79a891ea52718f08675913b7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:30 +0000
Subject: [PATCH 28/44] fix: flatten tracers along a wildcard in the same order
 as the other inputs

Tracers were flattened in an order determined from the tracers alone, so that
the values of tracers and of other inputs of the component did not belong to
the same points, when their dimensions are in a different order in the state.
---
 sympl/_core/get_np_arrays.py | 11 +++++++----
 sympl/_core/tracers.py       | 22 ++++++++++++++++++++--
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/sympl/_core/get_np_arrays.py b/sympl/_core/get_np_arrays.py
index f494a32..7858346 100644
--- a/sympl/_core/get_np_arrays.py
+++ b/sympl/_core/get_np_arrays.py
@@ -5,12 +5,15 @@ from .exceptions import InvalidStateError
 from .wildcard import flatten_wildcard_dims, get_wildcard_matches_and_dim_lengths
 
 
-def get_numpy_arrays_with_properties(state, property_dictionary):
+def get_numpy_arrays_with_properties(
+    state, property_dictionary, wildcard_names=None, dim_lengths=None
+):
     out_dict = {}
     backend = get_backend()
-    wildcard_names, dim_lengths = get_wildcard_matches_and_dim_lengths(
-        state, property_dictionary
-    )
+    if dim_lengths is None:
+        wildcard_names, dim_lengths = get_wildcard_matches_and_dim_lengths(
+            state, property_dictionary
+        )
     #  Now we actually retrieve output arrays since we know the precise out dims
     for name, properties in property_dictionary.items():
         out_dims = []
diff --git a/sympl/_core/tracers.py b/sympl/_core/tracers.py
index 32ee05f..523f67e 100644
--- a/sympl/_core/tracers.py
+++ b/sympl/_core/tracers.py
@@ -3,6 +3,7 @@ import numpy as np
 from .units import units_are_same
 from .get_np_arrays import get_numpy_arrays_with_properties
 from .restore_dataarray import restore_data_arrays_with_properties
+from .wildcard import get_wildcard_matches_and_dim_lengths
 
 _tracer_unit_dict = {}
 _tracer_names = []
@@ -177,6 +178,18 @@ class TracerPacker(object):
     def _tracer_index(self):
         return self._tracer_dims.index('tracer')
 
+    def _get_input_properties(self, state, tracer_properties):
+        """
+        Includes the other inputs of the component, so that tracers and other
+        inputs have the same dimensions in the same order along a wildcard.
+        """
+        input_properties = {
+            name: properties for name, properties
+            in getattr(self.component, 'input_properties', {}).items()
+            if name in state}
+        input_properties.update(tracer_properties)
+        return input_properties
+
     def pack(self, state):
         """
 
@@ -190,7 +203,11 @@ class TracerPacker(object):
         """
         tracer_properties = get_tracer_input_properties(
             self._prepend_tracers, self._tracer_quantity_dims)
-        raw_state = get_numpy_arrays_with_properties(state, tracer_properties)
+        input_properties = self._get_input_properties(state, tracer_properties)
+        wildcard_names, dim_lengths = get_wildcard_matches_and_dim_lengths(
+            state, input_properties)
+        raw_state = get_numpy_arrays_with_properties(
+            state, tracer_properties, wildcard_names, dim_lengths)
         if len(self.tracer_names) == 0:
             shape = [0 for dim in self._tracer_dims]
         else:
@@ -235,5 +252,6 @@ class TracerPacker(object):
                 out_properties[name]['units'] = '{} {}'.format(
                     out_properties[name]['units'], multiply_unit)
         return_state = restore_data_arrays_with_properties(
-            raw_state, out_properties, input_state, tracer_properties)
+            raw_state, out_properties, input_state,
+            self._get_input_properties(input_state, tracer_properties))
         return return_state
-- 
2.43.0


From cbf559708d96d4b41ecb19f21e4e7e50cbcd4d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:20 +0000
Subject: [PATCH 29/44] fix: add tendencies of different data types in any
 order

Adding in-place raised an exception or lost precision when the tendencies of
the first component have a narrower data type than those of a later one.
---
 sympl/_core/util.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sympl/_core/util.py b/sympl/_core/util.py
index 2e3df85..72f7539 100644
--- a/sympl/_core/util.py
+++ b/sympl/_core/util.py
@@ -197,8 +197,8 @@ def update_dict_by_adding_another(dict1, dict2):
     Takes two dictionaries. Add values in dict2 to the values in dict1, if
     present. If not present, create a new value in dict1 equal to the value in
     dict2. Addition is done in-place if the values are
-    array-like, to avoid data copying. Units are handled if the values are
-    DataArrays with a 'units' attribute.
+    array-like, to avoid data copying, but not if they are DataArrays. Units
+    are handled if the values are DataArrays with a 'units' attribute.
     """
     for key in dict2.keys():
         if key not in dict1:
@@ -211,10 +211,9 @@ def update_dict_by_adding_another(dict1, dict2):
                 if 'units' not in dict1[key].attrs or 'units' not in dict2[key].attrs:
                     raise InvalidStateError(
                         'quantity objects must have units property defined')
-                try:
-                    dict1[key] += dict2[key].to_units(dict1[key].attrs['units'])
-                except ValueError:  # dict1[key] is missing a dimension present in dict2[key]
-                    dict1[key] = dict1[key] + dict2[key].to_units(dict1[key].attrs['units'])
+                # not in-place, as dict2[key] can have dimensions which
+                # dict1[key] is missing, or a wider data type
+                dict1[key] = dict1[key] + dict2[key].to_units(dict1[key].attrs['units'])
             else:
                 dict1[key] += dict2[key]  # += is in-place addition operator
     return  # not returning anything emphasizes that this is in-place
-- 
2.43.0


From 25f65be9dc0f0d8061b299460c17c4d06a460616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:33 +0000
Subject: [PATCH 30/44] fix: forget the tendencies of an Adams-Bashforth step
 which failed

---
 sympl/_components/timesteppers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index e35cff3..6ebc099 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -148,7 +148,11 @@ class AdamsBashforth(TendencyStepper):
         for previous_tendencies in self._tendencies_list:
             convert_tendencies_units_for_state(previous_tendencies, state)
         self._tendencies_list.append(tendencies)
-        new_state = self._perform_step(state, timestep)
+        try:
+            new_state = self._perform_step(state, timestep)
+        except Exception:
+            self._tendencies_list.pop()
+            raise
         copy_untouched_quantities(state, new_state)
         if len(self._tendencies_list) == self._order:
             self._tendencies_list.pop(0)  # remove the oldest entry
-- 
2.43.0


From 4349c8bf01f1fb63e2d86b0577aeec740a6a461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:50 +0000
Subject: [PATCH 31/44] fix: keep the values of constant components when their
 results are modified

The arrays returned were those held by the component, so that modifying a
result in-place changed what later calls return.
---
 sympl/_components/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sympl/_components/basic.py b/sympl/_components/basic.py
index d6584ad..ab692c4 100644
--- a/sympl/_components/basic.py
+++ b/sympl/_components/basic.py
@@ -127,10 +127,10 @@ class ConstantTendencyComponent(TendencyComponent):
     def array_call(self, state):
         tendencies = {}
         for name, data_array in self.__tendencies.items():
-            tendencies[name] = data_array.values
+            tendencies[name] = data_array.values.copy()
         diagnostics = {}
         for name, data_array in self.__diagnostics.items():
-            diagnostics[name] = data_array.values
+            diagnostics[name] = data_array.values.copy()
         return tendencies, diagnostics
 
 
@@ -210,7 +210,7 @@ class ConstantDiagnosticComponent(DiagnosticComponent):
     def array_call(self, state):
         return_state = {}
         for name, data_array in self.__diagnostics.items():
-            return_state[name] = data_array.values
+            return_state[name] = data_array.values.copy()
         return return_state
 
 
-- 
2.43.0


From a35c60c6c13ef244dc95bb2f45fe9f4800c36045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:35 +0000
Subject: [PATCH 32/44] fix: pass the timestep through a ScalingWrapper of a
 wrapped ImplicitTendencyComponent

---
 sympl/_core/wrappers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 71f1f4b..3e260e5 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -157,7 +157,11 @@ class ScalingWrapper(object):
             diagnostics = scale_quantities(diagnostics, self._diagnostic_scale_factors)
             return diagnostics, new_state
         elif isinstance(self._component, TendencyComponent):
-            tendencies, diagnostics = self._component(scaled_state)
+            if isinstance(self._component, ImplicitTendencyComponent):
+                # a wrapped component with an optional timestep
+                tendencies, diagnostics = self._component(scaled_state, timestep)
+            else:
+                tendencies, diagnostics = self._component(scaled_state)
             tendencies = scale_quantities(tendencies, self._tendency_scale_factors)
             diagnostics = scale_quantities(diagnostics, self._diagnostic_scale_factors)
             return tendencies, diagnostics
-- 
2.43.0


From e2c79ba07967549051259fc61c404aec2ed7fcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:15 +0000
Subject: [PATCH 33/44] fix: store quantities named like a dimension of another
 quantity

---
 sympl/_components/netcdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index b012473..b76bc41 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -190,6 +190,10 @@ class NetCDFMonitor(Monitor):
             all_states = combine_states(state_list)
             ensure_states_are_compatible(dataset, all_states)
             self._ensure_time_exists(dataset, time_list[0])
+            # a dimension cannot be added once there is a variable of that name
+            for value in all_states.values():
+                for dim_name, length in zip(value.dims[1:], value.shape[1:]):
+                    ensure_dimension_exists(dataset, dim_name, length)
             for name, value in all_states.items():
                 ensure_variable_exists(dataset, name, value)
             it_start = dataset.dimensions['time'].size
-- 
2.43.0


From 325bb250d1c86b0a9ab9932ad80705de1b7684d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:03 +0000
Subject: [PATCH 34/44] fix: unpack the values of quantities with packing
 attributes in restart files

---
 sympl/_components/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index b76bc41..227cfea 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -270,7 +270,7 @@ class RestartMonitor(Monitor):
         """
         state = {}
         with nc4.Dataset(self._filename) as dataset:
-            dataset.set_auto_maskandscale(False)  # give values as stored
+            dataset.set_auto_mask(False)  # give values as stored
             for name, variable in dataset.variables.items():
                 if name == 'time':
                     state['time'] = get_first_time(variable)
-- 
2.43.0


From f05d2ffe69f0eebdca409d48fd15406f93ba6955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:22 +0000
Subject: [PATCH 35/44] fix: report malformed unit strings as invalid units

---
 sympl/_core/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sympl/_core/units.py b/sympl/_core/units.py
index 29e29e6..cdf23a1 100644
--- a/sympl/_core/units.py
+++ b/sympl/_core/units.py
@@ -71,7 +71,7 @@ def is_valid_unit(unit_string):
         '°', 'degree')
     try:
         unit_registry(unit_string)
-    except pint.UndefinedUnitError:
+    except Exception:  # an undefined unit, or not a unit expression at all
         return False
     else:
         return True
-- 
2.43.0


From cb568305e9b9f168ec9b69955f92d40a2592fb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:31 +0000
Subject: [PATCH 36/44] fix: initialize arrays along dims which only the
 tracers have

---
 sympl/_core/init_np_arrays.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sympl/_core/init_np_arrays.py b/sympl/_core/init_np_arrays.py
index bb78fdb..f816a25 100644
--- a/sympl/_core/init_np_arrays.py
+++ b/sympl/_core/init_np_arrays.py
@@ -38,6 +38,10 @@ def initialize_numpy_arrays_with_properties(
         shapes.
     """
     dim_lengths = get_dim_lengths_from_raw_input(raw_input_state, input_properties)
+    if tracer_dims is not None and 'tracers' in raw_input_state:
+        # dims which only the tracers have
+        for dim, length in zip(tracer_dims, raw_input_state['tracers'].shape):
+            dim_lengths.setdefault(dim, length)
     dims_from_out_properties = extract_output_dims_properties(
         output_properties, input_properties, [])
     out_dict = {}
-- 
2.43.0


From ceaa8daecbf97dffacea03a5e56cf6fe4486166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:15 +0000
Subject: [PATCH 37/44] fix: str() of a TendencyStepper raised IndexError

---
 sympl/_core/tendencystepper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/tendencystepper.py b/sympl/_core/tendencystepper.py
index 95b6d90..2fd23a0 100644
--- a/sympl/_core/tendencystepper.py
+++ b/sympl/_core/tendencystepper.py
@@ -107,7 +107,8 @@ class TendencyStepper(Stepper):
     def __str__(self):
         return (
             'instance of {}(TendencyStepper)\n'
-            '    TendencyComponent components: {}'.format(self.prognostic_list)
+            '    TendencyComponent components: {}'.format(
+                self.__class__, self.prognostic_list)
         )
 
     def __repr__(self):
-- 
2.43.0


From c0df0acfb1235aa14b343b2d29f738b2182a10d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:15 +0000
Subject: [PATCH 38/44] fix: copying or unpickling a wrapper recursed without
 end

---
 sympl/_components/basic.py | 2 +-
 sympl/_core/wrappers.py    | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/basic.py b/sympl/_components/basic.py
index ab692c4..93937a8 100644
--- a/sympl/_components/basic.py
+++ b/sympl/_components/basic.py
@@ -442,7 +442,7 @@ class TimeDifferencingWrapper(ImplicitTendencyComponent):
         raise NotImplementedError()
 
     def __getattr__(self, item):
-        if item in ("outputs", "output_properties"):
+        if item in ("outputs", "output_properties", "_implicit"):
             raise AttributeError()
         else:
             return getattr(self._implicit, item)
diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 3e260e5..0f19fd8 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -128,6 +128,8 @@ class ScalingWrapper(object):
                     ", but was given a scale factor.".format(field, properties_name))
 
     def __getattr__(self, item):
+        if item == '_component':  # not initialised yet, e.g. while copying
+            raise AttributeError(item)
         return getattr(self._component, item)
 
     def __call__(self, state, timestep=None):
@@ -245,4 +247,6 @@ class UpdateFrequencyWrapper(object):
         return self._cached_output
 
     def __getattr__(self, item):
+        if item == 'component':  # not initialised yet, e.g. while copying
+            raise AttributeError(item)
         return getattr(self.component, item)
-- 
2.43.0


From 4865d7bf5fc81bc1e11e95cd985695c167395fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:19 +0000
Subject: [PATCH 39/44] fix: pass on TypeErrors raised by the component wrapped
 by UpdateFrequencyWrapper

They were taken for a component which does not accept a timestep, which was
then called again without one, so that its own error was hidden and it could
be computed twice.
---
 sympl/_core/wrappers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 0f19fd8..1bfbc2a 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -1,3 +1,4 @@
+import sys
 from .._core.base_components import (
     TendencyComponent, DiagnosticComponent, ImplicitTendencyComponent, Stepper
 )
@@ -240,6 +241,8 @@ class UpdateFrequencyWrapper(object):
                 try:
                     self._cached_output = self.component(state, timestep, **kwargs)
                 except TypeError:
+                    if sys.exc_info()[2].tb_next is not None:
+                        raise  # by the component, which takes a timestep
                     self._cached_output = self.component(state, **kwargs)
             else:
                 self._cached_output = self.component(state, **kwargs)
-- 
2.43.0


From 27e0e60fb022df3f4e2639131258ec71114610ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 40/44] fix: let a failed first step not determine the timestep
 of a stepper

AdamsBashforth and Leapfrog remembered the timestep before the step had been
made, so that after a failed first step every other timestep was refused.
---
 sympl/_components/timesteppers.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index 6ebc099..c8e9f7e 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -156,6 +156,7 @@ class AdamsBashforth(TendencyStepper):
         copy_untouched_quantities(state, new_state)
         if len(self._tendencies_list) == self._order:
             self._tendencies_list.pop(0)  # remove the oldest entry
+        self._timestep = timestep
         return diagnostics, new_state
 
     def _perform_step(self, state, timestep):
@@ -176,9 +177,7 @@ class AdamsBashforth(TendencyStepper):
         return new_state
 
     def _ensure_constant_timestep(self, timestep):
-        if self._timestep is None:
-            self._timestep = timestep
-        elif self._timestep != timestep:
+        if self._timestep is not None and self._timestep != timestep:
             raise ValueError(
                 'timestep must be constant for Adams-Bashforth time stepping')
 
@@ -295,14 +294,13 @@ class Leapfrog(TendencyStepper):
                 asselin_strength=self._asselin_strength, alpha=self._alpha)
         copy_untouched_quantities(state, new_state)
         self._old_state = state
+        self._timestep = timestep
         for key in original_state.keys():
             original_state[key] = state[key]  # allow filtering to be applied
         return diagnostics, new_state
 
     def _ensure_constant_timestep(self, timestep):
-        if self._timestep is None:
-            self._timestep = timestep
-        elif self._timestep != timestep:
+        if self._timestep is not None and self._timestep != timestep:
             raise ValueError(
                 'timestep must be constant for Leapfrog time stepping')
 
-- 
2.43.0


From 021db1aa18117e1f7fdffeb65aac92184eac9bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 41/44] fix: let SSPRungeKutta take steps of different lengths

Its stages were made by an Adams-Bashforth stepper, which refused every
timestep other than the first, although the scheme has no memory.
---
 sympl/_components/timesteppers.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index c8e9f7e..0cf1651 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -26,7 +26,6 @@ class SSPRungeKutta(TendencyStepper):
             raise ValueError(
                 'stages must be one of 2 or 3, received {}'.format(stages))
         self._stages = stages
-        self._euler_stepper = AdamsBashforth(*args, order=1)
         super(SSPRungeKutta, self).__init__(*args, **kwargs)
 
     def _call(self, state, timestep):
@@ -54,23 +53,30 @@ class SSPRungeKutta(TendencyStepper):
         elif self._stages == 3:
             return self._step_3_stages(state, timestep)
 
+    def _step_euler(self, state, timestep):
+        tendencies, diagnostics = self.prognostic(state, timestep)
+        convert_tendencies_units_for_state(tendencies, state)
+        new_state = step_forward_euler(state, tendencies, timestep)
+        copy_untouched_quantities(state, new_state)
+        return diagnostics, new_state
+
     def _step_3_stages(self, state, timestep):
-        diagnostics, state_1 = self._euler_stepper(state, timestep)
-        _, state_1_5 = self._euler_stepper(state_1, timestep)
+        diagnostics, state_1 = self._step_euler(state, timestep)
+        _, state_1_5 = self._step_euler(state_1, timestep)
         old = get_stepped_quantities(state, state, state_1)
         new = get_stepped_quantities(state_1_5, state, state_1)
         state_2 = add(multiply(0.75, old), multiply(0.25, new))
         copy_untouched_quantities(state, state_2)
-        _, state_2_5 = self._euler_stepper(state_2, timestep)
+        _, state_2_5 = self._step_euler(state_2, timestep)
         new = get_stepped_quantities(state_2_5, state, state_1)
         out_state = add(multiply(1./3, old), multiply(2./3, new))
         return diagnostics, out_state
 
     def _step_2_stages(self, state, timestep):
         assert state is not None
-        diagnostics, state_1 = self._euler_stepper(state, timestep)
+        diagnostics, state_1 = self._step_euler(state, timestep)
         assert state_1 is not None
-        _, state_2 = self._euler_stepper(state_1, timestep)
+        _, state_2 = self._step_euler(state_1, timestep)
         old = get_stepped_quantities(state, state, state_1)
         new = get_stepped_quantities(state_2, state, state_1)
         out_state = multiply(0.5, add(old, new))
-- 
2.43.0


From b122b084e484f46c96ed4e30e96cce6c6b29dae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:09 +0000
Subject: [PATCH 42/44] fix: NetCDFMonitor could not append to a file with
 sequences or NaN as attributes

Such attributes were compared with those in the file in a way which fails for
arrays, and NaN was never equal to itself, so that every write after the first
one was refused.
---
 sympl/_components/netcdf.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 227cfea..7be2e0d 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -434,7 +434,7 @@ def ensure_variable_is_compatible(variable, name, data):
             raise InvalidStateError(
                 'State has attr {} for quantity {} but this is not '
                 'present in the netCDF file'.format(key, name))
-        elif value != variable.getncattr(key):
+        elif not attributes_are_equal(value, variable.getncattr(key)):
             raise InvalidStateError(
                 'State has attr {} with value {} for quantity {} but '
                 'the value in the netCDF file is {}'.format(
@@ -442,6 +442,16 @@ def ensure_variable_is_compatible(variable, name, data):
                     variable.getncattr(key)))
 
 
+def attributes_are_equal(value, file_value):
+    """Returns whether the attribute value is the one read from a file, where
+    a sequence with a single item is stored as the item itself."""
+    value, file_value = np.atleast_1d(value), np.atleast_1d(file_value)
+    if value.shape != file_value.shape:
+        return False
+    both_nan = (value != value) & (file_value != file_value)
+    return bool(np.all((value == file_value) | both_nan))
+
+
 def ensure_dimension_exists(dataset, dim_name, dim_length):
     if dim_name in dataset.dimensions:
         if dim_length is None:
-- 
2.43.0


From 5d5d0e2abbd55b56f19f7dc0b5039efa3cc2ce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:17 +0000
Subject: [PATCH 43/44] fix: Leapfrog failed on integer states after having
 filtered part of the state

The time filter was applied in-place, which is impossible for integers and
left the state passed in partly filtered when a later quantity failed.
---
 sympl/_components/timesteppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index 0cf1651..dc92a47 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -353,7 +353,7 @@ def step_leapfrog(
             old_state[key] + 2*tendencies[key]*timestep.total_seconds())
         filter_influence = 0.5*asselin_strength*(
             old_state[key] - 2*state[key] + new_state[key])
-        state[key] += alpha * filter_influence
+        state[key] = state[key] + alpha * filter_influence
         if alpha != 1.:
             new_state[key] += (alpha - 1.) * filter_influence
     return state, new_state
-- 
2.43.0


From 009ad7a7b6e7d19ddaa3a679e4c1755d42ecab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:24 +0000
Subject: [PATCH 44/44] fix: component calls altered the dictionaries returned
 by array_call

A component which keeps the dictionary it returns failed in its second call
when it uses tracers, and reported tendencies were added to the dictionary of
diagnostics, which other components may return as well.
---
 sympl/_core/base_components.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 2d616aa..22fe917 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -633,6 +633,7 @@ class Stepper(object):
         raw_state['time'] = state['time']
         raw_diagnostics, raw_new_state = self.array_call(raw_state, timestep)
         if self.uses_tracers:
+            raw_new_state = raw_new_state.copy()
             new_state = self._tracer_packer.unpack(
                 raw_new_state.pop('tracers'), state)
         else:
@@ -640,6 +641,7 @@ class Stepper(object):
         self._diagnostic_checker.check_diagnostics(raw_diagnostics)
         self._output_checker.check_outputs(raw_new_state)
         if self.tendencies_in_diagnostics:
+            raw_diagnostics = raw_diagnostics.copy()
             self._insert_tendencies_to_diagnostics(
                 raw_state, raw_new_state, timestep, raw_diagnostics)
         # includes any tendencies when diagnostic_properties could not be extended
@@ -866,6 +868,7 @@ class TendencyComponent(object):
         raw_state['time'] = state['time']
         raw_tendencies, raw_diagnostics = self.array_call(raw_state)
         if self.uses_tracers:
+            raw_tendencies = raw_tendencies.copy()
             out_tendencies = self._tracer_packer.unpack(
                 raw_tendencies.pop('tracers'), state,
                 multiply_unit=self.tracer_tendency_time_unit)
@@ -1092,6 +1095,7 @@ class ImplicitTendencyComponent(object):
         raw_state['time'] = state['time']
         raw_tendencies, raw_diagnostics = self.array_call(raw_state, timestep)
         if self.uses_tracers:
+            raw_tendencies = raw_tendencies.copy()
             out_tendencies = self._tracer_packer.unpack(
                 raw_tendencies.pop('tracers'), state,
                 multiply_unit=self.tracer_tendency_time_unit)
-- 
2.43.0

