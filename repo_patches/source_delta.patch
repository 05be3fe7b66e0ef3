From 0b857e02aa5c4cff7e3eb2bcb4d080022cdbb46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 01/40] fix: chunk hash looks up the whole variable name, not
 its characters

hash() iterated over the characters of the variable name, so '=xx' was
resolved using the binding of '=x' and two different chunks compared equal.
---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 58ea8f2..ebc6431 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -186,7 +186,7 @@ class Chunk(Sequence):
                 temp_varval = {"values": set(), "negvalues": set()}
                 for key in ["variables", "negvariables"]:
                     if getattr(varval, key):
-                        for value in getattr(varval, key):
+                        for value in [varval.variables] if key == "variables" else varval.negvariables: #a slot has one variable (a string) but any number of negvariables
                             try:
                                 temp_varval[re.sub("variables", "values", key)].add(self.boundvars[utilities.ACTRVARIABLE + value]) #add (neg)value based on the (neg)variable
                             except KeyError:
-- 
2.43.0


From 07a417a82377791a1ff06586aaca14d49f1a39a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 02/40] fix: chunk hash does not depend on the order of negated
 values

The order of negvalues/negvariables comes from set iteration, so two chunks
with the same content could compare unequal.
---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index ebc6431..922700a 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -206,7 +206,7 @@ class Chunk(Sequence):
                             else:
                                 yield tuple([key, hash(value)])
 
-        self.__hash = hash(tuple(hash_func())), self.boundvars.copy() #store the hash along with the vars used to calculate it, so it doesnt need to be recalculated
+        self.__hash = hash(frozenset(hash_func())), self.boundvars.copy() #store the hash along with the vars used to calculate it, so it doesnt need to be recalculated
         return self.__hash[0]
 
     def __iter__(self):
-- 
2.43.0


From 8924f6fdf2e5b060c73fce853fa457ae58f85a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 03/40] fix: unbound negated variable raises ACTRError

The error message used a name that is only set for positive variables, so
UnboundLocalError was raised instead of the intended ACTRError.
---
 pyactr/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 3381c09..8dfab1f 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -293,7 +293,7 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
                     try:
                         neg_result.add(actrvariables[neg_var])
                     except KeyError:
-                        raise ACTRError(f"Object '{var[1:]}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
+                        raise ACTRError(f"Object '{neg}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
         if result and temp_result in {VISIONGREATER, VISIONSMALLER} or result in {VISIONGREATER, VISIONSMALLER}:
             result = "".join(sorted([temp_result, result], reverse=True))
         elif result and temp_result != result:
-- 
2.43.0


From 068ef6925df732b623d35abc3adad3c5722ddd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 04/40] fix: a variable bound to an empty value can be used in
 actions

check_bound_vars never set its return value when the bound value was None
and raised UnboundLocalError.
---
 pyactr/utilities.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 8dfab1f..c53ca7a 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -303,11 +303,7 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
                 result = temp_result
             except UnboundLocalError: #temp_result wasn't used
                 pass
-    try:
-        if temp_result:
-            returned_tuple = VarvalClass(variables=None, values=result, negvariables=(), negvalues=tuple(neg_result))
-    except UnboundLocalError: #temp_result was never used, which means that no values were defined
-        returned_tuple = VarvalClass(variables=None, values=None, negvariables=(), negvalues=tuple(neg_result))
+    returned_tuple = VarvalClass(variables=None, values=result, negvariables=(), negvalues=tuple(neg_result)) #result is None if no values were defined or if the variable is bound to an empty value
     return returned_tuple
 
 def match(dict2, slotvals, name1, name2):
-- 
2.43.0


From 34713cfc35f68f5016efbd5299f1bc1294469c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 05/40] fix: base-level activation ignores every trace stored
 at the current time

With two traces at the current time a RuntimeWarning escaped (only one was
dropped), and optimized learning raised ValueError (log of 0) and counted the
dropped trace. All traces that are not in the past are now left out.
---
 pyactr/utilities.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index c53ca7a..3f6faaa 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -421,25 +421,12 @@ def baselevel_learning(current_time, times, bll, decay, activation=None, optimiz
     Calculate base-level learning: B_i = ln(sum(t_j^{-decay})) for t_j = current_time - t for t in times.
     """
     if bll:
+        times = times[times < current_time] #this part removes chunk storages that are stored at current time (blocking simultaneous retrieval)
         if len(times) > 0:
-            with warnings.catch_warnings(record=True):
-                warnings.filterwarnings('error')
-                if not optimized_learning:
-                    try:
-                        B = math.log(np.sum((current_time - times) ** (-decay)))
-                    #this part removes chunk storages that are stored at current time (blocking simultaneous retrieval)
-                    except RuntimeWarning:
-                        temp_times = np.delete(times, times.argmax())
-                        if len(temp_times) > 0:
-                            B = math.log(np.sum((current_time - temp_times) ** (-decay)))
-                else:
-                    try:
-                        B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.max(times)) #calculating bll using optimized learning -- much faster since it's a single calculation
-                    #this part removes chunk storages that are stored at current time (blocking simultaneous retrieval)
-                    except RuntimeWarning:
-                        temp_times = np.delete(times, times.argmax())
-                        if len(temp_times) > 0:
-                            B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.max(temp_times)) #calculating bll using optimized learning -- much faster since it's a single calculation
+            if not optimized_learning:
+                B = math.log(np.sum((current_time - times) ** (-decay)))
+            else:
+                B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.max(times)) #calculating bll using optimized learning -- much faster since it's a single calculation
     else:
         B = 0
 
-- 
2.43.0


From 83ea0accb4a39b7ae5fda1fe63efcebb958a71f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 06/40] fix: the slot name isa is rejected in chunk types

The check compared slot names after '_' was appended, so it never applied.
---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 922700a..2ebc025 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -30,7 +30,7 @@ def chunktype(cls_name, field_names, defaults=None, include=None):
         pass  # assume it's already a sequence of identifiers
     field_names = tuple(sorted(name + "_" for name in field_names))
     for each in field_names:
-        if each == "ISA" or each == "isa":
+        if each == "ISA_" or each == "isa_":
             raise ACTRError("You cannot use the slot 'isa' in your chunk. That slot is used to define chunktypes.")
 
     # If an ancestor was specified, union the field names and re-sort
-- 
2.43.0


From 3bddec302769982d3de73fd211bbac69d50a4384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 07/40] fix: ISA and Isa name the chunk type even when isa is
 missing

---
 pyactr/chunks.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 2ebc025..00033cc 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -419,12 +419,11 @@ def createchunkdict(chunk):
                 chunk_dict[key][x] = None
         chunk_dict[key] = utilities.VarvalClass(**chunk_dict[key])
     type_chunk = ""
-    try:
-        type_chunk = chunk_dict.pop("isa").values #change this - any combination of capital/small letters
-        type_chunk = chunk_dict.pop("ISA").values
-        type_chunk = chunk_dict.pop("Isa").values
-    except KeyError:
-        pass
+    for isa in ("isa", "ISA", "Isa"): #change this - any combination of capital/small letters
+        try:
+            type_chunk = chunk_dict.pop(isa).values
+        except KeyError:
+            pass
     return type_chunk, chunk_dict
 
 def makechunk(nameofchunk="", typename="", **dictionary):
-- 
2.43.0


From 8a24e7f67e43b0acd3b142bd97853cad9983f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 08/40] fix: motor request with an empty command raises
 ACTRError

An empty command (None) passed the check of valid commands and then raised
UnboundLocalError because no key was read.
---
 pyactr/motor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyactr/motor.py b/pyactr/motor.py
index bb7b718..dfa486d 100644
--- a/pyactr/motor.py
+++ b/pyactr/motor.py
@@ -55,7 +55,9 @@ class Motor(buffers.Buffer):
         if new_chunk.cmd.values not in utilities.CMDMANUAL:
             raise ACTRError(f"Motor module received an invalid command: '{new_chunk.cmd.values}'. The valid commands are: '{utilities.CMDMANUAL}'")
 
-        if new_chunk.cmd.values == utilities.CMDPRESSKEY:
+        if new_chunk.cmd.values != utilities.CMDPRESSKEY:
+            raise ACTRError(f"Motor module received no command: '{new_chunk.cmd.values}'. No movement is carried out without a command.")
+        else:
             pressed_key = new_chunk.key.values.upper() #change key into upper case
             mod_attr_val["key"] = pressed_key
             new_chunk = chunks.Chunk(self._MANUAL, **mod_attr_val) #creates new chunk
-- 
2.43.0


From 12a03d596c3d028f4741144dfde3bf80e3efd6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 09/40] fix: motor preparation looks at the pressed key

The keys were compared as slot tuples, which are never in the lists of keys,
so every different key was prepared as if it used the same hand and the same
movement.
---
 pyactr/productions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 50cd31e..3642ec5 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -905,11 +905,11 @@ class ProductionRules:
         preparation = time_presses[0]
 
         #preparation can be modified if previous key was the same or similar -- see if-clauses below
-        if newchunk.key == motorbuffer.last_key[0] or self.model_parameters["motor_prepared"]:
+        if newchunk.key.values == motorbuffer.last_key[0] or self.model_parameters["motor_prepared"]:
             self.model_parameters["motor_prepared"] = False #motor_prepared is only used for the 1st key press
             preparation = 0
-        elif motorbuffer.last_key[0] and (newchunk.key in motorbuffer.PRESSING) == (motorbuffer.last_key[0] in motorbuffer.PRESSING):
-            if (newchunk.key in motorbuffer.LEFT_HAND) == (motorbuffer.last_key[0] in motorbuffer.LEFT_HAND): 
+        elif motorbuffer.last_key[0] and (newchunk.key.values in motorbuffer.PRESSING) == (motorbuffer.last_key[0] in motorbuffer.PRESSING):
+            if (newchunk.key.values in motorbuffer.LEFT_HAND) == (motorbuffer.last_key[0] in motorbuffer.LEFT_HAND): 
                 preparation -= 0.1 #the same hand, same mvt cuts down by 100 ms; Lisp ACT-R also has the same finger which cuts down by 150 ms; this is not currently implemented
             else:
                 preparation -= 0.05 #a different hand, same mvt cuts down by 50 ms
@@ -937,7 +937,7 @@ class ProductionRules:
         
         motorbuffer.preparation = motorbuffer._FREE
         motorbuffer.execution = motorbuffer._BUSY
-        motorbuffer.last_key[0] = otherchunk.key
+        motorbuffer.last_key[0] = otherchunk.key.values
         
         time += initiation
         
-- 
2.43.0


From d30bd6d41cc03034e024004af4d38ed9e1b5ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 10/40] fix: a finished key press is removed from the
 environment interaction

---
 pyactr/productions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 3642ec5..b6c4e9f 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -958,7 +958,7 @@ class ProductionRules:
 
         yield Event(roundtime(time), name, 'MOVEMENT FINISHED')
         
-        self.env_interaction.discard(otherchunk.key)
+        self.env_interaction.discard(otherchunk.key.values)
         motorbuffer.state = motorbuffer._FREE
         motorbuffer.execution = motorbuffer._FREE
         motorbuffer.last_key[1] = 0
-- 
2.43.0


From 27cc4f5381d7355cf15d028ab3f323e1924317fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 11/40] fix: visual search returns the stimulus of the found
 location

The stimulus was stored before its visible features were checked, so a
stimulus that does not match could be returned and counted as attended.
---
 pyactr/vision.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 5e7a2bd..1f675e8 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -194,10 +194,10 @@ class VisualLocation(buffers.Buffer):
             except (TypeError, AttributeError):
                 pass
 
-            found_stim = self.environment.stimulus[each]
-            visible_chunk = chunk_from_stimulus(found_stim, "visual_location", position=False)
+            visible_chunk = chunk_from_stimulus(self.environment.stimulus[each], "visual_location", position=False)
 
             if visible_chunk <= chunk_used_for_search:
+                found_stim = self.environment.stimulus[each]
                 found = chunk_from_stimulus(found_stim, "visual_location", position=True)
                 current_x = position[0]
                 current_y = position[1]
-- 
2.43.0


From bb9e3e62ef7e412764d4b20ac9852cb0d99a55ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 12/40] fix: conflict resolution uses the current utilities

Rules were ordered by utility only once, before the simulation, and compiled
rules were put last (twice if re-created), so without noise a matching rule
with a lower utility was selected once utilities changed.
---
 pyactr/productions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index b6c4e9f..cf091cd 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -497,6 +497,7 @@ class ProductionRules:
         
         self.last_rule_slotvals = self.current_slotvals.copy()
 
+        self.ordered_rulenames = sorted(self.rules.keys(), key=lambda x: self.rules[x]['utility'], reverse=True) #utilities can change during a simulation and rules can be added by compilation
         for rulename in self.ordered_rulenames:
             self.used_rulename = rulename
             production = self.rules[rulename]["rule"]()
-- 
2.43.0


From 728574641a53117bcda8b06eb996d6bd6d248d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 13/40] fix: deleting a chunk from memory updates its effect on
 spreading activation

The cached numbers of chunks used in the strength of association still
counted the deleted chunk.
---
 pyactr/declarative.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 17c5eea..1d86a2c 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -31,6 +31,9 @@ class DecMem(collections.abc.MutableMapping):
     
     def __delitem__(self, key):
         del self._data[key]
+        #numbers of chunks used for the strength of association are out of date; they will be calculated again when needed
+        self.restricted_number_chunks.clear()
+        self.unrestricted_number_chunks.clear()
 
     def __iter__(self):
         for elem in self._data:
-- 
2.43.0


From 0c3e8dc16d684312df79a2289eafa22f575c69c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 14/40] fix: copies of buffers keep delay and finst

---
 pyactr/declarative.py | 2 +-
 pyactr/goals.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 1d86a2c..e260074 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -174,7 +174,7 @@ class DecMemBuffer(buffers.Buffer):
         """
         if dm == None:
             dm = self.dm 
-        copy_buffer = DecMemBuffer(dm, self._data.copy())
+        copy_buffer = DecMemBuffer(dm, self._data.copy(), self.finst)
         return copy_buffer
 
     def test(self, state, inquiry):
diff --git a/pyactr/goals.py b/pyactr/goals.py
index 1b33b29..900ef2b 100644
--- a/pyactr/goals.py
+++ b/pyactr/goals.py
@@ -68,7 +68,7 @@ class Goal(buffers.Buffer):
         """
         if harvest == None:
             harvest = self.dm
-        copy_goal = Goal(self._data.copy(), harvest)
+        copy_goal = Goal(self._data.copy(), harvest, self.delay)
         return copy_goal
     
     def test(self, state, inquiry):
-- 
2.43.0


From 469bdda18a8f49b3116a41e66703fe7ad5db55aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 15/40] fix: models do not share the default
 buffer_spreading_activation

The defaults were copied shallowly, so changing the dict of one model changed
it for every other model.
---
 pyactr/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index c2c4197..02d693c 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -2,6 +2,8 @@
 ACT-R Model.
 """
 
+import copy
+
 import pyparsing
 
 from pyactr import chunks, declarative, goals, motor, productions, simulation, utilities, vision
@@ -97,7 +99,7 @@ class ACTRModel:
         self.productions = productions.Productions()
         self.__similarities = {}
 
-        self.model_parameters = self.MODEL_PARAMETERS.copy()
+        self.model_parameters = copy.deepcopy(self.MODEL_PARAMETERS)
 
         try:
             if not set(model_parameters.keys()).issubset(set(self.MODEL_PARAMETERS.keys())):
-- 
2.43.0


From 3a452438b929455131c933d24ada29e59631e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 16/40] fix: a rule string can be used without a name

---
 pyactr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index 02d693c..cb743a9 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -234,7 +234,7 @@ class ACTRModel:
         {'=g': example(value= two)}
         """
         if not name:
-            name = "unnamedrule" + productions.Productions._undefinedrulecounter
+            name = "unnamedrule" + str(productions.Productions._undefinedrulecounter)
             productions.Productions._undefinedrulecounter += 1
         temp_dictRHS = {v: k for k, v in utilities._RHSCONVENTIONS.items()}
         temp_dictLHS = {v: k for k, v in utilities._LHSCONVENTIONS.items()}
-- 
2.43.0


From eaadb4109fd1cf19148d7ca9552e60cb488716fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 17/40] fix: a slot required to be None matches a missing slot

---
 pyactr/chunks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 00033cc..cc6d1b9 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -260,6 +260,8 @@ class Chunk(Sequence):
 
             if isinstance(matching_val, utilities.VarvalClass):
                 matching_val = matching_val.values #the value might be written using _variablesvalues namedtuple; in that case, get it out
+            if matching_val == utilities.EMPTYVALUE:
+                matching_val = self.__emptyvalue #a slot that is missing or has no value is empty (and as such equal to the value 'None')
             varval = utilities.splitting(x[1])
 
             #checking variables, e.g., =x
-- 
2.43.0


From 395200267a465e566a9e7407b57e338b6d7d4545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 18/40] fix: smaller/greater than a variable resolves to the
 value of the variable

---
 pyactr/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 3f6faaa..630113a 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -295,7 +295,7 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
                     except KeyError:
                         raise ACTRError(f"Object '{neg}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
         if result and temp_result in {VISIONGREATER, VISIONSMALLER} or result in {VISIONGREATER, VISIONSMALLER}:
-            result = "".join(sorted([temp_result, result], reverse=True))
+            result = temp_result = "".join(sorted([temp_result, result], reverse=True)) #temp_result is compared to result again for the remaining fields
         elif result and temp_result != result:
             raise ACTRError(f"It looks like in '{elem}', one slot would have to carry two values at the same time; this is illegal in ACT-R")
         else:
-- 
2.43.0


From b18f88f4d0fe8be6db8f0a32f8b0bea4b4e76c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 19/40] fix: a finished key press does not free the motor
 module while another press waits

---
 pyactr/productions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index cf091cd..9ebefdd 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -942,7 +942,8 @@ class ProductionRules:
         
         time += initiation
         
-        motorbuffer.last_key[1] = time + execution + movement_finish
+        press_finished = time + execution + movement_finish
+        motorbuffer.last_key[1] = press_finished
         
         yield Event(roundtime(time), name, 'INITIATION COMPLETE')
         
@@ -960,9 +961,10 @@ class ProductionRules:
         yield Event(roundtime(time), name, 'MOVEMENT FINISHED')
         
         self.env_interaction.discard(otherchunk.key.values)
-        motorbuffer.state = motorbuffer._FREE
-        motorbuffer.execution = motorbuffer._FREE
-        motorbuffer.last_key[1] = 0
+        if motorbuffer.last_key[1] == press_finished: #otherwise, another press has been prepared in the meantime and starts now
+            motorbuffer.state = motorbuffer._FREE
+            motorbuffer.execution = motorbuffer._FREE
+            motorbuffer.last_key[1] = 0
 
     def LHStest(self, dictionary, actrvariables, update=False):
         """
-- 
2.43.0


From d7db52bcd55625be32737787ecdb767c923e6ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 20/40] fix: the values < and > by themselves are not repeated
 in actions

---
 pyactr/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 630113a..b9df676 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -294,7 +294,7 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
                         neg_result.add(actrvariables[neg_var])
                     except KeyError:
                         raise ACTRError(f"Object '{neg}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
-        if result and temp_result in {VISIONGREATER, VISIONSMALLER} or result in {VISIONGREATER, VISIONSMALLER}:
+        if result and temp_result != result and (temp_result in {VISIONGREATER, VISIONSMALLER} or result in {VISIONGREATER, VISIONSMALLER}):
             result = temp_result = "".join(sorted([temp_result, result], reverse=True)) #temp_result is compared to result again for the remaining fields
         elif result and temp_result != result:
             raise ACTRError(f"It looks like in '{elem}', one slot would have to carry two values at the same time; this is illegal in ACT-R")
-- 
2.43.0


From 6140de3c2c94740a1c4fe230bd46c7a1e98b5b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 21/40] fix: a finished key press does not free the motor
 module while another press is prepared

---
 pyactr/productions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 9ebefdd..2414a51 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -962,7 +962,8 @@ class ProductionRules:
         
         self.env_interaction.discard(otherchunk.key.values)
         if motorbuffer.last_key[1] == press_finished: #otherwise, another press has been prepared in the meantime and starts now
-            motorbuffer.state = motorbuffer._FREE
+            if motorbuffer.preparation == motorbuffer._FREE: #otherwise, another press is being prepared
+                motorbuffer.state = motorbuffer._FREE
             motorbuffer.execution = motorbuffer._FREE
             motorbuffer.last_key[1] = 0
 
-- 
2.43.0


From fb0856a9a6b49b2a3a461f454d40cd12eb94b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 22/40] fix: a chunk added at the current time is not retrieved
 at that time

Presentations are stored rounded to 4 decimals, so comparing them with the
unrounded current time let a symbolic retrieval return a chunk that was
cleared into memory at the very same time (e.g. 0.1+0.05).
---
 pyactr/declarative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index e260074..240e979 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -246,7 +246,7 @@ class DecMemBuffer(buffers.Buffer):
                         print("Total activation", A)
                         print("Time to retrieve", extra_time)
             else: #otherwise, retrieval is instantaneous
-                if chunk_tobe_matched <= chunk and self.dm[chunk][0] != time: #the second condition ensures that the chunk that was created are not retrieved at the same time
+                if chunk_tobe_matched <= chunk and self.dm[chunk][0] != round(float(time), 4): #the second condition ensures that the chunk that was created are not retrieved at the same time
                     retrieved = chunk
                     extra_time = 0
 
-- 
2.43.0


From 4945388c61884714cc4fb670f33644be0f0f18b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 23/40] fix: the retrieval buffer refuses a negative finst
 given at creation

---
 pyactr/declarative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 240e979..c4c6fe5 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -120,7 +120,7 @@ class DecMemBuffer(buffers.Buffer):
     def __init__(self, decmem=None, data=None, finst=0):
         buffers.Buffer.__init__(self, decmem, data)
         self.recent = collections.deque()
-        self.__finst = finst
+        self.finst = finst
         self.activation = None #activation of the last retrieved element
 
         #parameters
-- 
2.43.0


From 1ca9b4c5ae50f2baabf60066a764a2d74d173998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 24/40] fix: start_time of the environment process was
 subtracted, so any positive start time crashed the simulation

---
 pyactr/environment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/environment.py b/pyactr/environment.py
index 44e0ae9..9774bc2 100644
--- a/pyactr/environment.py
+++ b/pyactr/environment.py
@@ -78,8 +78,8 @@ class Environment:
         (Use this key with caution: visual_location searches cannot return an object if it contains
         an externally-visible attribute that is not present in the search)
         """
-        #subtract start_time from initial_time
-        start_time = self.initial_time - start_time
+        #start_time is counted from initial_time
+        start_time = self.initial_time + start_time
         #make all arguments iterables if they are not yet
         if isinstance(stimuli, str) or isinstance(stimuli, collections.abc.Mapping) or not isinstance(stimuli, collections.abc.Iterable):
             stimuli = [stimuli]
-- 
2.43.0


From 784e746891e2a5292e292f62e8a5508a8967649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 25/40] fix: DecMem.add refused tuples and other hashable
 iterables of chunks

---
 pyactr/declarative.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index c4c6fe5..af4bf3f 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -85,6 +85,8 @@ class DecMem(collections.abc.MutableMapping):
 
         element can be either one chunk, or an iterable of chunks.
         """
+        if isinstance(element, collections.abc.Iterable) and not isinstance(element, chunks.Chunk):
+            element = list(element) #other iterables (e.g., tuples) could be hashable and would be taken for one element
         if isinstance(time, collections.abc.Iterable):
             try:
                 new = np.concatenate((self.setdefault(element, np.array([])), np.array(time)))
-- 
2.43.0


From 800d564e70576f0dbd92bed0c459ac663274da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 26/40] fix: a declarative memory could not be created from a
 list of chunks with two slots

---
 pyactr/declarative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index af4bf3f..03b016c 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -23,7 +23,7 @@ class DecMem(collections.abc.MutableMapping):
         if data is not None:
             try:
                 self.update(data)
-            except ValueError:
+            except (ValueError, utilities.ACTRError): #ACTRError - a chunk with two slots was taken for a (chunk, time) pair
                 self.update({x:0 for x in data})
 
     def __contains__(self, elem):
-- 
2.43.0


From 4459af66474b3219c6914b3c9d668db8ac384e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:41 +0000
Subject: [PATCH 27/40] fix: searching for the closest stimulus with screen_y
 alone finds the closest stimulus

---
 pyactr/vision.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 1f675e8..12ed921 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -176,7 +176,7 @@ class VisualLocation(buffers.Buffer):
 
             #check on closest
             try: 
-                if (chunk_used_for_search.screen_x.values == utilities.VISIONCLOSEST or chunk_used_for_search.screen_y.values == utilities.VISIONCLOSEST) and utilities.calculate_pythagorean_distance(self.environment.current_focus, position) > closest:
+                if utilities.VISIONCLOSEST in (getattr(chunk_used_for_search.screen_x, "values", None), getattr(chunk_used_for_search.screen_y, "values", None)) and utilities.calculate_pythagorean_distance(self.environment.current_focus, position) > closest:
                     continue
             except (TypeError, AttributeError):
                 pass
-- 
2.43.0


From 56d9c49033ed60ee470078811ab379c15253167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:07 +0000
Subject: [PATCH 28/40] fix: a built-in chunk type could be redefined with
 slots inherited from a parent

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index cc6d1b9..bb39b59 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -21,7 +21,7 @@ def chunktype(cls_name, field_names, defaults=None, include=None):
     :param include: a string or list of strings naming existing chunk type(s) to inherit slot names from
     :param defaults: default values for the slots, given as an iterable, counting from the last element
     """
-    if cls_name in utilities.SPECIALCHUNKTYPES and field_names != utilities.SPECIALCHUNKTYPES[cls_name]:
+    if cls_name in utilities.SPECIALCHUNKTYPES and (field_names != utilities.SPECIALCHUNKTYPES[cls_name] or include):
         raise ACTRError(f"You cannot redefine slots of the chunk type '{cls_name}'; you can only use the slots '{utilities.SPECIALCHUNKTYPES[cls_name]}'")
 
     try:
-- 
2.43.0


From 278727505f07e92d1d20c1756504c0dcb035e187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:25 +0000
Subject: [PATCH 29/40] fix: a refused addition to a declarative memory changed
 the numbers used for spreading activation

---
 pyactr/declarative.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 03b016c..4dd4567 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -49,6 +49,13 @@ class DecMem(collections.abc.MutableMapping):
         return repr(self._data)
 
     def __setitem__(self, key, time):
+        if not isinstance(key, chunks.Chunk):
+            raise utilities.ACTRError(f"Only chunks can be added as attributes to Declarative Memory; '{key}' is not a chunk")
+        if not isinstance(time, np.ndarray):
+            try:
+                time = np.array([round(float(time), 4)])
+            except TypeError:
+                time = np.array(time)
         if self.unrestricted_number_chunks and key not in self:
             for x in key:
                 if utilities.splitting(x[1]).values and utilities.splitting(x[1]).values in self.unrestricted_number_chunks:
@@ -57,16 +64,7 @@ class DecMem(collections.abc.MutableMapping):
             for x in key:
                 if utilities.splitting(x[1]).values and (x[0], utilities.splitting(x[1]).values) in self.restricted_number_chunks:
                     self.restricted_number_chunks.update([(x[0], utilities.splitting(x[1]).values)])
-        if isinstance(key, chunks.Chunk):
-            if isinstance(time, np.ndarray):
-                self._data[key] = time
-            else:
-                try:
-                    self._data[key] = np.array([round(float(time), 4)])
-                except TypeError:
-                    self._data[key] = np.array(time)
-        else:
-            raise utilities.ACTRError(f"Only chunks can be added as attributes to Declarative Memory; '{key}' is not a chunk")
+        self._data[key] = time
     
     def add_activation(self, element, activation):
         """
-- 
2.43.0


From e923dbda5bc13d07192451fc52db4c52dd0c4697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:48 +0000
Subject: [PATCH 30/40] fix: a chunk without slots was taken for no chunk (as a
 value, by retrieval, by visual search, and in counting values in memory)

---
 pyactr/chunks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index bb39b59..37bb8fc 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -162,6 +162,9 @@ class Chunk(Sequence):
         dictionary = {re.sub("_$", "", key): temp_dict[key] for key in temp_dict}
         return dictionary
 
+    def __bool__(self):
+        return True #a chunk without slots is a chunk, too
+
     def __eq__(self, otherchunk):
         if hash(self) == hash(otherchunk):
             return True
-- 
2.43.0


From dd1b688fe611483a8269015320b6460821c00a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:04 +0000
Subject: [PATCH 31/40] fix: visual buffers specified by the user harvest into
 the only declarative memory

---
 pyactr/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index cb743a9..e6a8e7f 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -298,6 +298,9 @@ class ACTRModel:
         kwargs are arguments that environment_process will be supplied with.
         """
 
+        if self.__env and self.visbuffers:
+            self.__buffers.update(self.visbuffers) #visual buffers specified by the user are used, and get dm, like other buffers
+
         if len(self.decmems) == 1:
             for key in self.__buffers:
                 self.__buffers[key].dm = self.decmem #if only one dm, let all buffers use it
@@ -313,9 +316,7 @@ class ACTRModel:
 
         if self.__env:
             self.__env.initial_time = initial_time #set the initial time of the environment to be the same as simulation
-            if self.visbuffers:
-                self.__buffers.update(self.visbuffers)
-            else:
+            if not self.visbuffers:
                 dm = list(decmem.values())[0]
                 self.__buffers["visual"] = vision.Visual(self.__env, dm) #adding vision buffers
                 self.__buffers["visual_location"] = vision.VisualLocation(self.__env, dm) #adding vision buffers
-- 
2.43.0


From caeffcdc0954cb71a513f4a0d229f97927700601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:58 +0000
Subject: [PATCH 32/40] fix: chunkstring took the type named by isa for a chunk
 when a chunk of that name existed

---
 pyactr/chunks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 37bb8fc..7f4a718 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -400,8 +400,10 @@ def createchunkdict(chunk):
                 if elem[idx][0] == "'" or elem[idx][0] == '"':
                     update_val = elem[idx][1:-1]
                 else:
-                    #check if the string is an existing chunk in the database of chunks
+                    #check if the string is an existing chunk in the database of chunks (isa names a type, not a chunk)
                     try:
+                        if elem[0] in ("isa", "ISA", "Isa"):
+                            raise KeyError
                         update_val = Chunk._chunks[elem[idx]]
                     #if not, save it as a string
                     except KeyError:
-- 
2.43.0


From 94aada630eb66c157caa947f7b384c3aa32e78ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:47 +0000
Subject: [PATCH 33/40] fix: the last rules were never compiled at the end of a
 run, because the event that ended the run was still scheduled

---
 pyactr/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 9460268..a5dfbe4 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -257,6 +257,8 @@ class Simulation:
         """
         if not self.gui:
             self.__simulation.run(max_time)
+            if self.__simulation.peek() == self.__simulation.now:
+                self.__simulation.step() #simpy leaves the event that ended the run in the schedule; take it out, so it does not count as something left to do
         else:
             self.__runGUI__()
         if self.__simulation.peek() == float("inf"):
-- 
2.43.0


From a5aa9ab26d11e593501e0e689adc5985a9580a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:26 +0000
Subject: [PATCH 34/40] fix: the simulation crashed when a stimulus appeared at
 the moment at which a rule started a process in the visual module

---
 pyactr/simulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index a5dfbe4..d6db91a 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -158,7 +158,10 @@ class Simulation:
             except StopIteration:
                 if name in self.__interruptibles:
                     self.__interruptibles.pop(name) #remove this process from interruptibles since it's finished
-                yield self.__dict_extra_proc_activate[name]
+                try:
+                    yield self.__dict_extra_proc_activate[name]
+                except simpy.Interrupt:
+                    pass #the process to be interrupted has not started yet
                 self.__dict_extra_proc_activate[name] = self.__simulation.event()
             else:
                 self.__procs_started.remove((name, proc))
-- 
2.43.0


From ec0a83987f8cc98f63563deb455d47bbb34b4228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:28 +0000
Subject: [PATCH 35/40] fix: the simulation crashed when a trigger was pressed
 at the moment at which its stimulus ended

---
 pyactr/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index d6db91a..1d733d7 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -107,7 +107,8 @@ class Simulation:
             yield pro | self.__environment_activate
             if self.__environment_activate.triggered:
                 self.__environment_activate = self.__simulation.event()
-                pro.interrupt()
+                if not pro.triggered:
+                    pro.interrupt()
             try:
                 event = next(generator)
             except StopIteration:
-- 
2.43.0


From 7814b40da247e38c5ecf5f87ea037d08bb5f77dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:29 +0000
Subject: [PATCH 36/40] fix: the simulation crashed when a trigger was pressed
 repeatedly after the last stimulus

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 1d733d7..91d2936 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -205,7 +205,7 @@ class Simulation:
                 self.__printevent__(event)
                 self.__activate__(event)
             try:
-                if self.__env.trigger and self.__pr.env_interaction.intersection(self.__env.trigger):
+                if self.__env.trigger and self.__pr.env_interaction.intersection(self.__env.trigger) and not self.__environment_activate.triggered:
                     self.__environment_activate.succeed(value=(self.__env.trigger, self.__pr.env_interaction))
                 self.__pr.env_interaction = set()
             except AttributeError:
-- 
2.43.0


From aaf4e924490f67b987dcf5069b70158f70a8af39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:56 +0000
Subject: [PATCH 37/40] fix: the simulation crashed when a stimulus appeared
 while a process that cannot be replaced worked in the visual module

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 91d2936..a6a8a93 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -132,7 +132,7 @@ class Simulation:
                     self.__interruptibles[proc[0]] = proc[1] #add new process interruptibles if the process can be interrupted according to ACT-R
                     self.__dict_extra_proc_activate[proc[0]].succeed() #activate modules that are used if not active
                 else:
-                    if proc[1] != self.__interruptibles[proc[0]]:
+                    if proc[0] in self.__interruptibles and proc[1] != self.__interruptibles[proc[0]]:
                         self.__interruptibles[proc[0]] = proc[1]
                         self.__dict_extra_proc[proc[0]].interrupt() #otherwise, interrupt them
 
-- 
2.43.0


From e4244551489be43ed2a360be566dc87f5587e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:11 +0000
Subject: [PATCH 38/40] fix: a stimulus that appeared while the first rule
 fired was never noticed by the visual modules

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index a6a8a93..f68a7ab 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -74,7 +74,7 @@ class Simulation:
         
         self.__proc_activate = self.__simulation.event() #special event (lock) for procedural module
         
-        self.__procs_started = [] #list of processes that are started as a result of production rules
+        self.__procs_started = self.__pr.procs #list of processes that are started as a result of production rules
 
         #activate environment process, if environment present
         if self.__env:
-- 
2.43.0


From e491f23217f53ad8826644972c5383fa7aacd06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:14 +0000
Subject: [PATCH 39/40] fix: the simulation crashed when a buffer named P
 finished a process while a rule was being selected

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index f68a7ab..ae850a4 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -155,7 +155,7 @@ class Simulation:
         """
         while True:
             try:
-                _, proc = next(filter(lambda x: x[0] == name, self.__procs_started))
+                _, proc = next(filter(lambda x: x != self.__pr._PROCEDURAL and x[0] == name, self.__procs_started))
             except StopIteration:
                 if name in self.__interruptibles:
                     self.__interruptibles.pop(name) #remove this process from interruptibles since it's finished
-- 
2.43.0


From 7a213535d4cea304f32879d6ad466e4e2dfeeabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:17 +0000
Subject: [PATCH 40/40] fix: a simulation in real time ignored its initial time

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index ae850a4..6698595 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -51,7 +51,7 @@ class Simulation:
         self.__realtime = realtime
 
         if not self.gui and realtime:
-            self.__simulation = simpy.RealtimeEnvironment()
+            self.__simulation = simpy.RealtimeEnvironment(initial_time=round(initial_time, 4))
 
         self.__trace = trace
 
-- 
2.43.0

