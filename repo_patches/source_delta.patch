From 9f9a0f2ff8b7a10e4521c401a741da6cc60ae1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:13 +0000
Subject: [PATCH 01/39] fix: StateSpace refused the last value of a structural
 parameter assignment

The value was consumed before the number of values was checked, so the check
always counted one value too many.
---
 StateSpace/model.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index abc914d..181b267 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -262,6 +262,8 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
         return Error;
     }
 
+    ASSERT_NVALUES(1);
+
     const uint64_t v = values[(*index)++];
 
     switch (vr) {
@@ -270,7 +272,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable m must not be greater than " xstr(M_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(m) = v;
             break;
         case vr_n:
@@ -278,7 +279,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable n must not be greater than " xstr(N_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(n) = v;
             break;
         case vr_r:
@@ -286,7 +286,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable r must not be greater than " xstr(R_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(r) = v;
             break;
         default:
-- 
2.43.0


From ef579f2e9375561e2192de882be310bbeb2ec523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:15 +0000
Subject: [PATCH 02/39] fix: StateSpace returned and multiplied B with the
 wrong dimensions

B has n rows and m columns.  The getter walked it as m rows and n columns, and
the product B*u summed over the number of outputs instead of the inputs.
---
 StateSpace/model.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index 181b267..8bf986c 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -51,7 +51,7 @@ Status calculateValues(ModelInstance *comp) {
 
     for (size_t i = 0; i < M(n); i++) {
 
-        for (size_t j = 0; j < M(r); j++) {
+        for (size_t j = 0; j < M(m); j++) {
             M(der_x)[i] += M(B)[i][j] * M(u)[j];
         }
     }
@@ -99,9 +99,9 @@ Status getFloat64(ModelInstance* comp, ValueReference vr, double values[], size_
             }
             return OK;
         case vr_B:
-            ASSERT_NVALUES((size_t)(M(m) * M(n)));
-            for (size_t i = 0; i < M(m); i++) {
-                for (size_t j = 0; j < M(n); j++) {
+            ASSERT_NVALUES((size_t)(M(n) * M(m)));
+            for (size_t i = 0; i < M(n); i++) {
+                for (size_t j = 0; j < M(m); j++) {
                     values[(*index)++] = M(B)[i][j];
                 }
             }
-- 
2.43.0


From 42b15724896c353472a6d4742d23002c553d123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:17 +0000
Subject: [PATCH 03/39] fix: StateSpace ignored x0 and kept it across a reset

The initial state x0 had no effect on x, and a reset instance still returned
the x0 that had been set before.
---
 StateSpace/model.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index 8bf986c..b3847cb 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -27,8 +27,8 @@ Status setStartValues(ModelInstance *comp) {
     }
 
     for (int i = 0; i < N_MAX; i++) {
+        M(x0)[i] = 0;
         M(x)[i] = M(x0)[i];
-        M(x)[i] = 0;
     }
 
     comp->isDirtyValues = true;
@@ -200,6 +200,9 @@ Status setFloat64(ModelInstance* comp, ValueReference vr, const double values[],
         ASSERT_NVALUES((size_t)M(n));
         for (size_t i = 0; i < M(n); i++) {
             M(x0)[i] = values[(*index)++];
+            if (comp->state == Instantiated || comp->state == ConfigurationMode || comp->state == InitializationMode) {
+                M(x)[i] = M(x0)[i];
+            }
         }
         break;
     case vr_u:
-- 
2.43.0


From 7d58b549f522e5562dbc51c301c4f0b15e7fc494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:19 +0000
Subject: [PATCH 04/39] fix: reset kept parts of the previous run

The termination request, the pending event time and the communication point of
the previous run survived a reset.  An FMI 2.0 Stair instance that had
terminated discarded its first step after a reset.
---
 src/cosimulation.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index eaddace..340a4f4 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -161,9 +161,24 @@ Status reset(ModelInstance* comp) {
 
     comp->state = Instantiated;
     comp->startTime = 0.0;
+    comp->stopTime = 0.0;
     comp->time = 0.0;
     comp->nSteps = 0;
     comp->status = OK;
+    comp->newDiscreteStatesNeeded = false;
+    comp->terminateSimulation = false;
+    comp->nominalsOfContinuousStatesChanged = false;
+    comp->valuesOfContinuousStatesChanged = false;
+    comp->nextEventTimeDefined = false;
+    comp->nextEventTime = 0.0;
+    comp->clocksTicked = false;
+    comp->nextCommunicationPoint = 0.0;
+#if MAX_EVENT_INDICATORS > 0
+    comp->nz = 0;
+#endif
+#if MAX_CONTINUOUS_STATES > 0
+    comp->nx = 0;
+#endif
     setStartValues(comp);
     comp->isDirtyValues = true;
 
-- 
2.43.0


From 75aaf2253595b606bafcbb1457e0385c4f59498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:24 +0000
Subject: [PATCH 05/39] fix: FMI 2.0 state functions ignored the result of the
 state transfer

Restoring a missing state logged an error but reported success.
---
 src/fmi2Functions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index ecf9f61..c15be09 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -367,13 +367,13 @@ fmi2Status fmi2SetString (fmi2Component c, const fmi2ValueReference vr[], size_t
 
 fmi2Status fmi2GetFMUstate (fmi2Component c, fmi2FMUstate* FMUstate) {
     BEGIN_FUNCTION(GetFMUstate);
-    getFMUState(S, FMUstate);
+    CALL(getFMUState(S, FMUstate));
     END_FUNCTION();
 }
 
 fmi2Status fmi2SetFMUstate(fmi2Component c, fmi2FMUstate FMUstate) {
     BEGIN_FUNCTION(SetFMUstate);
-    setFMUState(S, FMUstate);
+    CALL(setFMUState(S, FMUstate));
     END_FUNCTION();
 }
 
-- 
2.43.0


From 40bc70542a0c3aacb23cce888a161031549fdd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:26 +0000
Subject: [PATCH 06/39] fix: missing arrays crashed Boolean, Binary and Clocks
 Int32 access

The other variable types report an error when the references, values or sizes
are missing.
---
 Clocks/model.c      | 1 +
 Feedthrough/model.c | 2 ++
 src/fmi2Functions.c | 6 ++++++
 3 files changed, 9 insertions(+)

diff --git a/Clocks/model.c b/Clocks/model.c
index 97d28f3..613a249 100644
--- a/Clocks/model.c
+++ b/Clocks/model.c
@@ -171,6 +171,7 @@ Status getFloat64(ModelInstance* comp, ValueReference vr, double values[], size_
 
 Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[], size_t nValues, size_t* index) {
 
+    ASSERT_NOT_NULL2(values);
     ASSERT_NVALUES(1);
 
     switch (vr) {
diff --git a/Feedthrough/model.c b/Feedthrough/model.c
index e113dc6..677f162 100644
--- a/Feedthrough/model.c
+++ b/Feedthrough/model.c
@@ -420,6 +420,7 @@ Status getBoolean(ModelInstance* comp, ValueReference vr, bool values[], size_t
 
 Status getBinary(ModelInstance* comp, ValueReference vr, size_t sizes[], const char* values[], size_t nValues, size_t* index) {
     ASSERT_NOT_NULL2(comp);
+    ASSERT_NOT_NULL2(sizes);
     ASSERT_NOT_NULL2(values);
     ASSERT_NOT_NULL2(index);
 
@@ -786,6 +787,7 @@ Status setString(ModelInstance* comp, ValueReference vr, const char *const value
 
 Status setBinary(ModelInstance* comp, ValueReference vr, const size_t size[], const char* const values[], size_t nValues, size_t* index) {
     ASSERT_NOT_NULL2(comp);
+    ASSERT_NOT_NULL2(size);
     ASSERT_NOT_NULL2(values);
     ASSERT_NOT_NULL2(index);
 
diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index c15be09..7174173 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -60,6 +60,9 @@ do { \
 
 #define GET_BOOLEAN_VARIABLES \
 do { \
+    if (nvr == 0) goto TERMINATE; \
+    ASSERT_NOT_NULL(vr); \
+    ASSERT_NOT_NULL(value); \
     for (size_t i = 0; i < nvr; i++) { \
         bool v; \
         size_t index = 0; \
@@ -70,6 +73,9 @@ do { \
 
 #define SET_BOOLEAN_VARIABLES \
 do { \
+    if (nvr == 0) goto TERMINATE; \
+    ASSERT_NOT_NULL(vr); \
+    ASSERT_NOT_NULL(value); \
     for (size_t i = 0; i < nvr; i++) { \
         const bool v = value[i]; \
         size_t index = 0; \
-- 
2.43.0


From 5b8f405332861ed26902a5a5b7a79113b71d2a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:28 +0000
Subject: [PATCH 07/39] fix: setters read a value before checking that it was
 passed

With more references than values the range checks read behind the end of the
caller's array.
---
 Feedthrough/model.c | 8 ++++----
 Stair/model.c       | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Feedthrough/model.c b/Feedthrough/model.c
index 677f162..00e8810 100644
--- a/Feedthrough/model.c
+++ b/Feedthrough/model.c
@@ -649,11 +649,11 @@ Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[],
             break;
 #if FMI_VERSION == 2
         case vr_Enumeration_input:
+            ASSERT_NVALUES(1);
             if (values[*index] != Option1 && values[*index] != Option2) {
                 logError(comp, "%d is not a legal value for Enumeration_input.", values[*index]);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Enumeration_input) = values[(*index)++];
             break;
 #endif
@@ -699,11 +699,11 @@ Status setInt64(ModelInstance* comp, ValueReference vr, const int64_t values[],
             break;
 #if FMI_VERSION == 3
         case vr_Enumeration_input:
+            ASSERT_NVALUES(1);
             if (values[*index] != Option1 && values[*index] != Option2) {
                 logError(comp, "%llu is not a legal value for Enumeration_input.", values[*index]);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Enumeration_input) = values[(*index)++];
             break;
 #endif
@@ -768,11 +768,11 @@ Status setString(ModelInstance* comp, ValueReference vr, const char *const value
 
     switch (vr) {
         case vr_String_input:
+            ASSERT_NVALUES(1);
             if (strlen(values[*index]) >= STRING_MAX_LEN) {
                 logError(comp, "Max. string length is %d bytes.", STRING_MAX_LEN);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             strcpy(M(String_input), values[(*index)++]);
             break;
         default:
@@ -793,11 +793,11 @@ Status setBinary(ModelInstance* comp, ValueReference vr, const size_t size[], co
 
     switch (vr) {
         case vr_Binary_input:
+            ASSERT_NVALUES(1);
             if (size[*index] > BINARY_MAX_LEN) {
                 logError(comp, "Max. binary size is %d bytes.", BINARY_MAX_LEN);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Binary_input_size) = size[*index];
             memcpy((void *)M(Binary_input), values[(*index)++], M(Binary_input_size));
             break;
diff --git a/Stair/model.c b/Stair/model.c
index 97716ec..f7667e0 100644
--- a/Stair/model.c
+++ b/Stair/model.c
@@ -64,12 +64,12 @@ Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[],
             return Error;
         }
 
+        ASSERT_NVALUES(1);
         if (values[*index] >= 10) {
             logError(comp, "The maximum value for variable \"counter\" is 10.");
             return Error;
         }
 
-        ASSERT_NVALUES(1);
         M(counter) = values[(*index)++];
 
         break;
-- 
2.43.0


From dc19fa3b859bd99e72e1ad71fd245df910b316f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:30 +0000
Subject: [PATCH 08/39] fix: the output Boolean_output of Feedthrough could be
 set

No other output accepts an assignment, and the value was overwritten by the
next evaluation.
---
 Feedthrough/model.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/Feedthrough/model.c b/Feedthrough/model.c
index 00e8810..cf35f71 100644
--- a/Feedthrough/model.c
+++ b/Feedthrough/model.c
@@ -747,10 +747,6 @@ Status setBoolean(ModelInstance* comp, ValueReference vr, const bool values[], s
             ASSERT_NVALUES(1);
             M(Boolean_input) = values[(*index)++];
             break;
-        case vr_Boolean_output:
-            ASSERT_NVALUES(1);
-            M(Boolean_output) = values[(*index)++];
-            break;
         default:
             logError(comp, "Set Boolean is not allowed for value reference %u.", vr);
             return Error;
-- 
2.43.0


From 529d232f093cab0ac03d9f1a3fdd17588380a283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:32 +0000
Subject: [PATCH 09/39] fix: fmi3GetBinary accepted more values than the
 references provide

---
 src/fmi3Functions.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 10af071..a023fd0 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -574,6 +574,11 @@ fmi3Status fmi3GetBinary(fmi3Instance instance,
         CALL(getBinary(S, (ValueReference)valueReferences[i], valueSizes, (const char**)values, nValues, &index));
     }
 
+    if (index != nValues) {
+        logError(S, "Expected nValues = %zu but was %zu.", index, nValues);
+        CALL(Error);
+    }
+
     END_FUNCTION();
 }
 
-- 
2.43.0


From bbc2887344ca3e71187041675480b706ce3ab921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:35 +0000
Subject: [PATCH 10/39] fix: Resource returned a stale value when the file
 could not be read

Reading y reported success with the last value, and reading the time logged an
error for a file it does not need.
---
 Resource/model.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Resource/model.c b/Resource/model.c
index fbf5163..1c2c228 100644
--- a/Resource/model.c
+++ b/Resource/model.c
@@ -128,8 +128,6 @@ Status getFloat64(ModelInstance* comp, ValueReference vr, double values[], size_
     ASSERT_NOT_NULL2(values);
     ASSERT_NOT_NULL2(index);
 
-    calculateValues(comp);
-
     switch (vr) {
     case vr_time:
         ASSERT_NVALUES(1);
@@ -147,7 +145,9 @@ Status getInt32(ModelInstance* comp, ValueReference vr, int32_t values[], size_t
     ASSERT_NOT_NULL2(values);
     ASSERT_NOT_NULL2(index);
 
-    calculateValues(comp);
+    if (calculateValues(comp) != OK) {
+        return Error;
+    }
 
     switch (vr) {
         case vr_y:
-- 
2.43.0


From 879b98cd1675c141929637f37658ba977a43d5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:37 +0000
Subject: [PATCH 11/39] fix: Resource overran its path buffer for long resource
 paths

---
 Resource/model.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Resource/model.c b/Resource/model.c
index 1c2c228..9248fe0 100644
--- a/Resource/model.c
+++ b/Resource/model.c
@@ -44,7 +44,7 @@ Status calculateValues(ModelInstance *comp) {
         return Error;
     }
 #else
-    strncpy(path, comp->resourceLocation, MAX_PATH_LENGTH);
+    strncpy(path, comp->resourceLocation, MAX_PATH_LENGTH-1);
 #endif
 
 #if FMI_VERSION == 2
@@ -89,7 +89,7 @@ Status calculateValues(ModelInstance *comp) {
 
     *dst = '\0';
 #else
-    strncpy(path, comp->resourceLocation, MAX_PATH_LENGTH);
+    strncpy(path, comp->resourceLocation, MAX_PATH_LENGTH-1);
 #endif
 
 #if FMI_VERSION == 2
-- 
2.43.0


From c767cc9eb91c569142acd81da11baf437f436240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:39 +0000
Subject: [PATCH 12/39] fix: Roberts never calculated the event indicator
 variables g1 and g2

---
 Roberts/model.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Roberts/model.c b/Roberts/model.c
index acba211..f7431a7 100644
--- a/Roberts/model.c
+++ b/Roberts/model.c
@@ -30,6 +30,9 @@ Status calculateValues(ModelInstance *comp) {
 
     M(r) = M(y1) + M(y2) + M(y3) - 1.0;
 
+    M(g1) = M(y1) - 0.0001;
+    M(g2) = M(y3) - 0.01;
+
     comp->isDirtyValues = false;
 
     return OK;
-- 
2.43.0


From 36b1ea52ad05a1a700185a8f7c1510bb4f2d9824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:41 +0000
Subject: [PATCH 13/39] fix: y3 of Roberts depended on whether it was read
 before switching to DAE mode

---
 Roberts/model.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Roberts/model.c b/Roberts/model.c
index f7431a7..502e0e2 100644
--- a/Roberts/model.c
+++ b/Roberts/model.c
@@ -148,6 +148,7 @@ Status setBoolean(ModelInstance* comp, ValueReference vr, const bool values[], s
     switch (vr) {
     case vr_dae:
         ASSERT_NVALUES(1);
+        calculateValues(comp);
         M(dae) = values[(*index)++];
         break;
     default:
-- 
2.43.0


From f3d2cd9ad1e3fb17880b97ce918a62db0dbb53ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:43 +0000
Subject: [PATCH 14/39] fix: Roberts and StateSpace declared the wrong internal
 step size

Roberts also declared an event mode that its binary refuses.
---
 Roberts/FMI3.xml    | 3 +--
 StateSpace/FMI3.xml | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/Roberts/FMI3.xml b/Roberts/FMI3.xml
index ef5db34..bad7185 100644
--- a/Roberts/FMI3.xml
+++ b/Roberts/FMI3.xml
@@ -21,8 +21,7 @@
     providesIntermediateUpdate="true"
     mightReturnEarlyFromDoStep="true"
     canReturnEarlyAfterIntermediateUpdate="true"
-    fixedInternalStepSize="1e-3"
-    hasEventMode="true"/>
+    fixedInternalStepSize="1e-6"/>
 
   <LogCategories>
     <Category name="logEvents" description="Log events"/>
diff --git a/StateSpace/FMI3.xml b/StateSpace/FMI3.xml
index 8d2e4d9..7533a9b 100644
--- a/StateSpace/FMI3.xml
+++ b/StateSpace/FMI3.xml
@@ -18,7 +18,7 @@
       canHandleVariableCommunicationStepSize="true"
       providesIntermediateUpdate="true"
       canReturnEarlyAfterIntermediateUpdate="true"
-      fixedInternalStepSize="1"
+      fixedInternalStepSize="1e-3"
       hasEventMode="true"/>
 
     <LogCategories>
-- 
2.43.0


From 0cab9ed2eb7753c8e39dd88f831fc4ecdde11ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:02 +0000
Subject: [PATCH 15/39] fix: log buffer did not grow when a call filled it
 exactly

If the text ended exactly at the end of the buffer the last character was cut
off, and appending an array value never finished.
---
 src/FMI.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FMI.c b/src/FMI.c
index 465dc09..08a13a0 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -206,7 +206,7 @@ void FMIAppendToLogMessageBuffer(FMIInstance* instance, const char* format, ...)
 
     } else {
 
-        while (instance->logMessageBufferSize < instance->logMessageBufferPosition + length) {
+        while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + length) {
             instance->logMessageBufferSize *= 2;
         }
 
@@ -319,7 +319,7 @@ void FMIAppendArrayToLogMessageBuffer(FMIInstance* instance, const void* values,
 
         } else {
 
-            while (instance->logMessageBufferSize < instance->logMessageBufferPosition + requiredCharacters) {
+            while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + requiredCharacters) {
                 instance->logMessageBufferSize *= 2;
             }
 
-- 
2.43.0


From 323122bc2c2f169e0e4a5a8438dad0ef184f4a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:04 +0000
Subject: [PATCH 16/39] fix: FMIPathToURI encoded some bytes wrongly

Bytes above 0x7F were written as eight hexadecimal digits, past the end of the
space reserved for them, and bytes below 0x10 with a space.
---
 src/FMI.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FMI.c b/src/FMI.c
index 08a13a0..9ceb3e3 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -383,7 +383,7 @@ FMIStatus FMIPathToURI(const char *path, char *uri, const size_t uriLength) {
         }
 
         if (encode) {
-            sprintf(&uri[p], "%%%2X", c);
+            sprintf(&uri[p], "%%%02X", (unsigned char)c);
             p += 3;
         } else {
             uri[p++] = c;
-- 
2.43.0


From 35b91caaad76b3e11bbe08793dc77a8856d78a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:06 +0000
Subject: [PATCH 17/39] fix: FMIPlatformBinaryPath read before the start of an
 empty directory

---
 src/FMI.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FMI.c b/src/FMI.c
index 9ceb3e3..513feee 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -400,9 +400,9 @@ FMIStatus FMIPlatformBinaryPath(const char *unzipdir, const char *modelIdentifie
 
     char* separator = ""; // optional separator after the unzipdir
 
-    const char last = unzipdir[strlen(unzipdir) - 1];
+    const size_t length = strlen(unzipdir);
 
-    if (last != '/' && last != '\\') {
+    if (length > 0 && unzipdir[length - 1] != '/' && unzipdir[length - 1] != '\\') {
         separator = FMI_FILE_SEPARATOR;
     }
 
-- 
2.43.0


From f7e54012ec77d4846219d7d872acee6e35f13a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:09 +0000
Subject: [PATCH 18/39] fix: log text of SetDebugLogging was written without
 its arguments

---
 src/FMI2.c | 2 +-
 src/FMI3.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index 32991d6..b73f9fd 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -123,7 +123,7 @@ FMIStatus FMI2SetDebugLogging(FMIInstance *instance, fmi2Boolean loggingOn, size
 
     if (instance->logFunctionCall) {
         FMIClearLogMessageBuffer(instance);
-        FMIAppendToLogMessageBuffer(instance, "fmi2SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={");
+        FMIAppendToLogMessageBuffer(instance, "fmi2SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={", loggingOn, nCategories);
         FMIAppendArrayToLogMessageBuffer(instance, categories, nCategories, NULL, FMIStringType);
         FMIAppendToLogMessageBuffer(instance, "})");
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
diff --git a/src/FMI3.c b/src/FMI3.c
index 3458960..0bc5339 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -110,7 +110,7 @@ FMIStatus FMI3SetDebugLogging(FMIInstance *instance,
 
     if (instance->logFunctionCall) {
         FMIClearLogMessageBuffer(instance);
-        FMIAppendToLogMessageBuffer(instance, "fmi3SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={");
+        FMIAppendToLogMessageBuffer(instance, "fmi3SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={", loggingOn, nCategories);
         FMIAppendArrayToLogMessageBuffer(instance, categories, nCategories, NULL, FMIStringType);
         FMIAppendToLogMessageBuffer(instance, "})");
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
-- 
2.43.0


From dd80b1d0b233f1ab8b39d835101901bd9f4aff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:11 +0000
Subject: [PATCH 19/39] fix: log text of FMI 3.0 size and interval queries
 showed addresses as numbers

---
 src/FMI3.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/FMI3.c b/src/FMI3.c
index 0bc5339..383801a 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -920,7 +920,7 @@ FMIStatus FMI3GetIntervalFraction(FMIInstance *instance,
     fmi3UInt64 resolutions[],
     fmi3IntervalQualifier qualifiers[]) {
     CALL_ARGS(GetIntervalFraction,
-        "valueReferences=0x%p, nValueReferences=%zu, intervalCounters=0x%p, resolutions=0x%p, qualifiers=%d",
+        "valueReferences=0x%p, nValueReferences=%zu, intervalCounters=0x%p, resolutions=0x%p, qualifiers=0x%p",
         valueReferences, nValueReferences, intervalCounters, resolutions, qualifiers);
 }
 
@@ -1127,12 +1127,34 @@ FMIStatus FMI3GetNominalsOfContinuousStates(FMIInstance *instance,
 
 FMIStatus FMI3GetNumberOfEventIndicators(FMIInstance *instance,
     size_t* nEventIndicators) {
-    CALL_ARGS(GetNumberOfEventIndicators, "nEventIndicators=%zu", nEventIndicators);
+
+    const FMIStatus status = (FMIStatus)instance->fmi3Functions->fmi3GetNumberOfEventIndicators(instance->component, nEventIndicators);
+
+    if (instance->logFunctionCall) {
+        FMIClearLogMessageBuffer(instance);
+        FMIAppendToLogMessageBuffer(instance, "fmi3GetNumberOfEventIndicators(nEventIndicators=%zu)", *nEventIndicators);
+        instance->logFunctionCall(instance, status, instance->logMessageBuffer);
+    }
+
+    instance->status = status > instance->status ? status : instance->status;
+
+    return status;
 }
 
 FMIStatus FMI3GetNumberOfContinuousStates(FMIInstance *instance,
     size_t* nContinuousStates) {
-    CALL_ARGS(GetNumberOfContinuousStates, "nContinuousStates=%zu", nContinuousStates);
+
+    const FMIStatus status = (FMIStatus)instance->fmi3Functions->fmi3GetNumberOfContinuousStates(instance->component, nContinuousStates);
+
+    if (instance->logFunctionCall) {
+        FMIClearLogMessageBuffer(instance);
+        FMIAppendToLogMessageBuffer(instance, "fmi3GetNumberOfContinuousStates(nContinuousStates=%zu)", *nContinuousStates);
+        instance->logFunctionCall(instance, status, instance->logMessageBuffer);
+    }
+
+    instance->status = status > instance->status ? status : instance->status;
+
+    return status;
 }
 
 /***************************************************
-- 
2.43.0


From db9558de9c16c9a1492c081ddd10847f6ac8ece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:13 +0000
Subject: [PATCH 20/39] fix: FMI 3.0 importer never loaded fmi3SetShiftDecimal
 and fmi3SetShiftFraction

Calling them through the importer crashed.
---
 src/FMI3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FMI3.c b/src/FMI3.c
index 383801a..4619475 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -209,6 +209,8 @@ static FMIStatus loadSymbols3(FMIInstance *instance) {
     LOAD_SYMBOL(GetShiftFraction);
     LOAD_SYMBOL(SetIntervalDecimal);
     LOAD_SYMBOL(SetIntervalFraction);
+    LOAD_SYMBOL(SetShiftDecimal);
+    LOAD_SYMBOL(SetShiftFraction);
     LOAD_SYMBOL(EvaluateDiscreteStates);
     LOAD_SYMBOL(UpdateDiscreteStates);
 
-- 
2.43.0


From 5d7bf99bdc2f246ba2655a2b074a5b1bf9451a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:15 +0000
Subject: [PATCH 21/39] fix: FMI3InstantiateModelExchange continued after a
 missing symbol

---
 src/FMI3.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/FMI3.c b/src/FMI3.c
index 4619475..728c093 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -264,6 +264,10 @@ FMIStatus FMI3InstantiateModelExchange(
 
     const FMIStatus status = loadSymbols3(instance);
 
+    if (status != FMIOK) {
+        return status;
+    }
+
     fmi3LogMessageCallback logMessage = instance->logMessage ? cb_logMessage3 : NULL;
 
     instance->component = instance->fmi3Functions->fmi3InstantiateModelExchange(instance->name, instantiationToken, resourcePath, visible, loggingOn, instance, logMessage);
-- 
2.43.0


From 6ea161bc382cbb3efabaed42f611b2cf85bcb770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:17 +0000
Subject: [PATCH 22/39] fix: FMI3EnterStepMode left the instance in its
 previous state

---
 src/FMI3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FMI3.c b/src/FMI3.c
index 728c093..a194fa2 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -1170,6 +1170,7 @@ Types for Functions for Co-Simulation
 /* Simulating the FMU */
 
 FMIStatus FMI3EnterStepMode(FMIInstance *instance) {
+    instance->state = FMIStepModeState;
     CALL(EnterStepMode);
 }
 
-- 
2.43.0


From 19431a4e7ecc3b158ba8cb65c88a1307fe678bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:04 +0000
Subject: [PATCH 23/39] fix: loading an FMU that lacks a function crashed
 without a log callback

The importer called the log callback of the instance without checking that
one was given.
---
 src/FMI2.c | 8 ++++++--
 src/FMI3.c | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index b73f9fd..e9d5c84 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -44,7 +44,9 @@ do { \
 do { \
     instance->fmi2Functions->fmi2 ## f = (fmi2 ## f ## TYPE*)GetProcAddress(instance->libraryHandle, "fmi2" #f); \
     if (!instance->fmi2Functions->fmi2 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        if (instance->logMessage) { \
+            instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        } \
         return FMIFatal; \
     }\
 } while (0)
@@ -53,7 +55,9 @@ do { \
 do { \
     instance->fmi2Functions->fmi2 ## f = (fmi2 ## f ## TYPE*)dlsym(instance->libraryHandle, "fmi2" #f); \
     if (!instance->fmi2Functions->fmi2 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        if (instance->logMessage) { \
+            instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        } \
         return FMIFatal; \
     } \
 } while (0)
diff --git a/src/FMI3.c b/src/FMI3.c
index a194fa2..632edcd 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -36,7 +36,9 @@ do { \
 do { \
     instance->fmi3Functions->fmi3 ## f = (fmi3 ## f ## TYPE*)GetProcAddress(instance->libraryHandle, "fmi3" #f); \
     if (!instance->fmi3Functions->fmi3 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        if (instance->logMessage) { \
+            instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        } \
         return FMIFatal; \
     } \
 } while (0)
@@ -45,7 +47,9 @@ do { \
 do { \
     instance->fmi3Functions->fmi3 ## f = (fmi3 ## f ## TYPE*)dlsym(instance->libraryHandle, "fmi3" #f); \
     if (!instance->fmi3Functions->fmi3 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        if (instance->logMessage) { \
+            instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        } \
         return FMIFatal; \
     } \
 } while (0)
-- 
2.43.0


From 847d023a4b71b9cbc1efa81bfa80d56189d34b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:51 +0000
Subject: [PATCH 24/39] fix: Roberts declared that its output y3 depends on
 nothing

Unless the DAE mode is on, y3 is calculated from the states y1 and y2.
---
 Roberts/FMI3.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Roberts/FMI3.xml b/Roberts/FMI3.xml
index bad7185..1601b22 100644
--- a/Roberts/FMI3.xml
+++ b/Roberts/FMI3.xml
@@ -47,7 +47,7 @@
   <ModelStructure>
     <Output valueReference="2" dependencies=""/>
     <Output valueReference="4" dependencies=""/>
-    <Output valueReference="6" dependencies=""/>
+    <Output valueReference="6" dependencies="2 4" dependenciesKind="constant constant"/>
     <ContinuousStateDerivative valueReference="3" dependencies="2 4" dependenciesKind="dependent dependent"/>
     <ContinuousStateDerivative valueReference="5" dependencies="2 4" dependenciesKind="dependent dependent"/>
     <InitialUnknown valueReference="3" dependencies="2 4" dependenciesKind="dependent dependent"/>
-- 
2.43.0


From c0d43cfad0c0f8a976283e19bbf3046d1e22c534 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Sun, 15 Nov 2026 06:15:44 +0000
Subject: [PATCH 25/39] fix: instantiating again through the same importer
 instance leaked its function table

---
 src/FMI2.c | 1 +
 src/FMI3.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/FMI2.c b/src/FMI2.c
index e9d5c84..53f0dee 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -142,6 +142,7 @@ FMIStatus FMI2Instantiate(FMIInstance *instance, const char *fmuResourceLocation
 
     instance->fmiMajorVersion = FMIMajorVersion2;
 
+    FMIFree((void**)&instance->fmi2Functions);
     instance->fmi2Functions = calloc(1, sizeof(FMI2Functions));
 
     if (!instance->fmi2Functions) {
diff --git a/src/FMI3.c b/src/FMI3.c
index 632edcd..4ce6931 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -127,6 +127,7 @@ static FMIStatus loadSymbols3(FMIInstance *instance) {
 
 #if !defined(FMI_VERSION) || FMI_VERSION == 3
 
+    FMIFree((void**)&instance->fmi3Functions);
     instance->fmi3Functions = calloc(1, sizeof(FMI3Functions));
 
     if (!instance->fmi3Functions) {
-- 
2.43.0


From 38b807bc151f3fa8ecbe6a30ce475ef5d3aa892b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Sun, 15 Nov 2026 06:36:00 +0000
Subject: [PATCH 26/39] fix: logging a message crashed when memory was
 exhausted

The buffer for the message text was used without checking that it could be
allocated. The message is dropped instead.
---
 src/cosimulation.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 340a4f4..64e8680 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -299,8 +299,13 @@ static void logMessage(ModelInstance *comp, int status, const char *category, co
         return;
     }
 
-    va_copy(args1, args);
     buf = (char *)calloc(len + 1, sizeof(char));
+
+    if (!buf) {
+        return;
+    }
+
+    va_copy(args1, args);
     len = vsnprintf(buf, len + 1, message, args);
     va_end(args1);
 
-- 
2.43.0


From c09dd034193ec5a68ac0b30481eee9fb0becb662 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Sun, 15 Nov 2026 06:36:00 +0000
Subject: [PATCH 27/39] fix: instantiation leaked or lost the resource location
 when memory was exhausted

If the instance name could not be copied the half built instance was leaked.
If the resource location could not be copied an instance without a resource
location was returned. Both now free the instance and fail.
---
 src/cosimulation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 64e8680..4ea13bd 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -84,8 +84,9 @@ ModelInstance *createModelInstance(
         comp->eventModeUsed        = false;
     }
 
-    if (!comp || !comp->instanceName) {
+    if (!comp || !comp->instanceName || (resourceLocation && !comp->resourceLocation)) {
         logError(comp, "Out of memory.");
+        freeModelInstance(comp);
         return NULL;
     }
 
-- 
2.43.0


From af1fb4e09cb8ec172ec6f0f1a20358825ffbe9e4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Sun, 15 Nov 2026 06:36:00 +0000
Subject: [PATCH 28/39] fix: fmi2DeSerializeFMUstate crashed when memory was
 exhausted

The state was copied to memory that had not been allocated. The call now logs
an error and fails.
---
 src/fmi2Functions.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index 7174173..552bb03 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -423,6 +423,10 @@ fmi2Status fmi2DeSerializeFMUstate (fmi2Component c, const fmi2Byte serializedSt
 
     if (*FMUstate == NULL) {
         *FMUstate = calloc(1, sizeof(ModelInstance));
+        if (*FMUstate == NULL) {
+            logError(S, "fmi2DeSerializeFMUstate: Failed to allocate memory.");
+            CALL(Error);
+        }
     }
 
     memcpy(*FMUstate, serializedState, sizeof(ModelInstance));
-- 
2.43.0


From e32828353bbeda926cff2b4293285369b0073d59 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Sun, 15 Nov 2026 06:36:18 +0000
Subject: [PATCH 29/39] fix: fmi3DeserializeFMUState failed without ending the
 run when memory was exhausted

Unlike every other error this one was printed to the standard output instead
of being passed to the log callback, and it left the instance in its mode.
---
 src/fmi3Functions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index a023fd0..1b233ed 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -830,8 +830,8 @@ fmi3Status fmi3DeserializeFMUState(fmi3Instance instance,
     if (*FMUState == NULL) {
         *FMUState = calloc(1, sizeof(ModelInstance));
         if (*FMUState == NULL) {
-            printf("Failed to allocate memory for FMUState.\n");
-            return fmi3Error;
+            logError(S, "fmi3DeserializeFMUState: Failed to allocate memory for FMUState.");
+            CALL(Error);
         }
     }
 
-- 
2.43.0


From 37e3974689f259162e1f6581de99d739c0cab998 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Sun, 15 Nov 2026 06:36:18 +0000
Subject: [PATCH 30/39] fix: FMICreateInstance returned an unusable instance
 when memory was exhausted

The log buffer and the name were not checked. The first logged call or the
instantiation then used a null pointer.
---
 src/FMI.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/FMI.c b/src/FMI.c
index 513feee..a1e4cbd 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -108,6 +108,11 @@ FMIInstance *FMICreateInstance(const char *instanceName, FMILogMessage *logMessa
 
     instance->name = strdup(instanceName);
 
+    if (!instance->logMessageBuffer || !instance->name) {
+        FMIFreeInstance(instance);
+        return NULL;
+    }
+
     instance->status = FMIOK;
 
     return instance;
-- 
2.43.0


From 8346cccac943b04a0a5c15f6b10629d1c00a6878 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Sun, 15 Nov 2026 06:36:18 +0000
Subject: [PATCH 31/39] fix: the log buffer overflowed after it could not be
 enlarged

The new size was recorded before the memory had been obtained. After a failed
enlargement the next message was written beyond the end of the buffer.
---
 src/FMI.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/FMI.c b/src/FMI.c
index a1e4cbd..08d7156 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -211,14 +211,18 @@ void FMIAppendToLogMessageBuffer(FMIInstance* instance, const char* format, ...)
 
     } else {
 
-        while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + length) {
-            instance->logMessageBufferSize *= 2;
+        size_t logMessageBufferSize = instance->logMessageBufferSize;
+
+        while (logMessageBufferSize <= instance->logMessageBufferPosition + length) {
+            logMessageBufferSize *= 2;
         }
 
-        if (FMIRealloc((void**)&instance->logMessageBuffer, instance->logMessageBufferSize) != FMIOK) {
+        if (FMIRealloc((void**)&instance->logMessageBuffer, logMessageBufferSize) != FMIOK) {
             return;
         }
 
+        instance->logMessageBufferSize = logMessageBufferSize;
+
         va_start(args, format);
         instance->logMessageBufferPosition += vsnprintf(&instance->logMessageBuffer[instance->logMessageBufferPosition], instance->logMessageBufferSize - instance->logMessageBufferPosition, format, args);
         va_end(args);
@@ -324,14 +328,18 @@ void FMIAppendArrayToLogMessageBuffer(FMIInstance* instance, const void* values,
 
         } else {
 
-            while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + requiredCharacters) {
-                instance->logMessageBufferSize *= 2;
+            size_t logMessageBufferSize = instance->logMessageBufferSize;
+
+            while (logMessageBufferSize <= instance->logMessageBufferPosition + requiredCharacters) {
+                logMessageBufferSize *= 2;
             }
 
-            if (FMIRealloc((void**)&instance->logMessageBuffer, instance->logMessageBufferSize) != FMIOK) {
+            if (FMIRealloc((void**)&instance->logMessageBuffer, logMessageBufferSize) != FMIOK) {
                 return;
             }
 
+            instance->logMessageBufferSize = logMessageBufferSize;
+
             continue;
         }
 
-- 
2.43.0


From 47d48ee3e6f41cfec6bce79d734815f4d9184775 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Sun, 15 Nov 2026 08:04:07 +0000
Subject: [PATCH 32/39] fix: the reference manifest of Roberts named the result
 file of another FMU

---
 Roberts/fmi-ls-ref.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Roberts/fmi-ls-ref.xml b/Roberts/fmi-ls-ref.xml
index 7aa2ad2..a05b6ec 100644
--- a/Roberts/fmi-ls-ref.xml
+++ b/Roberts/fmi-ls-ref.xml
@@ -4,5 +4,5 @@
     xmlns:fmi-ls="http://fmi-standard.org/fmi-ls-manifest"
     fmi-ls:fmi-ls-name="org.fmi-standard.fmi-ls-ref"
     fmi-ls:fmi-ls-version="1.0.0-alpha.1">
-    <Related type="text/csv" source="BouncingBall_out.csv" role="result" description="Output of the default experiment"/>
+    <Related type="text/csv" source="Roberts_out.csv" role="result" description="Output of the default experiment"/>
 </fmiReferences>
-- 
2.43.0


From a4415297e46887177028e81e54cbaa377f33f6f0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Sun, 15 Nov 2026 08:04:27 +0000
Subject: [PATCH 33/39] fix: the sources announced as C99 needed a function
 that is not part of C99

---
 src/cosimulation.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 4ea13bd..51c8906 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -10,10 +10,6 @@
 #include "fmi3Functions.h"
 #endif
 
-#ifdef _MSC_VER
-#define strdup _strdup
-#endif
-
 #ifdef CALL
 #undef CALL
 #endif
@@ -21,6 +17,20 @@
 #define CALL(f) do { const Status status = f; if (status != OK) return status; } while (false)
 
 
+// strdup() is not part of C99
+static char *copyString(const char *string) {
+
+    const size_t size = strlen(string) + 1;
+
+    char *copy = (char *)malloc(size);
+
+    if (copy) {
+        memcpy(copy, string, size);
+    }
+
+    return copy;
+}
+
 ModelInstance *createModelInstance(
     loggerType cbLogger,
     intermediateUpdateType intermediateUpdate,
@@ -74,8 +84,8 @@ ModelInstance *createModelInstance(
         comp->intermediateUpdate   = intermediateUpdate;
         comp->lockPreemption        = NULL;
         comp->unlockPreemption      = NULL;
-        comp->instanceName         = strdup(instanceName);
-        comp->resourceLocation     = resourceLocation ? strdup(resourceLocation) : NULL;
+        comp->instanceName         = copyString(instanceName);
+        comp->resourceLocation     = resourceLocation ? copyString(resourceLocation) : NULL;
         comp->status               = OK;
         comp->logEvents            = loggingOn;
         comp->logErrors            = true; // always log errors
-- 
2.43.0


From 8f2644b828b585e170356568802309f2de65e835 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Sun, 15 Nov 2026 08:04:48 +0000
Subject: [PATCH 34/39] fix: the build descriptions of Roberts and StateSpace
 named other models

---
 Roberts/buildDescription.xml    | 2 +-
 StateSpace/buildDescription.xml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Roberts/buildDescription.xml b/Roberts/buildDescription.xml
index 0417ee4..a70bf0a 100644
--- a/Roberts/buildDescription.xml
+++ b/Roberts/buildDescription.xml
@@ -1,7 +1,7 @@
 <?xml version="1.0" encoding="UTF-8"?>
 <fmiBuildDescription fmiVersion="3.0">
 
-  <BuildConfiguration modelIdentifier="BouncingBall">
+  <BuildConfiguration modelIdentifier="Roberts">
     <SourceFileSet language="C99">
       <SourceFile name="fmi3Functions.c"/>
       <SourceFile name="model.c"/>
diff --git a/StateSpace/buildDescription.xml b/StateSpace/buildDescription.xml
index 9eb477c..1da3940 100644
--- a/StateSpace/buildDescription.xml
+++ b/StateSpace/buildDescription.xml
@@ -1,7 +1,7 @@
 <?xml version="1.0" encoding="UTF-8"?>
 <fmiBuildDescription fmiVersion="3.0">
 
-  <BuildConfiguration modelIdentifier="LinearTransform">
+  <BuildConfiguration modelIdentifier="StateSpace">
     <SourceFileSet language="C99">
       <SourceFile name="fmi3Functions.c"/>
       <SourceFile name="model.c"/>
-- 
2.43.0


From 70bdda7565453f9d4b3dea8ad5c2e848b8f03af0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 11:00:49 +0000
Subject: [PATCH 35/39] fix: a step size that is not a number was accepted and
 the step never ended

All comparisons with such a step size are false, so that neither the check of
the argument nor the end of the loop over the solver steps was reached.
---
 src/fmi2Functions.c | 2 +-
 src/fmi3Functions.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index 552bb03..43783e1 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -520,7 +520,7 @@ fmi2Status fmi2DoStep(fmi2Component c, fmi2Real currentCommunicationPoint,
         CALL(Error);
     }
 
-    if (communicationStepSize <= 0) {
+    if (!(communicationStepSize > 0)) {
         logError(S, "Communication step size must be > 0 but was %g.", communicationStepSize);
         CALL(Error);
     }
diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 1b233ed..eafaca6 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1214,7 +1214,7 @@ fmi3Status fmi3DoStep(fmi3Instance instance,
         CALL(Error);
     }
 
-    if (communicationStepSize <= 0) {
+    if (!(communicationStepSize > 0)) {
         logError(S, "Communication step size must be > 0 but was %.16g.", communicationStepSize);
         CALL(Error);
     }
-- 
2.43.0


From 22c9df0337c68ec201b5a196d3e46381600b26f0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 11:00:49 +0000
Subject: [PATCH 36/39] fix: percent signs in FMI 2.0 log messages were taken
 as conversions

An FMI 2.0 logger takes the message as a format string. An unknown category
or a resource path with percent signs made it read arguments that are not
there.
---
 src/cosimulation.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 51c8906..3631822 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -310,7 +310,8 @@ static void logMessage(ModelInstance *comp, int status, const char *category, co
         return;
     }
 
-    buf = (char *)calloc(len + 1, sizeof(char));
+    // leave room for escaping
+    buf = (char *)calloc(2 * (size_t)len + 1, sizeof(char));
 
     if (!buf) {
         return;
@@ -323,6 +324,10 @@ static void logMessage(ModelInstance *comp, int status, const char *category, co
     if (len >= 0) {
         // no need to distinguish between FMI versions since we're not using variadic arguments
 #if FMI_VERSION < 3
+        // the message is a format string, so its percent signs have to be escaped
+        for (char *c = strchr(buf, '%'); c; c = strchr(c + 2, '%')) {
+            memmove(c + 1, c, strlen(c) + 1);
+        }
         comp->logger(comp->componentEnvironment, comp->instanceName, status, category, buf);
 #else
         comp->logger(comp->componentEnvironment, status, category, buf);
-- 
2.43.0


From 0f1b30a7909af2d08b9ff0e1277d13fd0bc73b3f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 11:00:49 +0000
Subject: [PATCH 37/39] fix: every finite time was close to an infinite one

A step from an infinite communication point and a step of infinite size past
the stop time were accepted.
---
 src/cosimulation.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 3631822..330f905 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -1,5 +1,6 @@
 #include <stdlib.h>  // for calloc(), free()
 #include <float.h>   // for DBL_EPSILON
+#include <math.h>    // for isinf()
 #include <stdio.h>
 #include <stdarg.h>
 #include <string.h>
@@ -208,6 +209,11 @@ static double fmiMax(double a, double b) {
 
 bool isClose(double a, double b) {
 
+    // infinity is only close to itself
+    if (isinf(a) || isinf(b)) {
+        return a == b;
+    }
+
     if (fmiAbs(a - b) <= EPSILON) {
         return true;
     }
-- 
2.43.0


From 6a6e0ce9bb51d4ee049d4a1c1ef59d02808e12fe Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 11:34:43 +0000
Subject: [PATCH 38/39] fix: activation times were converted to integers that
 cannot hold them

Converting a time of 2^31 or more, or one that is not finite, to int is
undefined. Compare the times instead.
---
 Clocks/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Clocks/model.c b/Clocks/model.c
index 613a249..55d7848 100644
--- a/Clocks/model.c
+++ b/Clocks/model.c
@@ -32,7 +32,7 @@ static void activateModelPartition1(ModelInstance* comp, double time) {
     M(totalInClockTicks)++;
 
     // set countdown and output clocks
-    if ((int)time == 4) {
+    if (time >= 4 && time < 5) {
         M(inClock3_qualifier)= 2; // fmi3IntervalChanged
         M(inClock3_interval) = 0.0;
     }
-- 
2.43.0


From 3fe79aabb2c2d81000dd7916051b22d321457edc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 11:34:43 +0000
Subject: [PATCH 39/39] fix: clocks and intervals crashed when an array was
 missing

---
 src/fmi3Functions.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index eafaca6..5ead7d7 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -588,6 +588,11 @@ fmi3Status fmi3GetClock(fmi3Instance instance,
     fmi3Clock values[]) {
     BEGIN_FUNCTION(GetClock);
 
+    if (nValueReferences > 0) {
+        ASSERT_NOT_NULL(valueReferences);
+        ASSERT_NOT_NULL(values);
+    }
+
     for (size_t i = 0; i < nValueReferences; i++) {
         CALL(getClock(instance, (ValueReference)valueReferences[i], &values[i]));
     }
@@ -730,6 +735,11 @@ fmi3Status fmi3SetClock(fmi3Instance instance,
     const fmi3Clock values[]) {
     BEGIN_FUNCTION(SetClock);
 
+    if (nValueReferences > 0) {
+        ASSERT_NOT_NULL(valueReferences);
+        ASSERT_NOT_NULL(values);
+    }
+
     for (size_t i = 0; i < nValueReferences; i++) {
         if (values[i]) {
             CALL(activateClock(instance, (ValueReference)valueReferences[i]));
@@ -942,6 +952,12 @@ fmi3Status fmi3GetIntervalDecimal(fmi3Instance instance,
 
     // TODO: Check nValueReferences != nValues ?
 
+    if (nValueReferences > 0) {
+        ASSERT_NOT_NULL(valueReferences);
+        ASSERT_NOT_NULL(intervals);
+        ASSERT_NOT_NULL(qualifiers);
+    }
+
     for (size_t i = 0; i < nValueReferences; i++) {
         CALL(getInterval(instance, (ValueReference)valueReferences[i], &intervals[i], (int*)&qualifiers[i]));
     }
-- 
2.43.0

