From 36168b3f12a0a0208eae795f1e46b49f8102724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:51 +0000
Subject: [PATCH 01/37] fix: the second of two conflicting suite keys is
 ignored also when the first one starts the string

---
 src/coco_suite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 8511109..6665153 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -510,7 +510,7 @@ static size_t *coco_suite_get_instance_indices(const coco_suite_t *suite,
   if ((year_found < 0) && (instances_found < 0))
     return NULL;
 
-  if ((year_found > 0) && (instances_found > 0)) {
+  if ((year_found >= 0) && (instances_found >= 0)) {
     if (year_found < instances_found) {
       parse_instances = 0;
       coco_warning("coco_suite_get_instance_indices(): 'instances' suite option ignored because it follows 'year'");
@@ -773,7 +773,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     dim_found = coco_strfind(suite_options, "dimensions");
     dim_idx_found = coco_strfind(suite_options, "dimension_indices");
 
-    if ((dim_found > 0) && (dim_idx_found > 0)) {
+    if ((dim_found >= 0) && (dim_idx_found >= 0)) {
       if (dim_found < dim_idx_found) {
         parce_dim_idx = 0;
         coco_warning("coco_suite(): 'dimension_indices' suite option ignored because it follows 'dimensions'");
-- 
2.43.0


From e3e3fbf91a320322437bf24e4912d020cd87ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:51 +0000
Subject: [PATCH 02/37] fix: coco_suite_decode_problem_index() left its outputs
 unset for an index that is too large

---
 src/coco_suite.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 6665153..212e1d1 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -982,9 +982,9 @@ void coco_suite_decode_problem_index(const coco_suite_t *suite, const size_t pro
                        suite->number_of_dimensions) -
                           1) {
     coco_warning("coco_suite_decode_problem_index(): problem_index too large");
-    function_idx = 0;
-    instance_idx = 0;
-    dimension_idx = 0;
+    *function_idx = 0;
+    *instance_idx = 0;
+    *dimension_idx = 0;
     return;
   }
 
-- 
2.43.0


From 83f85696a9aae3b0cbc1620647a755b26b281891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:59 +0000
Subject: [PATCH 03/37] fix: coco_suite_get_instance_from_instance_index()
 returned the function, not the instance

---
 src/coco_suite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 212e1d1..a5fdc2a 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -401,7 +401,7 @@ size_t coco_suite_get_instance_from_instance_index(const coco_suite_t *suite,
     return 0; /* Never reached*/
   }
 
-  return suite->functions[instance_idx];
+  return suite->instances[instance_idx];
 }
 
 void coco_suite_free(coco_suite_t *suite) {
-- 
2.43.0


From 780abf890d332293aa0d6dcf075534522ac4918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:56 +0000
Subject: [PATCH 04/37] fix: initialize the last logged evaluations of the bbob
 logger

---
 src/logger_bbob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index b6eb134..16e9a80 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -699,6 +699,8 @@ static coco_problem_t *logger_bbob(coco_observer_t *observer, coco_problem_t *in
 
   logger_data->num_func_evaluations = 0;
   logger_data->num_cons_evaluations = 0;
+  logger_data->last_logged_eval_dat = 0;
+  logger_data->last_logged_eval_tdat = 0;
   logger_data->last_logged_eval_mdat = 0;
   /* logger_data->last_logged_evaluation = 0; */
 
-- 
2.43.0


From 8b741b8c46bdc128166405bd4c78fdc1522ff256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:13 +0000
Subject: [PATCH 05/37] fix: removing the observer of a tainted problem does
 not clear the taint

---
 src/coco_observer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 727e134..fc4fff9 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -852,6 +852,9 @@ coco_problem_t *coco_problem_remove_observer(coco_problem_t *problem, coco_obser
 
   /* Keep the inner problem and remove the logger data */
   problem_unobserved = coco_problem_transformed_get_inner_problem(problem);
+  /* A problem stays tainted also when its observer is removed */
+  if (problem->is_tainted)
+    problem_unobserved->is_tainted = 1;
   coco_problem_transformed_free_data(problem);
   problem = NULL;
 
-- 
2.43.0


From 75b9742e2d19f81e6fbbc3998600d8b4d4c30a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:13 +0000
Subject: [PATCH 06/37] fix: a recommendation was counted as an evaluation of
 the problem below the observer

---
 src/logger_bbob.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 16e9a80..aef5cbf 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -475,7 +475,8 @@ static void logger_bbob_evaluate(coco_problem_t *problem, const double *x, doubl
  * recommendations. The evaluation result is not returned and the evaluation counter is not increased.
  */
 static void logger_bbob_recommend(coco_problem_t *problem, const double *x) {
-  double y_logged;
+  double y_logged, best_observed_fvalue;
+  size_t evaluations, best_observed_evaluation;
   double *constraints = NULL, *y = NULL;
   logger_bbob_data_t *logger = (logger_bbob_data_t *)coco_problem_transformed_get_data(problem);
   coco_problem_t *inner_problem = coco_problem_transformed_get_inner_problem(problem);
@@ -487,7 +488,13 @@ static void logger_bbob_recommend(coco_problem_t *problem, const double *x) {
 
   /* Fulfill contract of a COCO evaluate function, but do not increase the evaluation counters */
   y = coco_allocate_vector(problem->number_of_objectives);
+  evaluations = inner_problem->evaluations;
+  best_observed_fvalue = inner_problem->best_observed_fvalue[0];
+  best_observed_evaluation = inner_problem->best_observed_evaluation[0];
   coco_evaluate_function(inner_problem, x, y);
+  inner_problem->evaluations = evaluations;
+  inner_problem->best_observed_fvalue[0] = best_observed_fvalue;
+  inner_problem->best_observed_evaluation[0] = best_observed_evaluation;
 
   y_logged = y[0];
   if (coco_is_nan(y_logged))
-- 
2.43.0


From c07707181c1113d164d8bfdce9d225339970fef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:43 +0000
Subject: [PATCH 07/37] fix: a recommendation was counted as an evaluation of
 the bi-objective problem below the observer

---
 src/logger_biobj.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index 1e40963..a72e022 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -804,7 +804,8 @@ static void logger_biobj_recommend(coco_problem_t *problem, const double *x) {
   logger_biobj_data_t *logger;
   coco_problem_t *inner_problem;
   observer_biobj_data_t *observer_data;
-  size_t i, j;
+  size_t i, j, evaluations, best_observed_evaluation;
+  double best_observed_fvalue;
   double *y = NULL;
   double *constraints = NULL;
 
@@ -812,9 +813,15 @@ static void logger_biobj_recommend(coco_problem_t *problem, const double *x) {
   observer_data = (observer_biobj_data_t *)(((coco_observer_t *)logger->observer)->data);
   inner_problem = coco_problem_transformed_get_inner_problem(problem);
 
-  /* Evaluate the objectives */
+  /* Evaluate the objectives without increasing the evaluation counter */
   y = coco_allocate_vector(problem->number_of_objectives);
+  evaluations = inner_problem->evaluations;
+  best_observed_fvalue = inner_problem->best_observed_fvalue[0];
+  best_observed_evaluation = inner_problem->best_observed_evaluation[0];
   coco_evaluate_function(inner_problem, x, y);
+  inner_problem->evaluations = evaluations;
+  inner_problem->best_observed_fvalue[0] = best_observed_fvalue;
+  inner_problem->best_observed_evaluation[0] = best_observed_evaluation;
 
   /* Evaluate the constraints */
   if (problem->number_of_constraints > 0) {
-- 
2.43.0


From 1a364e4b91921b7477aa85d1cef6a909d40377cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:41 +0000
Subject: [PATCH 08/37] fix: problems of different suites with the same
 function and dimension shared one info line

---
 src/logger_bbob.c   | 14 +++++++++-----
 src/observer_bbob.c | 12 ++++++++++--
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index aef5cbf..d5d3e0e 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -153,14 +153,16 @@ static int logger_bbob_single_digit_constraint(const double c) {
  * @brief Decides whether a new line in the info file (and therefore a new set of .?dat files)
  * should be started
  *
- * A new line should be started when the current dimension or the current function differ from
- * the last logged dimension and function.
+ * A new line should be started when the current suite, dimension or function differ from the
+ * last logged suite, dimension and function.
  */
-static int logger_bbob_start_new_line(coco_observer_t *observer, size_t current_dimension, size_t current_function) {
+static int logger_bbob_start_new_line(coco_observer_t *observer, const char *current_suite, size_t current_dimension,
+                                      size_t current_function) {
   observer_bbob_data_t *observer_data = ((observer_bbob_data_t *)observer->data);
   assert(observer_data != NULL);
 
-  if ((current_function == observer_data->last_function) && (current_dimension == observer_data->last_dimension))
+  if ((current_function == observer_data->last_function) && (current_dimension == observer_data->last_dimension) &&
+      (strcmp(current_suite, observer_data->last_suite) == 0))
     return 0;
   return 1;
 }
@@ -322,13 +324,15 @@ static void logger_bbob_initialize(logger_bbob_data_t *logger, int is_opt_known)
   strncat(relative_path, dimension_string, COCO_PATH_MAX - strlen(relative_path) - 1);
 
   /* Find out whether a new line in the info file (and a new .?dat file) is needed */
-  start_new_line = logger_bbob_start_new_line(logger->observer, logger->number_of_variables, logger->function);
+  start_new_line = logger_bbob_start_new_line(logger->observer, logger->suite_name, logger->number_of_variables,
+                                              logger->function);
   if (start_new_line) {
     relative_path_pointer = coco_strdup(relative_path);
     coco_create_unique_filename(logger->observer->result_folder, &relative_path_pointer, ".dat");
     strncpy(observer_data->last_dat_file, relative_path_pointer, COCO_PATH_MAX);
     observer_data->last_function = logger->function;
     observer_data->last_dimension = logger->number_of_variables;
+    strncpy(observer_data->last_suite, logger->suite_name, COCO_PATH_MAX);
   } else {
     relative_path_pointer = coco_strdup(observer_data->last_dat_file);
   }
diff --git a/src/observer_bbob.c b/src/observer_bbob.c
index 7cbcffd..18fe941 100644
--- a/src/observer_bbob.c
+++ b/src/observer_bbob.c
@@ -22,8 +22,9 @@ typedef struct {
   coco_problem_t *observed_problem; /**< @brief Pointer to the observed problem (NULL if none is observed) */
   char *prefix;                     /**< @brief Prefix in the name of the info and data files */
 
-  /* Store the information on the last function, dimension and dat file used, to be able to tell when the
-   * logger needs to write in a new dat file.  */
+  /* Store the information on the last suite, function, dimension and dat file used, to be able to tell when
+   * the logger needs to write in a new dat file.  */
+  char *last_suite;      /**< @brief The name of the suite that was logged last */
   size_t last_function;  /**< @brief The function that was logged last */
   size_t last_dimension; /**< @brief The dimension that was logged last */
   char *last_dat_file;   /**< @brief The name of the .dat file that was last used for logging */
@@ -44,6 +45,11 @@ static void observer_bbob_data_free(void *stuff) {
     data->prefix = NULL;
   }
 
+  if (data->last_suite != NULL) {
+    coco_free_memory(data->last_suite);
+    data->last_suite = NULL;
+  }
+
   if (data->last_dat_file != NULL) {
     coco_free_memory(data->last_dat_file);
     data->last_dat_file = NULL;
@@ -80,6 +86,8 @@ static void observer_bbob(coco_observer_t *observer, const char *options, coco_o
   observer_data->observed_problem = NULL;
   observer_data->prefix = coco_allocate_string(COCO_PATH_MAX + 1);
 
+  observer_data->last_suite = coco_allocate_string(COCO_PATH_MAX + 1);
+  strcpy(observer_data->last_suite, "");
   observer_data->last_function = 0;
   observer_data->last_dimension = 0;
   observer_data->last_dat_file = coco_allocate_string(COCO_PATH_MAX + 1);
-- 
2.43.0


From 1d508e1507b66c206d1195f2c1de7908d9088ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:24 +0000
Subject: [PATCH 09/37] fix: the nadir point of every transformed or observed
 bi-objective problem was allocated twice and leaked

---
 src/coco_problem.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coco_problem.c b/src/coco_problem.c
index 751095e..2a709f5 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -248,7 +248,8 @@ static coco_problem_t *coco_problem_duplicate(const coco_problem_t *other) {
     }
 
   if (other->nadir_value) {
-    problem->nadir_value = coco_allocate_vector(problem->number_of_objectives);
+    if (problem->nadir_value == NULL)
+      problem->nadir_value = coco_allocate_vector(problem->number_of_objectives);
     for (i = 0; i < problem->number_of_objectives; ++i) {
       problem->nadir_value[i] = other->nadir_value[i];
     }
-- 
2.43.0


From 4bbde81c664bcfcb2a16c8b0f5d3cfec301454c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:24 +0000
Subject: [PATCH 10/37] fix: bbob logger used the name of a suite that was
 freed before the first evaluation

---
 src/logger_bbob.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index d5d3e0e..36a3731 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -614,6 +614,11 @@ static void logger_bbob_free(void *stuff) {
     logger->mdat_file = NULL;
   }
 
+  if (logger->suite_name != NULL) {
+    coco_free_memory(logger->suite_name);
+    logger->suite_name = NULL;
+  }
+
   if (logger->best_found_solution != NULL) {
     coco_free_memory(logger->best_found_solution);
     logger->best_found_solution = NULL;
@@ -698,7 +703,8 @@ static coco_problem_t *logger_bbob(coco_observer_t *observer, coco_problem_t *in
 
   logger_data = (logger_bbob_data_t *)coco_allocate_memory(sizeof(*logger_data));
   logger_data->observer = observer;
-  logger_data->suite_name = coco_problem_get_suite(inner_problem)->suite_name;
+  /* A copy, because the suite might be freed before the problem */
+  logger_data->suite_name = coco_strdup(coco_problem_get_suite(inner_problem)->suite_name);
   logger_data->is_initialized = 0;
   logger_data->algorithm_restarted = 0;
 
-- 
2.43.0


From d9e440d0b528a6984fee9404a67e0253e0ec1639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:24 +0000
Subject: [PATCH 11/37] fix: recommending a solution after the observer was
 freed dereferenced NULL

---
 src/logger_biobj.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index a72e022..ab84c6a 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -810,7 +810,8 @@ static void logger_biobj_recommend(coco_problem_t *problem, const double *x) {
   double *constraints = NULL;
 
   logger = (logger_biobj_data_t *)coco_problem_transformed_get_data(problem);
-  observer_data = (observer_biobj_data_t *)(((coco_observer_t *)logger->observer)->data);
+  /* The observer might not exist any longer */
+  observer_data = (logger->observer == NULL) ? NULL : (observer_biobj_data_t *)(((coco_observer_t *)logger->observer)->data);
   inner_problem = coco_problem_transformed_get_inner_problem(problem);
 
   /* Evaluate the objectives without increasing the evaluation counter */
@@ -832,7 +833,7 @@ static void logger_biobj_recommend(coco_problem_t *problem, const double *x) {
 
   /* If this is the first call to the recommend function (on any problem), warn about the large 
   resulting files */
-  if (observer_data->large_mdat_file_warning == 0) {
+  if ((observer_data != NULL) && (observer_data->large_mdat_file_warning == 0)) {
     coco_warning("Using the logger_biobj_recommend function may result in the creation of large "
                  "mdat files since every recommended solution is logged");
     observer_data->large_mdat_file_warning = 1;
-- 
2.43.0


From c890f6bd32e42284870505a9b53102fe76994bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:18 +0000
Subject: [PATCH 12/37] fix: Observer.free() in Python always raised an
 AttributeError

---
 build/python/src/cocoex/interface.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index f2adcbc..ecf43ec 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -507,7 +507,8 @@ cdef class Observer:
         return coco_observer_get_result_folder(self._observer)
 
     def free(self):
-        self.__dealloc__()
+        if self._observer != NULL:  # __dealloc__ cannot be called here
+            coco_observer_free(self._observer)
         self._observer = NULL
         self._state = 'deactivated'
     def __dealloc__(self):
-- 
2.43.0


From ef43ca47a8082418cb758af8986fe7b54f309c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:19 +0000
Subject: [PATCH 13/37] fix: asking a freed Python problem for its evaluations
 or initial solution ended the process

---
 build/python/src/cocoex/interface.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index ecf43ec..18cb917 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -724,6 +724,8 @@ cdef class Problem:
     @property
     def initial_solution(self):
         """return feasible initial solution"""
+        if self.problem is NULL:
+            raise InvalidProblemException()
         coco_problem_get_initial_solution(self.problem,
                                           <double *>np.PyArray_DATA(self.x_initial))
         return np.array(self.x_initial, copy=True)
@@ -772,9 +774,13 @@ cdef class Problem:
         return self._upper_bounds
     @property
     def evaluations(self):
+        if self.problem is NULL:
+            raise InvalidProblemException()
         return coco_problem_get_evaluations(self.problem)
     @property
     def evaluations_constraints(self):
+        if self.problem is NULL:
+            raise InvalidProblemException()
         return coco_problem_get_evaluations_constraints(self.problem)
     @property
     def final_target_hit(self):
-- 
2.43.0


From 5d47fe7915f497eca81c51b9eac722e1436c165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:09 +0000
Subject: [PATCH 14/37] fix: the suite name of a BareProblem pointed into a
 string that might have been collected

---
 build/python/src/cocoex/bare_problem.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/bare_problem.pyx b/build/python/src/cocoex/bare_problem.pyx
index dfeac09..758969b 100644
--- a/build/python/src/cocoex/bare_problem.pyx
+++ b/build/python/src/cocoex/bare_problem.pyx
@@ -58,7 +58,7 @@ cdef class BareProblem:
     """
 
     cdef coco_problem_t *_problem
-    cdef readonly char* suite_name
+    cdef readonly str suite_name
     cdef readonly char* id
     cdef readonly int function
     cdef readonly int dimension
-- 
2.43.0


From 2d317a5681b7058f134517901d9ab7a4f6923ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:09 +0000
Subject: [PATCH 15/37] fix: BareProblem read beyond the end of an input of the
 wrong dimension

---
 build/python/src/cocoex/bare_problem.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/build/python/src/cocoex/bare_problem.pyx b/build/python/src/cocoex/bare_problem.pyx
index 758969b..92dda28 100644
--- a/build/python/src/cocoex/bare_problem.pyx
+++ b/build/python/src/cocoex/bare_problem.pyx
@@ -144,6 +144,9 @@ cdef class BareProblem:
         cdef double y
         if isinstance(x, list):
             x = np.array(x, dtype=float)
+        if x.ndim in (1, 2) and x.shape[-1] != self.dimension:
+            raise ValueError("Dimension {0} of input `x` does not match the problem dimension {1}"
+                             .format(x.shape[-1], self.dimension))
         if x.ndim == 1:
             # Evaluate a single parameter
             xi = np.array(x, dtype=float)
-- 
2.43.0


From 4db8a53f821617eb234d1ff48721230ec0c61e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:35 +0000
Subject: [PATCH 16/37] fix: BareProblem ended the process instead of raising
 NoSuchProblemException

---
 build/python/src/cocoex/bare_problem.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/bare_problem.pyx b/build/python/src/cocoex/bare_problem.pyx
index 92dda28..4d05017 100644
--- a/build/python/src/cocoex/bare_problem.pyx
+++ b/build/python/src/cocoex/bare_problem.pyx
@@ -98,7 +98,8 @@ cdef class BareProblem:
         self.instance = instance
         self._problem = NULL
         if suite_name == "bbob":
-            self._problem = coco_get_bbob_problem(function, dimension, instance)
+            if 1 <= function <= 24:  # otherwise coco_get_bbob_problem ends the process
+                self._problem = coco_get_bbob_problem(function, dimension, instance)
             if self._problem == NULL:
                 # FIXME: Possibly extend Exception to include dimension and instance?
                 raise NoSuchProblemException(suite_name, function)
-- 
2.43.0


From f12e327194cdd9ad898b01b06745b42f1c88a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:34 +0000
Subject: [PATCH 17/37] fix: problems of the bi-objective suites with an
 instance not in the table leaked the instance data

---
 src/suite_biobj_utilities.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/suite_biobj_utilities.c b/src/suite_biobj_utilities.c
index 6a899a2..65702e2 100644
--- a/src/suite_biobj_utilities.c
+++ b/src/suite_biobj_utilities.c
@@ -441,7 +441,9 @@ static coco_problem_t *coco_get_biobj_problem(const size_t function, const size_
         suite_biobj_get_new_instance((*new_inst_data), instance, instance1, all_bbob_functions, num_all_bbob_functions,
                                      sel_bbob_functions, num_sel_bbob_functions, dimensions, num_dimensions);
     if (must_free) {
+      suite_biobj_new_inst_free(*new_inst_data);
       coco_free_memory(*new_inst_data);
+      (*new_inst_data) = NULL;
     }
   }
 
-- 
2.43.0


From 4245cb488d1808c00f934e775f4db87e90fe5110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:18 +0000
Subject: [PATCH 18/37] fix: evaluating a feasible point very close to the
 optimum of a constrained problem ended the process

---
 src/coco_internal.h                          | 3 +++
 src/coco_problem.c                           | 2 +-
 src/transform_obj_norm_by_dim.c              | 2 +-
 src/transform_obj_oscillate.c                | 2 +-
 src/transform_obj_penalize.c                 | 2 +-
 src/transform_obj_power.c                    | 2 +-
 src/transform_obj_scale.c                    | 4 ++--
 src/transform_obj_shift.c                    | 4 ++--
 src/transform_vars_affine.c                  | 4 ++--
 src/transform_vars_asymmetric.c              | 4 ++--
 src/transform_vars_blockrotation.c           | 2 +-
 src/transform_vars_brs.c                     | 2 +-
 src/transform_vars_conditioning.c            | 2 +-
 src/transform_vars_enforce_box.c             | 4 ++--
 src/transform_vars_gallagher_blockrotation.c | 2 +-
 src/transform_vars_oscillate.c               | 4 ++--
 src/transform_vars_permblockdiag.c           | 2 +-
 src/transform_vars_permutation.c             | 4 ++--
 src/transform_vars_round_step.c              | 2 +-
 src/transform_vars_scale.c                   | 2 +-
 src/transform_vars_shift.c                   | 4 ++--
 src/transform_vars_x_hat.c                   | 2 +-
 src/transform_vars_x_hat_generic.c           | 2 +-
 src/transform_vars_z_hat.c                   | 2 +-
 24 files changed, 34 insertions(+), 31 deletions(-)

diff --git a/src/coco_internal.h b/src/coco_internal.h
index 0fb934b..dc7eb0d 100644
--- a/src/coco_internal.h
+++ b/src/coco_internal.h
@@ -12,6 +12,9 @@
 extern "C" {
 #endif
 
+/** @brief By how much a value can be lower than the best value only because of rounding. */
+#define COCO_ROUNDING(best_value) (1e-13 + 1e-12 * fabs(best_value))
+
 /***********************************************************************************************************/
 /**
  * @brief The data free function type.
diff --git a/src/coco_problem.c b/src/coco_problem.c
index 2a709f5..47fa135 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -909,7 +909,7 @@ static void coco_problem_stacked_evaluate_function(coco_problem_t *problem, cons
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
   }
 }
 
diff --git a/src/transform_obj_norm_by_dim.c b/src/transform_obj_norm_by_dim.c
index 943722c..59b834e 100644
--- a/src/transform_obj_norm_by_dim.c
+++ b/src/transform_obj_norm_by_dim.c
@@ -18,7 +18,7 @@ static void transform_obj_norm_by_dim_evaluate(coco_problem_t *problem, const do
   y[0] *= bbob2009_fmin(1, 40. / ((double)problem->number_of_variables));
   /* Wassim: might want to use a function (with no 40) here that we can put in a helpers file */
 
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 /**
diff --git a/src/transform_obj_oscillate.c b/src/transform_obj_oscillate.c
index 4c0dbf4..8cde878 100644
--- a/src/transform_obj_oscillate.c
+++ b/src/transform_obj_oscillate.c
@@ -33,7 +33,7 @@ static void transform_obj_oscillate_evaluate(coco_problem_t *problem, const doub
       }
     }
   }
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 /**
diff --git a/src/transform_obj_penalize.c b/src/transform_obj_penalize.c
index a51e286..6a932e1 100644
--- a/src/transform_obj_penalize.c
+++ b/src/transform_obj_penalize.c
@@ -47,7 +47,7 @@ static void transform_obj_penalize_evaluate(coco_problem_t *problem, const doubl
   for (i = 0; i < problem->number_of_objectives; ++i) {
     y[i] += data->factor * penalty;
   }
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 /**
diff --git a/src/transform_obj_power.c b/src/transform_obj_power.c
index 1c0a149..8546448 100644
--- a/src/transform_obj_power.c
+++ b/src/transform_obj_power.c
@@ -34,7 +34,7 @@ static void transform_obj_power_evaluate(coco_problem_t *problem, const double *
   for (i = 0; i < problem->number_of_objectives; i++) {
     y[i] = pow(y[i], data->exponent);
   }
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 /**
diff --git a/src/transform_obj_scale.c b/src/transform_obj_scale.c
index 9b76e76..9e0ab1d 100644
--- a/src/transform_obj_scale.c
+++ b/src/transform_obj_scale.c
@@ -40,9 +40,9 @@ static void transform_obj_scale_evaluate_function(coco_problem_t *problem, const
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 /**
diff --git a/src/transform_obj_shift.c b/src/transform_obj_shift.c
index d2c8e15..0c4692c 100644
--- a/src/transform_obj_shift.c
+++ b/src/transform_obj_shift.c
@@ -40,9 +40,9 @@ static void transform_obj_shift_evaluate_function(coco_problem_t *problem, const
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 /**
diff --git a/src/transform_vars_affine.c b/src/transform_vars_affine.c
index c9b72c4..aaefd25 100644
--- a/src/transform_vars_affine.c
+++ b/src/transform_vars_affine.c
@@ -57,9 +57,9 @@ static void transform_vars_affine_evaluate_function(coco_problem_t *problem, con
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 /**
diff --git a/src/transform_vars_asymmetric.c b/src/transform_vars_asymmetric.c
index da7cd9c..55ba2e7 100644
--- a/src/transform_vars_asymmetric.c
+++ b/src/transform_vars_asymmetric.c
@@ -99,9 +99,9 @@ static void transform_vars_asymmetric_evaluate_function(coco_problem_t *problem,
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 /**
diff --git a/src/transform_vars_blockrotation.c b/src/transform_vars_blockrotation.c
index a80132a..f3f7abe 100644
--- a/src/transform_vars_blockrotation.c
+++ b/src/transform_vars_blockrotation.c
@@ -82,7 +82,7 @@ static void transform_vars_blockrotation_evaluate(coco_problem_t *problem, const
   transform_vars_blockrotation_apply(problem, x, data->Bx);
 
   coco_evaluate_function(inner_problem, data->Bx, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 static void transform_vars_blockrotation_free(void *stuff) {
diff --git a/src/transform_vars_brs.c b/src/transform_vars_brs.c
index c1b38ff..ce49451 100644
--- a/src/transform_vars_brs.c
+++ b/src/transform_vars_brs.c
@@ -49,7 +49,7 @@ static void transform_vars_brs_evaluate(coco_problem_t *problem, const double *x
     data->x[i] = factor * x[i];
   }
   coco_evaluate_function(inner_problem, data->x, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 /**
diff --git a/src/transform_vars_conditioning.c b/src/transform_vars_conditioning.c
index a315296..0c903fb 100644
--- a/src/transform_vars_conditioning.c
+++ b/src/transform_vars_conditioning.c
@@ -40,7 +40,7 @@ static void transform_vars_conditioning_evaluate(coco_problem_t *problem, const
     data->x[i] = pow(data->alpha, 0.5 * (double)(long)i / ((double)(long)problem->number_of_variables - 1.0)) * x[i];
   }
   coco_evaluate_function(inner_problem, data->x, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 /**
diff --git a/src/transform_vars_enforce_box.c b/src/transform_vars_enforce_box.c
index 9768598..59050bd 100644
--- a/src/transform_vars_enforce_box.c
+++ b/src/transform_vars_enforce_box.c
@@ -39,10 +39,10 @@ static void transform_vars_enforce_box_evaluate_function(coco_problem_t *problem
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible) {
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
     }
   } else {
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
   }
 }
 
diff --git a/src/transform_vars_gallagher_blockrotation.c b/src/transform_vars_gallagher_blockrotation.c
index 9c5cbe5..dba9756 100644
--- a/src/transform_vars_gallagher_blockrotation.c
+++ b/src/transform_vars_gallagher_blockrotation.c
@@ -100,7 +100,7 @@ static void transform_vars_gallagher_blockrotation_evaluate(coco_problem_t *prob
       y); /* does not modify the argument of the call since rotated_x will be used later in the sub_problems*/
   /* this function serves only to compute rotated_x on the problem level, not for each sub-problem
    */
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 static COCO_UNUSED coco_problem_t *transform_vars_gallagher_blockrotation(coco_problem_t *inner_problem);
diff --git a/src/transform_vars_oscillate.c b/src/transform_vars_oscillate.c
index 39f33ef..8c4609d 100644
--- a/src/transform_vars_oscillate.c
+++ b/src/transform_vars_oscillate.c
@@ -100,9 +100,9 @@ static void transform_vars_oscillate_evaluate_function(coco_problem_t *problem,
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 /**
diff --git a/src/transform_vars_permblockdiag.c b/src/transform_vars_permblockdiag.c
index 3ae20af..374a398 100644
--- a/src/transform_vars_permblockdiag.c
+++ b/src/transform_vars_permblockdiag.c
@@ -46,7 +46,7 @@ static void transform_vars_permblockdiag_evaluate(coco_problem_t *problem, const
   }
 
   coco_evaluate_function(inner_problem, data->x, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 static void transform_vars_permblockdiag_free(void *thing) {
diff --git a/src/transform_vars_permutation.c b/src/transform_vars_permutation.c
index 695174f..8496523 100644
--- a/src/transform_vars_permutation.c
+++ b/src/transform_vars_permutation.c
@@ -29,7 +29,7 @@ static void transform_vars_permutation_evaluate(coco_problem_t *problem, const d
   }
 
   coco_evaluate_function(inner_problem, data->x, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 static void transform_vars_permutation_free(void *thing) {
@@ -67,7 +67,7 @@ static void transform_vars_inverse_permutation_evaluate(coco_problem_t *problem,
   }
 
   coco_evaluate_function(inner_problem, data->x, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 static coco_problem_t *transform_vars_inverse_permutation(coco_problem_t *inner_problem, const size_t *P,
diff --git a/src/transform_vars_round_step.c b/src/transform_vars_round_step.c
index b9f2702..fcd6953 100644
--- a/src/transform_vars_round_step.c
+++ b/src/transform_vars_round_step.c
@@ -50,7 +50,7 @@ static void transform_vars_round_step_evaluate(coco_problem_t *problem, const do
     }
   }
   coco_evaluate_function(inner_problem, data->rounded_x, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 /**
diff --git a/src/transform_vars_scale.c b/src/transform_vars_scale.c
index c0f95cf..1311fda 100644
--- a/src/transform_vars_scale.c
+++ b/src/transform_vars_scale.c
@@ -38,7 +38,7 @@ static void transform_vars_scale_evaluate(coco_problem_t *problem, const double
       data->x[i] = factor * x[i];
     }
     coco_evaluate_function(inner_problem, data->x, y);
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
   } while (0);
 }
 
diff --git a/src/transform_vars_shift.c b/src/transform_vars_shift.c
index b095ea1..10cf701 100644
--- a/src/transform_vars_shift.c
+++ b/src/transform_vars_shift.c
@@ -45,9 +45,9 @@ static void transform_vars_shift_evaluate_function(coco_problem_t *problem, cons
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 /**
diff --git a/src/transform_vars_x_hat.c b/src/transform_vars_x_hat.c
index af1ee34..c74e20e 100644
--- a/src/transform_vars_x_hat.c
+++ b/src/transform_vars_x_hat.c
@@ -44,7 +44,7 @@ static void transform_vars_x_hat_evaluate(coco_problem_t *problem, const double
       }
     }
     coco_evaluate_function(inner_problem, data->x, y);
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
   } while (0);
 }
 
diff --git a/src/transform_vars_x_hat_generic.c b/src/transform_vars_x_hat_generic.c
index e4ad418..af5b684 100644
--- a/src/transform_vars_x_hat_generic.c
+++ b/src/transform_vars_x_hat_generic.c
@@ -44,7 +44,7 @@ static void transform_vars_x_hat_generic_evaluate(coco_problem_t *problem, const
     ((f_lunacek_bi_rastrigin_versatile_data_t *)problem->versatile_data)->x_hat[i] = data->x[i];
   }
   coco_evaluate_function(inner_problem, data->x, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 /**
diff --git a/src/transform_vars_z_hat.c b/src/transform_vars_z_hat.c
index ed59ee1..cbcc15c 100644
--- a/src/transform_vars_z_hat.c
+++ b/src/transform_vars_z_hat.c
@@ -39,7 +39,7 @@ static void transform_vars_z_hat_evaluate(coco_problem_t *problem, const double
     data->z[i] = x[i] + 0.25 * (x[i - 1] - 2.0 * fabs(data->xopt[i - 1]));
   }
   coco_evaluate_function(inner_problem, data->z, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(y[0] + COCO_ROUNDING(problem->best_value[0]) >= problem->best_value[0]);
 }
 
 /**
-- 
2.43.0


From be2fa10134d71e03eef8ddf9f84abc5e6efb4b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:04 +0000
Subject: [PATCH 19/37] fix: new instances of bbob-biobj-mixint were checked
 with functions that do not exist above 40-D

---
 src/suite_biobj_utilities.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/suite_biobj_utilities.c b/src/suite_biobj_utilities.c
index 65702e2..37ab6c0 100644
--- a/src/suite_biobj_utilities.c
+++ b/src/suite_biobj_utilities.c
@@ -12,6 +12,8 @@
 
 #include "coco.h"
 #include "suite_biobj_best_values_hyp.c"
+#include "suite_bbob.c"
+#include "suite_largescale.c"
 
 /**
  * @brief The array of triples biobj_instance - problem1_instance - problem2_instance connecting bi-objective
@@ -71,9 +73,12 @@ static int suite_biobj_check_inst_consistency(const size_t dimension, size_t fun
   double norm;
   double *smallest_values_of_interest, *largest_values_of_interest;
   const double apart_enough = 1e-4;
+  /* The same functions as those of the problems (see suite_biobj_mixint_get_problem) */
+  const coco_get_problem_function_t coco_get_problem_function =
+      (dimension < 50) ? coco_get_bbob_problem : coco_get_largescale_problem;
 
-  problem1 = coco_get_bbob_problem(function1, dimension, instance1);
-  problem2 = coco_get_bbob_problem(function2, dimension, instance2);
+  problem1 = coco_get_problem_function(function1, dimension, instance1);
+  problem2 = coco_get_problem_function(function2, dimension, instance2);
 
   /* Set smallest and largest values of interest to some value (not important which, it just needs to be a
    * vector of doubles of the right dimension) */
-- 
2.43.0


From 19e69f6c8abf743ff1f72dfc0771788bf00e3d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 20/37] fix: integer variables with negative values were logged
 one too high with log_discrete_as_int

coco_double_to_int() truncated number + 0.5 toward zero, so -2.0 became -1.
---
 src/coco_utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 4f31ef4..45aa944 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -978,7 +978,7 @@ static int coco_double_to_int(const double number) {
     coco_error("coco_double_to_int(): Cannot cast %f to the nearest integer, min %d allowed", number, INT_MIN);
     return -1; /* Never reached */
   } else {
-    return (int)(number + 0.5);
+    return (int)coco_double_round(number);
   }
 }
 
-- 
2.43.0


From 0aab7de8fbdaa4d4fc8b443d8a239c2341cd815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:32 +0000
Subject: [PATCH 21/37] fix: option strings were used as a format string

coco_option_keys() passed the text of the options to coco_strdupf(), so a
percent sign in an option (in a folder or algorithm name) read arguments that
do not exist.
---
 src/coco_utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 45aa944..e556d7a 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -655,7 +655,7 @@ static coco_option_keys_t *coco_option_keys(const char *option_string) {
   if (keys) {
     for (i = 0; *(keys + i); i++) {
       if (i == 0)
-        cleaned_option_string = coco_strdupf(*(keys + i));
+        cleaned_option_string = coco_strdup(*(keys + i));
       else {
         string_pointer = cleaned_option_string;
         if (i % 2 == 0) {
-- 
2.43.0


From 0e7e320acfcb4b3de804a2759d0c2ad7991f3c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:50 +0000
Subject: [PATCH 22/37] fix: the name of an option inside the value of another
 one was taken as that option

coco_options_read*() looked for the first occurrence of the name anywhere, so
result_folder: precision_x_10 precision_f: 3 set precision_x to 3, and a quoted
algorithm_info that mentions an option replaced its value.
---
 src/coco_utilities.c | 62 +++++++++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index e556d7a..0fa5c67 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -745,6 +745,35 @@ static char *coco_option_keys_get_output_string(const coco_option_keys_t *option
   return string;
 }
 
+/**
+ * @brief Finds the option with the given name in options.
+ *
+ * A name is followed by a colon and is neither a part of a longer word nor inside of double quotes.
+ *
+ * @return The position just after the colon or -1 if there is no such option.
+ */
+static long coco_options_find(const char *options, const char *name) {
+
+  size_t i, j;
+  const size_t length = strlen(name);
+  int inside_quotes = 0;
+
+  for (i = 0; options[i] != '\0'; i++) {
+    if (options[i] == '\"')
+      inside_quotes = !inside_quotes;
+    if (inside_quotes || (strncmp(&options[i], name, length) != 0))
+      continue;
+    if ((i > 0) && (isalnum((unsigned char)options[i - 1]) || (strchr("_-.:/\\", options[i - 1]) != NULL)))
+      continue;
+    j = i + length;
+    while (isspace((unsigned char)options[j]))
+      j++;
+    if (options[j] == ':')
+      return (long)(j + 1);
+  }
+  return -1;
+}
+
 /**
  * @brief Parses options in the form "name1: value1 name2: value2".
  *
@@ -756,24 +785,19 @@ static char *coco_option_keys_get_output_string(const coco_option_keys_t *option
  */
 static int coco_options_read(const char *options, const char *name, const char *format, void *pointer) {
 
-  long i1, i2;
+  long i2;
 
   if ((!options) || (strlen(options) == 0))
     return 0;
 
-  i1 = coco_strfind(options, name);
-  if (i1 < 0)
+  i2 = coco_options_find(options, name);
+  if (i2 < 0)
     return 0;
-  i2 = i1 + coco_strfind(&options[i1], ":") + 1;
 
   /* Remove trailing whitespaces */
   while (isspace((unsigned char)options[i2]))
     i2++;
 
-  if (i2 <= i1) {
-    return 0;
-  }
-
   return sscanf(&options[i2], format, pointer);
 }
 
@@ -828,24 +852,19 @@ static int coco_options_read_double(const char *options, const char *name, doubl
  */
 static int coco_options_read_string(const char *options, const char *name, char *pointer) {
 
-  long i1, i2;
+  long i2;
 
   if ((!options) || (strlen(options) == 0))
     return 0;
 
-  i1 = coco_strfind(options, name);
-  if (i1 < 0)
+  i2 = coco_options_find(options, name);
+  if (i2 < 0)
     return 0;
-  i2 = i1 + coco_strfind(&options[i1], ":") + 1;
 
   /* Remove trailing white spaces */
   while (isspace((unsigned char)options[i2]))
     i2++;
 
-  if (i2 <= i1) {
-    return 0;
-  }
-
   if (options[i2] == '\"') {
     /* The value starts with a quote: read everything between two quotes into a string */
     return sscanf(&options[i2], "\"%[^\"]\"", pointer);
@@ -867,20 +886,15 @@ static int coco_options_read_string(const char *options, const char *name, char
  */
 static int coco_options_read_values(const char *options, const char *name, char *pointer) {
 
-  long i1, i2;
+  long i2;
   int i;
 
   if ((!options) || (strlen(options) == 0))
     return 0;
 
-  i1 = coco_strfind(options, name);
-  if (i1 < 0)
-    return 0;
-  i2 = i1 + coco_strfind(&options[i1], ":") + 1;
-
-  if (i2 <= i1) {
+  i2 = coco_options_find(options, name);
+  if (i2 < 0)
     return 0;
-  }
 
   i = 0;
   while (!isalpha((unsigned char)options[i2 + i]) && (options[i2 + i] != '\0')) {
-- 
2.43.0


From 1ffd6029012fb9b4cd574157669ce9de40c41945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:11 +0000
Subject: [PATCH 23/37] fix: coco_random_uniform() returned 1.0 for some seeds,
 outside of the documented [0, 1)

---
 src/coco_random.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coco_random.c b/src/coco_random.c
index a6be159..481621a 100644
--- a/src/coco_random.c
+++ b/src/coco_random.c
@@ -6,6 +6,7 @@
  * eventually be fixed.
  */
 
+#include <float.h>
 #include <math.h>
 
 #include "coco.h"
@@ -55,6 +56,8 @@ coco_random_state_t *coco_random_new(uint32_t seed) {
   for (i = 0; i < COCO_LONG_LAG; ++i) {
     /* Uses uint64_t to silence the compiler ("shift count negative or too big, undefined behavior" warning) */
     state->x[i] = ((double)seed) / (double)(((uint64_t)1UL << 32) - 1);
+    if (state->x[i] >= 1.0)
+      state->x[i] = 1.0 - DBL_EPSILON;
     /* Advance seed based on simple RNG from TAOCP */
     seed = (uint32_t)1812433253UL * (seed ^ (seed >> 30)) + ((uint32_t)i + 1);
   }
-- 
2.43.0


From bd69fae71f839c91de8e741c7c9772d62ab108b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:50 +0000
Subject: [PATCH 24/37] fix: Rust interface: the name of the bbob-boxed suite
 (the library does not know sbox-cost)

---
 build/rust/src/suite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/rust/src/suite.rs b/build/rust/src/suite.rs
index f3178ea..9f29ab4 100644
--- a/build/rust/src/suite.rs
+++ b/build/rust/src/suite.rs
@@ -54,7 +54,7 @@ impl Name {
             Name::BbobConstrained => "bbob-constrained",
             Name::BbobMixint => "bbob-mixint",
             Name::BbobBiobjMixint => "bbob-biobj-mixint",
-            Name::SboxCost => "sbox-cost",
+            Name::SboxCost => "bbob-boxed",
             Name::Toy => "toy",
         }
     }
-- 
2.43.0


From ef099e27ba8778682bee3a991f8a759b6ee58bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:50 +0000
Subject: [PATCH 25/37] fix: Java interface: refuse points of a wrong length
 instead of reading beyond the array

---
 build/java/Problem.java | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/build/java/Problem.java b/build/java/Problem.java
index 9fc241d..6816ed8 100644
--- a/build/java/Problem.java
+++ b/build/java/Problem.java
@@ -47,12 +47,22 @@ public class Problem {
 		}
 	}
 	
+	/**
+	 * Checks that the point has as many values as the problem has variables (the native code reads exactly that many).
+	 * @param x
+	 */
+	private void checkDimension(double[] x) {
+		if (x.length != this.dimension)
+			throw new IllegalArgumentException("Expected a point of dimension " + this.dimension + ", got " + x.length);
+	}
+
 	/**
 	 * Evaluates the function in point x and returns the result as an array of doubles. 
 	 * @param x
 	 * @return the result of the function evaluation in point x
 	 */
 	public double[] evaluateFunction(double[] x) {
+		this.checkDimension(x);
 		return CocoJNI.cocoEvaluateFunction(this.pointer, x);
 	}
 
@@ -62,6 +72,7 @@ public class Problem {
 	 * @return the result of the constraint evaluation in point x
 	 */
 	public double[] evaluateConstraint(double[] x) {
+		this.checkDimension(x);
 		return CocoJNI.cocoEvaluateConstraint(this.pointer, x);
 	}
 
@@ -70,6 +81,7 @@ public class Problem {
 	 * @param x
 	 */
 	public void recommendSolution(double[] x) {
+		this.checkDimension(x);
 		CocoJNI.cocoRecommendSolution(this.pointer, x);
 	}
 
-- 
2.43.0


From 1a659b45787529fef4fabfb0e7ceece275c0e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:42 +0000
Subject: [PATCH 26/37] fix: option values of the suite longer than the fixed
 buffers were written beyond their end

---
 src/coco_suite.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index a5fdc2a..5ab1ce3 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -532,7 +532,7 @@ static size_t *coco_suite_get_instance_indices(const coco_suite_t *suite,
     }
   }
 
-  instances = coco_allocate_string(COCO_MAX_INSTANCES);
+  instances = coco_allocate_string(strlen(suite_instance) + 1);
   if ((instances_found >= 0) && (parse_instances == 1)) {
     if (coco_options_read_values(suite_instance, "instances", instances) > 0) {
       result = coco_string_parse_ranges(instances, 1, 0, "instances",
@@ -746,7 +746,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
 
   /* Apply filter if any given by the suite_options */
   if ((suite_options) && (strlen(suite_options) > 0)) {
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_string(strlen(suite_options) + 1);
     if (coco_options_read_values(suite_options, "function_indices", option_string) > 0) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_functions, "function_indices",
                                          COCO_MAX_INSTANCES);
@@ -758,7 +758,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     }
     coco_free_memory(option_string);
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_string(strlen(suite_options) + 1);
     if (coco_options_read_values(suite_options, "instance_indices", option_string) > 0) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_instances, "instance_indices",
                                          COCO_MAX_INSTANCES);
@@ -784,7 +784,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
       }
     }
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_string(strlen(suite_options) + 1);
     if ((dim_idx_found >= 0) && (parce_dim_idx == 1) &&
         (coco_options_read_values(suite_options, "dimension_indices", option_string) > 0)) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_dimensions, "dimension_indices",
@@ -798,7 +798,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     }
     coco_free_memory(option_string);
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_string(strlen(suite_options) + 1);
     if ((dim_found >= 0) && (parce_dim == 1) &&
         (coco_options_read_values(suite_options, "dimensions", option_string) > 0)) {
       ptr = option_string;
-- 
2.43.0


From b5d6b21dba6e883285b054752e4062c026826a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:39 +0000
Subject: [PATCH 27/37] fix: option values of the observers longer than the
 fixed buffers were written beyond their end

---
 src/coco_observer.c  | 12 ++++++------
 src/coco_utilities.c |  9 +++++++++
 src/observer_bbob.c  |  2 +-
 src/observer_biobj.c |  3 ++-
 src/observer_rw.c    |  3 ++-
 src/observer_toy.c   |  2 +-
 6 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index fc4fff9..3fc14b7 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -601,10 +601,10 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
     return NULL;
   }
 
-  outer_folder = coco_allocate_string(COCO_PATH_MAX + 1);
-  result_folder = coco_allocate_string(COCO_PATH_MAX + 1);
-  algorithm_name = coco_allocate_string(COCO_PATH_MAX + 1);
-  algorithm_info = coco_allocate_string(5 * COCO_PATH_MAX);
+  outer_folder = coco_options_allocate_value(observer_options);
+  result_folder = coco_options_allocate_value(observer_options);
+  algorithm_name = coco_options_allocate_value(observer_options);
+  algorithm_info = coco_options_allocate_value(observer_options);
 
   if (coco_options_read_string(observer_options, "outer_folder", outer_folder) == 0) {
     strcpy(outer_folder, "exdata");
@@ -614,7 +614,7 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
   }
 
   /* Create the result_folder inside the outer folder */
-  path = coco_allocate_string(COCO_PATH_MAX + 1);
+  path = coco_options_allocate_value(observer_options);
   memcpy(path, outer_folder, strlen(outer_folder) + 1);
   coco_join_path(path, COCO_PATH_MAX, result_folder, NULL);
   coco_create_unique_directory(&path);
@@ -670,7 +670,7 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
     }
   }
 
-  base_evaluation_triggers = coco_allocate_string(COCO_PATH_MAX + 1);
+  base_evaluation_triggers = coco_options_allocate_value(observer_options);
   if (coco_options_read_string(observer_options, "base_evaluation_triggers", base_evaluation_triggers) == 0) {
     strcpy(base_evaluation_triggers, "1,2,5");
   }
diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 0fa5c67..e30519e 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -840,6 +840,15 @@ static int coco_options_read_double(const char *options, const char *name, doubl
   return coco_options_read(options, name, "%lf", pointer);
 }
 
+/**
+ * @brief Allocates a string that can hold any value of the given options (and any default value of at most
+ * COCO_PATH_MAX characters).
+ */
+static char *coco_options_allocate_value(const char *options) {
+  const size_t length = options ? strlen(options) : 0;
+  return coco_allocate_string((length > COCO_PATH_MAX ? length : COCO_PATH_MAX) + 1);
+}
+
 /**
  * @brief Reads a string from options using the form "name1: value1 name2: value2".
  *
diff --git a/src/observer_bbob.c b/src/observer_bbob.c
index 18fe941..2897cce 100644
--- a/src/observer_bbob.c
+++ b/src/observer_bbob.c
@@ -84,7 +84,7 @@ static void observer_bbob(coco_observer_t *observer, const char *options, coco_o
 
   observer_data = (observer_bbob_data_t *)coco_allocate_memory(sizeof(*observer_data));
   observer_data->observed_problem = NULL;
-  observer_data->prefix = coco_allocate_string(COCO_PATH_MAX + 1);
+  observer_data->prefix = coco_options_allocate_value(options);
 
   observer_data->last_suite = coco_allocate_string(COCO_PATH_MAX + 1);
   strcpy(observer_data->last_suite, "");
diff --git a/src/observer_biobj.c b/src/observer_biobj.c
index b0fe9a8..24d6e7e 100644
--- a/src/observer_biobj.c
+++ b/src/observer_biobj.c
@@ -91,7 +91,7 @@ static void observer_biobj_data_free(void *stuff) {
 static void observer_biobj(coco_observer_t *observer, const char *options, coco_option_keys_t **option_keys) {
 
   observer_biobj_data_t *observer_data;
-  char string_value[COCO_PATH_MAX + 1];
+  char *string_value = coco_options_allocate_value(options);
 
   /* Sets the valid keys for bbob-biobj observer options
    * IMPORTANT: This list should be up-to-date with the code and the documentation */
@@ -121,6 +121,7 @@ static void observer_biobj(coco_observer_t *observer, const char *options, coco_
     else if (strcmp(string_value, "low_dim") == 0)
       observer_data->log_vars_mode = LOG_VARS_LOW_DIM;
   }
+  coco_free_memory(string_value);
 
   if (coco_options_read_int(options, "compute_indicators", &(observer_data->compute_indicators)) == 0)
     observer_data->compute_indicators = 1;
diff --git a/src/observer_rw.c b/src/observer_rw.c
index 537bc1e..4a6f3c6 100644
--- a/src/observer_rw.c
+++ b/src/observer_rw.c
@@ -57,7 +57,7 @@ static void logger_rw_free(void *logger);
 static void observer_rw(coco_observer_t *observer, const char *options, coco_option_keys_t **option_keys) {
 
   observer_rw_data_t *observer_data;
-  char string_value[COCO_PATH_MAX + 1];
+  char *string_value = coco_options_allocate_value(options);
 
   /* Sets the valid keys for rw observer options
    * IMPORTANT: This list should be up-to-date with the code and the documentation */
@@ -86,6 +86,7 @@ static void observer_rw(coco_observer_t *observer, const char *options, coco_opt
     else if (strcmp(string_value, "low_dim") == 0)
       observer_data->log_cons_mode = LOG_LOW_DIM;
   }
+  coco_free_memory(string_value);
 
   if (coco_options_read_size_t(options, "low_dim_vars", &(observer_data->low_dim_vars)) == 0)
     observer_data->low_dim_vars = 10;
diff --git a/src/observer_toy.c b/src/observer_toy.c
index 0627455..8d63089 100644
--- a/src/observer_toy.c
+++ b/src/observer_toy.c
@@ -52,7 +52,7 @@ static void observer_toy(coco_observer_t *observer, const char *options, coco_op
   observer_data = (observer_toy_data_t *)coco_allocate_memory(sizeof(*observer_data));
 
   /* Read file_name and number_of_targets from the options and use them to initialize the observer */
-  string_value = coco_allocate_string(COCO_PATH_MAX + 1);
+  string_value = coco_options_allocate_value(options);
   if (coco_options_read_string(options, "file_name", string_value) == 0) {
     strcpy(string_value, "first_hitting_times.dat");
   }
-- 
2.43.0


From b52b47a736dd728213b9285f6e27646679e9b77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:14 +0000
Subject: [PATCH 28/37] fix: release the suite when coco_suite() refuses the
 options and returns NULL

---
 src/coco_suite.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 5ab1ce3..076e9a0 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -806,6 +806,8 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
       while (*ptr != '\0') {
         if ((*ptr != ',') && !isdigit((unsigned char)*ptr)) {
           coco_warning("coco_suite(): 'dimensions' suite option ignored because of disallowed characters");
+          coco_free_memory(option_string);
+          coco_suite_free(suite);
           return NULL;
         } else
           ptr++;
@@ -854,6 +856,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
   if ((number_of_active_dimensions < 1) || (suite->number_of_dimensions < 1) || (suite->number_of_functions < 1) ||
       (suite->number_of_instances < 1)) {
     coco_warning("coco_suite(): the suite does not contain at least one dimension, function and instance");
+    coco_suite_free(suite);
     return NULL;
   }
 
-- 
2.43.0


From d23ee2cbd7963a378f5934573a15efb1c17fd397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:15 +0000
Subject: [PATCH 29/37] fix: bi-objective logger: rows were lost when the
 process died (flush them like the bbob logger does)

---
 src/logger_biobj.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index ab84c6a..362b9d4 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -705,6 +705,7 @@ static void logger_biobj_output(logger_biobj_data_t *logger, const int update_pe
         fprintf(indicator->dat_file, "%lu\t%.*e\t%.*e\n", (unsigned long)logger->num_func_evaluations,
                 logger->precision_f, indicator->overall_value, logger->precision_f,
                 coco_observer_targets_get_last_target(indicator->targets));
+        fflush(indicator->dat_file);
       }
 
       if (logger->log_nondom_mode == LOG_NONDOM_READ) {
@@ -715,6 +716,7 @@ static void logger_biobj_output(logger_biobj_data_t *logger, const int update_pe
           if (indicator->evaluation_logged) {
             fprintf(indicator->tdat_file, "%lu\t%.*e\n", (unsigned long)j, logger->precision_f,
                     indicator->previous_value);
+            fflush(indicator->tdat_file);
           }
         }
       }
@@ -725,12 +727,14 @@ static void logger_biobj_output(logger_biobj_data_t *logger, const int update_pe
       if (indicator->evaluation_logged) {
         fprintf(indicator->tdat_file, "%lu\t%.*e\n", (unsigned long)logger->num_func_evaluations, logger->precision_f,
                 indicator->overall_value);
+        fflush(indicator->tdat_file);
       }
 
       /* Log to the rdat file if the algorithm was restarted */
       if (logger->algorithm_restarted) {
         fprintf(indicator->rdat_file, "%lu\t%.*e\n", (unsigned long)logger->num_func_evaluations, logger->precision_f,
                 indicator->overall_value);
+        fflush(indicator->rdat_file);
       }
     }
   }
@@ -853,6 +857,7 @@ static void logger_biobj_recommend(coco_problem_t *problem, const double *x) {
         fprintf(logger->mdat_file, "%.*e\t", logger->precision_x, x[i]);
   }
   fprintf(logger->mdat_file, "\n");
+  fflush(logger->mdat_file);
 
   /* Free allocated memory */
   coco_free_memory(y);
-- 
2.43.0


From 04fff65588f88839829b482b407f3bf9fa31858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:05 +0000
Subject: [PATCH 30/37] fix: ObserverOptions.as_string: keep commas, quotes and
 a final u of the values

---
 build/python/src/cocoex/utilities.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/build/python/src/cocoex/utilities.py b/build/python/src/cocoex/utilities.py
index cf1fed6..86d53e6 100644
--- a/build/python/src/cocoex/utilities.py
+++ b/build/python/src/cocoex/utilities.py
@@ -240,10 +240,7 @@ class ObserverOptions(dict):
         """string representation which is accepted by `Observer` class,
         which calls the underlying C interface
         """
-        s = str(self).replace(',', ' ')
-        for c in ["u'", "'", "{", "}"]:
-            s = s.replace(c, '')
-        return s
+        return ' '.join('%s: %s' % item for item in self.items())
 
 
 class ProblemNonAnytime:
-- 
2.43.0


From 07ccd41b96969987ee8d059fc2c05196d332d3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:05 +0000
Subject: [PATCH 31/37] fix: ascetime: about half of all times were shown one
 second too early

---
 build/python/src/cocoex/utilities.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/build/python/src/cocoex/utilities.py b/build/python/src/cocoex/utilities.py
index 86d53e6..06848cd 100644
--- a/build/python/src/cocoex/utilities.py
+++ b/build/python/src/cocoex/utilities.py
@@ -576,9 +576,8 @@ def ascetime(sec, decimals=0):
     #     return "%d%s sec" % (sec, str(sec % 1)[1:2+max((1, decimals))])
     if sec < 100 and decimals:
         return "%d%s sec" % (sec, ds)
-    h = sec / 60**2  # hours
-    m = 60 * (h % 1)  # minutes
-    s = 60 * (m % 1)  # seconds
+    m, s = divmod(int(sec), 60)  # minutes and seconds
+    h, m = divmod(m, 60)  # hours and minutes
     return "%dh%02d:%02d%s" % (h, m, s, ds)
 
 
-- 
2.43.0


From fa86bcbdb6e39bb279fd42b49da7098b1e24c974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:05 +0000
Subject: [PATCH 32/37] fix: random_search: on constrained problems, return the
 best feasible solution and not another one

---
 build/python/src/cocoex/solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build/python/src/cocoex/solvers.py b/build/python/src/cocoex/solvers.py
index d5218fe..6d130b6 100644
--- a/build/python/src/cocoex/solvers.py
+++ b/build/python/src/cocoex/solvers.py
@@ -16,6 +16,7 @@ def random_search(fun, lbounds, ubounds, budget):
         X = lbounds + (ubounds - lbounds) * np.random.rand(chunk, dim)
         if fun.number_of_constraints > 0:
             FC = [(fun(x), fun.constraint(x)) for x in X]  # call  objective and constraints
+            X = [x for (x, fc) in zip(X, FC) if all(fc[1] <= 0)]  # keep feasible solutions
             F = [fc[0] for fc in FC if all(fc[1] <= 0)]
             budget -= chunk  # one more to account for constraint evals
         else:
-- 
2.43.0


From a186c19b410fd294f911fb201e19d70e6b0792b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:20 +0000
Subject: [PATCH 33/37] fix: MATLAB runtime: print messages as they are (not as
 formats) and within the buffer

---
 src/coco_runtime_matlab.c | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/coco_runtime_matlab.c b/src/coco_runtime_matlab.c
index 8b60caa..b425f0c 100644
--- a/src/coco_runtime_matlab.c
+++ b/src/coco_runtime_matlab.c
@@ -18,13 +18,12 @@ void coco_error(const char *message, ...) {
   va_list args;
 
   char buffer[500];
-  int n;
 
   mexPrintf("COCO FATAL ERROR: ");
   va_start(args, message);
-  n = vsprintf(buffer, message, args);
+  vsnprintf(buffer, sizeof(buffer), message, args);
   va_end(args);
-  mexPrintf(buffer);
+  mexPrintf("%s", buffer);
 
   mexPrintf("\n");
   exit(EXIT_FAILURE);
@@ -34,14 +33,13 @@ void coco_warning(const char *message, ...) {
   va_list args;
 
   char buffer[500];
-  int n;
 
   if (coco_log_level >= COCO_WARNING) {
     mexPrintf("COCO WARNING: ");
     va_start(args, message);
-    n = vsprintf(buffer, message, args);
+    vsnprintf(buffer, sizeof(buffer), message, args);
     va_end(args);
-    mexPrintf(buffer);
+    mexPrintf("%s", buffer);
 
     mexPrintf("\n");
   }
@@ -51,14 +49,13 @@ void coco_info(const char *message, ...) {
   va_list args;
 
   char buffer[500];
-  int n;
 
   if (coco_log_level >= COCO_INFO) {
     mexPrintf("COCO INFO: ");
     va_start(args, message);
-    n = vsprintf(buffer, message, args);
+    vsnprintf(buffer, sizeof(buffer), message, args);
     va_end(args);
-    mexPrintf(buffer);
+    mexPrintf("%s", buffer);
     mexPrintf("\n");
   }
 }
@@ -71,13 +68,12 @@ void coco_info_partial(const char *message, ...) {
   va_list args;
 
   char buffer[500];
-  int n;
 
   if (coco_log_level >= COCO_INFO) {
     va_start(args, message);
-    n = vsprintf(buffer, message, args);
+    vsnprintf(buffer, sizeof(buffer), message, args);
     va_end(args);
-    mexPrintf(buffer);
+    mexPrintf("%s", buffer);
   }
 }
 
@@ -85,14 +81,13 @@ void coco_debug(const char *message, ...) {
   va_list args;
 
   char buffer[500];
-  int n;
 
   if (coco_log_level >= COCO_DEBUG) {
     mexPrintf("COCO DEBUG: ");
     va_start(args, message);
-    n = vsprintf(buffer, message, args);
+    vsnprintf(buffer, sizeof(buffer), message, args);
     va_end(args);
-    mexPrintf(buffer);
+    mexPrintf("%s", buffer);
     mexPrintf("\n");
   }
 }
-- 
2.43.0


From 575eeafb1189762e928011824d09e891b84fdd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:20 +0000
Subject: [PATCH 34/37] fix: MATLAB interface: write int32 results as int32,
 not as 8 bytes

---
 build/matlab/cocoCall.c | 42 ++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/build/matlab/cocoCall.c b/build/matlab/cocoCall.c
index 4d5fa78..35bccb3 100644
--- a/build/matlab/cocoCall.c
+++ b/build/matlab/cocoCall.c
@@ -204,7 +204,7 @@ void cocoProblemFinalTargetHit(int nlhs, mxArray *plhs[], int nrhs, const mxArra
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -215,8 +215,8 @@ void cocoProblemFinalTargetHit(int nlhs, mxArray *plhs[], int nrhs, const mxArra
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_final_target_hit(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_final_target_hit(problem);
 }
 
 void cocoProblemFree(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -240,7 +240,7 @@ void cocoProblemGetDimension(int nlhs, mxArray *plhs[], int nrhs, const mxArray
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -251,8 +251,8 @@ void cocoProblemGetDimension(int nlhs, mxArray *plhs[], int nrhs, const mxArray
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_dimension(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_dimension(problem);
 }
 
 void cocoProblemGetEvaluations(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -260,7 +260,7 @@ void cocoProblemGetEvaluations(int nlhs, mxArray *plhs[], int nrhs, const mxArra
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -271,8 +271,8 @@ void cocoProblemGetEvaluations(int nlhs, mxArray *plhs[], int nrhs, const mxArra
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_evaluations(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_evaluations(problem);
 }
 
 void cocoProblemGetEvaluationsConstraints(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -280,7 +280,7 @@ void cocoProblemGetEvaluationsConstraints(int nlhs, mxArray *plhs[], int nrhs, c
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -291,8 +291,8 @@ void cocoProblemGetEvaluationsConstraints(int nlhs, mxArray *plhs[], int nrhs, c
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_evaluations_constraints(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_evaluations_constraints(problem);
 }
 
 void cocoProblemGetId(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -415,7 +415,7 @@ void cocoProblemGetNumberOfObjectives(int nlhs, mxArray *plhs[], int nrhs, const
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -426,8 +426,8 @@ void cocoProblemGetNumberOfObjectives(int nlhs, mxArray *plhs[], int nrhs, const
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_number_of_objectives(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_number_of_objectives(problem);
 }
 
 void cocoProblemGetNumberOfConstraints(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -435,7 +435,7 @@ void cocoProblemGetNumberOfConstraints(int nlhs, mxArray *plhs[], int nrhs, cons
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -446,8 +446,8 @@ void cocoProblemGetNumberOfConstraints(int nlhs, mxArray *plhs[], int nrhs, cons
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_number_of_constraints(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_number_of_constraints(problem);
 }
 
 void cocoProblemGetNumberOfIntegerVariables(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -455,7 +455,7 @@ void cocoProblemGetNumberOfIntegerVariables(int nlhs, mxArray *plhs[], int nrhs,
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -466,8 +466,8 @@ void cocoProblemGetNumberOfIntegerVariables(int nlhs, mxArray *plhs[], int nrhs,
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_number_of_integer_variables(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_number_of_integer_variables(problem);
 }
 
 void cocoProblemGetSmallestValuesOfInterest(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
-- 
2.43.0


From 323b70df89ebf24fcb7955f662076999db60d915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:20 +0000
Subject: [PATCH 35/37] fix: MATLAB interface: cocoProblemGetInitialSolution
 prints nothing

---
 build/matlab/cocoCall.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/build/matlab/cocoCall.c b/build/matlab/cocoCall.c
index 35bccb3..a39573f 100644
--- a/build/matlab/cocoCall.c
+++ b/build/matlab/cocoCall.c
@@ -334,7 +334,6 @@ void cocoProblemGetInitialSolution(int nlhs, mxArray *plhs[], int nrhs, const mx
     v = mxGetPr(plhs[0]);
     /* call coco_problem_get_initial_solution(...) */
     coco_problem_get_initial_solution(problem, v);
-    printf("%e", v[0]);
 }
 
 void cocoProblemGetLargestFValuesOfInterest(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
-- 
2.43.0


From 27dc4bded91c9adc84eef02c766d3bc4bf9315d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:22 +0000
Subject: [PATCH 36/37] fix: coco_strdupf: strings of any length, no fixed
 buffer to overflow

---
 src/coco_string.c | 49 ++++++++++++++++-------------------------------
 1 file changed, 17 insertions(+), 32 deletions(-)

diff --git a/src/coco_string.c b/src/coco_string.c
index 9b54cc4..0377935 100644
--- a/src/coco_string.c
+++ b/src/coco_string.c
@@ -29,43 +29,28 @@ static char *coco_strdup(const char *string) {
   return duplicate;
 }
 
-/**
- * @brief The length of the buffer used in the coco_vstrdupf function.
- *
- * @note This should be handled differently!
- */
-#define COCO_VSTRDUPF_BUFLEN 444
-
 /**
  * @brief Formatted string duplication, with va_list arguments.
+ *
+ * The length of the result is not limited: it is determined first, on a copy of args.
  */
 static char *coco_vstrdupf(const char *str, va_list args) {
-  static char buf[COCO_VSTRDUPF_BUFLEN];
-  long written;
-  /* apparently args can only be used once, therefore
-   * len = vsnprintf(NULL, 0, str, args) to find out the
-   * length does not work. Therefore we use a buffer
-   * which limits the max length. Longer strings should
-   * never appear anyway, so this is rather a non-issue. */
-
-#if 0
-  written = vsnprintf(buf, COCO_VSTRDUPF_BUFLEN - 2, str, args);
-  if (written < 0)
-  coco_error("coco_vstrdupf(): vsnprintf failed on '%s'", str);
-#else /* less safe alternative, if vsnprintf is not available */
-  assert(strlen(str) < COCO_VSTRDUPF_BUFLEN / 2 - 2);
-  if (strlen(str) >= COCO_VSTRDUPF_BUFLEN / 2 - 2)
-    coco_error("coco_vstrdupf(): string is too long");
-  written = vsprintf(buf, str, args);
-  if (written < 0)
-    coco_error("coco_vstrdupf(): vsprintf failed on '%s'", str);
-#endif
-  if (written > COCO_VSTRDUPF_BUFLEN - 3)
-    coco_error("coco_vstrdupf(): A suspiciously long string is tried to being duplicated '%s'", buf);
-  return coco_strdup(buf);
-}
+  va_list args_copy;
+  int length;
+  char *result;
+
+  va_copy(args_copy, args);
+  length = vsnprintf(NULL, 0, str, args_copy);
+  va_end(args_copy);
+  if (length < 0) {
+    coco_error("coco_vstrdupf(): vsnprintf failed on '%s'", str);
+    return NULL; /* Never reached */
+  }
 
-#undef COCO_VSTRDUPF_BUFLEN
+  result = coco_allocate_string((size_t)length + 1);
+  vsnprintf(result, (size_t)length + 1, str, args);
+  return result;
+}
 
 /**
  * Optional arguments are used like in sprintf.
-- 
2.43.0


From 629b313deab2e1dee37b78102256bf527d881605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 37/37] fix: the toy logger wrote to a closed file after its
 observer was freed

---
 src/logger_toy.c   | 14 ++++++++++++--
 src/observer_toy.c |  9 +++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/logger_toy.c b/src/logger_toy.c
index 7b5c479..e41f16e 100644
--- a/src/logger_toy.c
+++ b/src/logger_toy.c
@@ -20,7 +20,7 @@
  * @brief The toy logger data type.
  */
 typedef struct {
-  FILE *log_file;                       /**< @brief Pointer to the file already prepared for logging. */
+  FILE *log_file;                       /**< @brief The file prepared for logging, opened for this logger. */
   coco_observer_log_targets_t *targets; /**< @brief Triggers based on logarithmic target values. */
   size_t number_of_evaluations;         /**< @brief The number of evaluations performed so far. */
   int precision_x;                      /**< @brief Precision for outputting decision values. */
@@ -41,6 +41,11 @@ static void logger_toy_free(void *stuff) {
     coco_free_memory(logger->targets);
     logger->targets = NULL;
   }
+
+  if (logger->log_file != NULL) {
+    fclose(logger->log_file);
+    logger->log_file = NULL;
+  }
 }
 
 /**
@@ -86,7 +91,11 @@ static coco_problem_t *logger_toy(coco_observer_t *observer, coco_problem_t *inn
   logger_data = (logger_toy_data_t *)coco_allocate_memory(sizeof(*logger_data));
   logger_data->number_of_evaluations = 0;
   logger_data->targets = coco_observer_log_targets(observer->number_target_triggers, observer->log_target_precision);
-  logger_data->log_file = ((observer_toy_data_t *)observer->data)->log_file;
+  logger_data->log_file = fopen(((observer_toy_data_t *)observer->data)->file_name, "a");
+  if (logger_data->log_file == NULL) {
+    coco_error("logger_toy(): failed to open file %s.", ((observer_toy_data_t *)observer->data)->file_name);
+    return NULL; /* Never reached */
+  }
   logger_data->precision_x = observer->precision_x;
   logger_data->precision_f = observer->precision_f;
 
@@ -101,6 +110,7 @@ static coco_problem_t *logger_toy(coco_observer_t *observer, coco_problem_t *inn
           coco_problem_get_name(inner_problem), coco_version);
   fprintf(logger_data->log_file, "%% evaluation number | function value | target hit | %lu variables \n",
           (unsigned long)inner_problem->number_of_variables);
+  fflush(logger_data->log_file);
 
   return problem;
 }
diff --git a/src/observer_toy.c b/src/observer_toy.c
index 8d63089..f380f98 100644
--- a/src/observer_toy.c
+++ b/src/observer_toy.c
@@ -13,7 +13,8 @@ static void logger_toy_free(void *logger);
  * @brief The toy observer data type.
  */
 typedef struct {
-  FILE *log_file; /**< @brief File used for logging. */
+  FILE *log_file;  /**< @brief File used for logging. */
+  char *file_name; /**< @brief Name of this file (opened by each logger, which can outlive the observer). */
 } observer_toy_data_t;
 
 /**
@@ -30,6 +31,10 @@ static void observer_toy_free(void *stuff) {
     fclose(data->log_file);
     data->log_file = NULL;
   }
+  if (data->file_name != NULL) {
+    coco_free_memory(data->file_name);
+    data->file_name = NULL;
+  }
 }
 
 /**
@@ -69,8 +74,8 @@ static void observer_toy(coco_observer_t *observer, const char *options, coco_op
     return; /* Never reached */
   }
 
+  observer_data->file_name = file_name;
   coco_free_memory(string_value);
-  coco_free_memory(file_name);
 
   observer->logger_allocate_function = logger_toy;
   observer->logger_free_function = logger_toy_free;
-- 
2.43.0

