H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <math.h>\n#include "coco.h"\n'
SEEDS = [
dict(id="b22", prop="C22", needs="a constraint only slightly violated by the feasible direction (few of the constraints of few problems)",
  breaks="the announced initial solution of a constrained problem is infeasible",
  edits=[("src/c_linear.c", "  if (constraint_value > 0)\n    for (i = 0;", "  if (constraint_value > 1)\n    for (i = 0;")],
  demo=H+r'''
int main(void) {
  coco_suite_t *s; coco_problem_t *p; int bad = 0;
  coco_set_log_level("error");
  s = coco_suite("bbob-constrained", "instances: 1-15", "dimensions: 2,3,5,10");
  while ((p = coco_suite_get_next_problem(s, NULL)) != NULL) {
    double x[40], c[200]; size_t i;
    coco_problem_get_initial_solution(p, x);
    coco_evaluate_constraint(p, x, c);
    for (i = 0; i < coco_problem_get_number_of_constraints(p); i++)
      if (c[i] > 1e-9) bad++;
  }
  coco_suite_free(s);
  printf("%d violated\n", bad);
  return bad != 0;
}
'''),
dict(id="b23", prop="C23", needs="an integer variable far above its bound (above the range of int)",
  breaks="the value is that of the lower bound instead of the upper bound",
  edits=[("src/transform_vars_discretize.c", "    discretized_x[i] = coco_double_round(x[i]);\n", "    discretized_x[i] = (double)(int)floor(x[i] + 0.5);\n")],
  demo=H+r'''
int main(void) {
  coco_suite_t *s; coco_problem_t *p; int bad = 0;
  coco_set_log_level("error");
  s = coco_suite("bbob-mixint", "instances: 1", "dimensions: 5");
  while ((p = coco_suite_get_next_problem(s, NULL)) != NULL) {
    double x[5] = {0}, y[1], z[1]; size_t i, n = coco_problem_get_number_of_integer_variables(p);
    const double *u = coco_problem_get_largest_values_of_interest(p);
    for (i = 0; i < n; i++) x[i] = u[i];
    coco_evaluate_function(p, x, y);
    for (i = 0; i < n; i++) x[i] = 1e12;
    coco_evaluate_function(p, x, z);
    if (y[0] != z[0]) bad++;
  }
  coco_suite_free(s);
  return bad != 0;
}
'''),
dict(id="b24", prop="C24", needs="the option log_only_better and a sudden death of the process",
  breaks="rows of finished evaluations are lost",
  edits=[("src/logger_rw.c", "  fflush(logger->out_file);\n\n  if (problem->number_of_constraints > 0)", "  if (!logger->log_only_better)\n    fflush(logger->out_file);\n\n  if (problem->number_of_constraints > 0)")],
  demo=H+r'''
#include <unistd.h>
#include <sys/wait.h>
int main(void) {
  int st, c;
  pid_t k = fork();
  if (k == 0) {
    coco_suite_t *s; coco_observer_t *o; coco_problem_t *p; double x[2] = {1, 1}, y[1];
    coco_set_log_level("error");
    s = coco_suite("bbob", "instances: 1", "dimensions: 2");
    o = coco_observer("rw", "result_folder: R outer_folder: E log_only_better: 1");
    p = coco_suite_get_next_problem(s, o);
    coco_evaluate_function(p, x, y);
    _exit(0);
  }
  waitpid(k, &st, 0);
  c = system("cat E/R/* | grep -q '^1'");
  return c != 0;
}
'''),
dict(id="b25", prop="C25", needs="an unsuitable value of precision_g together with the default or a proper precision_f",
  breaks="an unsuitable precision of the constraints is used instead of the default",
  edits=[("src/coco_observer.c", "    if ((precision_g < 1) || (precision_g > 32)) {", "    if ((precision_f < 1) || (precision_g > 32)) {")],
  demo=H+r'''
int main(void) {
  coco_suite_t *s; coco_observer_t *o; coco_problem_t *p; double x[2] = {1, 1}, y[1];
  coco_set_log_level("error");
  s = coco_suite("bbob-constrained", "instances: 1", "dimensions: 2");
  o = coco_observer("rw", "result_folder: R outer_folder: E log_cons: 1 log_variables: none precision_g: 0");
  p = coco_suite_get_next_problem(s, o);
  coco_evaluate_function(p, x, y);
  coco_problem_free(p);
  coco_observer_free(o);
  return system("cat E/R/* | grep '^1' | grep -Eq '[.][0-9][0-9][0-9]e[-+0-9]*.$'") != 0;
}
'''),
dict(id="b26", prop="C26", needs="more than 595 numbers drawn from one generator",
  breaks="the sequence differs from the one of the seed after the first refill",
  edits=[("src/coco_random.c", "  state->index = 0;\n}", "  state->index = 1;\n}")],
  demo=H+r'''
int main(void) {
  double v[607]; double want; unsigned seed = 7; int i, k; unsigned q = 7;
  coco_random_state_t *r = coco_random_new(7);
  for (i = 0; i < 607; i++) { v[i] = q / 4294967295.0; q = 1812433253U * (q ^ (q >> 30)) + (i + 1); }
  for (i = 12; i < 607; i++) if (coco_random_uniform(r) != v[i]) return 2;
  want = v[0] + v[607 - 273];
  if (want >= 1.0) want -= 1.0;
  return coco_random_uniform(r) != want;
}
'''),
dict(id="b27", prop="C27", needs="a point outside the box on the side away from the optimum",
  breaks="the linear slope gets flat on the wrong side",
  edits=[("src/f_linear_slope.c", "    if (x[i] * best_parameter[i] < 25.0) {\n      result +=", "    if (fabs(x[i] * best_parameter[i]) < 25.0) {\n      result +=")],
  demo=H+r'''
int main(void) {
  coco_suite_t *s; coco_problem_t *p; double y[4]; int i, n = 0;
  coco_set_log_level("error");
  s = coco_suite("bbob", "instances: 1", "dimensions: 2 function_indices: 5");
  p = coco_suite_get_next_problem(s, NULL);
  for (i = 0; i < 4; i++) {
    double x[2]; x[0] = i & 1 ? 6 : -6; x[1] = i & 2 ? 6 : -6;
    coco_evaluate_function(p, x, &y[i]);
  }
  /* the four corners differ: the best is at one of them only */
  for (i = 0; i < 4; i++) n += fabs(y[i] - y[0]) < 1;
  return n > 1;
}
'''),
dict(id="b28", prop="C27", needs="a bi-objective function number above 55 (bbob-biobj-ext) of one pair",
  breaks="the second objective is another function than documented",
  edits=[("src/suite_biobj_utilities.c", "    function1_idx = 14;\n    function2_idx = 18;", "    function1_idx = 14;\n    function2_idx = 17;")],
  demo=H+r'''
int main(void) {
  coco_suite_t *s; coco_problem_t *p;
  coco_set_log_level("error");
  s = coco_suite("bbob-biobj-ext", "instances: 1", "dimensions: 2 function_indices: 80");
  p = coco_suite_get_next_problem(s, NULL);
  return strstr(coco_problem_get_name(p), "f015") == NULL || strstr(coco_problem_get_name(p), "f019") == NULL;
}
'''),
dict(id="b29", prop="C26", needs="level error and an unknown level",
  breaks="an unknown level changes the level",
  edits=[("src/coco_utilities.c", "  else if (strcmp(log_level, \"debug\") == 0)\n", "  else if (strncmp(log_level, \"debug\", 1) == 0)\n")],
  demo=H+r'''
int main(void) {
  coco_set_log_level("error");
  coco_set_log_level("detailed");
  return strcmp(coco_set_log_level(""), "error") != 0;
}
'''),
dict(id="b30", prop="C25", needs="an unknown option that is the beginning of a known one",
  breaks="the unknown option is not reported",
  edits=[("src/coco_utilities.c", "      if (strcmp(given_option_keys->keys[i], known_option_keys->keys[j]) == 0) {\n        found = 1;", "      if (strncmp(given_option_keys->keys[i], known_option_keys->keys[j], strlen(given_option_keys->keys[i])) == 0) {\n        found = 1;")],
  demo=H+r'''
#include <unistd.h>
int main(void) {
  coco_observer_t *o;
  freopen("out", "w", stdout); dup2(1, 2);
  coco_set_log_level("warning");
  o = coco_observer("toy", "result_folder: R outer_folder: E precision: 3");
  coco_observer_free(o);
  fflush(0);
  return system("grep -q ignored out") != 0;
}
'''),
dict(id="b31", prop="C24", needs="a problem with integer variables and another integer variable negative or rounded (x below 0)",
  breaks="integer variables are logged truncated instead of rounded",
  edits=[("src/logger_rw.c", "          fprintf(logger->out_file, \"%d\\t\", coco_double_to_int(x[i]));", "          fprintf(logger->out_file, \"%d\\t\", (int)(x[i] + 0.5));")],
  demo=H+r'''
int main(void) {
  coco_suite_t *s; coco_observer_t *o; coco_problem_t *p; double x[5] = {-1.0, 1, 1, 1, 1}, y[1];
  coco_set_log_level("error");
  s = coco_suite("bbob-mixint", "instances: 1", "dimensions: 5");
  o = coco_observer("rw", "result_folder: R outer_folder: E log_variables: all log_discrete_as_int: 1");
  p = coco_suite_get_next_problem(s, o);
  coco_evaluate_function(p, x, y);
  coco_problem_free(p);
  coco_observer_free(o);
  return system("cat E/R/* | grep -P '^1\\t' | grep -Pq '\\t-1\\t'") != 0;
}
'''),
]
