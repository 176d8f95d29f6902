H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <math.h>\n#include "coco.h"\n'
SEEDS = [
dict(id="b01", prop="C01", needs="asking by function/dimension/instance while an iteration is under way",
  breaks="the iteration jumps to behind the problem that was asked for, so problems are skipped or delivered twice",
  edits=[("src/coco_suite.c", "  return coco_suite_get_problem_from_indices(suite, (size_t)function_idx, (size_t)dimension_idx, (size_t)instance_idx);",
  "  /* Remember the position of the last problem handed out */\n  if (suite->current_function_idx >= 0)\n    suite->current_function_idx = function_idx;\n  return coco_suite_get_problem_from_indices(suite, (size_t)function_idx, (size_t)dimension_idx, (size_t)instance_idx);")],
  demo=H+r'''
int main(void) {
  coco_suite_t *s; coco_problem_t *p, *q; int n = 0, f[64] = {0}, i;
  coco_set_log_level("error");
  s = coco_suite("bbob", "instances: 1-2", "dimensions: 2");
  while ((p = coco_suite_get_next_problem(s, NULL)) && n < 200) {
    f[coco_problem_get_suite_dep_index(p) % 48]++; n++;
    if (n == 5) { q = coco_suite_get_problem_by_function_dimension_instance(s, 20, 2, 1); coco_problem_free(q); }
  }
  for (i = 0; i < 48; i++) if (f[i] != 1) return 1;
  coco_suite_free(s);
  return n == 48 ? 0 : 1;
}
'''),
dict(id="b02", prop="C02", needs="a bbob-biobj-mixint suite whose instances are not numbered 1, 2, ...",
  breaks="the index a problem reports is not the index it is addressed by",
  edits=[("src/suite_biobj_mixint.c", "  problem->suite_dep_index = coco_suite_encode_problem_index(suite, function_idx, dimension_idx, instance_idx);",
  "  problem->suite_dep_index = coco_suite_encode_problem_index(suite, function_idx, dimension_idx, instance - 1);")],
  demo=H+r'''
int main(void) {
  coco_suite_t *s; coco_problem_t *p; size_t i;
  coco_set_log_level("error");
  s = coco_suite("bbob-biobj-mixint", "instances: 3,5", "dimensions: 5");
  for (i = 0; i < 6; i++) {
    p = coco_suite_get_problem(s, i);
    if (coco_problem_get_suite_dep_index(p) != i) return 1;
    coco_problem_free(p);
  }
  coco_suite_free(s);
  return 0;
}
'''),
dict(id="b03", prop="C03", needs="an index list that is not in increasing order",
  breaks="entries named after a larger one are lost from the selection",
  edits=[("src/coco_suite.c", "      if (i == indices[j]) {\n        found = 1;\n        break;\n      }",
  "      if (indices[j] >= i) {\n        /* The indices are sorted, no need to look further */\n        found = (indices[j] == i);\n        break;\n      }")],
  demo=H+r'''
int main(void) {
  coco_suite_t *s; coco_problem_t *p; int n = 0;
  coco_set_log_level("error");
  s = coco_suite("bbob", "instances: 1", "dimensions: 2 function_indices: 7,3,12-14,1");
  while ((p = coco_suite_get_next_problem(s, NULL))) n++;
  coco_suite_free(s);
  return n == 6 ? 0 : 1;
}
'''),
dict(id="b04", prop="C04", needs="two consecutive points with the same first coordinate and the same sum of coordinates (for example two coordinates swapped)",
  breaks="the value of the second point is computed from the transformed first one",
  edits=[("src/transform_vars_affine.c", "  double *M, *b, *x;\n", "  double *M, *b, *x;\n  double first, sum; /**< @brief Fingerprint of the last transformed vector */\n  int valid;\n"),
  ("src/transform_vars_affine.c", '''  for (i = 0; i < inner_problem->number_of_variables; ++i) {
    /* data->M has problem->number_of_variables columns and inner_problem->number_of_variables rows. */
    const double *current_row = data->M + i * problem->number_of_variables;
    data->x[i] = data->b[i];
    for (j = 0; j < problem->number_of_variables; ++j) {
      data->x[i] += x[j] * current_row[j];
    }
  }

  coco_evaluate_function(inner_problem, data->x, y);

  if (problem->number_of_constraints > 0) {''', '''  /* Do not transform the same vector again */
  double sum = 0;
  for (i = 0; i < problem->number_of_variables; ++i)
    sum += x[i];
  if (!data->valid || (data->first != x[0]) || (data->sum != sum)) {
    for (i = 0; i < inner_problem->number_of_variables; ++i) {
      /* data->M has problem->number_of_variables columns and inner_problem->number_of_variables rows. */
      const double *current_row = data->M + i * problem->number_of_variables;
      data->x[i] = data->b[i];
      for (j = 0; j < problem->number_of_variables; ++j) {
        data->x[i] += x[j] * current_row[j];
      }
    }
    data->first = x[0];
    data->sum = sum;
    data->valid = 1;
  }

  coco_evaluate_function(inner_problem, data->x, y);

  if (problem->number_of_constraints > 0) {'''),
  ("src/transform_vars_affine.c", "  data->x = coco_allocate_vector(inner_problem->number_of_variables);\n", "  data->x = coco_allocate_vector(inner_problem->number_of_variables);\n  data->valid = 0;\n")],
  demo=H+r'''
int main(void) {
  coco_suite_t *s; coco_problem_t *p; double x[5] = {1, 2, 3, 2, 1}, z[5] = {1, 3, 2, 1, 2}, y1, y2, y3; size_t f;
  coco_set_log_level("error");
  s = coco_suite("bbob", "instances: 1", "dimensions: 5");
  for (f = 0; f < 24; f++) {
    p = coco_suite_get_problem(s, coco_suite_encode_problem_index(s, f, 2, 0));
    coco_evaluate_function(p, z, &y1); coco_evaluate_function(p, x, &y2); coco_evaluate_function(p, z, &y3);
    if (y1 != y3) return 1;
    coco_problem_free(p);
    p = coco_suite_get_problem(s, coco_suite_encode_problem_index(s, f, 2, 0));
    coco_evaluate_function(p, x, &y1);
    if (y1 != y2) return 1;
    coco_problem_free(p);
  }
  coco_suite_free(s);
  return 0;
}
'''),
dict(id="b05", prop="C05", needs="a constrained problem, a better infeasible point evaluated after constraint evaluations with undefined coordinates",
  breaks="a constraint evaluation at an undefined point is counted",
  edits=[("src/coco_problem.c", '''    coco_vector_set_to_nan(y, coco_problem_get_number_of_constraints(problem));
    return;
  }

  problem->evaluate_constraint(problem, x, y, update_counter);
  if (update_counter)
    problem->evaluations_constraints++;''', '''    coco_vector_set_to_nan(y, coco_problem_get_number_of_constraints(problem));
  } else {
    problem->evaluate_constraint(problem, x, y, update_counter);
  }
  if (update_counter)
    problem->evaluations_constraints++;''')],
  demo=H+r'''
int main(void) {
  coco_suite_t *s; coco_problem_t *p; double x[2] = {0, 1}, c[64];
  coco_set_log_level("error");
  s = coco_suite("bbob-constrained", "instances: 1", "dimensions: 2");
  p = coco_suite_get_problem(s, 3);
  coco_evaluate_constraint(p, x, c);
  x[1] = NAN;
  coco_evaluate_constraint(p, x, c);
  if (!(c[0] != c[0])) return 1;
  if (coco_problem_get_evaluations_constraints(p) != 1) return 1;
  coco_problem_free(p); coco_suite_free(s);
  return 0;
}
'''),
dict(id="b06", prop="C06", needs="a constrained problem observed by the rw logger",
  breaks="each evaluation through the rw observer also counts as a constraint evaluation of the problem below, visible once the observer is removed",
  edits=[("src/logger_rw.c", "    inner_problem->evaluate_constraint(inner_problem, x, constraints, 0);", "    coco_evaluate_constraint(inner_problem, x, constraints);")],
  demo=H+r'''
int main(void) {
  coco_suite_t *s; coco_problem_t *p; coco_observer_t *o; double x[2] = {0, 1}, y;
  coco_set_log_level("error");
  s = coco_suite("bbob-constrained", "instances: 1", "dimensions: 2");
  o = coco_observer("rw", "result_folder: demo");
  p = coco_suite_get_problem(s, 3);
  p = coco_problem_add_observer(p, o);
  coco_evaluate_function(p, x, &y);
  p = coco_problem_remove_observer(p, o);
  if (coco_problem_get_evaluations_constraints(p) != 0 || coco_problem_get_evaluations(p) != 1) return 1;
  coco_problem_free(p); coco_observer_free(o); coco_suite_free(s);
  return 0;
}
'''),
dict(id="b14", prop="C14", needs="reading the optimum before the observer is added",
  breaks="a problem whose optimum was read before it was observed can be benchmarked",
  edits=[("src/coco_problem.c", "  problem->is_tainted = other->is_tainted;", "  problem->is_tainted = 0;"),
   ("src/logger_bbob.c", "  if (problem->is_tainted || inner_problem->is_tainted) {", "  if (problem->is_tainted) {")],
  demo=H+r'''
#include <sys/wait.h>
#include <unistd.h>
int main(void) {
  coco_suite_t *s; coco_problem_t *p; coco_observer_t *o; double x[2] = {0, 1}, y; int st; pid_t k;
  coco_set_log_level("error");
  fflush(stdout);
  if ((k = fork()) == 0) {
    s = coco_suite("bbob", "instances: 1", "dimensions: 2");
    o = coco_observer("bbob", "result_folder: demo");
    p = coco_suite_get_problem(s, 3);
    coco_problem_get_best_parameter(p, x);
    p = coco_problem_add_observer(p, o);
    coco_evaluate_function(p, x, &y);
    _exit(7);
  }
  waitpid(k, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 7;
}
'''),
]
