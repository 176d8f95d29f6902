H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <math.h>\n#include "coco.h"\n'
LINE = r'''
static char last[4096], line[4096];
static int rows(const char *f) { FILE *h = fopen(f, "r"); int n = 0; last[0] = 0; if (!h) return -1;
  while (fgets(line, sizeof line, h)) if (line[0] != '%') { n++; strcpy(last, line); } fclose(h); return n; }
'''
SEEDS = [
dict(id="b07", prop="C07", needs="a best solution that improved without reaching a new target, followed by a worse last evaluation",
  breaks="the closing row shows the point of an older evaluation next to the best value",
  edits=[("src/logger_bbob.c", """    logger->best_found_value = max_value + sum_constraints;
    for (i = 0; i < problem->number_of_variables; i++)
      logger->best_found_solution[i] = x[i]; /* May well be infeasible */

""", "    logger->best_found_value = max_value + sum_constraints;\n\n"),
  ("src/logger_bbob.c", """      logger_bbob_output(logger->dat_file, logger, x, y_logged, logger->best_found_value, constraints);
""", """      for (i = 0; i < problem->number_of_variables; i++)
        logger->best_found_solution[i] = x[i]; /* May well be infeasible */
      logger_bbob_output(logger->dat_file, logger, x, y_logged, logger->best_found_value, constraints);
""")],
  demo=H+LINE+r'''
int main(void) {
  coco_suite_t *s; coco_observer_t *o; coco_problem_t *p; double y, x[2] = {4, 4}, z[2] = {-4.5, 4.25}; int i; char w[64];
  coco_set_log_level("error");
  s = coco_suite("bbob", "instances: 1", "dimensions: 2");
  o = coco_observer("bbob", "result_folder: R lin_target_precision: 1e6 number_target_triggers: 1");
  p = coco_problem_add_observer(coco_suite_get_problem_by_function_dimension_instance(s, 1, 2, 1), o);
  coco_evaluate_function(p, z, &y);
  for (i = 0; i < 12; i++) { x[0] = 4 - i * 0.01; coco_evaluate_function(p, x, &y); }
  sprintf(w, " %+5.4e", x[0]);
  coco_evaluate_function(p, z, &y);
  coco_problem_free(p); coco_observer_free(o); coco_suite_free(s);
  if (rows("exdata/R/data_f1/bbobexp_f1_DIM2.dat") < 1) return 2;
  return strstr(last, w) ? 0 : 1;
}
'''),
dict(id="b08", prop="C08", needs="constraint evaluations between two function evaluations that move the sum over a trigger",
  breaks="the evaluation that reaches the trigger has no row (the next one has)",
  edits=[("src/logger_bbob.c", "  logger->num_cons_evaluations = problem->evaluations_constraints;\n", ""),
   ("src/logger_bbob.c", """    logger->last_logged_eval_tdat = logger->num_func_evaluations;
  }
""", """    logger->last_logged_eval_tdat = logger->num_func_evaluations;
  }
  logger->num_cons_evaluations = problem->evaluations_constraints;
""")],
  demo=H+LINE+r'''
int main(void) {
  coco_suite_t *s; coco_observer_t *o; coco_problem_t *p; double y, x[2] = {1, 1}, c[64]; int i; FILE *h; int ok = 0; unsigned long a, b;
  coco_set_log_level("error");
  s = coco_suite("bbob-constrained", "instances: 1", "dimensions: 2");
  o = coco_observer("bbob", "result_folder: R base_evaluation_triggers: 1");
  p = coco_problem_add_observer(coco_suite_get_problem_by_function_dimension_instance(s, 1, 2, 1), o);
  coco_evaluate_function(p, x, &y);
  coco_evaluate_function(p, x, &y);
  for (i = 0; i < 40; i++) coco_evaluate_constraint(p, x, c);
  coco_evaluate_function(p, x, &y);
  for (i = 0; i < 5; i++) coco_evaluate_function(p, x, &y);
  coco_problem_free(p); coco_observer_free(o); coco_suite_free(s);
  h = fopen("exdata/R/data_f1/bbobexp_f1_DIM2.tdat", "r"); if (!h) return 2;
  while (fgets(line, sizeof line, h)) if (sscanf(line, "%lu %lu", &a, &b) == 2 && a == 3 && b == 40) ok = 1;
  return ok ? 0 : 1;
}
'''),
dict(id="b09", prop="C09", needs="the same function in dimension 20 and then in dimension 2",
  breaks="the data of the second problem go to the data file of the first one",
  edits=[("src/logger_bbob.c", "    relative_path_pointer = coco_strdup(relative_path);\n    coco_create_unique_filename(logger->observer->result_folder, &relative_path_pointer, \".dat\");\n",
  """    /* A data file that was used right before is not opened under another name */
    if (strncmp(observer_data->last_dat_file, relative_path, strlen(relative_path)) == 0) {
      relative_path_pointer = coco_strdup(observer_data->last_dat_file);
    } else {
      relative_path_pointer = coco_strdup(relative_path);
      coco_create_unique_filename(logger->observer->result_folder, &relative_path_pointer, ".dat");
    }
""")],
  demo=H+LINE+r'''
int main(void) {
  coco_suite_t *s; coco_observer_t *o; coco_problem_t *p; double y, x[20] = {0}; int d[2] = {20, 2}, i;
  coco_set_log_level("error");
  s = coco_suite("bbob", "instances: 1", "dimensions: 2,20");
  o = coco_observer("bbob", "result_folder: R");
  for (i = 0; i < 2; i++) {
    p = coco_problem_add_observer(coco_suite_get_problem_by_function_dimension_instance(s, 1, d[i], 1), o);
    coco_evaluate_function(p, x, &y);
    coco_problem_free(p);
  }
  coco_observer_free(o); coco_suite_free(s);
  return rows("exdata/R/data_f1/bbobexp_f1_DIM2.dat") == 1 && rows("exdata/R/data_f1/bbobexp_f1_DIM20.dat") == 1 ? 0 : 1;
}
'''),
dict(id="b10", prop="C10", needs="a restart signalled right after an evaluation that was written to the data file",
  breaks="the restart leaves no row",
  edits=[("src/logger_bbob.c", "  if (logger->num_func_evaluations > 0)\n    logger->algorithm_restarted = 1;", "  if (logger->num_func_evaluations > logger->last_logged_eval_dat)\n    logger->algorithm_restarted = 1;")],
  demo=H+LINE+r'''
int main(void) {
  coco_suite_t *s; coco_observer_t *o; coco_problem_t *p; double y, x[2] = {4, 4}; int i;
  coco_set_log_level("error");
  s = coco_suite("bbob", "instances: 1", "dimensions: 2");
  o = coco_observer("bbob", "result_folder: R");
  p = coco_problem_add_observer(coco_suite_get_problem_by_function_dimension_instance(s, 1, 2, 1), o);
  for (i = 0; i < 4; i++) { x[0] -= .5; coco_evaluate_function(p, x, &y); coco_observer_signal_restart(o, p); }
  coco_evaluate_function(p, x, &y);
  coco_problem_free(p); coco_observer_free(o); coco_suite_free(s);
  return rows("exdata/R/data_f1/bbobexp_f1_DIM2.rdat") == 4 ? 0 : 1;
}
'''),
dict(id="b17", prop="C17", needs="a problem in dimension 22 or more and a process that dies before the problem is closed",
  breaks="rows of evaluations that had returned are lost",
  edits=[("src/logger_bbob.c", """        fprintf(data_file, " %+5.4e", x[i]);
    }
  }
  fprintf(data_file, "\\n");

  /* Flush output so that impatient users can see progress.
   * Otherwise it can take a long time until the output appears.
   */
  fflush(data_file);
""", """        fprintf(data_file, " %+5.4e", x[i]);
    }
    fprintf(data_file, "\\n");

    /* Flush output so that impatient users can see progress.
     * Otherwise it can take a long time until the output appears.
     */
    fflush(data_file);
  } else {
    fprintf(data_file, "\\n");
  }
""")],
  demo=H+LINE+r'''
#include <unistd.h>
#include <sys/wait.h>
int main(void) {
  if (!fork()) {
    coco_suite_t *s; coco_observer_t *o; coco_problem_t *p; double y, x[40] = {0}; int i;
    coco_set_log_level("error");
    s = coco_suite("bbob-largescale", "instances: 1", "dimensions: 40");
    o = coco_observer("bbob", "result_folder: R");
    p = coco_problem_add_observer(coco_suite_get_problem_by_function_dimension_instance(s, 1, 40, 1), o);
    for (i = 0; i < 5; i++) coco_evaluate_function(p, x, &y);
    _exit(0);
  }
  wait(NULL);
  return rows("exdata/R/data_f1/bbobexp_f1_DIM40.tdat") == 5 && rows("exdata/R/data_f1/bbobexp_f1_DIM40.dat") >= 1 ? 0 : 1;
}
'''),
]
