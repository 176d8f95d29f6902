H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <math.h>\n#include "coco.h"\n'
SEEDS = [
dict(id="b11", prop="C11", needs="an archived solution with exactly the same first objective value as a later solution that is better in the second",
  breaks="the dominated solution stays in the final archive",
  edits=[("src/logger_biobj.c", """      if (dominance == 1) {
        /* The new point dominates the next point, remove the next point */
        if (logger->compute_indicators) {
          for (i = 0; i < LOGGER_BIOBJ_NUMBER_OF_INDICATORS; i++) {
            logger->indicators[i]->current_value -= ((logger_biobj_avl_item_t *)node->item)->indicator_contribution[i];
          }
        }
        next_node = node->next;
""", """      if ((dominance == 1) && (((logger_biobj_avl_item_t *)node->item)->normalized_y[0] > node_item->normalized_y[0])) {
        /* The new point dominates the next point, remove the next point */
        if (logger->compute_indicators) {
          for (i = 0; i < LOGGER_BIOBJ_NUMBER_OF_INDICATORS; i++) {
            logger->indicators[i]->current_value -= ((logger_biobj_avl_item_t *)node->item)->indicator_contribution[i];
          }
        }
        next_node = node->next;
""")],
  demo=H+r'''
static double Y[20000][2];
int main(void) {
  /* plateaus in one of the objectives of some functions of bbob-biobj-ext */
  int f, bad = 0, runs = 0;
  coco_set_log_level("error");
  for (f = 56; f <= 92; f++) {
    coco_suite_t *s = coco_suite("bbob-biobj-ext", "instances: 1", "dimensions: 2");
    coco_observer_t *o; coco_problem_t *p; char opt[100], name[300], line[1000]; double x[2], y[2]; int n = 0, i, j, rows = 0, nd = 0; FILE *h;
    sprintf(opt, "result_folder: R%d log_nondominated: final", f);
    o = coco_observer("bbob-biobj", opt);
    p = coco_problem_add_observer(coco_suite_get_problem_by_function_dimension_instance(s, f, 2, 1), o);
    for (i = 0; i < 60; i++) for (j = 0; j < 60; j++) {
      x[0] = -4.9 + i * .163; x[1] = -4.9 + j * .163;
      coco_evaluate_function(p, x, y); Y[n][0] = y[0]; Y[n][1] = y[1]; n++;
    }
    { char id[100]; strcpy(id, coco_problem_get_id(p)); sprintf(name, "%s_nondom_final.adat", id); }
    coco_problem_free(p); coco_observer_free(o); coco_suite_free(s);
    { char cmd[400]; FILE *q; sprintf(cmd, "find exdata/R%d -name '*.adat'", f); q = popen(cmd, "r"); if (!q || !fgets(line, sizeof line, q)) return 2; pclose(q); line[strcspn(line, "\n")] = 0; }
    h = fopen(line, "r"); if (!h) return 2;
    { static double A[20000][2]; unsigned long e;
      while (fgets(line, sizeof line, h)) if (line[0] != '%') { sscanf(line, "%lu %lf %lf", &e, &A[rows][0], &A[rows][1]); rows++; }
      fclose(h);
      for (i = 0; i < rows; i++) for (j = 0; j < rows; j++)
        if (i != j && A[j][0] <= A[i][0] && A[j][1] <= A[i][1] && (A[j][0] < A[i][0] - 1e-6 || A[j][1] < A[i][1] - 1e-6)) bad++; }
    runs++; (void)nd;
  }
  printf("%d runs, %d dominated rows\n", runs, bad);
  return bad ? 1 : 0;
}
'''),
dict(id="b12", prop="C12", needs="solutions fed with a gap that contains an evaluation trigger, the next solution improving the value",
  breaks="the row of the trigger in the gap shows the value of the solution that came later",
  edits=[("src/logger_biobj.c", """            fprintf(indicator->tdat_file, "%lu\\t%.*e\\n", (unsigned long)j, logger->precision_f,
                    indicator->previous_value);""", """            fprintf(indicator->tdat_file, "%lu\\t%.*e\\n", (unsigned long)j, logger->precision_f,
                    indicator->overall_value);""")],
  demo=H+r'''
int main(void) {
  coco_suite_t *s; coco_observer_t *o; coco_problem_t *p; double y[2], z[2]; char line[1000]; FILE *q, *h; double v1 = 0, v2 = 0, v; unsigned long e;
  coco_set_log_level("error");
  s = coco_suite("bbob-biobj", "instances: 1", "dimensions: 2");
  o = coco_observer("bbob-biobj", "result_folder: R log_nondominated: read");
  p = coco_problem_add_observer(coco_suite_get_problem_by_function_dimension_instance(s, 1, 2, 1), o);
  { double x[2] = {0, 0}; coco_problem_t *u = coco_suite_get_problem_by_function_dimension_instance(s, 1, 2, 1); coco_evaluate_function(u, x, y); coco_problem_free(u); }
  z[0] = y[0] + 50; z[1] = y[1] + 50;
  coco_logger_biobj_feed_solution(p, 1, z);
  coco_logger_biobj_feed_solution(p, 30, y);
  coco_problem_free(p); coco_observer_free(o); coco_suite_free(s);
  q = popen("find exdata/R -name '*.tdat'", "r"); if (!q || !fgets(line, sizeof line, q)) return 2; pclose(q); line[strcspn(line, "\n")] = 0;
  h = fopen(line, "r"); if (!h) return 2;
  while (fgets(line, sizeof line, h)) if (sscanf(line, "%lu %lf", &e, &v) == 2) { if (e == 1) v1 = v; else if (e == 10) v2 = v; }
  return v1 > 0 && v1 == v2 ? 0 : 1;
}
'''),
dict(id="b13", prop="C13", needs="reading past the two extreme solutions, then adding a solution, then reading on",
  breaks="after the archive changed, reading the solutions does not start again with all of them",
  edits=[("src/coco_archive.c", """    archive->current_solution = NULL;
    archive->extremes_already_returned = 0;
  }
}""", """    archive->current_solution = NULL;
  }
}""")],
  demo=H+r'''
int main(void) {
  coco_archive_t *a; int i, n = 0; const char *t;
  coco_set_log_level("error");
  a = coco_archive("bbob-biobj", 1, 2, 1);
  for (i = 0; i < 4; i++) coco_archive_get_next_solution_text(a);
  t = coco_archive_get_next_solution_text(a);
  { double lo = 0, hi = 0; const char *s1; double b1, b2, c1, c2; unsigned long e; coco_archive_t *b = coco_archive("bbob-biobj", 1, 2, 1);
    s1 = coco_archive_get_next_solution_text(b); sscanf(s1, "%lu %lf %lf", &e, &b1, &b2);
    s1 = coco_archive_get_next_solution_text(b); sscanf(s1, "%lu %lf %lf", &e, &c1, &c2); (void)lo; (void)hi; (void)t;
    coco_archive_add_solution(a, (b1 + c1) / 2, (b2 + c2) / 2, "middle"); coco_archive_free(b); }
  while (n < 10 && strlen(coco_archive_get_next_solution_text(a)) > 0) n++;
  coco_archive_free(a);
  return n == 3 ? 0 : 1;
}
'''),
]
