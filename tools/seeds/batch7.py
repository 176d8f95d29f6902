H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <math.h>\n#include <unistd.h>\n#include <sys/wait.h>\n#include "coco.h"\n'
LINE = r'''
static char last[4096], line[4096];
static int rows(const char *f) { FILE *h = fopen(f, "r"); int n = 0; last[0] = 0; if (!h) return -1;
  while (fgets(line, sizeof line, h)) if (line[0] != '%') { n++; strcpy(last, line); } fclose(h); return n; }
'''
L = "src/logger_biobj.c"
P = "build/python/src/cocoex/interface.pyx"
U = "build/python/src/cocoex/utilities.py"
SEEDS = [
dict(id="b36", prop="C15", needs="a bi-objective problem logged with another mode than log_nondominated: all, and a solution that dominates one that was not written yet",
  breaks="the buffer keeps a solution that was released with the archive",
  edits=[(L, """        next_node = node->next;
        avl_item_delete(logger->buffer_tree, node->item);
""", """        next_node = node->next;
        if (logger->log_nondom_mode == LOG_NONDOM_ALL)
          avl_item_delete(logger->buffer_tree, node->item);
""")],
  flags="-fsanitize=address",
  demo=H+r'''
int main(void) {
  coco_suite_t *s; coco_observer_t *o; coco_problem_t *p; double y[2], x[2] = {4, 4}; int i;
  coco_set_log_level("error");
  s = coco_suite("bbob-biobj", "instances: 1", "dimensions: 2");
  o = coco_observer("bbob-biobj", "result_folder: R log_nondominated: final");
  srand(1);
  while ((p = coco_suite_get_next_problem(s, o)) != NULL)
    for (i = 1; i < 300; i++) { x[0] = 8. * rand() / RAND_MAX - 4; x[1] = 8. * rand() / RAND_MAX - 4; coco_evaluate_function(p, x, y); }
  coco_observer_free(o); coco_suite_free(s);
  return 0;
}
'''),
dict(id="b37", prop="C17", needs="a bi-objective problem with log_nondominated: all, and a process that dies before the problem is closed",
  breaks="archive rows of evaluations that had returned are lost",
  edits=[(L, "    fflush(logger->adat_file);\n", "")],
  demo=H+LINE+r'''
int main(void) {
  if (!fork()) {
    coco_suite_t *s; coco_observer_t *o; coco_problem_t *p; double y[2], x[2] = {4, 4}; int i;
    coco_set_log_level("error");
    s = coco_suite("bbob-biobj", "instances: 1", "dimensions: 2");
    o = coco_observer("bbob-biobj", "result_folder: R log_nondominated: all");
    p = coco_suite_get_next_problem(s, o);
    for (i = 0; i < 30; i++) { x[0] -= .1; x[1] -= .1; coco_evaluate_function(p, x, y); }
    _exit(0);
  }
  wait(NULL);
  i_am: return rows("exdata/R/archive/bbob-biobj_f01_i01_d02_nondom_all.adat") >= 10 ? 0 : 1;
}
'''.replace("i_am: ", "")),
dict(id="b38", prop="C10", needs="a restart signalled before the first evaluation of a bi-objective problem",
  breaks="the first evaluation is recorded as a restart",
  edits=[(L, "  if (logger->num_func_evaluations > 0)\n    logger->algorithm_restarted = 1;", "  logger->algorithm_restarted = 1;")],
  demo=H+LINE+r'''
static int run(const char *r, int signal) {
  coco_suite_t *s; coco_observer_t *o; coco_problem_t *p; double y[2], x[2] = {4, 4}; int i; char b[200];
  sprintf(b, "result_folder: %s", r);
  s = coco_suite("bbob-biobj", "instances: 1", "dimensions: 2");
  o = coco_observer("bbob-biobj", b);
  p = coco_suite_get_next_problem(s, o);
  if (signal) coco_observer_signal_restart(o, p);
  for (i = 0; i < 30; i++) { x[0] -= .1; x[1] -= .1; coco_evaluate_function(p, x, y); }
  coco_problem_free(p); coco_observer_free(o);
  sprintf(b, "ls exdata/%s/*/ | grep -c .", r); system(b);
  sprintf(b, "cat $(find exdata/%s -name '*.rdat') > %s.txt", r, r); system(b);
  sprintf(b, "%s.txt", r);
  return rows(b);
}
int main(void) {
  int a, b;
  coco_set_log_level("error");
  a = run("A", 0); b = run("B", 1);
  printf("%d %d\n", a, b);
  return a == b ? 0 : 1;
}
'''),
dict(id="b39", prop="C06", needs="the index of an observed problem in its suite",
  breaks="an observed problem says it is the first one of its suite",
  edits=[("src/coco_problem.c", "  problem->suite_dep_index = other->suite_dep_index;\n", "")],
  demo=H+r'''
int main(void) {
  coco_suite_t *s; coco_observer_t *o; coco_problem_t *p; size_t i; int bad = 0;
  coco_set_log_level("error");
  s = coco_suite("bbob", "instances: 1", "dimensions: 2");
  o = coco_observer("bbob", "result_folder: R");
  for (i = 0; i < 24; i++) {
    p = coco_suite_get_problem(s, i);
    bad += coco_problem_get_suite_dep_index(p) != i;
    p = coco_problem_add_observer(p, o);
    bad += coco_problem_get_suite_dep_index(p) != i;
    coco_problem_free(p);
  }
  coco_observer_free(o); coco_suite_free(s);
  return bad != 0;
}
'''),
dict(id="b40", prop="C18", needs="more than 20 instances of one problem, the last ones of which were run more often than the others",
  breaks="trials of a problem instance are not repeated",
  edits=[(U, "max((1, max([0] + self.trials(problem)))) - len(self.data_of_instance(problem))", "max((1, max([0] + self.trials(problem)[:20]))) - len(self.data_of_instance(problem))")],
  demo_py='''
import sys
from cocoex.utilities import ExperimentRepeater
class P:
    def __init__(self, f, d, i, e, h):
        self.id_function, self.dimension, self.id_instance, self.evaluations, self.final_target_hit, self.info = f, d, i, e, h, ""
r = ExperimentRepeater(1)
r.done(message=False)
for i in range(1, 26):
    r.track(P(1, 2, i, 1000, True))
r.track(P(1, 2, 25, 1000, True))
r.done(message=False)
sys.exit(0 if all(not r.done((1, 2, i)) for i in range(1, 25)) else 1)
'''),
dict(id="b41", prop="C30", needs="an abbreviation that fits two names one of which was given before",
  breaks="an ambiguous argument name is accepted",
  edits=[(U, "                             for other in known_names or [name]]) == 1):", "                             for other in known_names or [name] if other not in res]) <= 1):")],
  demo_py='''
import sys
from cocoex.utilities import args_to_dict
try:
    print(args_to_dict(["budget_multiplier=3", "b=7"], ["batches", "budget_multiplier"]))
except ValueError:
    sys.exit(0)
sys.exit(1)
'''),
dict(id="b42", prop="C20", needs="a constraint evaluated at a point given as a view with a stride",
  breaks="the constraints are those of another point",
  edits=[(P, """            # `[]` is more likely to produce quietly unexpected result?
        cdef np.ndarray[double, ndim=1, mode="c"] _x
        x = np.asarray(x, dtype=np.double, order='C')
""", """            # `[]` is more likely to produce quietly unexpected result?
        cdef np.ndarray[double, ndim=1] _x
        x = np.asarray(x, dtype=np.double)
""")],
  demo_py='''
import sys
import numpy as np
import cocoex
s = cocoex.Suite("bbob-constrained", "instances: 1", "dimensions: 3")
bad = 0
for p in s:
    a = np.random.RandomState(1).randn(3, 3)
    bad += any(p.constraint(a[:, 1]) != p.constraint(list(a[:, 1])))
sys.exit(1 if bad else 0)
'''),
dict(id="b43", prop="C20", needs="initial_solution_proposal() called with a restart number before it is called without one",
  breaks="the first proposal is not the initial solution",
  edits=[(P, "            self._initial_solution_proposal_calls += 1  # count calls without explicit argument\n", "        self._initial_solution_proposal_calls += 1  # count calls\n")],
  demo_py='''
import sys
import cocoex
s = cocoex.Suite("bbob", "instances: 1", "dimensions: 5")
bad = 0
for p in s:
    p.initial_solution_proposal(1)
    bad += any(p.initial_solution_proposal() != p.initial_solution)
sys.exit(1 if bad else 0)
'''),
]
