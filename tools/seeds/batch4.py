H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <math.h>\n#include "coco.h"\n'
U = "build/python/src/cocoex/utilities.py"
SEEDS = [
dict(id="b15", prop="C15", needs="an observer freed while a problem it observes has not been evaluated yet, the problem freed later",
  breaks="freeing the problem uses the freed observer",
  edits=[("src/observer_bbob.c", """    if (problem->data != NULL) {
      logger_bbob_data_nullify_observer""", """    if ((problem->data != NULL) && (problem->evaluations > 0)) {
      logger_bbob_data_nullify_observer""")],
  flags="-fsanitize=address",
  demo=H+r'''
int main(void) {
  coco_suite_t *s; coco_observer_t *o; coco_problem_t *p;
  coco_set_log_level("error");
  s = coco_suite("bbob", "instances: 1", "dimensions: 2");
  o = coco_observer("bbob", "result_folder: R");
  p = coco_problem_add_observer(coco_suite_get_problem(s, 0), o);
  coco_observer_free(o);
  coco_problem_free(p);
  coco_suite_free(s);
  s->current_problem_is_gone = 0;
  return 0;
}
'''.replace("  s->current_problem_is_gone = 0;\n", "")),
dict(id="b16", prop="C16", self=1, needs="another process creating the folder between the test and the creation",
  breaks="two observers write into one folder",
  edits=[("src/coco_utilities.c", """  /* Create the last nested or only directory */
  result = coco_mkdir(tmp);
""", """  /* Create the last nested or only directory */
  result = coco_directory_exists(tmp);
  if (!result)
    coco_mkdir(tmp);
""")],
  demo=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
static int others = 0;
static int raced_mkdir(const char *p, mode_t m) {
  size_t n = strlen(p);
  if (n >= 2 && !strcmp(p + n - 2, "/R") && !others) { others = 1; mkdir(p, m); } /* another process is faster here */
  return mkdir(p, m);
}
#define mkdir raced_mkdir
#include "coco.c"
#undef mkdir
int main(void) {
  coco_observer_t *o; int r;
  coco_set_log_level("error");
  o = coco_observer("bbob", "outer_folder: X result_folder: R");
  r = strcmp(coco_observer_get_result_folder(o), "X/R") == 0 ? 1 : 0;
  printf("%s\n", coco_observer_get_result_folder(o));
  coco_observer_free(o);
  return r;
}
'''),
dict(id="b18", prop="C18", needs="an instance that has no trial at all when the second sweep starts, all other instances done",
  breaks="the instance never run counts as done",
  edits=[(U, "return max((1, max([0] + self.trials(problem)))) - len(self.data_of_instance(problem))",
             "return max((1, max([0] + self.trials(problem)))) - max((1, len(self.data_of_instance(problem))))")],
  demo_py='''
import sys
from cocoex.utilities import ExperimentRepeater
class P:
    def __init__(self, f, d, i, e, h):
        self.id_function, self.dimension, self.id_instance, self.evaluations, self.final_target_hit, self.info = f, d, i, e, h, ""
r = ExperimentRepeater(1)
r.done(message=False)
r.track(P(1, 2, 1, 100, False))        # the second instance was not run
r._sweeps < 2 and r.done(message=False)
r._sweeps = 2
sys.exit(1 if r.done((1, 2, 2)) else 0)
'''),
dict(id="b19", prop="C19", needs="fewer function-dimension groups than batches, and a second sweep",
  breaks="a problem changes its batch from one sweep to the next",
  edits=[(U, "            if (problem.id_function, problem.dimension) == self.first_problem:\n",
             "            if (problem.id_function, problem.dimension) == self.first_problem and self.current_batch + 1 >= self.params['number_of_batches']:\n")],
  demo_py='''
import sys
from cocoex.utilities import BatchScheduler
class P:
    def __init__(self, f, d):
        self.id_function, self.dimension = f, d
bad = 0
for n in range(2, 7):
    for groups in range(2, 8):
        for b in range(n):
            s = BatchScheduler(n, b)
            sweeps = [[s.is_in_batch(P(f, 2)) for f in range(groups)] for _ in range(3)]
            bad += sweeps[0] != sweeps[1] or sweeps[0] != sweeps[2]
sys.exit(1 if bad else 0)
'''),
dict(id="b20", prop="C20", needs="keeping the values returned for one point while evaluating another, several objectives",
  breaks="the values kept change with later evaluations",
  edits=[("build/python/src/cocoex/interface.pyx", "            return self.y_values[0]\n        return np.array(self.y_values, copy=True)\n", "            return self.y_values[0]\n        return self.y_values\n")],
  demo_py='''
import sys, cocoex
s = cocoex.Suite("bbob-biobj", "", "dimensions:2 function_indices:1-3 instance_indices:1")
bad = 0
for p in s:
    a = p([1.0, 2.0]); keep = list(a)
    p([-3.0, 0.5])
    bad += list(a) != keep
sys.exit(1 if bad else 0)
'''),
dict(id="b21", prop="C21", needs="a delivered solution that is worse than the best recorded one",
  breaks="the delivered solution is not recorded",
  edits=[(U, "if self.p_unobserved(x, *args, **kwargs) != self.best_observed_fvalue1:", "if self.p_unobserved(x, *args, **kwargs) < self.best_observed_fvalue1:")],
  demo_py='''
import sys, cocoex
from cocoex.utilities import ProblemNonAnytime
s = cocoex.Suite("bbob", "", "dimensions:2 function_indices:1 instance_indices:1")
o = cocoex.Observer("bbob", "result_folder: R")
n = ProblemNonAnytime(s, o, 0)
n([0.0, 0.0]); n([1.0, 1.0])
before = n.p_observed.evaluations
n.delivered([4.9, -4.9])
r = n.p_observed.evaluations - before
n.free()
sys.exit(0 if r == 1 else 1)
'''),
]
