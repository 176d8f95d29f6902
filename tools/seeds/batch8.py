M = "build/matlab/cocoCall.c"
COL = """        mexErrMsgIdAndTxt("cocoEvaluateConstraint:wrongDimension", "Input x does not comply with problem dimension.");
"""
START = r"""
static mxArray *point(int column, int n) { mxArray *a = column ? mxCreateDoubleMatrix(n, 1, mxREAL) : mxCreateDoubleMatrix(1, n, mxREAL);
  int i; for (i = 0; i < n; i++) ((double *)a->data)[i] = .5 * i - 1; return a; }
static mxArray *suite(const char *s) { return C3("cocoSuite", mxCreateString(s), mxCreateString("instances: 1"), mxCreateString("dimensions: 2,5")); }
"""
SEEDS = [
dict(id="b44", prop="C31", needs="a constraint evaluated at a point of the wrong length that is a column",
  breaks="the error is not raised and the constraints of another point are returned",
  edits=[(M, """    if(!(mxGetN(prhs[1]) == 1 & mxGetM(prhs[1]) == coco_problem_get_dimension(problem))
          & !(mxGetM(prhs[1]) == 1 & mxGetN(prhs[1]) == coco_problem_get_dimension(problem))) {
""" + COL, """    if(mxGetN(prhs[1]) != 1 && !(mxGetM(prhs[1]) == 1 && mxGetN(prhs[1]) == coco_problem_get_dimension(problem))) {
""" + COL)],
  demo_mat=START + r"""
int main(void) {
  msgs = fopen("messages", "w");
  *slot('s', "1") = *(uint64_t *)suite("bbob-constrained")->data;
  *slot('p', "1") = *(uint64_t *)C2("cocoSuiteGetNextProblem", S("1"), O("-"))->data;
  if (!C2("cocoEvaluateConstraint", P("1"), point(1, 2)) || !C2("cocoEvaluateConstraint", P("1"), point(0, 2))) return 3;
  if (C2("cocoEvaluateConstraint", P("1"), point(0, 5)) || !raised) return 3;
  return C2("cocoEvaluateConstraint", P("1"), point(1, 5)) != NULL;
}
"""),
dict(id="b45", prop="C31", needs="the observer of a problem removed before the problem is released",
  breaks="the handle returned is the one of the released observed problem",
  edits=[(M, "    *ref = (size_t)unobservedproblem;", "    *ref = unobservedproblem ? (size_t)problem : 0;")],
  demo_mat=START + r"""
int main(void) {
  uint64_t before, after;
  msgs = fopen("messages", "w");
  *slot('s', "1") = *(uint64_t *)suite("bbob")->data;
  *slot('o', "1") = *(uint64_t *)C2("cocoObserver", mxCreateString("bbob"), mxCreateString("result_folder: R"))->data;
  *slot('p', "1") = before = *(uint64_t *)C2("cocoSuiteGetProblem", S("1"), mxCreateDoubleScalar(3))->data;
  *slot('p', "1") = *(uint64_t *)C2("cocoProblemAddObserver", P("1"), O("1"))->data;
  after = *(uint64_t *)C2("cocoProblemRemoveObserver", P("1"), O("1"))->data;
  return after != before;
}
"""),
]
