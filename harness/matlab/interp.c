/* Executes the calls on standard input through cocoCall (build/matlab/cocoCall.c); one answer per line in "answers". */
#include <setjmp.h>
#include <ctype.h>
#include "mex.h"
static jmp_buf back;
static FILE *msgs;

/* ---------------------------------------------------------------- the stand-in */
void mexErrMsgIdAndTxt(const char *id, const char *fmt, ...) { (void)fmt; if (!strchr(id, ':')) abort(); longjmp(back, 1); }
void mexErrMsgTxt(const char *txt) { (void)txt; longjmp(back, 1); }
void mexWarnMsgIdAndTxt(const char *id, const char *fmt, ...) { (void)id; (void)fmt; }
void mexWarnMsgTxt(const char *txt) { (void)txt; }
int mexPrintf(const char *fmt, ...) { va_list a; int n; va_start(a, fmt); n = vfprintf(msgs, fmt, a); va_end(a); fflush(msgs); return n; }
void *mxMalloc(size_t n) { return malloc(n); }
void *mxCalloc(size_t n, size_t k) { return calloc(n, k); }
void mxFree(void *p) { free(p); }
void *mxGetData(const mxArray *a) { return a->data; }
double *mxGetPr(const mxArray *a) { return a->cls == mxDOUBLE_CLASS ? a->data : NULL; }
double *mxGetDoubles(const mxArray *a) { return mxGetPr(a); }
mwSize mxGetM(const mxArray *a) { return a->m; }
mwSize mxGetN(const mxArray *a) { return a->n; }
mwSize mxGetNumberOfElements(const mxArray *a) { return a->m * a->n; }
mwSize mxGetNumberOfDimensions(const mxArray *a) { (void)a; return 2; }
static size_t width(mxClassID c) {
  switch (c) {
  case mxLOGICAL_CLASS: case mxCHAR_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1;
  case mxINT16_CLASS: case mxUINT16_CLASS: return 2;
  case mxINT32_CLASS: case mxUINT32_CLASS: case mxSINGLE_CLASS: return 4;
  default: return 8;
  }
}
size_t mxGetElementSize(const mxArray *a) { return width(a->cls); }
mxClassID mxGetClassID(const mxArray *a) { return a->cls; }
bool mxIsDouble(const mxArray *a) { return a->cls == mxDOUBLE_CLASS; }
bool mxIsChar(const mxArray *a) { return a->cls == mxCHAR_CLASS; }
bool mxIsComplex(const mxArray *a) { (void)a; return false; }
bool mxIsEmpty(const mxArray *a) { return a->m * a->n == 0; }
bool mxIsNumeric(const mxArray *a) { return a->cls >= mxDOUBLE_CLASS; }
bool mxIsInt32(const mxArray *a) { return a->cls == mxINT32_CLASS; }
bool mxIsInt64(const mxArray *a) { return a->cls == mxINT64_CLASS; }
bool mxIsUint64(const mxArray *a) { return a->cls == mxUINT64_CLASS; }
bool mxIsLogical(const mxArray *a) { return a->cls == mxLOGICAL_CLASS; }
bool mxIsScalar(const mxArray *a) { return a->m * a->n == 1; }
static const char *NAMES[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"};
bool mxIsClass(const mxArray *a, const char *name) { return !strcmp(NAMES[a->cls], name); }
double mxGetScalar(const mxArray *a) {
  switch (a->cls) {
  case mxDOUBLE_CLASS: return *(double *)a->data;
  case mxINT32_CLASS: return *(int32_t *)a->data;
  case mxUINT32_CLASS: return *(uint32_t *)a->data;
  case mxINT64_CLASS: return (double)*(int64_t *)a->data;
  case mxUINT64_CLASS: return (double)*(uint64_t *)a->data;
  case mxLOGICAL_CLASS: case mxCHAR_CLASS: return *(char *)a->data;
  default: abort();
  }
}
char *mxArrayToString(const mxArray *a) {
  char *s;
  if (a->cls != mxCHAR_CLASS) return NULL;
  s = malloc(a->n + 1); memcpy(s, a->data, a->n); s[a->n] = 0;
  return s;
}
int mxGetString(const mxArray *a, char *buf, mwSize n) {
  if (a->cls != mxCHAR_CLASS || !n) return 1;
  memcpy(buf, a->data, a->n < n - 1 ? a->n : n - 1); buf[a->n < n - 1 ? a->n : n - 1] = 0;
  return a->n >= n;
}
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity f) {
  mxArray *a = malloc(sizeof *a);
  (void)f;
  a->cls = c; a->m = m; a->n = n;
  a->data = calloc(m * n ? m * n : 1, width(c));
  return a;
}
mxArray *mxCreateNumericArray(mwSize nd, const mwSize *d, mxClassID c, mxComplexity f) { if (nd != 2) abort(); return mxCreateNumericMatrix(d[0], d[1], c, f); }
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity f) { return mxCreateNumericMatrix(m, n, mxDOUBLE_CLASS, f); }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mxCreateDoubleMatrix(1, 1, mxREAL); *(double *)a->data = v; return a; }
mxArray *mxCreateLogicalMatrix(mwSize m, mwSize n) { return mxCreateNumericMatrix(m, n, mxLOGICAL_CLASS, mxREAL); }
mxArray *mxCreateLogicalScalar(bool v) { mxArray *a = mxCreateLogicalMatrix(1, 1); *(bool *)a->data = v; return a; }
mxArray *mxCreateString(const char *s) { mxArray *a = mxCreateNumericMatrix(1, strlen(s), mxCHAR_CLASS, mxREAL); memcpy(a->data, s, a->n); return a; }
void mxDestroyArray(mxArray *a) { if (a) { free(a->data); free(a); } }

/* ---------------------------------------------------------------- calls */
#define MAXA 8
static unsigned long calls;
/* The functions may be named in upper or lower case. */
static mxArray *name(const char *f) {
  mxArray *a = mxCreateString(f);
  size_t i;
  for (i = 0; i < a->n; i++)
    if (calls % 3 == 1) ((char *)a->data)[i] = (char)toupper(((char *)a->data)[i]);
    else if (calls % 3 == 2) ((char *)a->data)[i] = (char)tolower(((char *)a->data)[i]);
  calls++;
  return a;
}
/* 0: an error was raised.  The arguments are released, and must not have been changed. */
static int raised, changed;
static mxArray *call(const char *f, int n, mxArray **args) {
  const mxArray *in[MAXA + 1];
  static mxArray *out[2], *nm;
  void *copy[MAXA];
  int i;
  in[0] = nm = name(f);
  for (i = 0; i < n; i++) {
    size_t z = args[i]->m * args[i]->n * width(args[i]->cls);
    in[i + 1] = args[i]; copy[i] = malloc(z + 1); memcpy(copy[i], args[i]->data, z);
  }
  out[0] = out[1] = NULL;
  raised = 0;
  if (!setjmp(back)) mexFunction(1, out, n + 1, in); else raised = 1;
  mxDestroyArray(nm);
  for (i = 0; i < n; i++) {
    changed |= memcmp(copy[i], args[i]->data, args[i]->m * args[i]->n * width(args[i]->cls)) != 0;
    free(copy[i]); mxDestroyArray(args[i]);
  }
  return raised ? NULL : out[0];
}
static mxArray *num64(uint64_t v) { mxArray *a = mxCreateNumericMatrix(1, 1, mxINT64_CLASS, mxREAL); *(uint64_t *)a->data = v; return a; }
#define C1(f, a) call(f, 1, (mxArray *[]){a})
#define C2(f, a, b) call(f, 2, (mxArray *[]){a, b})
#define C3(f, a, b, c) call(f, 3, (mxArray *[]){a, b, c})

/* handles by their names */
static struct { char k[16]; uint64_t v; } H[20000];
static int nh;
static uint64_t *slot(char kind, const char *id) {
  char k[16]; int i;
  snprintf(k, sizeof k, "%c%s", kind, id);
  for (i = 0; i < nh; i++) if (!strcmp(H[i].k, k)) return &H[i].v;
  strcpy(H[nh].k, k); H[nh].v = 0;
  return &H[nh++].v;
}
static mxArray *P(const char *id) { return num64(*slot('p', id)); }
static mxArray *S(const char *id) { return num64(*slot('s', id)); }
static mxArray *O(const char *id) { return num64(strcmp(id, "-") ? *slot('o', id) : 0); }

/* what an answer looks like */
static char ans[200000];
static void put(const char *fmt, ...) { va_list a; size_t n = strlen(ans); va_start(a, fmt); vsnprintf(ans + n, sizeof ans - n, fmt, a); va_end(a); }
static void bits(mxArray *a) {
  size_t i;
  if (!a) { put(raised ? "exception" : "nothing"); return; }
  if (a->cls != mxDOUBLE_CLASS || (a->m != 1 && a->m * a->n)) { put("%s %dx%d", NAMES[a->cls], (int)a->m, (int)a->n); return; }
  put("[");
  for (i = 0; i < a->n; i++) { uint64_t u; memcpy(&u, (double *)a->data + i, 8); put("%s%016llx", i ? "," : "", (unsigned long long)u); }
  put("]");
  mxDestroyArray(a);
}
static void whole(mxArray *a) {
  if (!a) { put(raised ? "exception" : "nothing"); return; }
  if (a->m != 1 || a->n != 1) put("%s %dx%d", NAMES[a->cls], (int)a->m, (int)a->n); else put("%.0f", mxGetScalar(a));
  mxDestroyArray(a);
}
static void text(mxArray *a) {
  char *s;
  if (!a) { put(raised ? "exception" : "nothing"); return; }
  s = mxArrayToString(a); put("%s", s ? s : "no text"); free(s); mxDestroyArray(a);
}
static void handle(char kind, const char *id, mxArray *a, const char *ok) {
  uint64_t v;
  if (!a) { put(raised ? "exception" : "nothing"); return; }
  if (!mxIsInt64(a) || a->m != 1 || a->n != 1) { put("%s %dx%d", NAMES[a->cls], (int)a->m, (int)a->n); return; }
  v = *(uint64_t *)a->data;
  mxDestroyArray(a);
  *slot(kind, id) = v;
  put(v ? ok : "null");
  if (kind == 'p') {
    a = C1("cocoProblemIsValid", num64(v));
    if (!a || !mxIsLogical(a) || *(bool *)a->data != (v != 0)) put(" not valid");
    mxDestroyArray(a);
  }
}
static void done(mxArray *a) { put(raised ? "exception" : a ? "something" : "ok"); mxDestroyArray(a); }
/* a row or a column */
static mxArray *vec(char **f, int n) {
  mxArray *a = calls % 2 ? mxCreateDoubleMatrix(1, (mwSize)n, mxREAL) : mxCreateDoubleMatrix((mwSize)n, 1, mxREAL);
  int i;
  for (i = 0; i < n; i++) { uint64_t u = strtoull(f[i], NULL, 16); memcpy((double *)a->data + i, &u, 8); }
  return a;
}
static void exec(char **f, int n) {
  const char *o = f[0];
  if (!strcmp(o, "level")) text(C1("cocoSetLogLevel", mxCreateString(f[1])));
  else if (!strcmp(o, "suite")) handle('s', f[1], C3("cocoSuite", mxCreateString(f[2]), mxCreateString(f[3]), mxCreateString(f[4])), "ok");
  else if (!strcmp(o, "obs")) handle('o', f[1], C2("cocoObserver", mxCreateString(f[2]), mxCreateString(f[3])), "ok");
  else if (!strcmp(o, "next")) handle('p', f[3], C2("cocoSuiteGetNextProblem", S(f[1]), O(f[2])), "ok");
  else if (!strcmp(o, "get")) handle('p', f[3], C2("cocoSuiteGetProblem", S(f[1]), mxCreateDoubleScalar(atof(f[2]))), "ok");
  else if (!strcmp(o, "meta")) {
    mxArray *a;
    int one;
    text(C1("cocoProblemGetId", P(f[1]))); put("|");
    text(C1("cocoProblemGetName", P(f[1]))); put("|");
    whole(C1("cocoProblemGetDimension", P(f[1]))); put("|");
    a = C1("cocoProblemGetNumberOfObjectives", P(f[1])); one = a && mxGetScalar(a) == 1; whole(a); put("|");
    whole(C1("cocoProblemGetNumberOfConstraints", P(f[1]))); put("|");
    whole(C1("cocoProblemGetNumberOfIntegerVariables", P(f[1]))); put("|");
    bits(C1("cocoProblemGetSmallestValuesOfInterest", P(f[1]))); put("|");
    bits(C1("cocoProblemGetLargestValuesOfInterest", P(f[1]))); put("|");
    bits(C1("cocoProblemGetInitialSolution", P(f[1]))); put("|");
    bits(one ? C1("cocoProblemGetBestValue", P(f[1])) : C1("cocoProblemGetLargestFValuesOfInterest", P(f[1])));
  }
  else if (!strcmp(o, "eval")) bits(C2("cocoEvaluateFunction", P(f[1]), vec(f + 2, n - 2)));
  else if (!strcmp(o, "cons")) bits(C2("cocoEvaluateConstraint", P(f[1]), vec(f + 2, n - 2)));
  else if (!strcmp(o, "rec")) done(C2("cocoRecommendSolution", P(f[1]), vec(f + 2, n - 2)));
  else if (!strcmp(o, "type")) {    /* a point of another type */
    mxArray *a = mxCreateNumericMatrix(1, (mwSize)(n - 2), mxINT64_CLASS, mxREAL);
    static const char *W[] = {"cocoEvaluateFunction", "cocoEvaluateConstraint", "cocoRecommendSolution"};
    done(call(W[calls % 3], 2, (mxArray *[]){P(f[1]), a}));
  }
  else if (!strcmp(o, "shape")) {   /* as many numbers in two columns */
    mxArray *a = vec(f + 2, n - 2);
    static const char *W[] = {"cocoEvaluateFunction", "cocoEvaluateConstraint", "cocoRecommendSolution"};
    a->m = a->m * a->n / 2; a->n = 2;
    done(call(W[calls % 3], 2, (mxArray *[]){P(f[1]), a}));
  }
  else if (!strcmp(o, "nargs")) {   /* an argument too many */
    static const char *W[] = {"cocoEvaluateFunction", "cocoEvaluateConstraint", "cocoRecommendSolution", "cocoProblemGetDimension", "cocoProblemGetEvaluations", "cocoProblemGetEvaluationsConstraints",
      "cocoProblemGetId", "cocoProblemGetName", "cocoProblemGetInitialSolution", "cocoProblemGetLargestFValuesOfInterest", "cocoProblemGetLargestValuesOfInterest", "cocoProblemGetSmallestValuesOfInterest",
      "cocoProblemGetNumberOfObjectives", "cocoProblemGetNumberOfConstraints", "cocoProblemGetNumberOfIntegerVariables", "cocoProblemGetBestValue", "cocoProblemIsValid", "cocoProblemFinalTargetHit",
      "cocoProblemFree", "cocoProblemAddObserver", "cocoProblemRemoveObserver", "cocoObserverSignalRestart", "cocoSuiteFree", "cocoObserverFree"};
    done(call(W[calls % (sizeof W / sizeof *W)], 3, (mxArray *[]){P(f[1]), P(f[1]), P(f[1])}));
  }
  else if (!strcmp(o, "state")) {
    whole(C1("cocoProblemGetEvaluations", P(f[1]))); put(" ");
    whole(C1("cocoProblemGetEvaluationsConstraints", P(f[1]))); put(" ");
    whole(C1("cocoProblemFinalTargetHit", P(f[1])));
  }
  else if (!strcmp(o, "add")) handle('p', f[1], C2("cocoProblemAddObserver", P(f[1]), O(f[2])), "ok");
  else if (!strcmp(o, "rem")) handle('p', f[1], C2("cocoProblemRemoveObserver", P(f[1]), O(f[2])), "ok");
  else if (!strcmp(o, "restart")) done(C2("cocoObserverSignalRestart", O(f[1]), P(f[2])));
  else if (!strcmp(o, "pfree")) done(C1("cocoProblemFree", P(f[1])));
  else if (!strcmp(o, "ofree")) done(C1("cocoObserverFree", O(f[1])));
  else if (!strcmp(o, "sfree")) done(C1("cocoSuiteFree", S(f[1])));
  else put("?");
  if (changed) { put(" argument changed"); changed = 0; }
}
int main(void) {
  static char line[100000];
  FILE *out = fopen("answers", "w");
  msgs = fopen("messages", "w");
  while (fgets(line, sizeof line, stdin)) {
    char *f[300], *p = line;
    int n = 0;
    line[strcspn(line, "\n")] = 0;
    for (;;) { f[n++] = p; p = strchr(p, '\t'); if (!p) break; *p++ = 0; }
    ans[0] = 0;
    exec(f, n);
    fprintf(out, "=> %s\n", ans); fflush(out);
  }
  return 0;
}
