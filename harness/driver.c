/* Scripted driver for COCO, public API (coco.h) only.
 * usage: driver SCRIPT EVENTS     one tab-separated command per line -> one JSON line per command.
 * Doubles are written as quoted %.17g strings so that inf/nan survive. */
#include <stdio.h>
#include <sys/resource.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <math.h>
#include "coco.h"

double coco_problem_get_final_target_fvalue1(const coco_problem_t *problem);
double coco_problem_get_best_value(const coco_problem_t *problem);
#define NS 256
#define MAXF 1200
static coco_suite_t *S[NS];
static coco_problem_t *P[NS];
static coco_observer_t *O[NS];
static coco_archive_t *A[NS];
static coco_random_state_t *R[NS];
static FILE *ev;
static char *f[MAXF];
static int nf;

static void str(const char *s) {
  if (!s) { fputs("null", ev); return; }
  fputc('"', ev);
  for (; *s; s++) {
    if (*s == '"' || *s == '\\') { fputc('\\', ev); fputc(*s, ev); }
    else if ((unsigned char) *s < 32) fprintf(ev, "\\u%04x", *s);
    else fputc(*s, ev);
  }
  fputc('"', ev);
}
static void dbl(double v) { fprintf(ev, "\"%.17g\"", v); }
static void vec(const double *v, size_t n) {
  size_t i; if (!v) { fputs("null", ev); return; }
  fputc('[', ev);
  for (i = 0; i < n; i++) { if (i) fputc(',', ev); dbl(v[i]); }
  fputc(']', ev);
}
static void done(void) { fputs("}\n", ev); fflush(ev); }
static int ix(int k) { return k < nf ? atoi(f[k]) : 0; }
static const char *arg(int k) { return (k < nf && strcmp(f[k], "-")) ? f[k] : NULL; }
static const char *sarg(int k) { return k < nf ? f[k] : ""; }
static void state(coco_problem_t *p) {
  fprintf(ev, ",\"n\":%lu,\"nc\":%lu,\"hit\":%d,\"taint\":%d", (unsigned long) coco_problem_get_evaluations(p),
          (unsigned long) coco_problem_get_evaluations_constraints(p), coco_problem_final_target_hit(p),
          coco_problem_is_tainted(p));
  if (coco_problem_get_number_of_objectives(p) == 1) {
    fputs(",\"best\":", ev); dbl(coco_problem_get_best_observed_fvalue1(p));
    fputs(",\"target\":", ev); dbl(coco_problem_get_final_target_fvalue1(p));
  }
}
static void pinfo(coco_problem_t *p) {
  if (!p) { fputs(",\"null\":1", ev); return; }
  fputs(",\"null\":0,\"id\":", ev); str(coco_problem_get_id(p));
  fputs(",\"name\":", ev); str(coco_problem_get_name(p));
  fprintf(ev, ",\"dim\":%lu,\"nobj\":%lu,\"ncons\":%lu,\"nint\":%lu,\"index\":%ld",
          (unsigned long) coco_problem_get_dimension(p), (unsigned long) coco_problem_get_number_of_objectives(p),
          (unsigned long) coco_problem_get_number_of_constraints(p),
          (unsigned long) coco_problem_get_number_of_integer_variables(p),
          (long) coco_problem_get_suite_dep_index(p));
}
/* doubles from field k on; "rN" / "oT" helpers are resolved by the script writer */
static double *xs(int k, size_t n) {
  double *x = calloc(n ? n : 1, sizeof(double)); size_t i; double v = 0;
  for (i = 0; i < n; i++) { if (k + (int) i < nf) v = strtod(f[k + (int) i], NULL); x[i] = v; }
  return x;
}
static void doeval(coco_problem_t *p, double *x, int what) {
  size_t no = coco_problem_get_number_of_objectives(p), nc = coco_problem_get_number_of_constraints(p);
  size_t d = coco_problem_get_dimension(p), n = (what == 'c' ? nc : no), i;
  double *y = malloc((n + 1) * sizeof(double)); double *c = malloc(d * sizeof(double));
  memcpy(c, x, d * sizeof(double));
  for (i = 0; i < n; i++) y[i] = -7.25e77;
  if (what == 'e') coco_evaluate_function(p, x, y);
  if (what == 'c') coco_evaluate_constraint(p, x, y);
  if (what == 'r') coco_recommend_solution(p, x);
  if (what != 'r') { fputs(",\"y\":", ev); vec(y, n); }
  fprintf(ev, ",\"xsame\":%d", memcmp(c, x, d * sizeof(double)) == 0);
  fputs(",\"x\":", ev); vec(x, d);
  state(p);
  free(y); free(c);
}
int main(int argc, char **argv) {
  static char line[1 << 20];
  FILE *in; int no = 0;
  struct rlimit files = {1 << 27, 1 << 27};
  if (argc < 3) return 64;
  setrlimit(RLIMIT_FSIZE, &files);
  coco_set_log_level("error");
  in = fopen(argv[1], "r"); ev = fopen(argv[2], "w");
  if (!in || !ev) return 65;
  while (fgets(line, sizeof line, in)) {
    char *q = line, *c; no++;
    line[strcspn(line, "\n")] = 0;
    if (!*line) continue;
    nf = 0;
    for (;;) { char *t = strchr(q, '\t'); if (nf < MAXF) f[nf++] = q; if (!t) break; *t = 0; q = t + 1; }
    c = f[0];
    fprintf(ev, "{\"l\":%d,\"op\":\"%s\"", no, c); 
    if (!strcmp(c, "exit")) { fputs("}\n", ev); fflush(ev); _exit(0); }
    if (!strcmp(c, "die")) { fputs("}\n", ev); fflush(ev); _exit(9); }
    /* a command that ends the process leaves a line with no closing brace */
    fflush(ev);
    { static const char *sops[] = {"sfree", "next", "iter", "get", "getfdi", "fof", "dof", "iof", "enc", "dec", NULL}; int k, hit = 0;
      for (k = 0; sops[k]; k++) if (!strcmp(c, sops[k])) hit = 1;
      if (hit && !S[ix(1)]) { fputs(",\"skip\":1", ev); done(); continue; } }
    if (!strcmp(c, "suite")) { int s = ix(1); S[s] = coco_suite(sarg(2), sarg(3), sarg(4)); fprintf(ev, ",\"ok\":%d", S[s] != NULL);
      if (S[s]) fprintf(ev, ",\"np\":%lu", (unsigned long) coco_suite_get_number_of_problems(S[s])); }
    else if (!strcmp(c, "sfree")) { coco_suite_free(S[ix(1)]); S[ix(1)] = NULL; }
    else if (!strcmp(c, "next")) { coco_observer_t *o = arg(2) ? O[ix(2)] : NULL; coco_problem_t *p = coco_suite_get_next_problem(S[ix(1)], o); if (p) P[ix(3)] = p; pinfo(p); }
    else if (!strcmp(c, "iter")) { int k, mx = ix(4); coco_observer_t *o = arg(2) ? O[ix(2)] : NULL;
      for (k = 0; k < mx; k++) { coco_problem_t *p = coco_suite_get_next_problem(S[ix(1)], o); P[ix(3)] = p; pinfo(p);
        if (!p || k == mx - 1) break; fprintf(ev, "}\n{\"l\":%d,\"op\":\"iter\"", no); fflush(ev); } }
    else if (!strcmp(c, "get")) { P[ix(3)] = coco_suite_get_problem(S[ix(1)], (size_t) atol(f[2])); pinfo(P[ix(3)]); }
    else if (!strcmp(c, "getfdi")) { P[ix(5)] = coco_suite_get_problem_by_function_dimension_instance(S[ix(1)], (size_t) ix(2), (size_t) ix(3), (size_t) ix(4)); pinfo(P[ix(5)]); }
    else if (!strcmp(c, "fof")) fprintf(ev, ",\"v\":%ld", (long) coco_suite_get_function_from_function_index(S[ix(1)], (size_t) ix(2)));
    else if (!strcmp(c, "dof")) fprintf(ev, ",\"v\":%ld", (long) coco_suite_get_dimension_from_dimension_index(S[ix(1)], (size_t) ix(2)));
    else if (!strcmp(c, "iof")) fprintf(ev, ",\"v\":%ld", (long) coco_suite_get_instance_from_instance_index(S[ix(1)], (size_t) ix(2)));
    else if (!strcmp(c, "enc")) fprintf(ev, ",\"v\":%ld", (long) coco_suite_encode_problem_index(S[ix(1)], (size_t) ix(2), (size_t) ix(3), (size_t) ix(4)));
    else if (!strcmp(c, "dec")) { size_t a = 777777, b = 777777, d = 777777; coco_suite_decode_problem_index(S[ix(1)], (size_t) ix(2), &a, &b, &d); fprintf(ev, ",\"f\":%ld,\"d\":%ld,\"i\":%ld", (long) a, (long) b, (long) d); }
    else if (!strcmp(c, "pfree")) { if (P[ix(1)]) coco_problem_free(P[ix(1)]); P[ix(1)] = NULL; }
    else if (!strcmp(c, "pinfo")) pinfo(P[ix(1)]);
    else if (!strcmp(c, "pstate")) state(P[ix(1)]);
    else if (!strcmp(c, "meta")) { coco_problem_t *p = P[ix(1)]; size_t d = coco_problem_get_dimension(p); double *x = calloc(d, sizeof(double));
      pinfo(p); fputs(",\"lo\":", ev); vec(coco_problem_get_smallest_values_of_interest(p), d);
      fputs(",\"hi\":", ev); vec(coco_problem_get_largest_values_of_interest(p), d);
      fputs(",\"init\":", ev); coco_problem_get_initial_solution(p, x); vec(x, d);
      if (coco_problem_get_number_of_objectives(p) == 1) { fputs(",\"target\":", ev); dbl(coco_problem_get_final_target_fvalue1(p)); fputs(",\"fopt\":", ev); dbl(coco_problem_get_best_value(p)); }
      if (coco_problem_get_number_of_objectives(p) == 2) { fputs(",\"hif\":", ev); vec(coco_problem_get_largest_fvalues_of_interest(p), 2); }
      free(x); }
    else if (!strcmp(c, "type")) { fputs(",\"v\":", ev); str(coco_problem_get_type(P[ix(1)])); }
    else if (!strcmp(c, "xopt")) { coco_problem_t *p = P[ix(1)]; size_t d = coco_problem_get_dimension(p); double *x = calloc(d, sizeof(double));
      int r = coco_problem_get_best_parameter(p, x); fprintf(ev, ",\"r\":%d,\"x\":", r); vec(x, d); fputs(",\"taint\":", ev); fprintf(ev, "%d", coco_problem_is_tainted(p)); free(x); }
    else if (!strcmp(c, "eval") || !strcmp(c, "cons") || !strcmp(c, "rec")) { coco_problem_t *p = P[ix(1)]; double *x = xs(2, coco_problem_get_dimension(p)); doeval(p, x, c[0]); free(x); }
    else if (!strcmp(c, "evoff") || !strcmp(c, "recoff") || !strcmp(c, "conoff")) { /* evoff P Q j t: x = xopt(Q) + t e_j */
      coco_problem_t *p = P[ix(1)]; size_t d = coco_problem_get_dimension(p); double *x = calloc(d, sizeof(double));
      coco_problem_get_best_parameter(P[ix(2)], x); x[(size_t) ix(3) % d] += strtod(f[4], NULL); doeval(p, x, c[0]); free(x); }
    else if (!strcmp(c, "obs")) { O[ix(1)] = coco_observer(sarg(2), sarg(3)); fprintf(ev, ",\"ok\":%d,\"folder\":", O[ix(1)] != NULL); if (O[ix(1)]) str(coco_observer_get_result_folder(O[ix(1)])); else fputs("null", ev); }
    else if (!strcmp(c, "ofree")) { coco_observer_free(O[ix(1)]); O[ix(1)] = NULL; }
    else if (!strcmp(c, "add")) { P[ix(1)] = coco_problem_add_observer(P[ix(1)], O[ix(2)]); fprintf(ev, ",\"ok\":%d", P[ix(1)] != NULL); }
    else if (!strcmp(c, "rem")) { P[ix(1)] = coco_problem_remove_observer(P[ix(1)], O[ix(2)]); fprintf(ev, ",\"ok\":%d", P[ix(1)] != NULL); if (P[ix(1)]) state(P[ix(1)]); }
    else if (!strcmp(c, "restart")) coco_observer_signal_restart(O[ix(1)], P[ix(2)]);
    else if (!strcmp(c, "feed")) { double y[2]; int r; y[0] = strtod(f[3], NULL); y[1] = strtod(f[4], NULL); r = coco_logger_biobj_feed_solution(P[ix(1)], (size_t) atol(f[2]), y); fprintf(ev, ",\"r\":%d", r); }
    else if (!strcmp(c, "arch")) { A[ix(1)] = coco_archive(sarg(2), (size_t) ix(3), (size_t) ix(4), (size_t) ix(5)); fprintf(ev, ",\"ok\":%d", A[ix(1)] != NULL); }
    else if (!strcmp(c, "aadd")) fprintf(ev, ",\"r\":%d", coco_archive_add_solution(A[ix(1)], strtod(f[2], NULL), strtod(f[3], NULL), sarg(4)));
    else if (!strcmp(c, "anum")) fprintf(ev, ",\"v\":%lu", (unsigned long) coco_archive_get_number_of_solutions(A[ix(1)]));
    else if (!strcmp(c, "ahv")) { fputs(",\"v\":", ev); dbl(coco_archive_get_hypervolume(A[ix(1)])); }
    else if (!strcmp(c, "anext")) { fputs(",\"v\":", ev); str(coco_archive_get_next_solution_text(A[ix(1)])); }
    else if (!strcmp(c, "afree")) { coco_archive_free(A[ix(1)]); A[ix(1)] = NULL; }
    else if (!strcmp(c, "rnew")) R[ix(1)] = coco_random_new((uint32_t) strtoul(f[2], NULL, 10));
    else if (!strcmp(c, "runi")) { fputs(",\"v\":", ev); dbl(coco_random_uniform(R[ix(1)])); }
    else if (!strcmp(c, "rnorm")) { fputs(",\"v\":", ev); dbl(coco_random_normal(R[ix(1)])); }
    else if (!strcmp(c, "rfree")) coco_random_free(R[ix(1)]);
    else if (!strcmp(c, "seeds")) coco_reset_seeds();
    else if (!strcmp(c, "loglevel")) { fputs(",\"old\":", ev); str(coco_set_log_level(sarg(1))); }
    else if (!strcmp(c, "msg")) { const char *k = sarg(1); if (!strcmp(k, "warning")) coco_warning("%s", sarg(2)); else if (!strcmp(k, "info")) coco_info("%s", sarg(2)); else if (!strcmp(k, "debug")) coco_debug("%s", sarg(2)); else if (!strcmp(k, "partial")) coco_info_partial("%s", sarg(2)); else if (!strcmp(k, "error")) coco_error("%s", sarg(2)); }
    else if (!strcmp(c, "gate")) fprintf(ev, ",\"r\":%d", access(sarg(1), 0));
    else if (!strcmp(c, "rmdir")) fprintf(ev, ",\"r\":%d", coco_remove_directory(sarg(1)));
    else { fputs(",\"bad\":1", ev); }
    done();
  }
  fclose(ev); fclose(in);
  return 0;
}
