// Native replay driver: runs one harness of the compiled library on concrete inputs read from stdin.
// Each input line: "f <16 hex digits>" (double bits) or "i <decimal>".
#include <dlfcn.h>
#include <math.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/resource.h>

static int expect_panic;
static char line[256];
static void out(const char *p, const char *s, size_t n) { printf("%s %.*s\n", p, (int)n, s); fflush(stdout); }
static int rd(char *k) {
  while (fgets(line, sizeof line, stdin)) { if (line[0] == 'f' || line[0] == 'i') { *k = line[0]; return 1; } }
  return 0;
}
static double nextf(double lo, double hi) {
  char k; if (!rd(&k)) { printf("NOINPUT\n"); fflush(stdout); _exit(0); }
  if (k == 'i') return (double)strtoll(line + 2, 0, 10);
  uint64_t b = strtoull(line + 2, 0, 16); double d; memcpy(&d, &b, 8);
  if (!(d >= lo && d <= hi)) { printf("ASSUME range\n"); fflush(stdout); _exit(0); }
  return d;
}
static long long nexti(void) {
  char k; if (!rd(&k)) { printf("NOINPUT\n"); fflush(stdout); _exit(0); }
  return strtoll(line + 2, 0, 10);
}
double verif_f64(double lo, double hi) { return nextf(lo, hi); }
double verif_grid(double lo, double hi, int g) { (void)g; return nextf(lo, hi); }
int verif_i32(int lo, int hi) { long long x = nexti(); if (x < lo || x > hi) { printf("ASSUME range\n"); fflush(stdout); _exit(0); } return (int)x; }
uint32_t verif_choice(uint32_t n) { long long x = nexti(); if (x < 0 || x >= n) { printf("ASSUME range\n"); fflush(stdout); _exit(0); } return (uint32_t)x; }
void verif_assume(_Bool b) { if (!b) { printf("ASSUME\n"); fflush(stdout); _exit(0); } }
void verif_assert(_Bool b, const char *s, size_t n) { if (!b) out("FAIL", s, n); }
void verif_close(double a, double b, double rel, double abs, const char *s, size_t n) {
  if (a == b) return;
  if (!(fabs(a - b) <= abs + rel * fabs(b))) { printf("FAIL %.*s : %.17g vs %.17g\n", (int)n, s, a, b); fflush(stdout); }
}
void verif_reach(const char *s, size_t n) { out("REACH", s, n); }
void verif_note(double x, const char *s, size_t n) { printf("NOTE %.*s = %.17g\n", (int)n, s, x); fflush(stdout); }
// the demanded refusal: the library aborts, and the harness inspects the state it left behind
static void (*refused)(void *);
static void *refused_arg;
static void on_abort(int sig) {
  (void)sig;
  if (expect_panic && refused) { void (*f)(void *) = refused; refused = 0; expect_panic = 0; f(refused_arg); printf("REFUSED\nEND\n"); fflush(stdout); _exit(0); }
}
void verif_on_refusal(void (*f)(void *), void *p) { refused = f; refused_arg = p; signal(SIGABRT, on_abort); }
void verif_expect_panic(int v) { expect_panic = v; }
int verif_deep(void) { return getenv("VERIF_DEEP") != 0; }
void verif_config(int k, unsigned long long v) { (void)k; (void)v; }

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  struct rlimit rl = {20, 20}; setrlimit(RLIMIT_CPU, &rl);
  void *h = dlopen(argv[1], RTLD_NOW);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
  void (*f)(void) = (void (*)(void))dlsym(h, argv[2]);
  if (!f) { fprintf(stderr, "no harness %s\n", argv[2]); return 3; }
  f();
  if (expect_panic) { printf("FAIL refusal\n"); }
  printf("END\n"); fflush(stdout);
  return 0;
}
