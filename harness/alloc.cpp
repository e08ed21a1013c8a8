// Counts live heap bytes of the uninstrumented build, for the leak monitor.
// Linked with --wrap for malloc, calloc, realloc and free; operator new and delete are replaced.
#include <atomic>
#include <cstdlib>
#include <malloc.h>
#include <new>
static std::atomic<long> live_bytes{0}, live_blocks{0};
long mon_live_bytes() { return live_bytes.load(); }
long mon_live_blocks() { return live_blocks.load(); }
static void *got(void *p) { if (p) { live_bytes += (long) malloc_usable_size(p); live_blocks++; } return p; }
static void gone(void *p) { if (p) { live_bytes -= (long) malloc_usable_size(p); live_blocks--; } }
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) { return got(__real_malloc(n)); }
void *__wrap_calloc(size_t n, size_t m) { return got(__real_calloc(n, m)); }
void *__wrap_realloc(void *p, size_t n) { gone(p); return got(__real_realloc(p, n)); }
void __wrap_free(void *p) { gone(p); __real_free(p); }
}
void *operator new(size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }

// Linear solves made by the library, for the iteration record monitor. The wrapped symbols may vanish in a
// refactored library; the references are weak and the counter then stays at zero (monitor not available).
#include <cmath>
static thread_local long nsolves = 0;
long mon_linear_solves() { return nsolves; }
// ... and the residuals it assembled: event log of the Newton iterations, kind 1 residual (value returned),
// kind 2 linear solve (norm of the right-hand side)
static const long NEV = 1 << 16;
static struct { int kind; double v; } ev[NEV];
static long nev = 0;
static bool logging = false;
void mon_log_start() { nev = 0; logging = true; }
long mon_log_stop() { logging = false; return nev > NEV ? -1 : nev; }
void mon_log_event(long i, int *kind, double *v) { *kind = ev[i].kind; *v = ev[i].v; }
static void note(int k, double v) { if (nev < NEV) { ev[nev].kind = k; ev[nev].v = v; } nev++; }
static void note_rhs(const double *b, long n) { double q = 0; for (long i = 0; i < n; i++) q += b[i] * b[i]; note(2, sqrt(q)); }
extern "C" {
#define S2 _Z17ell_solve_cgpd_2DP10ell_solverP10ell_matrixiiiPdS3_
#define S3 _Z21ell_solve_cgpd_structP10ell_solverP10ell_matrixiiiPdS3_
#define CAT(a, b) a##b
#define XCAT(a, b) CAT(a, b)
int XCAT(__real_, S2)(void *, void *, int, int, int, double *, double *) __attribute__((weak));
int XCAT(__real_, S3)(void *, void *, int, int, int, double *, double *) __attribute__((weak));
int XCAT(__wrap_, S2)(void *s, void *m, int f, int a, int b, double *r, double *x) { nsolves++; if (logging) note_rhs(r, (long) f * a * b); return XCAT(__real_, S2)(s, m, f, a, b, r, x); }
int XCAT(__wrap_, S3)(void *s, void *m, int f, int a, int b, double *r, double *x) { nsolves++; if (logging) note_rhs(r, (long) f * b); return XCAT(__real_, S3)(s, m, f, a, b, r, x); }
#define R1 _ZN9micropp_t12assembly_rhsEPb
double XCAT(__real_, R1)(void *, bool *) __attribute__((weak));
double XCAT(__wrap_, R1)(void *t, bool *f) { double v = XCAT(__real_, R1)(t, f); if (logging) note(1, v); return v; }
}
