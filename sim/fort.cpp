// The Fortran runtime as the library's Fortran interface uses it: output to unit 6, program
// termination, temporaries that compiled code releases with free().
#include "sim.h"
#include "mpi.h"
#include <cstdarg>
#include <cstdlib>
bool g_fort[MAX_RANKS]; uint64_t g_fvar[MAX_RANKS];
void sim_set_fault_pc(void *);
#define PC sim_set_fault_pc(__builtin_return_address(0))
static void logput(const char *s, size_t n) { if (S.logbuf.size() < 20000) S.logbuf.append(s, n); }
struct Common { unsigned flags; int unit; const char *filename; int line; };   // head of st_parameter_common
struct Dim { ptrdiff_t stride, lo, hi; };
struct Desc { char *base; size_t offset; size_t elem; int version; signed char rank, type; short attr; ptrdiff_t span; Dim dim[15]; };
extern "C" {
int sim_fvar(int n) { uint64_t &x = g_fvar[S.cur_rank]; x = x * 6364136223846793005ull + 1442695040888963407ull; return n > 1 ? (int)((x >> 33) % (unsigned)n) : 0; }
// memory that compiled Fortran code allocates for itself; gfortran does not check such requests, so they are not made to fail
void *simf_malloc(size_t n) { PC; return mem_alloc_nofail(n, "malloc"); }
void *simf_realloc(void *p, size_t n) { PC; bool a = g_afault.armed; g_afault.armed = false; void *q = mem_realloc(p, n); g_afault.armed = a; return q; }
void *simf_calloc(size_t a, size_t b) { PC; void *q = mem_alloc_nofail(a * b, "calloc"); memset(q, 0, a * b); return q; }
void _gfortran_st_write(void *); void _gfortran_st_write_done(void *); void _gfortran_transfer_character_write(void *, const char *, size_t); void _gfortran_transfer_integer_write(void *, void *, int);
void *_gfortran_internal_pack(void *); void _gfortran_string_trim(size_t *, void **, size_t, const char *);
void __wrap__gfortran_st_write(void *p) { if (((Common *)p)->unit != 6) _gfortran_st_write(p); }
void __wrap__gfortran_st_write_done(void *p) { if (((Common *)p)->unit != 6) _gfortran_st_write_done(p); else logput("\n", 1); }
void __wrap__gfortran_transfer_character_write(void *p, const char *s, size_t n) { if (((Common *)p)->unit != 6) _gfortran_transfer_character_write(p, s, n); else logput(s, n); }
void __wrap__gfortran_transfer_integer_write(void *p, void *v, int k) { if (((Common *)p)->unit != 6) _gfortran_transfer_integer_write(p, v, k); else { char b[32]; int n = snprintf(b, sizeof b, "%d", *(int *)v); logput(b, n); } }
void __wrap__gfortran_string_trim(size_t *len, void **dest, size_t sl, const char *src) {
  PC; size_t n = sl; while (n && src[n - 1] == ' ') n--;
  *len = n; if (!n) { *dest = (void *)""; return; }
  *dest = mem_alloc_nofail(n, "malloc"); memcpy(*dest, src, n);
}
void *__wrap__gfortran_internal_pack(void *d) {
  PC; Desc *q = (Desc *)d; void *r = _gfortran_internal_pack(d);
  if (r == q->base || !r) return r;
  size_t n = q->elem; for (int i = 0; i < q->rank; i++) n *= q->dim[i].hi >= q->dim[i].lo ? q->dim[i].hi - q->dim[i].lo + 1 : 0;
  void *o = mem_alloc_nofail(n, "malloc"); memcpy(o, r, n); free(r); return o;
}
void __wrap_exit(int);
[[noreturn]] static void fend(const char *s, size_t n, int code) { logput(s, n); logput("\n", 1); __wrap_exit(code); __builtin_unreachable(); }
void __wrap__gfortran_stop_string(const char *s, size_t n, bool) { PC; fend(s ? s : "STOP", s ? n : 4, 0); }
void __wrap__gfortran_error_stop_string(const char *s, size_t n, bool) { PC; fend(s ? s : "ERROR STOP", s ? n : 10, 1); }
void __wrap__gfortran_stop_numeric(int c, bool) { PC; fend("STOP", 4, c); }
void __wrap__gfortran_error_stop_numeric(int c, bool) { PC; fend("ERROR STOP", 10, c ? c : 1); }
void __wrap__gfortran_os_error_at(const char *, const char *fmt, ...) { PC; char b[300]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); fend(b, n, 1); }
void __wrap__gfortran_runtime_error_at(const char *, const char *fmt, ...) { PC; char b[300]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); fend(b, n, 2); }
void __wrap__gfortran_runtime_error(const char *fmt, ...) { PC; char b[300]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); fend(b, n, 2); }
}
