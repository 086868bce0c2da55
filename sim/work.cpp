// Operation executor and reference model.
#include "work.h"
#include "bmlapi.h"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <map>
#include <set>
#include <cstdarg>
#include "mpi.h"
#include "fort.h"

std::string g_rank_op[MAX_RANKS];
uint64_t g_obs;
static std::vector<std::pair<std::string, uint64_t>> g_obs_trace;
static inline void obs(uint64_t v) { g_obs = hmix(g_obs, v); g_obs_trace.push_back({g_rank_op[S.cur_rank], v}); }
static void obs_bytes(const void *p, size_t n) { const unsigned char *q = (const unsigned char *)p; uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= q[i]; h *= 1099511628211ull; } obs(h); ev(h); }

extern "C" {
void omp_set_num_threads(int);
void zheev_(const char *, const char *, const int *, void *, const int *, double *, void *, const int *, double *, int *);
void zgetrf_(const int *, const int *, void *, const int *, int *, int *);
void zgetri_(const int *, void *, const int *, const int *, void *, const int *, int *);
}
void sim_srand(unsigned);
extern bool g_crashed_write;
extern uint64_t g_alloc_count[MAX_RANKS];
extern uint32_t g_rank_opno[MAX_RANKS];

enum OpKind {
#define OPS(X) \
  X(CREATE) X(ZERO) X(IDENT) X(RANDOM) X(BANDED) X(FREE) X(CLEAR) \
  X(ADD) X(ADD_NORM) X(ADD_IDENT) X(SCALE_ADD_IDENT) X(SCALE_NEW) X(SCALE) X(SCALE_INPLACE) \
  X(MULT) X(MULT_X2) X(MULT_AB) X(MULT_ADJ_AB) X(ELEM_MULT) \
  X(TRANSPOSE) X(TRANSPOSE_NEW) X(TRANSPOSE_TRI) X(ADJUNGATE) \
  X(TRACE) X(TRACE_MULT) X(FNORM) X(FNORM2) X(SUMSQ) X(SUMSQ2) X(SUMSQ_SUB) X(SUM_AB) X(OFFDIAG) X(GERSH) X(GERSH_PART) X(BANDWIDTH) X(ROW_BANDWIDTH) X(SPARSITY) \
  X(SET_ELEM) X(SET_ELEM_NEW) X(SET_ROW) X(SET_DIAG) X(GET_ELEM) X(GET_ROW) X(GET_DIAG) X(ELEMENTAL) \
  X(IMPORT) X(EXPORT) X(COPY_NEW) X(COPY) X(REORDER) X(CONVERT) X(INTROSPECT) \
  X(THRESH) X(THRESH_NEW) \
  X(EXTRACT) X(ASSIGN) X(M2S) X(S2M) X(M2S_INDEX) X(M2S_INDEX_GRAPH) X(ADJACENCY) X(ADJ_GROUP) X(GROUP) \
  X(DIAG) X(INVERSE) X(NORMALIZE) \
  X(WRITE_READ) X(WRITE) X(READ) X(READ_BAD) X(PRINT) X(DOMAIN) \
  X(SENDRECV) X(BCAST) X(FANIN) X(RING) X(REDUCE) X(ALLGATHER) X(RANKS) X(BARRIER) X(RESTART) X(INVALID) X(BLOCKED)
#define X(n) K_##n,
  OPS(X)
#undef X
  K_COUNT
};
static const char *names[] = {
#define X(n) #n,
  OPS(X)
#undef X
};
const char *op_name(int k) { return k >= 0 && k < K_COUNT ? names[k] : "?"; }
int op_by_name(const std::string &s) { for (int i = 0; i < K_COUNT; i++) if (s == names[i]) return i; return -1; }

// ------------------------------------------------------------------ typed arrays
static size_t esz(int prec) { return prec == SR ? 4 : prec == DR ? 8 : prec == SC ? 8 : 16; }
static bool is_cplx(int p) { return p >= SC; }
static bool is_single(int p) { return p == SR || p == SC; }
static double epsof(int p) { return p == SR || p == SC ? 1.2e-7 : 2.3e-16; }
static cd tget(int p, const void *b, size_t i) {
  switch (p) { case SR: return ((float *)b)[i]; case DR: return ((double *)b)[i]; case SC: return cd(((float *)b)[2 * i], ((float *)b)[2 * i + 1]); default: return cd(((double *)b)[2 * i], ((double *)b)[2 * i + 1]); }
}
static void tput(int p, void *b, size_t i, cd v) {
  switch (p) { case SR: ((float *)b)[i] = (float)v.real(); break; case DR: ((double *)b)[i] = v.real(); break;
    case SC: ((float *)b)[2 * i] = (float)v.real(); ((float *)b)[2 * i + 1] = (float)v.imag(); break; default: ((double *)b)[2 * i] = v.real(); ((double *)b)[2 * i + 1] = v.imag(); }
}
static cd rnd(int p, cd v) { if (p == SR || p == SC) v = cd((float)v.real(), (float)v.imag()); if (!is_cplx(p)) v = v.real(); return v; }
static const char *pname(int p) { static const char *n[] = {"?", "sr", "dr", "sc", "dc"}; return n[p]; }
static const char *fname(int f) { static const char *n[] = {"-", "dense", "ellpack", "ellblock", "csr", "distributed2d"}; return n[f]; }

// caller-owned memory in the simulated heap: overruns by the library are caught
struct UBuf {
  void *p = nullptr; size_t n = 0; std::vector<char> snap;
  UBuf(size_t bytes) : n(bytes) { p = mem_alloc(bytes, 64, false, "user", true); }
  void freeze() { snap.assign((char *)p, (char *)p + n); }
  bool same() { return memcmp(p, snap.data(), n) == 0; }
  void release() { if (p) mem_free(p, true); p = nullptr; }
};

// ------------------------------------------------------------------ model
struct Mat {
  bml_matrix_t *h = nullptr;
  int fmt = 0, prec = 0, N = 0, M = 0; bool dist = false; int dmode = 0;
  std::vector<cd> v; std::vector<double> e; std::vector<uint8_t> pat;
  std::vector<char> raw;   // last observed local block
  bool valid() const { return h != nullptr; }
  cd at(int i, int j) const { return v[(size_t)i * N + j]; }
  double er(int i, int j) const { return e[(size_t)i * N + j]; }
  double amax() const { double m = 0; for (auto &x : v) m = std::max(m, std::abs(x)); return m; }
  double emax() const { double m = 0; for (auto x : e) m = std::max(m, x); return m; }
};
struct Exp {            // expected contents of an output matrix
  int N;
  std::vector<cd> v; std::vector<double> tol; std::vector<uint8_t> drop, pat, must;   // must: a small element that may not stay
  std::vector<cd> alt; std::vector<uint8_t> has_alt;
  bool exact = false;   // bit-for-bit
  Exp(int n) : N(n), v((size_t)n * n), tol((size_t)n * n, 0.0), drop((size_t)n * n, 0), pat((size_t)n * n, 0), must((size_t)n * n, 0) {}
  void set_alt(size_t k, cd x) { if (alt.empty()) { alt.resize(v.size()); has_alt.assign(v.size(), 0); } alt[k] = x; has_alt[k] = 1; }
};
static void drop_rule(Exp &x, double thr) { for (size_t k = 0; k < x.v.size(); k++) if (std::abs(x.v[k]) <= thr * (1 + 1e-6) + x.tol[k]) x.drop[k] = 1; }

// a product of distributed matrices is summed block by block with elements below the threshold dropped in every step
static void block_sum_rule(Exp &x, bool dist, double alpha, double thr) { int p = 1; while (p * p < S.cfg.nranks) p++; if (dist && thr > 0 && p > 1) for (auto &t : x.tol) t += p * thr * (1 + std::fabs(alpha)); }

struct World;
static World *g_w[MAX_RANKS];
static const Plan *g_plan;
static std::map<std::pair<int,int>, Mat> g_sent;                       // (op, source rank) -> model when sent
static std::map<int, std::pair<int, std::vector<double>>> g_scalars;   // op -> first rank's scalars
static std::vector<std::vector<uint32_t>> g_allocs;
static int g_ops_done;
extern "C" int sim_cap_blocks(int);

struct World {
  int rank = 0, lrank = 0; std::vector<MPI_Comm> comms; const Plan *P = nullptr; Mat s[NSLOT]; int opi = -1; const Op *op = nullptr; int p = 1; bool faulted = false; bool fstarted = false; bool skipped = false;
  uint32_t nalloc0 = 0;
  Mat &S_(int k) { return s[((k % NSLOT) + NSLOT) % NSLOT]; }
  int ln(const Mat &m) const { return m.dist ? m.N / p : m.N; }
  int ro(const Mat &m) const { return m.dist ? (rank / p) * ln(m) : 0; }
  int co(const Mat &m) const { return m.dist ? (rank % p) * ln(m) : 0; }
};

static void quiet(bool q) { omp_set_num_threads(q ? 1 : S.cfg.team); }
static const char *curop(World &w) { return op_name(w.op ? w.op->kind : 0); }

[[noreturn]] static void bad(World &w, const char *cls, const char *fmt, ...) {
  char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  void sim_set_fault_pc(void *); sim_set_fault_pc(nullptr);
  sim_violate(cls, "%s", b);
}

// run one library call
static std::vector<std::string> g_calls;   // label of every library call, indexed by AllocInfo::op
template <class F> static void lib(World &w, const char *call, int fmt, F f) {
  g_rank_op[w.rank] = std::string(w.op && w.op->kind == K_INVALID && S.expect_fatal ? "invalid/" : "") + call + ":" + fname(fmt);
  g_rank_opno[w.rank] = (uint32_t)g_calls.size(); g_calls.push_back(g_rank_op[w.rank]);
  scribble_stack();
  uint64_t a0 = g_alloc_count[w.rank];
  const Fault &ft = w.P->fault; bool arm = ft.kind == 1 && ft.op == w.opi && ft.rank == w.rank && !w.faulted;
  if (arm) { // the index counts over all calls of the operation
    if (!w.fstarted) { g_afault = AllocFault(); g_afault.rank = w.rank; g_afault.fail_at = ft.at; g_afault.sticky = ft.sub; w.fstarted = true; }
    g_afault.armed = true; S.expect_fatal = true; S.logbuf.clear();
  }
  g_fort[w.rank] = w.P->fort; g_fvar[w.rank] = (w.op ? w.op->seed : 0) * 0x9E3779B97F4A7C15ull + w.P->seed * 77 + w.rank + (uint64_t)call[0] * 131 + w.P->cfg.data_seed;
  f();
  g_fort[w.rank] = false;
  if (arm) { g_afault.armed = false; if (g_afault.fired) w.faulted = true; if (!w.faulted || true) S.expect_fatal = false; }
  if ((size_t)w.rank < g_allocs.size() && (size_t)w.opi < g_allocs[w.rank].size()) g_allocs[w.rank][w.opi] += (uint32_t)(g_alloc_count[w.rank] - a0);
  g_rank_opno[w.rank] = 0;
}

// observe the matrix this rank holds, with one thread
static void observe(World &w, Mat &m, std::vector<char> &raw) {
  quiet(true);
  std::string keep = g_rank_op[w.rank];
  if (keep.compare(0, 8, "observe/") != 0) g_rank_op[w.rank] = "observe/" + keep;
  bool af = g_afault.armed; g_afault.armed = false;
  int n = w.ln(m);
  bml_matrix_t *h = m.dist ? bml_get_local_matrix(m.h) : m.h;
  void *d = bml_export_to_dense(h, dense_row_major);
  if (!d) bad(w, "result", "export returned no array");
  size_t sz = (size_t)n * n * esz(m.prec);
  if (mem_block_size(d) < sz) bad(w, "result", "export returned a block of %zu bytes instead of %zu", mem_block_size(d), sz);
  raw.assign((char *)d, (char *)d + sz);
  bml_free_memory(d);
  g_afault.armed = af;
  g_rank_op[w.rank] = keep;
  quiet(false);
  S.st.exports++;
}

static int row_max(const std::vector<uint8_t> &pat, int N) { int m = 0; for (int i = 0; i < N; i++) { int c = 0; for (int j = 0; j < N; j++) c += pat[(size_t)i * N + j] != 0; m = std::max(m, c); } return m; }
static std::vector<int> block_offsets(const Plan &P, int n) {
  std::vector<int> o; o.push_back(0);
  if (!P.bsz.empty()) { for (int b : P.bsz) o.push_back(o.back() + b); if (o.back() == n) return o; o.assign(1, 0); }
  while (o.back() < n) o.push_back(std::min(n, o.back() + 4));
  return o;
}
static int block_row_max(const std::vector<uint8_t> &pat, int N, const std::vector<int> &o) {
  int m = 0, nb = (int)o.size() - 1;
  for (int a = 0; a < nb; a++) { int c = 0; for (int b = 0; b < nb; b++) { bool any = false; for (int i = o[a]; i < o[a + 1] && !any; i++) for (int j = o[b]; j < o[b + 1]; j++) if (pat[(size_t)i * N + j]) { any = true; break; } c += any; } m = std::max(m, c); }
  return m;
}
static std::vector<uint8_t> nz_pat(const Exp &x) { std::vector<uint8_t> q(x.v.size()); for (size_t k = 0; k < q.size(); k++) q[k] = !x.drop[k] && std::abs(x.v[k]) > x.tol[k] && !(x.has_alt.size() && x.has_alt[k]); return q; }
static int g_ellblock_mb = 0;   // capacity in blocks when block sizes were set explicitly

// storage units (elements or blocks) off the diagonal: those wholly below the threshold must go, those above must stay
static void unit_threshold(Exp &x, const std::vector<int> &o, double thr_lo, double thr_hi) {
  int nb = (int)o.size() - 1, N = x.N;
  for (int a = 0; a < nb; a++) for (int b = 0; b < nb; b++) {
    if (a == b) continue;
    double hi = 0, lo = 0;
    for (int i = o[a]; i < o[a + 1]; i++) for (int j = o[b]; j < o[b + 1]; j++) { size_t k = (size_t)i * N + j; hi = std::max(hi, std::abs(x.v[k]) + x.tol[k]); lo = std::max(lo, std::abs(x.v[k]) - x.tol[k]); }
    bool must = hi < thr_lo * (1 - 1e-6), may = lo <= thr_hi * (1 + 1e-6);
    if (may) for (int i = o[a]; i < o[a + 1]; i++) for (int j = o[b]; j < o[b + 1]; j++) { size_t k = (size_t)i * N + j; x.drop[k] = 1; if (must) x.must[k] = 1; }
  }
}
// sparse storage keeps no off-diagonal element (or block) that is below the threshold
static void must_drop_rule(World &w, Exp &x, int fmt, bool dist, double thr) {
  if (dist || fmt == DENSE || !(thr > 0)) return;
  std::vector<int> o; if (fmt == ELLBLOCK) o = block_offsets(*w.P, x.N); else for (int i = 0; i <= x.N; i++) o.push_back(i);
  int nb = (int)o.size() - 1, N = x.N;
  for (int a = 0; a < nb; a++) for (int b = 0; b < nb; b++) {
    if (a == b) continue;
    double hi = 0;
    for (int i = o[a]; i < o[a + 1]; i++) for (int j = o[b]; j < o[b + 1]; j++) { size_t k = (size_t)i * N + j; double m = std::abs(x.v[k]); if (x.has_alt.size() && x.has_alt[k]) m = std::max(m, std::abs(x.alt[k])); hi = std::max(hi, m + x.tol[k]); if (!std::isfinite(m)) hi = INFINITY; }
    if (hi < thr * (1 - 1e-6)) for (int i = o[a]; i < o[a + 1]; i++) for (int j = o[b]; j < o[b + 1]; j++) x.must[(size_t)i * N + j] = 1;
  }
}
// the smallest doubling of the threshold at which every row fits; hard: count only the units that are kept for certain
static int doublings(const Exp &x, const std::vector<int> &o, int cap, double thr, bool hard) {
  int nb = (int)o.size() - 1, N = x.N;
  for (int k = 0; k < 300; k++, thr *= 2) {
    int worst = 0;
    for (int a = 0; a < nb; a++) {
      int c = 0;
      for (int b = 0; b < nb; b++) {
        bool any = false, keep = false;
        for (int i = o[a]; i < o[a + 1]; i++) for (int j = o[b]; j < o[b + 1]; j++) {
          size_t q = (size_t)i * N + j; double m = std::abs(x.v[q]);
          if (hard ? m > x.tol[q] : x.pat[q] != 0) any = true;
          if (hard ? m - x.tol[q] > thr * (1 + 1e-6) : m + x.tol[q] >= thr * (1 - 1e-6)) keep = true;
        }
        c += any && (a == b || keep);
      }
      worst = std::max(worst, c);
    }
    if (worst <= cap) return k;
  }
  return -1;
}

// Is the result allowed to be stored?  0 skip, 1 must succeed, 2 may report an error
static int admit(World &w, int fmt, int N, int M, bool dist, const Exp &x) {
  if (dist || fmt == DENSE) return 1;
  if (fmt == CSR) { return 1; }
  if (fmt == ELLBLOCK) {
    if (!w.P->capmode || !g_ellblock_mb) return 1;
    auto o = block_offsets(*w.P, N);
    int need = block_row_max(x.pat, N, o);
    if (need <= g_ellblock_mb) return 1;
    return w.P->capmode == 2 ? 2 : 0;
  }
  if (M >= N) return 1;
  int need = row_max(x.pat, N);
  if (need <= M) return 1;
  return w.P->capmode == 2 ? 2 : 0;
}
static bool holds_full(World &w, const Mat &A) { Exp x(A.N); std::fill(x.pat.begin(), x.pat.end(), 1); return admit(w, A.fmt, A.N, A.M, A.dist, x) == 1; }
static bool must_overflow(World &w, int fmt, int N, int M, const Exp &x) {
  auto q = nz_pat(x);
  if (fmt == ELLBLOCK) return block_row_max(q, N, block_offsets(*w.P, N)) > g_ellblock_mb;
  return row_max(q, N) > M;
}
struct Admit { int st; World &w; int fmt, N, M; const Exp &x;
  Admit(World &w_, int fmt_, int N_, int M_, bool dist, const Exp &x_) : st(admit(w_, fmt_, N_, M_, dist, x_)), w(w_), fmt(fmt_), N(N_), M(M_), x(x_) { if (st == 2) { S.expect_fatal = true; S.logbuf.clear(); } }
  void done() { if (st == 2) { S.expect_fatal = false; if (must_overflow(w, fmt, N, M, x)) bad(w, "unreported", "the result needs more non-zeros in a row than the capacity of %d but the call returned normally", fmt == ELLBLOCK ? g_ellblock_mb : M); } }
};

// compare an output matrix with its expectation and make the model current
static void settle(World &w, Mat &m, const Exp &x, const char *what = "result") {
  std::vector<char> raw; observe(w, m, raw);
  int n = w.ln(m), r0 = w.ro(m), c0 = w.co(m), N = m.N;
  std::vector<cd> act(x.v); std::vector<double> err(x.tol);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    size_t k = (size_t)(r0 + i) * N + (c0 + j);
    cd a = tget(m.prec, raw.data(), (size_t)i * n + j);
    // computed values may underflow gradually, which no relative bound covers
    const double tiny = is_single(m.prec) ? 1e-35 : 1e-300;
    bool ok = x.exact ? a == x.v[k] : std::abs(a - x.v[k]) <= x.tol[k] + tiny;
    if (!ok && !(std::isfinite(x.v[k].real()) && std::isfinite(x.v[k].imag())) && !(std::isfinite(a.real()) && std::isfinite(a.imag()))) ok = true;   // overflowed on both sides
    if (x.must[k]) ok = a == cd(0);
    if (!ok && x.drop[k] && a == cd(0)) ok = true;
    if (!ok && x.has_alt.size() && x.has_alt[k] && std::abs(a - x.alt[k]) <= x.tol[k] + tiny) ok = true;
    S.st.comparisons++;
    if (!ok && x.must[k]) bad(w, "result", "%s: element (%d,%d) is %.17g%+.17gi and was kept, although the exact value %.3g is below the threshold", what, r0 + i, c0 + j, a.real(), a.imag(), std::abs(x.v[k]));
    if (!ok) bad(w, "result", "%s: element (%d,%d) is %.17g%+.17gi, expected %.17g%+.17gi (tolerance %.3g)", what, r0 + i, c0 + j, a.real(), a.imag(), x.v[k].real(), x.v[k].imag(), x.tol[k]);
    act[k] = a; 
  }
  m.v.resize(x.v.size()); m.e.resize(x.v.size());
  if (m.dist) {
    for (size_t k = 0; k < x.v.size(); k++) { m.v[k] = x.v[k]; m.e[k] = x.tol[k] + (x.drop[k] ? std::abs(x.v[k]) : 0) + (x.has_alt.size() && x.has_alt[k] ? std::abs(x.v[k] - x.alt[k]) : 0); if (!x.exact && m.e[k] > 0) m.e[k] += is_single(m.prec) ? 1e-35 : 1e-300; }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { size_t k = (size_t)(r0 + i) * N + (c0 + j); (void)k; }
  } else { m.v = act; std::fill(m.e.begin(), m.e.end(), 0.0); }
  m.pat = x.pat; for (size_t k = 0; k < m.v.size(); k++) if (m.v[k] != cd(0)) m.pat[k] = 1;
  m.raw = raw;
  obs_bytes(raw.data(), raw.size());
}
static void check_unchanged(World &w, const std::vector<const Mat *> &outs) {
  for (int k = 0; k < NSLOT; k++) {
    Mat &m = w.s[k]; if (!m.valid()) continue;
    bool o = false; for (auto q : outs) if (q == &m) o = true;
    if (o) continue;
    std::vector<char> raw; observe(w, m, raw);
    if (raw != m.raw) {
      int n = w.ln(m); int bi = 0, bj = 0; cd a, b;
      for (int i = 0; i < n * n; i++) { if (memcmp(&raw[i * esz(m.prec)], &m.raw[i * esz(m.prec)], esz(m.prec))) { bi = i / n; bj = i % n; a = tget(m.prec, m.raw.data(), i); b = tget(m.prec, raw.data(), i); break; } }
      bad(w, "mutated", "a matrix that is not an output changed: element (%d,%d) was %.17g%+.17gi and became %.17g%+.17gi", bi, bj, a.real(), a.imag(), b.real(), b.imag());
    }
  }
}
static void frozen(World &w, UBuf &u, const char *what) { if (!u.same()) bad(w, "mutated", "the caller's %s array was modified", what); }

static void scalar_check(World &w, const char *what, double got, double want, double tol) {
  S.st.comparisons++;
  obs_bytes(&got, 8);
  if (!(std::fabs(got - want) <= tol + (tol > 0 ? 1e-35 : 0))) bad(w, "result", "%s is %.17g, expected %.17g (tolerance %.3g)", what, got, want, tol);
}
// all ranks must see the very same numbers
static void same_on_ranks(World &w, const std::vector<double> &v) {
  if (S.cfg.nranks == 1) return;
  int key = w.opi * 8 + (int)std::min<size_t>(v.size(), 7); auto it = g_scalars.find(key);
  if (it == g_scalars.end()) { g_scalars[key] = {w.rank, v}; return; }
  if (it->second.second.size() != v.size() || memcmp(it->second.second.data(), v.data(), v.size() * 8)) bad(w, "result", "ranks %d and %d obtained different values (%.17g and %.17g)", it->second.first, w.rank, it->second.second.size() ? it->second.second[0] : 0.0, v.size() ? v[0] : 0.0);
}

// ------------------------------------------------------------------ data
static cd gen_value(Rng &r, int dkind, int prec) {
  auto one = [&]() -> double {
    switch (dkind) {
      case 0: { int v = r.range(1, 4); return r.chance(0.5) ? v : -v; }
      case 1: return r.unit() * 2 - 1;
      case 2: { double m = std::pow(10.0, r.unit() * 12 - 6); return r.chance(0.5) ? m : -m; }
      case 3: return 0.1 + r.unit();
      case 4: return -0.1 - r.unit();
      case 5: { double v = 0.25 * r.range(1, 6); return r.chance(0.5) ? v : -v; }
      case 6: { double m = std::pow(10.0, -(double)r.range(0, 12)); return r.chance(0.5) ? m : -m; }
      default: return r.unit();
    }
  };
  cd v;
  if (is_cplx(prec)) { int k = r.below(4); v = k == 0 ? cd(one(), 0) : k == 1 ? cd(0, one()) : cd(one(), one()); if (dkind == 0 && false) v = one(); }
  else v = one();
  v = rnd(prec, v);
  if (v == cd(0)) v = 1.0;
  return v;
}
enum { PT_DENSE, PT_RANDOM, PT_BAND, PT_EMPTYROWS, PT_ARROW, PT_UPPER, PT_LOWER, PT_DIAGONAL, PT_ZERO, PT_PERM, PT_SYM, PT_HERM, PT_DOMINANT, PT_SPARSE, PT_COUNT };
static std::vector<cd> gen_matrix(uint64_t seed, int N, int prec, int dkind, int pattern, int cap) {
  Rng r(seed); std::vector<cd> v((size_t)N * N, cd(0));
  auto put = [&](int i, int j) { v[(size_t)i * N + j] = gen_value(r, dkind, prec); };
  double dens = pattern == PT_SPARSE ? 1.5 / N : 0.2 + 0.6 * r.unit();
  switch (pattern) {
    case PT_DENSE: for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) put(i, j); break;
    case PT_BAND: { int lo = r.range(0, 2), hi = r.range(0, 2); for (int i = 0; i < N; i++) for (int j = std::max(0, i - lo); j <= std::min(N - 1, i + hi); j++) put(i, j); break; }
    case PT_EMPTYROWS: for (int i = 0; i < N; i++) { if (r.chance(0.5)) continue; for (int j = 0; j < N; j++) if (r.chance(dens)) put(i, j); } break;
    case PT_ARROW: { int k = r.below(N); for (int i = 0; i < N; i++) { put(i, i); put(i, k); put(k, i); } break; }
    case PT_UPPER: for (int i = 0; i < N; i++) for (int j = i; j < N; j++) if (r.chance(0.7)) put(i, j); break;
    case PT_LOWER: for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) if (r.chance(0.7)) put(i, j); break;
    case PT_DIAGONAL: for (int i = 0; i < N; i++) put(i, i); break;
    case PT_ZERO: break;
    case PT_PERM: { std::vector<int> q(N); for (int i = 0; i < N; i++) q[i] = i; for (int i = N - 1; i > 0; i--) std::swap(q[i], q[r.below(i + 1)]); for (int i = 0; i < N; i++) put(i, q[i]); break; }
    case PT_SYM: case PT_HERM: for (int i = 0; i < N; i++) for (int j = i; j < N; j++) if (i == j || r.chance(dens)) { put(i, j); cd x = v[(size_t)i * N + j]; if (i == j && pattern == PT_HERM) { x = x.real(); if (x == cd(0)) x = 1.0; v[(size_t)i * N + j] = x; } v[(size_t)j * N + i] = pattern == PT_HERM ? std::conj(x) : x; } break;
    case PT_DOMINANT: for (int i = 0; i < N; i++) { double sum = 0; for (int j = 0; j < N; j++) if (i != j && r.chance(dens)) { put(i, j); sum += std::abs(v[(size_t)i * N + j]); } v[(size_t)i * N + i] = rnd(prec, cd((sum + 1 + r.unit()) * (r.chance(0.5) ? 1 : -1))); } break;
    default: for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (r.chance(dens)) put(i, j);
  }
  if (cap < N) for (int i = 0; i < N; i++) { int c = 0; for (int j = 0; j < N; j++) if (v[(size_t)i * N + j] != cd(0) && ++c > cap) v[(size_t)i * N + j] = 0; }
  if (cap < N && (pattern == PT_SYM || pattern == PT_HERM)) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (v[(size_t)j * N + i] == cd(0)) v[(size_t)i * N + j] = 0;
  return v;
}
static Exp exp_of(int N, const std::vector<cd> &v) { Exp x(N); x.v = v; x.exact = true; for (size_t k = 0; k < v.size(); k++) x.pat[k] = v[k] != cd(0); return x; }

static void forget(World &w, Mat &m) {
  if (!m.h) return;
  lib(w, "deallocate", m.dist ? DIST : m.fmt, [&] { bml_deallocate(&m.h); });
  if (m.h) bad(w, "result", "deallocate did not clear the handle");
  m = Mat();
}
static void adopt(World &w, Mat &m, bml_matrix_t *h, int fmt, int prec, int N, int M, bool dist, int dmode) {
  if (!h) bad(w, "result", "the call returned no matrix");
  m.h = h; m.fmt = fmt; m.prec = prec; m.N = N; m.M = M; m.dist = dist; m.dmode = dmode;
  if (bml_get_type(h) != (dist ? DIST : fmt)) bad(w, "result", "returned matrix has type %d", (int)bml_get_type(h));
  if (bml_get_precision(h) != prec) bad(w, "result", "returned matrix has precision %d instead of %d", (int)bml_get_precision(h), prec);
  if (bml_get_N(h) != N) bad(w, "result", "returned matrix has size %d instead of %d", bml_get_N(h), N);
}
static bml_distribution_mode_t dm(bool dist) { return dist ? distributed : sequential; }

// build a matrix with the given contents; via: 0 import, 1 elements in random order, 2 rows in random order
static void build(World &w, Mat &m, int fmt, int prec, int N, int M, bool dist, const std::vector<cd> &v_, int via, uint64_t seed) {
  forget(w, m);
  std::vector<cd> v(v_);
  if (fmt == ELLBLOCK && w.P->capmode && g_ellblock_mb) { // keep at most the capacity of blocks per block row
    auto o = block_offsets(*w.P, N); int nb = (int)o.size() - 1;
    for (int a = 0; a < nb; a++) { int c = 0; for (int b = 0; b < nb; b++) { bool any = false; for (int i = o[a]; i < o[a + 1]; i++) for (int j = o[b]; j < o[b + 1]; j++) any |= v[(size_t)i * N + j] != cd(0); if (any && ++c > g_ellblock_mb) for (int i = o[a]; i < o[a + 1]; i++) for (int j = o[b]; j < o[b + 1]; j++) v[(size_t)i * N + j] = 0; } }
  }
  Exp x = exp_of(N, v);
  if (dist || fmt == DENSE) { if (via == 1) via = 0; }
  if (via == 0) {
    bool cm = (seed >> 7) & 1; if (dist) cm = (seed >> 7) & 1;
    UBuf u((size_t)N * N * esz(prec)); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) tput(prec, u.p, cm ? (size_t)j * N + i : (size_t)i * N + j, v[(size_t)i * N + j]);
    u.freeze(); bml_matrix_t *h = nullptr;
    lib(w, "import_from_dense", dist ? DIST : fmt, [&] { h = bml_import_from_dense((bml_matrix_type_t)fmt, (bml_matrix_precision_t)prec, cm ? dense_column_major : dense_row_major, N, M, u.p, 0.0, dm(dist)); });
    adopt(w, m, h, fmt, prec, N, M, dist, 0); frozen(w, u, "dense input"); u.release();
  } else {
    bml_matrix_t *h = nullptr;
    lib(w, "zero_matrix", dist ? DIST : fmt, [&] { h = bml_zero_matrix((bml_matrix_type_t)fmt, (bml_matrix_precision_t)prec, N, M, dm(dist)); });
    adopt(w, m, h, fmt, prec, N, M, dist, 0);
    Rng r(seed * 77 + 5);
    if (via == 1) {
      std::vector<int> k; for (int i = 0; i < N * N; i++) if (v[i] != cd(0)) k.push_back(i);
      for (int i = (int)k.size() - 1; i > 0; i--) std::swap(k[i], k[r.below(i + 1)]);
      UBuf u(esz(prec));
      for (int q : k) { tput(prec, u.p, 0, v[q]); lib(w, "set_element_new", fmt, [&] { bml_set_element_new(h, q / N, q % N, u.p); }); }
      u.release();
    } else {
      std::vector<int> k(N); for (int i = 0; i < N; i++) k[i] = i; for (int i = N - 1; i > 0; i--) std::swap(k[i], k[r.below(i + 1)]);
      UBuf u(N * esz(prec));
      for (int i : k) { for (int j = 0; j < N; j++) tput(prec, u.p, j, v[(size_t)i * N + j]); u.freeze(); lib(w, "set_row", dist ? DIST : fmt, [&] { bml_set_row(h, i, u.p, 0.0); }); frozen(w, u, "row"); }
      u.release();
    }
  }
  settle(w, m, x, "created matrix");
}
static int cap_of(const Plan &P, int fmt, int N, int M) { return fmt == ELLPACK ? M : N; }
static int data_seed_rank(World &w, const Op &o) { return S.cfg.nranks > 1 && !w.P->dist ? w.rank + 1 : 0; }
// operand: slot k if it matches, else any match, else a fresh random matrix in slot k
static Mat &operand(World &w, int k, int fmt, int prec, int N, int M, bool dist, uint64_t seed, const Mat *avoid = nullptr, int pattern = -1, bool need_pattern = false, const Mat *avoid2 = nullptr) {
  auto ok = [&](Mat &m) { return m.valid() && m.fmt == fmt && m.prec == prec && m.N == N && m.dist == dist && &m != avoid && &m != avoid2 && (M < 0 || m.M == M || fmt == DENSE); };
  if (!need_pattern) for (int i = 0; i < NSLOT; i++) { Mat &m = w.S_(k + i); if (ok(m)) return m; }
  Mat *t = &w.S_(k); for (int i = 0; i < NSLOT && (t == avoid || t == avoid2); i++) t = &w.S_(k + 1 + i);
  Rng r(seed * 31 + 7);
  int MM = M < 0 ? (N == w.P->N && fmt == w.P->fmt ? w.P->M : N) : M; int pt = pattern >= 0 ? pattern : (int)r.below(PT_COUNT);
  auto v = gen_matrix(seed * 131 + (S.cfg.nranks > 1 && !w.P->dist ? w.rank + 1 : 0), N, prec, w.P->dkind, pt, cap_of(*w.P, fmt, N, MM));
  build(w, *t, fmt, prec, N, MM, dist, v, r.below(3), seed);
  return *t;
}
static Mat &first(World &w, const Op &o) {
  for (int i = 0; i < NSLOT; i++) { Mat &m = w.S_(o.a + i); if (m.valid() && m.dmode == 0) return m; }
  return operand(w, o.a, w.P->fmt, w.P->prec, w.P->N, w.P->M, w.P->dist, o.seed);
}
#include "ops.inc"
#include "ops2.inc"
#include "plan.inc"
