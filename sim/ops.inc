// Operation executor.  Each operation: choose operands, compute the expectation from the
// reference model, decide admissibility, call the library, compare, check nothing else changed.
extern uint64_t g_alloc_count[MAX_RANKS];
static void skip(World &w) { w.skipped = true; S.st.skipped_ops++; }
static const char *ORD(bool cm) { return cm ? "column" : "row"; }
static int lf(const Mat &m) { return m.dist ? DIST : m.fmt; }
static double C_EPS(int prec, int n) { return (4.0 * n + 16) * epsof(prec); }
static int pick(int v, int n) { if (n <= 0) return 0; int r = v % n; return r < 0 ? r + n : r; }

static Exp exp_lin(const Mat &A, const Mat *B, double alpha, double beta) {
  int N = A.N; Exp x(N); double ep = C_EPS(A.prec, 2);
  for (size_t k = 0; k < x.v.size(); k++) {
    cd a = alpha * A.v[k], b = B ? beta * B->v[k] : cd(0);
    x.v[k] = a + b; x.tol[k] = ep * (std::abs(a) + std::abs(b)) + std::fabs(alpha) * A.e[k] + (B ? std::fabs(beta) * B->e[k] : 0);
    x.pat[k] = A.pat[k] || (B && B->pat[k]);
  }
  return x;
}
static void add_ident(Exp &x, double beta, int prec) { for (int i = 0; i < x.N; i++) { size_t k = (size_t)i * x.N + i; x.tol[k] += C_EPS(prec, 2) * (std::abs(x.v[k]) + std::fabs(beta)); x.v[k] += beta; x.pat[k] = 1; } }
// ellblock products store every diagonal block they touch, even when all its elements vanish
static void touched_diag_blocks(World &w, Exp &x, const Mat &A, const Mat &B) {
  if (A.fmt != ELLBLOCK || A.dist) return;
  int N = A.N; auto o = block_offsets(*w.P, N); int nb = (int)o.size() - 1;
  auto blk = [&](const Mat &m, int a, int b) { for (int i = o[a]; i < o[a + 1]; i++) for (int j = o[b]; j < o[b + 1]; j++) if (m.pat[(size_t)i * N + j]) return true; return false; };
  for (int a = 0; a < nb; a++) for (int k = 0; k < nb; k++) if (blk(A, a, k) && blk(B, k, a)) { x.pat[(size_t)o[a] * N + o[a]] = 1; break; }
}
static Exp exp_mult(const Mat &A, const Mat &B, double alpha, const Mat *C, double beta) {
  int N = A.N; Exp x(N); double ep = C_EPS(A.prec, N);
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
    cd s = 0; double ab = 0, er = 0; bool pt = false;
    for (int k = 0; k < N; k++) { cd a = A.at(i, k), b = B.at(k, j); s += a * b; double aa = std::abs(a), bb = std::abs(b); ab += aa * bb; er += A.er(i, k) * bb + aa * B.er(k, j) + A.er(i, k) * B.er(k, j); pt |= A.pat[(size_t)i * N + k] && B.pat[(size_t)k * N + j]; }
    size_t q = (size_t)i * N + j; cd c = C ? beta * C->v[q] : cd(0);
    x.v[q] = alpha * s + c; x.tol[q] = std::fabs(alpha) * (ep * ab + er) + ep * std::abs(c) + (C ? std::fabs(beta) * C->e[q] : 0);
    x.pat[q] = pt || (C && C->pat[q]);
  }
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (x.pat[(size_t)i * N + j]) { x.pat[(size_t)i * N + i] = 1; break; }
  return x;
}
static Exp exp_same(const Mat &A) { Exp x(A.N); x.v = A.v; x.tol = A.e; x.pat = A.pat; x.exact = !A.dist; return x; }
static Exp exp_zero(int N) { Exp x(N); x.exact = true; return x; }
static Exp exp_transpose(const Mat &A) { Exp x(A.N); for (int i = 0; i < A.N; i++) for (int j = 0; j < A.N; j++) { x.v[(size_t)i * A.N + j] = A.at(j, i); x.tol[(size_t)i * A.N + j] = A.er(j, i); x.pat[(size_t)i * A.N + j] = A.pat[(size_t)j * A.N + i]; } x.exact = !A.dist; return x; }
// thresholding: what exceeds stays, what does not goes (either answer when it is a rounding tie)
static Exp exp_thresh(World &w, const Mat &A, double t) {
  Exp x = exp_same(A); int N = A.N;
  std::vector<uint8_t> blockkeep(x.v.size(), 0);
  if (A.fmt == ELLBLOCK) {
    if (A.dist) for (size_t k = 0; k < x.v.size(); k++) blockkeep[k] = 1;
    else {
      auto o = block_offsets(*w.P, N); int nb = (int)o.size() - 1;
      for (int a = 0; a < nb; a++) for (int b = 0; b < nb; b++) { double s = 0; for (int i = o[a]; i < o[a + 1]; i++) for (int j = o[b]; j < o[b + 1]; j++) s += std::norm(A.at(i, j)); if (std::sqrt(s) > t * (1 - 1e-5)) for (int i = o[a]; i < o[a + 1]; i++) for (int j = o[b]; j < o[b + 1]; j++) blockkeep[(size_t)i * N + j] = 1; }
    }
  }
  double slack = A.prec == SR || A.prec == SC ? 1e-5 : 1e-12;
  for (size_t k = 0; k < x.v.size(); k++) {
    double m = std::abs(A.v[k]);
    // an element that is known exactly and a threshold the precision can represent leave no room: a tie does not exceed the threshold
    bool sharp = A.e[k] == 0 && (A.v[k].imag() == 0 || A.v[k].real() == 0) && (!is_single(A.prec) || ((double)(float)t == t && (double)(float)m == m));
    if (sharp) { if (m <= t) { if (blockkeep[k]) x.drop[k] = 1; else { x.v[k] = 0; x.tol[k] = 0; x.pat[k] = 0; } } continue; }
    if (m <= t * (1 + slack) + A.e[k]) { if (m >= t * (1 - slack) - A.e[k] || blockkeep[k]) x.drop[k] = 1; else { x.v[k] = 0; x.tol[k] = 0; x.pat[k] = 0; } }
  }
  return x;
}
static bool has_explicit_zero(const Mat &A) { for (size_t k = 0; k < A.v.size(); k++) if (A.pat[k] && A.v[k] == cd(0)) return true; return false; }
static bool is_sym(const Mat &A, bool herm) { for (int i = 0; i < A.N; i++) for (int j = 0; j <= i; j++) { cd x = A.at(j, i); if (herm) x = std::conj(x); if (A.at(i, j) != x) return false; } return true; }
static bool finite(const Mat &A) { for (auto &x : A.v) if (!std::isfinite(x.real()) || !std::isfinite(x.imag())) return false; return true; }
static double small_enough(const Mat &A) { double m = A.amax(); return (A.prec == SR || A.prec == SC) ? m < 1e12 : m < 1e100; }

// prepare an output slot different from the inputs
static Mat &out_slot(World &w, int k, const Mat *a, const Mat *b = nullptr) { Mat *t = &w.S_(k); for (int i = 0; i < NSLOT && (t == a || t == b); i++) t = &w.S_(k + 1 + i); forget(w, *t); return *t; }

static std::vector<double> eigenvalues(const Mat &A) {
  int n = A.N; std::vector<cd> a(A.v.size()); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[(size_t)j * n + i] = A.at(i, j);
  std::vector<double> wv(n), rw(3 * n + 8); std::vector<cd> wk(8 * n + 64); int lw = (int)wk.size(), info = 0;
  zheev_("N", "U", &n, a.data(), &n, wv.data(), wk.data(), &lw, rw.data(), &info);
  return wv;
}
static bool invert(const Mat &A, std::vector<cd> &inv) {
  int n = A.N; inv.resize(A.v.size()); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) inv[(size_t)j * n + i] = A.at(i, j);
  std::vector<int> ip(n); int info = 0; std::vector<cd> wk(8 * n + 64); int lw = (int)wk.size();
  zgetrf_(&n, &n, inv.data(), &n, ip.data(), &info); if (info) return false;
  zgetri_(&n, inv.data(), &n, ip.data(), wk.data(), &lw, &info); if (info) return false;
  std::vector<cd> t(inv); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) inv[(size_t)i * n + j] = t[(size_t)j * n + i];
  return true;
}
static double maxnorm(const std::vector<cd> &v) { double m = 0; for (auto &x : v) m = std::max(m, std::abs(x)); return m; }

// expects the pending call to end the program with a reported error
struct MustFail {
  World &w; const char *what;
  MustFail(World &w_, const char *what_) : w(w_), what(what_) { S.expect_fatal = true; S.logbuf.clear(); }
  void done() { S.expect_fatal = false; bad(w, "unreported", "%s returned normally", what); }
};
static std::string fname_of(World &w, const Op &o, int k) { char b[64]; snprintf(b, sizeof b, "m%d.mtx", k); return b; }

extern "C" {
void cheevr_(const char *, const char *, const char *, const int *, void *, const int *, const float *, const float *, const int *, const int *, const float *, int *, float *, void *, const int *, int *, void *, const int *, float *, const int *, int *, const int *, int *, ...);
void zheevr_(const char *, const char *, const char *, const int *, void *, const int *, const double *, const double *, const int *, const int *, const double *, int *, double *, void *, const int *, int *, void *, const int *, double *, const int *, int *, const int *, int *, ...);
}
// how far LAPACK's own eigenvectors of this matrix are from orthonormal
template <class T, class H> static double lapack_loss_t(const Mat &A, H heevr) {
  int n = A.N, lw = 2 * n, liw = 10 * n, lrw = 24 * n, m = 0, info = 0, il = 1; std::vector<std::complex<T>> a((size_t)n * n), z((size_t)n * n), work(lw); std::vector<T> ev(n), rw(lrw); std::vector<int> iw(liw), supp(2 * n);
  bool raw = !A.dist && A.raw.size() == (size_t)n * n * esz(A.prec);
  for (size_t q = 0; q < a.size(); q++) { cd v = raw ? tget(A.prec, A.raw.data(), q) : A.v[q]; a[q] = std::complex<T>((T)v.real(), (T)v.imag()); }
  T abstol = 0, vl = -std::numeric_limits<T>::max(), vu = std::numeric_limits<T>::max();
  heevr("V", "A", "U", &n, a.data(), &n, &vl, &vu, &il, &n, &abstol, &m, ev.data(), z.data(), &n, supp.data(), work.data(), &lw, rw.data(), &lrw, iw.data(), &liw, &info, (size_t)1, (size_t)1, (size_t)1);
  double loss = 0;
  for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) { cd s = 0; for (int i = 0; i < n; i++) s += std::conj(cd(z[(size_t)x * n + i])) * cd(z[(size_t)y * n + i]); loss = std::max(loss, std::abs(s - (x == y ? 1.0 : 0.0))); }
  return loss;
}
static double lapack_loss(const Mat &A) { return is_cplx(A.prec) ? A.prec == 3 ? lapack_loss_t<float>(A, cheevr_) : lapack_loss_t<double>(A, zheevr_) : 0; }
static void do_scalar_op(World &w, const Op &o, Mat &A);
static void do_io_op(World &w, const Op &o);
static void do_print(World &w, Mat &A, const Op &o);
static void do_comm_op(World &w, const Op &o);
static void do_invalid(World &w, const Op &o);
static void do_blocked(World &w, const Op &o);
static void do_sub_op(World &w, const Op &o, Mat &A);

static bool supports(int fmt, bool dist, int k) {
  if (dist) switch (k) {
    case K_BANDED: case K_ELEM_MULT: case K_TRANSPOSE_TRI: case K_ADJUNGATE: case K_SUMSQ_SUB: case K_OFFDIAG: case K_GERSH_PART: case K_BANDWIDTH: case K_ROW_BANDWIDTH:
    case K_SET_ELEM: case K_SET_ELEM_NEW: case K_GET_ELEM: case K_GET_DIAG: case K_ELEMENTAL: case K_REORDER: case K_EXTRACT: case K_ASSIGN: case K_M2S: case K_S2M: case K_M2S_INDEX: case K_M2S_INDEX_GRAPH: case K_ADJACENCY: case K_ADJ_GROUP: case K_GROUP: case K_INVERSE: case K_DOMAIN: case K_MULT_ADJ_AB: case K_SCALE_NEW + 1000:
    case K_SENDRECV: case K_BCAST: case K_FANIN: case K_RING: case K_ALLGATHER: case K_RESTART: return false;
    case K_FNORM2: return fmt != CSR;
    case K_ADD_NORM: return fmt != CSR;
    default: return true;
  }
  switch (k) {
    case K_ELEM_MULT: return fmt != ELLBLOCK;
    case K_FNORM2: return fmt != CSR;
    case K_BANDWIDTH: case K_ROW_BANDWIDTH: return fmt != ELLBLOCK;
    case K_SUMSQ_SUB: return fmt != ELLBLOCK;
    case K_ADJUNGATE: return fmt == DENSE || fmt == ELLPACK;
    case K_TRANSPOSE_TRI: return fmt == DENSE;
    case K_GERSH_PART: return fmt != ELLBLOCK;
    case K_ALLGATHER: case K_DOMAIN: return fmt == DENSE || fmt == ELLPACK;
    case K_ADD_NORM: return fmt != CSR;
    case K_REORDER: return fmt != CSR;
    case K_M2S: case K_S2M: case K_M2S_INDEX: case K_M2S_INDEX_GRAPH: case K_ADJACENCY: case K_ADJ_GROUP: case K_GROUP: return fmt == ELLPACK;
    case K_SET_ELEM_NEW: return true;
  }
  return true;
}

static void exec_op(World &w, const Op &o) {
  const Plan &P = *w.P;
  int N = P.N, fmt = P.fmt, prec = P.prec; bool dist = P.dist; int k = o.kind;
  int M = dist ? P.M : P.M;
  switch (k) {
    case K_CREATE: {
      int f = fmt; if (!dist && !P.capmode && P.bsz.empty() && pick(o.p[2], 6) == 5) f = 1 + pick(o.p[3], 4);
      Mat &m = w.S_(o.a);
      int MM = f == fmt ? M : N;
      auto v = gen_matrix(o.seed * 131 + data_seed_rank(w, o), N, prec, P.dkind, pick(o.p[0], PT_COUNT), cap_of(P, f, N, MM));
      build(w, m, f, prec, N, MM, dist, v, pick(o.p[1], 3), o.seed);
      check_unchanged(w, {&m}); return;
    }
    case K_ZERO: case K_IDENT: {
      Mat &m = w.S_(o.a); forget(w, m); bml_matrix_t *h = nullptr;
      int f = fmt;
      if (k == K_ZERO && o.p[5] % 3 == 0 && !P.capmode) {   // a matrix that starts without defined contents and is filled row by row
        lib(w, "noinit_matrix", dist ? DIST : f, [&] { if (o.p[4] & 1) { bml_matrix_dimension_t d = {N, N, M}; h = bml_noinit_rectangular_matrix((bml_matrix_type_t)f, (bml_matrix_precision_t)prec, d, dm(dist)); } else h = bml_noinit_matrix((bml_matrix_type_t)f, (bml_matrix_precision_t)prec, N, M, dm(dist)); });
        if (!h) bad(w, "result", "no matrix was created");
        auto v = gen_matrix(o.seed * 131 + data_seed_rank(w, o), N, prec, P.dkind, pick(o.p[3], PT_COUNT), cap_of(P, f, N, M)); Exp x = exp_of(N, v);
        UBuf u((size_t)N * esz(prec)); 
        for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) tput(prec, u.p, j, v[(size_t)i * N + j]); lib(w, "set_row", dist ? DIST : f, [&] { bml_set_row(h, i, u.p, 0.0); }); }
        u.release(); adopt(w, m, h, f, prec, N, M, dist, 0); settle(w, m, x, "filled matrix"); check_unchanged(w, {&m}); return;
      }
      if (k == K_ZERO) lib(w, "zero_matrix", dist ? DIST : f, [&] { h = bml_zero_matrix((bml_matrix_type_t)f, (bml_matrix_precision_t)prec, N, M, dm(dist)); });
      else lib(w, "identity_matrix", dist ? DIST : f, [&] { h = bml_identity_matrix((bml_matrix_type_t)f, (bml_matrix_precision_t)prec, N, M, dm(dist)); });
      Exp x = exp_zero(N); if (k == K_IDENT) add_ident(x, 1.0, prec); std::fill(x.tol.begin(), x.tol.end(), 0.0);
      adopt(w, m, h, f, prec, N, M, dist, 0); settle(w, m, x, "created matrix"); check_unchanged(w, {&m}); return;
    }
    case K_RANDOM: case K_BANDED: {
      if (!supports(fmt, dist, k) || P.capmode) return skip(w);
      Mat &m = w.S_(o.a); forget(w, m); bml_matrix_t *h = nullptr;
      sim_srand((unsigned)o.seed);
      if (dist) {   // every process fills its own block: valid, finite, of the right size; then emptied
        lib(w, "random_matrix", DIST, [&] { h = bml_random_matrix((bml_matrix_type_t)fmt, (bml_matrix_precision_t)prec, N, N, distributed); });
        if (!h) bad(w, "result", "no matrix was created");
        adopt(w, m, h, fmt, prec, N, N, true, 0); std::vector<char> raw; observe(w, m, raw); int n = w.ln(m);
        for (int i = 0; i < n * n; i++) { cd a = tget(prec, raw.data(), i); if (!(a.real() >= 0 && a.real() <= 1.0001) || a.imag() != 0) bad(w, "result", "a random matrix has the local element %g%+gi", a.real(), a.imag()); }
        lib(w, "clear", DIST, [&] { bml_clear(m.h); }); settle(w, m, exp_zero(N), "cleared random matrix"); check_unchanged(w, {&m}); return;
      }
      int mm = k == K_BANDED || o.p[1] % 2 ? 1 + pick(o.p[0], N) : N;
      if (k == K_RANDOM) lib(w, "random_matrix", fmt, [&] { h = bml_random_matrix((bml_matrix_type_t)fmt, (bml_matrix_precision_t)prec, N, mm, sequential); });
      else lib(w, "banded_matrix", fmt, [&] { h = bml_banded_matrix((bml_matrix_type_t)fmt, (bml_matrix_precision_t)prec, N, mm, sequential); });
      adopt(w, m, h, fmt, prec, N, fmt == ELLPACK ? mm : bml_get_M(h), false, 0);
      if (fmt == ELLPACK && bml_get_M(h) != mm) bad(w, "result", "%s: the row capacity reads as %d, expected %d", op_name(k), bml_get_M(h), mm);
      std::vector<char> raw; observe(w, m, raw); Exp x(N); x.exact = true; int rownz = 0;
      for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
        if (!j) rownz = 0;
        cd a = tget(prec, raw.data(), (size_t)i * N + j); size_t q = (size_t)i * N + j; x.v[q] = a; x.pat[q] = 1; if (a != cd(0) && ++rownz > mm && k == K_RANDOM && (fmt == ELLPACK || fmt == CSR)) bad(w, "result", "random matrix has more than %d elements in row %d", mm, i);
        if (!std::isfinite(a.real()) || !std::isfinite(a.imag()) || std::abs(a) > 10) bad(w, "result", "%s: element (%d,%d) is %g%+gi", op_name(k), i, j, a.real(), a.imag());
        if (k == K_BANDED && std::abs(i - j) > mm && a != cd(0)) bad(w, "result", "banded matrix has an element outside its band at (%d,%d)", i, j);
      }
      if (pick(o.p[2], 2) == 0) {   // the same seed gives the same matrix, whatever the team
        quiet(true); bool af = g_afault.armed; g_afault.armed = false; sim_srand((unsigned)o.seed); bml_matrix_t *h2 = k == K_RANDOM ? bml_random_matrix((bml_matrix_type_t)fmt, (bml_matrix_precision_t)prec, N, mm, sequential) : bml_banded_matrix((bml_matrix_type_t)fmt, (bml_matrix_precision_t)prec, N, mm, sequential);
        g_afault.armed = af; Mat t2; t2.h = h2; t2.fmt = fmt; t2.prec = prec; t2.N = N; t2.M = mm; std::vector<char> raw2; observe(w, t2, raw2); bml_deallocate(&h2); quiet(false);
        for (size_t q = 0; q < x.v.size(); q++) if (tget(prec, raw2.data(), q) != x.v[q]) bad(w, "result", "%s: created again from the same random numbers, element (%d,%d) is %g instead of %g", op_name(k), (int)(q / N), (int)(q % N), tget(prec, raw2.data(), q).real(), x.v[q].real());
      }
      settle(w, m, x); check_unchanged(w, {&m}); 
      // the row capacity of such a matrix is what it was created with: rebuild it with the plan's capacity
      if (mm != N && m.fmt != DENSE) { forget(w, m); }
      return;
    }
    case K_FREE: { Mat &m = w.S_(o.a); if (!m.valid()) return skip(w); forget(w, m); check_unchanged(w, {}); return; }
    case K_CLEAR: {
      Mat &m = first(w, o); Exp x = exp_zero(N = m.N);
      lib(w, "clear", lf(m), [&] { bml_clear(m.h); }); settle(w, m, x, "cleared matrix"); check_unchanged(w, {&m}); return;
    }
    case K_ADD: case K_ADD_NORM: {
      Mat &A = first(w, o); if (!supports(A.fmt, A.dist, k)) return skip(w);
      Mat &B = operand(w, o.b, A.fmt, A.prec, A.N, -1, A.dist, o.seed, &A);
      Exp x = exp_lin(A, &B, o.x, o.y); drop_rule(x, o.t); must_drop_rule(w, x, A.fmt, A.dist, o.t);
      Mat A0 = A; double tr = 0;
      Admit ad(w, A.fmt, A.N, A.M, A.dist, x); if (!ad.st) return skip(w);
      if (k == K_ADD) lib(w, "add", lf(A), [&] { bml_add(A.h, B.h, o.x, o.y, o.t); });
      else lib(w, "add_norm", lf(A), [&] { tr = bml_add_norm(A.h, B.h, o.x, o.y, o.t); });
      ad.done(); settle(w, A, x);
      if (k == K_ADD_NORM) {
        // the norm of the difference of the operands as they were: sum (A_ij - B_ij)^2
        cd s = 0; double m2 = 0, er = 0; for (size_t q = 0; q < A0.v.size(); q++) { cd d = A0.v[q] - B.v[q]; s += d * d; m2 += std::norm(d); double mm = std::abs(A0.v[q]) + std::abs(B.v[q]); er += mm * mm; double e = A0.e[q] + B.e[q]; er += (2 * mm + e) * e / C_EPS(A.prec, N * N); }
        double tol = C_EPS(A.prec, A.N * A.N) * er;
        S.st.comparisons++; obs_bytes(&tr, 8);
        if (!(std::fabs(tr - s.real()) <= tol || (is_cplx(A.prec) && std::fabs(tr - m2) <= tol))) bad(w, "result", "the returned norm is %.17g, expected %.17g (tolerance %.3g)", tr, s.real(), tol);
        if (A.dist) same_on_ranks(w, {tr});
      }
      check_unchanged(w, {&A}); return;
    }
    case K_ADD_IDENT: case K_SCALE_ADD_IDENT: {
      Mat &A = first(w, o); Exp x = exp_lin(A, nullptr, k == K_ADD_IDENT ? 1.0 : o.x, 0); add_ident(x, o.y, A.prec); drop_rule(x, o.t); must_drop_rule(w, x, A.fmt, A.dist, o.t);
      Admit ad(w, A.fmt, A.N, A.M, A.dist, x); if (!ad.st) return skip(w);
      if (k == K_ADD_IDENT) lib(w, "add_identity", lf(A), [&] { bml_add_identity(A.h, o.y, o.t); });
      else lib(w, "scale_add_identity", lf(A), [&] { bml_scale_add_identity(A.h, o.x, o.y, o.t); });
      ad.done(); settle(w, A, x); check_unchanged(w, {&A}); return;
    }
    case K_SCALE_NEW: case K_SCALE: case K_SCALE_INPLACE: {
      Mat &A = first(w, o); cd f = o.x; if (is_cplx(A.prec) && (o.p[0] & 1)) f = cd(o.x, o.y);
      f = rnd(A.prec, f); Exp x(A.N); for (size_t q = 0; q < x.v.size(); q++) { x.v[q] = f * A.v[q]; x.tol[q] = C_EPS(A.prec, 1) * std::abs(f) * std::abs(A.v[q]) * 2 + std::abs(f) * A.e[q]; x.pat[q] = A.pat[q]; }
      UBuf u(esz(A.prec)); tput(A.prec, u.p, 0, f); u.freeze();
      if (k == K_SCALE_NEW) {
        Mat &B = out_slot(w, o.b, &A); bml_matrix_t *h = nullptr; lib(w, "scale_new", lf(A), [&] { h = bml_scale_new(u.p, A.h); });
        adopt(w, B, h, A.fmt, A.prec, A.N, A.M, A.dist, 0); settle(w, B, x); check_unchanged(w, {&B});
      } else if (k == K_SCALE) {
        Mat &B = operand(w, o.b, A.fmt, A.prec, A.N, A.M, A.dist, o.seed, &A);
        lib(w, "scale", lf(A), [&] { bml_scale(u.p, A.h, B.h); }); settle(w, B, x); check_unchanged(w, {&B});
      } else { lib(w, "scale_inplace", lf(A), [&] { bml_scale_inplace(u.p, A.h); }); settle(w, A, x); check_unchanged(w, {&A}); }
      frozen(w, u, "scale factor"); u.release(); return;
    }
    case K_MULT: {
      Mat &A = first(w, o); Mat &B = operand(w, o.b, A.fmt, A.prec, A.N, -1, A.dist, o.seed);
      Mat &C = operand(w, o.c, A.fmt, A.prec, A.N, -1, A.dist, o.seed + 1, &A, -1, false, &B);
      if (!small_enough(A) || !small_enough(B) || !small_enough(C)) return skip(w);
      Exp x = exp_mult(A, B, o.x, &C, o.y); touched_diag_blocks(w, x, A, B); block_sum_rule(x, A.dist, o.x, o.t);
      Exp ab = exp_mult(A, B, 1.0, nullptr, 0);
      for (size_t q = 0; q < x.v.size(); q++) { double m = std::abs(ab.v[q]); if (m <= o.t * (1 + 1e-6) + ab.tol[q]) x.set_alt(q, o.y * C.v[q]); if (std::abs(x.v[q]) <= o.t * (1 + 1e-6) + x.tol[q] || (x.has_alt.size() && x.has_alt[q] && std::abs(x.alt[q]) <= o.t * (1 + 1e-6) + x.tol[q])) x.drop[q] = 1; }
      must_drop_rule(w, x, A.fmt, A.dist, o.t);
      Admit ad(w, C.fmt, C.N, C.M, C.dist, x); if (!ad.st) return skip(w);
      lib(w, "multiply", lf(A), [&] { bml_multiply(A.h, B.h, C.h, o.x, o.y, o.t); });
      ad.done(); settle(w, C, x); check_unchanged(w, {&C}); return;
    }
    case K_MULT_X2: {
      Mat &A = first(w, o); Mat &B = operand(w, o.b, A.fmt, A.prec, A.N, -1, A.dist, o.seed, &A);
      if (!small_enough(A)) return skip(w);
      Exp x = exp_mult(A, A, 1.0, nullptr, 0); touched_diag_blocks(w, x, A, A); block_sum_rule(x, A.dist, 1, o.t); drop_rule(x, o.t); must_drop_rule(w, x, A.fmt, A.dist, o.t);
      cd t1 = 0, t2 = 0; double a1 = 0, a2 = 0, s2 = 0, e1 = 0; for (int i = 0; i < A.N; i++) { t1 += A.at(i, i); a1 += std::abs(A.at(i, i)); e1 += A.er(i, i); t2 += x.v[(size_t)i * A.N + i]; a2 += x.tol[(size_t)i * A.N + i]; double m = std::abs(x.v[(size_t)i * A.N + i]); a2 += m * C_EPS(A.prec, A.N); if (m <= o.t * (1 + 1e-6) + x.tol[(size_t)i * A.N + i]) s2 += m; }
      Admit ad(w, B.fmt, B.N, B.M, B.dist, x); if (!ad.st) return skip(w);
      double *tr = nullptr; lib(w, "multiply_x2", lf(A), [&] { tr = (double *)bml_multiply_x2(A.h, B.h, o.t); });
      ad.done(); settle(w, B, x);
      if (tr) {
        if (mem_block_size(tr) < 2 * sizeof(double)) bad(w, "result", "the returned pair of traces is a block of %zu bytes", mem_block_size(tr));
        double r0 = tr[0], r1 = tr[1]; bml_free_memory(tr);
        scalar_check(w, "the returned trace of X", r0, t1.real(), C_EPS(A.prec, A.N) * a1 + e1);
        scalar_check(w, "the returned trace of X^2", r1, t2.real(), a2 + s2);
      } else if (!A.dist) bad(w, "result", "multiply_x2 returned no traces");
      check_unchanged(w, {&B}); return;
    }
    case K_MULT_AB: case K_MULT_ADJ_AB: {
      Mat &A = first(w, o); if (!supports(A.fmt, A.dist, k)) return skip(w);
      Mat &B = operand(w, o.b, A.fmt, A.prec, A.N, -1, A.dist, o.seed);
      Mat &C = operand(w, o.c, A.fmt, A.prec, A.N, -1, A.dist, o.seed + 1, &A, -1, false, &B);
      if (!small_enough(A) || !small_enough(B)) return skip(w);
      Exp x = exp_mult(A, B, 1.0, nullptr, 0); touched_diag_blocks(w, x, A, B); block_sum_rule(x, A.dist, 1, o.t);
      bool blocks = C.fmt == ELLBLOCK && w.P->capmode && g_ellblock_mb, rows = C.fmt == ELLPACK && C.M < C.N;
      if (k == K_MULT_ADJ_AB && !A.dist && o.t > 0 && (blocks || rows)) {
        // the threshold is doubled until every row of the product fits
        std::vector<int> off; if (blocks) off = block_offsets(*w.P, C.N); else for (int i = 0; i <= C.N; i++) off.push_back(i);
        int cap = blocks ? g_ellblock_mb : C.M, k0 = doublings(x, off, cap, o.t, true), k1 = doublings(x, off, cap, o.t, false);
        if (k0 < 0 || k1 < 0) return skip(w);
        unit_threshold(x, off, std::ldexp(o.t, k0), std::ldexp(o.t, k1));
        lib(w, "multiply_adjust_AB", lf(A), [&] { bml_multiply_adjust_AB(A.h, B.h, C.h, o.t); });
        settle(w, C, x); check_unchanged(w, {&C}); return;
      }
      drop_rule(x, o.t); must_drop_rule(w, x, A.fmt, A.dist, o.t);
      Admit ad(w, C.fmt, C.N, C.M, C.dist, x); if (!ad.st) return skip(w);
      if (k == K_MULT_AB) lib(w, "multiply_AB", lf(A), [&] { bml_multiply_AB(A.h, B.h, C.h, o.t); });
      else lib(w, "multiply_adjust_AB", lf(A), [&] { bml_multiply_adjust_AB(A.h, B.h, C.h, o.t); });
      ad.done(); settle(w, C, x); check_unchanged(w, {&C}); return;
    }
    case K_ELEM_MULT: {
      Mat &A = first(w, o); if (!supports(A.fmt, A.dist, k)) return skip(w);
      Mat &B = operand(w, o.b, A.fmt, A.prec, A.N, -1, A.dist, o.seed);
      Mat &C = operand(w, o.c, A.fmt, A.prec, A.N, -1, A.dist, o.seed + 1, &A, -1, false, &B);
      if (!small_enough(A) || !small_enough(B)) return skip(w);
      Exp x(A.N); for (size_t q = 0; q < x.v.size(); q++) { x.v[q] = A.v[q] * B.v[q]; x.tol[q] = 4 * C_EPS(A.prec, 1) * std::abs(x.v[q]); x.pat[q] = A.pat[q] && B.pat[q]; } if (A.fmt == ELLPACK || A.fmt == CSR) for (int i = 0; i < A.N; i++) { size_t q = (size_t)i * A.N + i; if (A.pat[q]) x.pat[q] = 1; } drop_rule(x, o.t); must_drop_rule(w, x, A.fmt, A.dist, o.t);   // these keep a stored diagonal even when the product vanishes
      Admit ad(w, C.fmt, C.N, C.M, C.dist, x); if (!ad.st) return skip(w);
      lib(w, "element_multiply_AB", lf(A), [&] { bml_element_multiply_AB(A.h, B.h, C.h, o.t); });
      ad.done(); settle(w, C, x); check_unchanged(w, {&C}); return;
    }
    case K_TRANSPOSE: case K_TRANSPOSE_NEW: {
      Mat &A = first(w, o); Exp x = exp_transpose(A);
      Admit ad(w, A.fmt, A.N, A.M, A.dist, x); if (!ad.st) return skip(w);
      if (k == K_TRANSPOSE) { lib(w, "transpose", lf(A), [&] { bml_transpose(A.h); }); ad.done(); settle(w, A, x); check_unchanged(w, {&A}); }
      else { Mat &B = out_slot(w, o.b, &A); bml_matrix_t *h = nullptr; lib(w, "transpose_new", lf(A), [&] { h = bml_transpose_new(A.h); }); ad.done(); adopt(w, B, h, A.fmt, A.prec, A.N, A.M, A.dist, 0); settle(w, B, x); check_unchanged(w, {&B}); }
      return;
    }
    case K_TRANSPOSE_TRI: case K_ADJUNGATE: {
      Mat &A = first(w, o); if (!supports(A.fmt, A.dist, k)) return skip(w);
      bool up = o.p[0] & 1; Exp x = exp_same(A); int n = A.N;
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && (up ? i < j : i > j)) { x.v[(size_t)j * n + i] = k == K_ADJUNGATE ? std::conj(A.at(i, j)) : A.at(i, j); x.pat[(size_t)j * n + i] = A.pat[(size_t)i * n + j] || A.pat[(size_t)j * n + i]; }
      Exp x2 = x; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && (up ? i < j : i > j)) x2.pat[(size_t)j * n + i] = x.pat[(size_t)j * n + i];
      Admit ad(w, A.fmt, A.N, A.M, A.dist, x); if (!ad.st) return skip(w);
      if (k == K_ADJUNGATE) { char tri[2] = {up ? 'u' : 'l', 0}; lib(w, "adjungate_triangle", lf(A), [&] { bml_adjungate_triangle(A.h, tri); }); }
      else lib(w, "transpose_triangle", lf(A), [&] { bml_transpose_triangle(A.h, up ? 'u' : 'l'); });
      ad.done(); settle(w, A, x); check_unchanged(w, {&A}); return;
    }
    case K_TRACE: case K_TRACE_MULT: case K_FNORM: case K_FNORM2: case K_SUMSQ: case K_SUMSQ2: case K_SUMSQ_SUB: case K_SUM_AB: case K_OFFDIAG: case K_GERSH: case K_GERSH_PART: case K_BANDWIDTH: case K_ROW_BANDWIDTH: case K_SPARSITY: {
      if (k == K_GERSH) { Mat &A0 = first(w, o); if (!(is_sym(A0, is_cplx(A0.prec)) || A0.dist)) { Mat &A = operand(w, o.b, A0.fmt, A0.prec, A0.N, -1, A0.dist, o.seed, &A0, PT_HERM, true); do_scalar_op(w, o, A); return; } do_scalar_op(w, o, A0); return; }
      Mat &A = first(w, o); do_scalar_op(w, o, A); return;
    }
    case K_SET_ELEM: case K_SET_ELEM_NEW: {
      Mat &A = first(w, o); if (!supports(A.fmt, A.dist, k)) return skip(w);
      int i = pick(o.p[0], A.N), j = pick(o.p[1], A.N); size_t q = (size_t)i * A.N + j;
      if (k == K_SET_ELEM_NEW && A.fmt != DENSE && A.pat[q]) return skip(w);   // documented for new elements only
      Rng r(o.seed); cd v = pick(o.p[2], 8) == 0 ? cd(0) : gen_value(r, P.dkind, A.prec);
      Exp x = exp_same(A); x.v[q] = v; x.pat[q] = 1;
      Admit ad(w, A.fmt, A.N, A.M, A.dist, x); if (!ad.st) return skip(w);
      UBuf u(esz(A.prec)); tput(A.prec, u.p, 0, v); u.freeze();
      if (k == K_SET_ELEM) lib(w, "set_element", lf(A), [&] { bml_set_element(A.h, i, j, u.p); });
      else lib(w, "set_element_new", lf(A), [&] { bml_set_element_new(A.h, i, j, u.p); });
      ad.done(); frozen(w, u, "element"); u.release(); settle(w, A, x); check_unchanged(w, {&A}); return;
    }
    case K_SET_ROW: {
      Mat &A = first(w, o); int i = pick(o.p[0], A.N), n = A.N; Rng r(o.seed); double dens = r.unit();
      Exp x = exp_same(A); int c = 0; std::vector<cd> row(n);
      int cap = A.fmt == ELLPACK && P.capmode != 2 ? A.M : n;
      for (int j = 0; j < n; j++) { cd v = 0; if (r.chance(dens) && c < cap) { v = gen_value(r, P.dkind, A.prec); c++; } row[j] = v; size_t q = (size_t)i * n + j; x.v[q] = v; x.tol[q] = 0; x.pat[q] = v != cd(0) || (A.fmt == ELLBLOCK && A.pat[q]); if (std::abs(v) <= o.t * (1 + 1e-6)) x.drop[q] = 1; if (A.fmt != DENSE && std::abs(v) < o.t * (1 - 1e-6)) x.must[q] = 1; }
      Admit ad(w, A.fmt, A.N, A.M, A.dist, x); if (!ad.st) return skip(w);
      UBuf u(n * esz(A.prec)); for (int j = 0; j < n; j++) tput(A.prec, u.p, j, row[j]); u.freeze();
      lib(w, "set_row", lf(A), [&] { bml_set_row(A.h, i, u.p, o.t); }); ad.done();
      frozen(w, u, "row"); u.release(); settle(w, A, x); check_unchanged(w, {&A}); return;
    }
    case K_SET_DIAG: {
      Mat &A = first(w, o); int n = A.N; Rng r(o.seed); Exp x = exp_same(A); double dens = r.unit() + 0.3;
      UBuf u(n * esz(A.prec)); for (int i = 0; i < n; i++) { size_t q = (size_t)i * n + i; cd v = r.chance(dens) ? gen_value(r, P.dkind, A.prec) : cd(0); tput(A.prec, u.p, i, v); x.v[q] = v; x.tol[q] = 0; x.pat[q] = 1; if (std::abs(v) <= o.t * (1 + 1e-6)) x.drop[q] = 1; }
      if (A.fmt != DENSE && !(A.dist && A.fmt == ELLBLOCK)) {
        std::vector<int> bo; if (A.fmt == ELLBLOCK) bo = block_offsets(P, n); else for (int i = 0; i <= n; i++) bo.push_back(i);
        for (size_t b = 0; b + 1 < bo.size(); b++) { double hi = 0; for (int i = bo[b]; i < bo[b + 1]; i++) hi = std::max(hi, std::abs(x.v[(size_t)i * n + i])); if (hi < o.t * (1 - 1e-6)) for (int i = bo[b]; i < bo[b + 1]; i++) x.must[(size_t)i * n + i] = 1; }
      }
      u.freeze();
      Admit ad(w, A.fmt, A.N, A.M, A.dist, x); if (!ad.st) { u.release(); return skip(w); }
      lib(w, "set_diagonal", lf(A), [&] { bml_set_diagonal(A.h, u.p, o.t); }); ad.done();
      frozen(w, u, "diagonal"); u.release(); settle(w, A, x); check_unchanged(w, {&A}); return;
    }
    case K_GET_ELEM: case K_ELEMENTAL: {
      Mat &A = first(w, o); if (!supports(A.fmt, A.dist, k)) return skip(w);
      int i = pick(o.p[0], A.N), j = pick(o.p[1], A.N); cd got;
      if (k == K_GET_ELEM) { void *p = nullptr; lib(w, "get_element", lf(A), [&] { p = bml_get_element(A.h, i, j); }); if (!p) bad(w, "result", "get_element returned no value for (%d,%d)", i, j); access_range(p, esz(A.prec), false, "returned element"); got = tget(A.prec, p, 0); }
      else lib(w, "get_element_typed", lf(A), [&] { switch (A.prec) {
        case SR: got = bml_get_element_single_real(A.h, i, j); break; case DR: got = bml_get_element_double_real(A.h, i, j); break;
        case SC: { float _Complex z = bml_get_element_single_complex(A.h, i, j); got = cd(__real__ z, __imag__ z); break; }
        default: { double _Complex z = bml_get_element_double_complex(A.h, i, j); got = cd(__real__ z, __imag__ z); } } });
      S.st.comparisons++; double gv[2] = {got.real(), got.imag()}; obs_bytes(gv, 16);
      if (got != A.at(i, j)) bad(w, "result", "element (%d,%d) reads as %.17g%+.17gi, expected %.17g%+.17gi", i, j, got.real(), got.imag(), A.at(i, j).real(), A.at(i, j).imag());
      check_unchanged(w, {}); return;
    }
    case K_GET_ROW: case K_GET_DIAG: {
      Mat &A = first(w, o); if (!supports(A.fmt, A.dist, k)) return skip(w);
      int i = pick(o.p[0], A.N), n = A.N; void *p = nullptr;
      if (k == K_GET_ROW) lib(w, "get_row", lf(A), [&] { p = bml_get_row(A.h, i); }); else lib(w, "get_diagonal", lf(A), [&] { p = bml_get_diagonal(A.h); });
      if (!p) bad(w, "result", "no array was returned");
      if (mem_block_size(p) < n * esz(A.prec)) bad(w, "result", "the returned array holds %zu bytes instead of %zu", mem_block_size(p), n * esz(A.prec));
      for (int j = 0; j < n; j++) { cd g = tget(A.prec, p, j), e = k == K_GET_ROW ? A.at(i, j) : A.at(j, j); double tol = k == K_GET_ROW ? A.er(i, j) : A.er(j, j); S.st.comparisons++; if (!(std::abs(g - e) <= tol)) bad(w, "result", "entry %d of the %s is %.17g%+.17gi, expected %.17g%+.17gi", j, k == K_GET_ROW ? "row" : "diagonal", g.real(), g.imag(), e.real(), e.imag()); }
      obs_bytes(p, n * esz(A.prec)); bml_free_memory(p); check_unchanged(w, {}); return;
    }
    case K_IMPORT: {
      int f = fmt; Mat &m = w.S_(o.a); bool cm = o.p[1] & 1;
      auto v = gen_matrix(o.seed * 131 + data_seed_rank(w, o), N, prec, P.dkind, pick(o.p[0], PT_COUNT), P.capmode == 2 ? N : cap_of(P, f, N, M));
      Exp x = exp_of(N, v); drop_rule(x, o.t); x.exact = true;
      Admit ad(w, f, N, M, dist, x); if (!ad.st) return skip(w);
      S.expect_fatal = false; forget(w, m); if (ad.st == 2) { S.expect_fatal = true; S.logbuf.clear(); }
      UBuf u((size_t)N * N * esz(prec)); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) tput(prec, u.p, cm ? (size_t)j * N + i : (size_t)i * N + j, v[(size_t)i * N + j]);
      u.freeze(); bml_matrix_t *h = nullptr;
      lib(w, "import_from_dense", dist ? DIST : f, [&] { h = bml_import_from_dense((bml_matrix_type_t)f, (bml_matrix_precision_t)prec, cm ? dense_column_major : dense_row_major, N, M, u.p, o.t, dm(dist)); });
      ad.done(); adopt(w, m, h, f, prec, N, M, dist, 0); frozen(w, u, "dense input"); u.release(); settle(w, m, x, "imported matrix"); check_unchanged(w, {&m}); return;
    }
    case K_EXPORT: {
      Mat &A = first(w, o); bool cm = o.p[0] & 1; void *d = nullptr; int n = A.N;
      lib(w, "export_to_dense", lf(A), [&] { d = bml_export_to_dense(A.h, cm ? dense_column_major : dense_row_major); });
      if (A.dist && w.rank != 0) { if (d && mem_block_size(d)) bml_free_memory(d); check_unchanged(w, {}); return; }
      if (!d) bad(w, "result", "export returned no array");
      if (mem_block_size(d) < (size_t)n * n * esz(A.prec)) bad(w, "result", "the exported array holds %zu bytes", mem_block_size(d));
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { cd g = tget(A.prec, d, cm ? (size_t)j * n + i : (size_t)i * n + j); S.st.comparisons++; if (!(std::abs(g - A.at(i, j)) <= A.er(i, j))) bad(w, "result", "exported element (%d,%d) in %s-major order is %.17g%+.17gi, expected %.17g%+.17gi", i, j, ORD(cm), g.real(), g.imag(), A.at(i, j).real(), A.at(i, j).imag()); }
      obs_bytes(d, (size_t)n * n * esz(A.prec)); bml_free_memory(d); check_unchanged(w, {}); return;
    }
    case K_COPY_NEW: {
      Mat &A = first(w, o); Mat &B = out_slot(w, o.b, &A); Exp x = exp_same(A); bml_matrix_t *h = nullptr;
      lib(w, "copy_new", lf(A), [&] { h = bml_copy_new(A.h); }); if (h == A.h) bad(w, "result", "copy_new returned its argument");
      adopt(w, B, h, A.fmt, A.prec, A.N, A.M, A.dist, 0); settle(w, B, x); check_unchanged(w, {&B}); return;
    }
    case K_COPY: {
      Mat &A = first(w, o); Mat &B = operand(w, o.b, A.fmt, A.prec, A.N, A.M, A.dist, o.seed, &A); Exp x = exp_same(A);
      lib(w, "copy", lf(A), [&] { bml_copy(A.h, B.h); }); settle(w, B, x); check_unchanged(w, {&B}); return;
    }
    case K_REORDER: {
      Mat &A = first(w, o); if (!supports(A.fmt, A.dist, k)) return skip(w); int n = A.N;
      std::vector<int> pm(n); for (int i = 0; i < n; i++) pm[i] = i; Rng r(o.seed);
      for (int i = n - 1; i > 0; i--) std::swap(pm[i], pm[r.below(i + 1)]);
      UBuf u(n * sizeof(int)); memcpy(u.p, pm.data(), n * sizeof(int)); u.freeze();
      Exp x(n); x.exact = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { size_t q = (size_t)pm[i] * n + pm[j]; x.v[q] = A.at(i, j); x.pat[q] = A.pat[(size_t)i * n + j]; }
      Admit ad(w, A.fmt, A.N, A.M, A.dist, x); if (!ad.st) { u.release(); return skip(w); }
      lib(w, "reorder", lf(A), [&] { bml_reorder(A.h, (int *)u.p); }); ad.done();
      frozen(w, u, "permutation"); u.release(); settle(w, A, x); check_unchanged(w, {&A}); return;
    }
    case K_CONVERT: {
      Mat &A = first(w, o); int f2 = 1 + pick(o.p[0], 4), pr2 = A.prec;
      if (o.p[1] >= 1000) pr2 = 1 + pick(o.p[1], 4);
      if (A.dist && pick(o.p[2], 4) != 0) f2 = A.fmt;
      if (is_cplx(A.prec) && !is_cplx(pr2)) pr2 += 2;
      if (P.capmode == 0 && false) f2 = A.fmt;
      if (f2 == ELLBLOCK && (A.N != P.N || P.capmode)) return skip(w);   // a converted ellblock matrix has room for every block
      Exp x = exp_same(A); int M2 = A.dist ? A.M : (f2 == A.fmt ? A.M : A.N); if (f2 == ELLPACK && P.capmode) M2 = P.M;
      if (pr2 != A.prec) { x.exact = false; for (size_t q = 0; q < x.v.size(); q++) { x.v[q] = rnd(pr2, x.v[q]); x.tol[q] += std::abs(x.v[q]) * 1e-6 + 1e-37; } }
      Admit ad(w, f2, A.N, M2, A.dist, x); if (!ad.st) return skip(w);
      S.expect_fatal = false;
      Mat &B = out_slot(w, o.b, &A); bml_matrix_t *h = nullptr; if (ad.st == 2) { S.expect_fatal = true; S.logbuf.clear(); }
      lib(w, "convert", lf(A), [&] { h = bml_convert(A.h, (bml_matrix_type_t)f2, (bml_matrix_precision_t)pr2, M2, dm(A.dist)); });
      ad.done(); if (h == A.h) bad(w, "result", "convert returned its argument");
      adopt(w, B, h, f2, pr2, A.N, M2, A.dist, 0); settle(w, B, x, "converted matrix"); check_unchanged(w, {&B}); return;
    }
    case K_INTROSPECT: {
      Mat &A = first(w, o); int t = 0, dt = 0, p = 0, n = 0, mm = 0, al = 0, dmd = 0;
      lib(w, "introspection", lf(A), [&] { t = bml_get_type(A.h); dt = bml_get_deep_type(A.h); p = bml_get_precision(A.h); n = bml_get_N(A.h); mm = bml_get_M(A.h); al = bml_allocated(A.h); });
      lib(w, "distribution_mode", lf(A), [&] { dmd = bml_get_distribution_mode(A.h); });
      int want[6] = {A.dist ? DIST : A.fmt, A.fmt, A.prec, A.N, A.M, 1}, got[6] = {t, dt, p, n, mm, al != 0};
      if (P.fort) { int ei = 0; lib(w, "introspection", lf(A), [&] { ei = fs_element_info(A.h); }); if (ei != A.prec) bad(w, "result", "element type and precision read as those of precision %d instead of %d", ei, A.prec); }
      if (!A.dist) {
        int nb = 0, wb = A.fmt == ELLBLOCK ? (int)block_offsets(P, A.N).size() - 1 : 1; lib(w, "introspection", lf(A), [&] { nb = bml_get_NB(A.h); }); if (nb != wb) bad(w, "result", "the number of blocks reads as %d, expected %d", nb, wb);
        if (A.fmt == DENSE) { void *dp = nullptr; lib(w, "introspection", lf(A), [&] { dp = bml_get_data_ptr(A.h); }); if (!dp) bad(w, "result", "no data pointer was returned"); access_range(dp, A.v.size() * esz(A.prec), false, "data pointer");
          for (int i = 0; i < A.N; i++) for (int j = 0; j < A.N; j++) { cd g = tget(A.prec, dp, (size_t)i * A.N + j); if (std::abs(g - A.at(i, j)) > A.e[(size_t)i * A.N + j]) bad(w, "result", "element (%d,%d) behind the data pointer is %g%+gi, expected %g%+gi", i, j, g.real(), g.imag(), A.at(i, j).real(), A.at(i, j).imag()); } }
      }
      if (o.p[1] % 4 == 0 && !P.fort) { int q[4] = {0, 0, 0, 0}; lib(w, "introspection", lf(A), [&] { q[0] = bml_get_type(nullptr); q[1] = bml_get_precision(nullptr); q[2] = bml_get_N(nullptr); q[3] = bml_allocated(nullptr); }); if (q[0] != type_uninitialized || q[1] != precision_uninitialized || q[2] > 0 || q[3] > 0) bad(w, "result", "a matrix that does not exist reads as type %d, precision %d, size %d, allocated %d", q[0], q[1], q[2], q[3]); }
      if (o.p[1] % 4 == 0 && P.fort) { int q = 0; lib(w, "introspection", lf(A), [&] { q = bml_allocated((bml_matrix_t *)nullptr); }); if (q) bad(w, "result", "a matrix that does not exist reads as allocated"); }
      static const char *nm[6] = {"type", "deep type", "precision", "size", "row capacity", "allocated flag"};
      for (int i = 0; i < 6; i++) { if (i == 4 && (A.fmt != ELLPACK || A.dist)) continue; if (got[i] != want[i]) bad(w, "result", "%s reads as %d, expected %d", nm[i], got[i], want[i]); }
      if (dmd != (int)dm(A.dist)) bad(w, "result", "distribution mode reads as %d", dmd);
      check_unchanged(w, {}); return;
    }
    case K_THRESH: case K_THRESH_NEW: {
      Mat &A = first(w, o); double thr = o.t;
      if (o.p[4] % 3 == 0) { size_t n2 = A.v.size(), s = o.seed % n2; for (size_t q = 0; q < n2; q++) { double m = std::abs(A.v[(s + q) % n2]); if (m > 0 && std::isfinite(m) && m < 1e30 && m > 1e-30) { thr = m; break; } } }   // a tie
      Exp x = exp_thresh(w, A, thr);
      if (k == K_THRESH) { lib(w, "threshold", lf(A), [&] { bml_threshold(A.h, thr); }); settle(w, A, x); check_unchanged(w, {&A}); }
      else { Mat &B = out_slot(w, o.b, &A); bml_matrix_t *h = nullptr; lib(w, "threshold_new", lf(A), [&] { h = bml_threshold_new(A.h, thr); }); adopt(w, B, h, A.fmt, A.prec, A.N, A.M, A.dist, 0); settle(w, B, x); check_unchanged(w, {&B}); }
      return;
    }
    case K_EXTRACT: case K_ASSIGN: case K_M2S: case K_S2M: case K_M2S_INDEX: case K_M2S_INDEX_GRAPH: case K_ADJACENCY: case K_ADJ_GROUP: case K_GROUP: {
      Mat &A = first(w, o); if (!supports(A.fmt, A.dist, k)) return skip(w); do_sub_op(w, o, A); return;
    }
    case K_DIAG: {
      Mat &A0 = first(w, o); if ((A0.M != A0.N && A0.fmt != DENSE) || !holds_full(w, A0)) return skip(w);   // room for full eigenvectors
      Mat &A = is_sym(A0, true) && finite(A0) ? A0 : operand(w, o.b, A0.fmt, A0.prec, A0.N, A0.M, A0.dist, o.seed, &A0, PT_HERM, true);
      Mat &V = operand(w, o.c, A.fmt, A.prec, A.N, A.M, A.dist, o.seed + 3, &A);
      int n = A.N; double nrm = 0; for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += std::abs(A.at(i, j)); nrm = std::max(nrm, s); }
      if (!(nrm < 1e15)) return skip(w);
      UBuf ev_((size_t)n * esz(A.prec));
      lib(w, "diagonalize", lf(A), [&] { bml_diagonalize(A.h, ev_.p, V.h); });
      std::vector<double> lam(n); for (int i = 0; i < n; i++) { cd z = tget(A.prec, ev_.p, i); lam[i] = z.real(); if (!std::isfinite(lam[i])) bad(w, "result", "eigenvalue %d is not finite", i); if (std::fabs(z.imag()) > 1e-30) bad(w, "result", "eigenvalue %d is not real", i); }
      obs_bytes(lam.data(), 0); ev_.release();
      double ep = 1000.0 * n * epsof(A.prec) * (nrm + 1e-30), ee = A.emax() * n;
      for (int i = 1; i < n; i++) if (lam[i] < lam[i - 1] - ep) bad(w, "result", "eigenvalues are not ascending: %.17g before %.17g", lam[i - 1], lam[i]);
      // gather the eigenvectors
      std::vector<cd> Q((size_t)n * n);
      std::vector<char> raw;
      if (!A.dist) { observe(w, V, raw); for (size_t q = 0; q < Q.size(); q++) Q[q] = tget(A.prec, raw.data(), q); V.raw = raw; }
      else { observe(w, V, raw); V.raw = raw; void *d = nullptr; std::string keep = g_rank_op[w.rank]; g_rank_op[w.rank] = "observe/" + keep; d = bml_export_to_dense(V.h, dense_row_major); g_rank_op[w.rank] = keep; if (w.rank == 0) { if (!d) bad(w, "result", "export of eigenvectors returned nothing"); for (size_t q = 0; q < Q.size(); q++) Q[q] = tget(A.prec, d, q); } if (d && mem_block_size(d)) bml_free_memory(d); }
      same_on_ranks(w, lam);
      // LAPACK's MRRR solver loses orthogonality between tiny eigenvalues of strongly graded matrices; what the library adds is still checked there
      bool graded = false; { double mx = A.amax(); for (auto &z : A.v) if (z != cd(0) && std::abs(z) < 100 * std::sqrt(epsof(A.prec)) * mx) graded = true; }
      double otol = graded && is_cplx(A.prec) ? 0.1 : 1000.0 * n * epsof(A.prec);
      if (is_cplx(A.prec)) { // ... and, rarely, between equal ones: what LAPACK itself loses is not bml's
        double loss = 0; auto Qb = [&](int i, int j) { return Q[(size_t)i * n + j]; };
        for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { cd s = 0; for (int i = 0; i < n; i++) s += std::conj(Qb(i, a)) * Qb(i, b); loss = std::max(loss, std::abs(s - (a == b ? 1.0 : 0.0))); }
        if (loss > 100.0 * n * epsof(A.prec)) { double l = lapack_loss(A); if (l > 100.0 * n * epsof(A.prec)) { S.st.lapack_limits++; otol = std::max(otol, 4 * l); ep += 4 * l * n * nrm; } }
      }
      if (!A.dist || w.rank == 0) {
        auto Qa = [&](int i, int j) { return Q[(size_t)i * n + j]; };
        for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) {
          cd s = 0, r = 0; for (int i = 0; i < n; i++) { s += std::conj(Qa(i, a)) * Qa(i, b); r += Qa(a, i) * lam[i] * std::conj(Qa(b, i)); }
          S.st.comparisons += 2;
          if (!(std::abs(s - (a == b ? 1.0 : 0.0)) <= otol)) bad(w, "result", "eigenvectors %d and %d have inner product %.10g%+.10gi", a, b, s.real(), s.imag());
          if (!(std::abs(r - A.at(a, b)) <= ep + ee)) bad(w, "result", "the decomposition reconstructs element (%d,%d) as %.10g%+.10gi instead of %.10g%+.10gi", a, b, r.real(), r.imag(), A.at(a, b).real(), A.at(a, b).imag());
        }
      }
      check_unchanged(w, {&V});
      // eigenvectors are not unique: keep no model of them
      if (A.dist) forget(w, V); else { V.v = Q; std::fill(V.e.begin(), V.e.end(), 0.0); for (size_t q = 0; q < Q.size(); q++) V.pat[q] = 1; }
      return;
    }
    case K_INVERSE: {
      Mat &A0 = first(w, o); if (!supports(A0.fmt, A0.dist, k) || (A0.M != A0.N && A0.fmt != DENSE) || !holds_full(w, A0)) return skip(w);
      std::vector<cd> inv; bool ok = finite(A0) && invert(A0, inv) && maxnorm(inv) * A0.amax() * A0.N < 1e3;
      Mat &A = ok ? A0 : operand(w, o.b, A0.fmt, A0.prec, A0.N, A0.M, A0.dist, o.seed, &A0, P.dkind == 2 || P.dkind == 6 ? PT_DIAGONAL : PT_DOMINANT, true);
      if (!ok) { if (!invert(A, inv)) return skip(w); if (!(maxnorm(inv) * A.amax() * A.N < 1e5)) return skip(w); }
      Mat &B = out_slot(w, o.c, &A); bml_matrix_t *h = nullptr; int n = A.N;
      lib(w, "inverse", lf(A), [&] { h = bml_inverse(A.h); });
      Exp x(n); double cond = maxnorm(inv) * A.amax() * n; for (size_t q = 0; q < x.v.size(); q++) { x.v[q] = inv[q]; x.tol[q] = 100.0 * n * epsof(A.prec) * cond * maxnorm(inv); x.pat[q] = 1; }
      adopt(w, B, h, A.fmt, A.prec, n, A.M, A.dist, 0); settle(w, B, x, "inverse"); check_unchanged(w, {&B}); return;
    }
    case K_NORMALIZE: {
      Mat &A = first(w, o); double lo = -1.0 - 0.5 * pick(o.p[0], 7), hi = 1.0 + 0.75 * pick(o.p[1], 5);
      if (pick(o.p[2], 4) == 1) { lo = 0; hi = 2; } if (pick(o.p[2], 4) == 2) { lo = 0.5; hi = 4; }
      Exp x = exp_lin(A, nullptr, -1.0 / (hi - lo), 0); add_ident(x, hi / (hi - lo), A.prec); drop_rule(x, 0);
      Admit ad(w, A.fmt, A.N, A.M, A.dist, x); if (!ad.st) return skip(w);
      lib(w, "normalize", lf(A), [&] { bml_normalize(A.h, lo, hi); }); ad.done(); settle(w, A, x); check_unchanged(w, {&A}); return;
    }
    case K_PRINT: do_print(w, first(w, o), o); return;
    case K_WRITE_READ: case K_WRITE: case K_READ: case K_READ_BAD: do_io_op(w, o); return;
    case K_DOMAIN: case K_SENDRECV: case K_BCAST: case K_FANIN: case K_RING: case K_REDUCE: case K_ALLGATHER: case K_RANKS: case K_BARRIER: case K_RESTART: do_comm_op(w, o); return;
    case K_INVALID: do_invalid(w, o); return;
    case K_BLOCKED: do_blocked(w, o); return;
  }
}

// ------------------------------------------------------------------ scalars
static void do_scalar_op(World &w, const Op &o, Mat &A) {
  int k = o.kind, n = A.N; size_t nn = A.v.size(); const Plan &P = *w.P;
  if (!supports(A.fmt, A.dist, k) || !small_enough(A)) return skip(w);
  double ep = C_EPS(A.prec, n * n); double got = 0;
  switch (k) {
    case K_TRACE: { cd s = 0; double a = 0, e = 0; for (int i = 0; i < n; i++) { s += A.at(i, i); a += std::abs(A.at(i, i)); e += A.er(i, i); } lib(w, "trace", lf(A), [&] { got = bml_trace(A.h); }); scalar_check(w, "the trace", got, s.real(), ep * a + e); break; }
    case K_TRACE_MULT: {
      Mat &B = operand(w, o.b, A.fmt, A.prec, n, A.M, A.dist, o.seed, &A); if (!small_enough(B)) return skip(w);
      cd s = 0; double a = 0, e = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { s += A.at(i, j) * B.at(j, i); a += std::abs(A.at(i, j) * B.at(j, i)); e += A.er(i, j) * std::abs(B.at(j, i)) + B.er(j, i) * std::abs(A.at(i, j)) + A.er(i, j) * B.er(j, i); }
      lib(w, "trace_mult", lf(A), [&] { got = bml_trace_mult(A.h, B.h); }); scalar_check(w, "the trace of the product", got, s.real(), ep * a + e); break;
    }
    case K_SUMSQ: case K_FNORM: {
      cd s = 0; double m2 = 0, e = 0; for (size_t q = 0; q < nn; q++) { s += A.v[q] * A.v[q]; m2 += std::norm(A.v[q]); e += A.e[q] * (2 * std::abs(A.v[q]) + A.e[q]); }
      double tol = ep * m2 + e;
      if (k == K_SUMSQ) { lib(w, "sum_squares", lf(A), [&] { got = bml_sum_squares(A.h); }); scalar_check(w, "the sum of squares", got, m2, tol); }
      else { lib(w, "fnorm", lf(A), [&] { got = bml_fnorm(A.h); }); S.st.comparisons++; obs_bytes(&got, 8); if (!(std::fabs(got * got - m2) <= 2 * tol + (is_single(A.prec) ? 1e-35 : 1e-300) * n * n && got >= 0)) bad(w, "result", "the Frobenius norm is %.17g, expected %.17g", got, std::sqrt(m2)); }
      break;
    }
    case K_FNORM2: {
      Mat &B = operand(w, o.b, A.fmt, A.prec, n, -1, A.dist, o.seed, &A); if (!small_enough(B)) return skip(w);
      double m2 = 0, mm = 0; for (size_t q = 0; q < nn; q++) { m2 += std::norm(A.v[q] - B.v[q]); double t = std::abs(A.v[q]) + std::abs(B.v[q]); mm += t * t; double e = A.e[q] + B.e[q]; mm += e * (2 * t + e) / ep; }
      lib(w, "fnorm2", lf(A), [&] { got = bml_fnorm2(A.h, B.h); }); S.st.comparisons++; obs_bytes(&got, 8);
      if (!(std::fabs(got * got - m2) <= 2 * ep * mm + (is_single(A.prec) ? 1e-35 : 1e-300) * n * n && got >= 0)) bad(w, "result", "the Frobenius distance is %.17g, expected %.17g", got, std::sqrt(m2)); break;
    }
    case K_SUMSQ2: {
      Mat &B = operand(w, o.b, A.fmt, A.prec, n, -1, A.dist, o.seed, &A); if (!small_enough(B)) return skip(w);
      cd s = 0; double m2 = 0, mm = 0, sl = 0; for (size_t q = 0; q < nn; q++) { cd z = o.x * A.v[q] + o.y * B.v[q]; double t = std::fabs(o.x) * std::abs(A.v[q]) + std::fabs(o.y) * std::abs(B.v[q]); s += z * z; m2 += std::norm(z); mm += t * t; double e = std::fabs(o.x) * A.e[q] + std::fabs(o.y) * B.e[q]; mm += e * (2 * t + e) / ep; if (std::abs(z) <= o.t * (1 + 1e-6) + ep * t + e) sl += std::norm(z) + 1e-300; }
      if (!std::isfinite(m2)) return skip(w);
      if (A.fmt == ELLBLOCK) sl = std::max(sl, 0.0);
      lib(w, "sum_squares2", lf(A), [&] { got = bml_sum_squares2(A.h, B.h, o.x, o.y, o.t); });
      double tol = 2 * ep * mm + sl; scalar_check(w, "the sum of squares of the combination", got, m2, tol); break;
    }
    case K_SUMSQ_SUB: {
      int c = 1 + pick(o.p[0], n); cd s = 0; double m2 = 0; for (int i = 0; i < c; i++) for (int j = 0; j < c; j++) { s += A.at(i, j) * A.at(i, j); m2 += std::norm(A.at(i, j)); }
      lib(w, "sum_squares_submatrix", lf(A), [&] { got = bml_sum_squares_submatrix(A.h, c); }); double tol = ep * m2; scalar_check(w, "the sum of squares of the core", got, m2, tol); break;
    }
    case K_SUM_AB: {
      Mat &B = operand(w, o.b, A.fmt, A.prec, n, -1, A.dist, o.seed, &A); if (!small_enough(B)) return skip(w);
      cd s = 0; double mm = 0, sl = 0, e = 0; for (size_t q = 0; q < nn; q++) { cd z = o.x * A.v[q] * B.v[q]; s += z; mm += std::abs(z); double ez = std::fabs(o.x) * (A.e[q] * std::abs(B.v[q]) + B.e[q] * std::abs(A.v[q]) + A.e[q] * B.e[q]); e += ez; if (std::abs(z) - ez <= o.t * (1 + 1e-6)) sl += std::abs(z); }
      lib(w, "sum_AB", lf(A), [&] { got = bml_sum_AB(A.h, B.h, o.x, o.t); }); scalar_check(w, "the element-product sum", got, s.real(), ep * mm + sl + e); break;
    }
    case K_OFFDIAG: {
      bool inc = o.p[0] & 1; void *p = nullptr; lib(w, "accumulate_offdiag", lf(A), [&] { p = bml_accumulate_offdiag(A.h, inc); });
      if (!p || mem_block_size(p) < n * esz(A.prec)) bad(w, "result", "the returned array is missing or too short");
      for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) if (i != j || inc) s += std::abs(A.at(i, j)); cd g = tget(A.prec, p, i); S.st.comparisons++; if (!(std::abs(g - s) <= ep * s)) bad(w, "result", "off-diagonal sum of row %d is %.17g%+.17gi, expected %.17g", i, g.real(), g.imag(), s); }
      obs_bytes(p, n * esz(A.prec)); bml_free_memory(p); break;
    }
    case K_GERSH: case K_GERSH_PART: {
      int nr = k == K_GERSH ? n : 1 + pick(o.p[0], n); double lo = HUGE_VAL, hi = -HUGE_VAL, sc = 0;
      for (int i = 0; i < nr; i++) { double r = 0, er = 0; for (int j = 0; j < n; j++) { if (i != j) r += std::abs(A.at(i, j)); er += A.er(i, j); } double d = A.at(i, i).real(); lo = std::min(lo, d - r); hi = std::max(hi, d + r); sc = std::max(sc, (std::fabs(d) + r + std::abs(A.at(i, i))) + er / ep); }
      double *evp = nullptr;
      if (k == K_GERSH) lib(w, "gershgorin", lf(A), [&] { evp = (double *)bml_gershgorin(A.h); }); else lib(w, "gershgorin_partial", lf(A), [&] { evp = (double *)bml_gershgorin_partial(A.h, nr); });
      if (!evp || mem_block_size(evp) < 16) bad(w, "result", "the returned bounds are missing");
      double b0 = evp[0], b1 = evp[1]; bml_free_memory(evp); double tol = ep * sc * 2;
      if (k == K_GERSH && !A.dist && is_sym(A, true) && finite(A)) { auto ev_ = eigenvalues(A); if (!(b0 <= ev_[0] + tol && b1 >= ev_[n - 1] - tol)) bad(w, "result", "the Gershgorin interval [%.10g,%.10g] does not enclose the spectrum [%.10g,%.10g]", b0, b1, ev_[0], ev_[n - 1]); }
      scalar_check(w, "the lower Gershgorin bound", b0, lo, tol); scalar_check(w, "the upper Gershgorin bound", b1, hi, tol);
      if (A.dist) same_on_ranks(w, {b0, b1});
      got = b0; break;
    }
    case K_BANDWIDTH: case K_ROW_BANDWIDTH: {
      int i0 = k == K_BANDWIDTH ? 0 : pick(o.p[0], n), i1 = k == K_BANDWIDTH ? n : i0 + 1; int lo = 0, hi = 0, g = 0;
      if (A.fmt == ELLBLOCK) {   // whole blocks are stored
        auto bo = block_offsets(P, n); int nb = (int)bo.size() - 1;
        for (int x = 0; x < nb; x++) { if (bo[x + 1] <= i0 || bo[x] >= i1) continue; int a = 0, b = 0;
          for (int y = 0; y < nb; y++) { bool nz = false, st = false; for (int i = bo[x]; i < bo[x + 1]; i++) for (int j = bo[y]; j < bo[y + 1]; j++) { nz |= A.at(i, j) != cd(0); st |= A.pat[(size_t)i * n + j] != 0; } a += nz ? bo[y + 1] - bo[y] : 0; b += st ? bo[y + 1] - bo[y] : 0; }
          lo = std::max(lo, a); hi = std::max(hi, b); }
      } else for (int i = i0; i < i1; i++) { int a = 0, b = 0; for (int j = 0; j < n; j++) { a += A.at(i, j) != cd(0); b += A.pat[(size_t)i * n + j] != 0; } lo = std::max(lo, a); hi = std::max(hi, b); }
      if (k == K_BANDWIDTH) lib(w, "get_bandwidth", lf(A), [&] { g = bml_get_bandwidth(A.h); }); else lib(w, "get_row_bandwidth", lf(A), [&] { g = bml_get_row_bandwidth(A.h, i0); });
      S.st.comparisons++; obs(g); if (g < lo || g > hi) bad(w, "result", "the bandwidth is %d, expected %d", g, lo); got = g; break;
    }
    case K_SPARSITY: {
      int a = 0, b = 0; for (size_t q = 0; q < nn; q++) { double m = std::abs(A.v[q]); a += m > o.t * (1 + 1e-5) + A.e[q]; b += m > o.t * (1 - 1e-5) - A.e[q] && (m > 0 || A.e[q] > 0); }
      lib(w, "get_sparsity", lf(A), [&] { got = bml_get_sparsity(A.h, o.t); }); S.st.comparisons++; obs_bytes(&got, 8);
      double lo = 1.0 - (double)b / ((double)n * n) - 1e-9, hi = 1.0 - (double)a / ((double)n * n) + 1e-9; if (!(got >= lo && got <= hi)) bad(w, "result", "the sparsity is %.10g, expected %.10g", got, 1.0 - (double)a / ((double)n * n)); break;
    }
  }
  if (A.dist) same_on_ranks(w, {got});
  check_unchanged(w, {}); (void)P;
}

// ------------------------------------------------------------------ submatrices and graphs
static void do_sub_op(World &w, const Op &o, Mat &A) {
  int k = o.kind, n = A.N; const Plan &P = *w.P; Rng r(o.seed);
  switch (k) {
    case K_EXTRACT: case K_ASSIGN: {
      int s = 1 + pick(o.p[0], n), r0 = pick(o.p[1], n - s + 1), c0 = pick(o.p[2], n - s + 1);
      if (A.fmt == ELLBLOCK) { if (!P.bsz.empty()) return skip(w); r0 &= ~3; c0 &= ~3; s = std::min(s, n - std::max(r0, c0)); if (r0 + s != n || c0 + s != n) { s &= ~3; if (s == 0) return skip(w); } if ((r0 + s == n) != (c0 + s == n) && s % 4) return skip(w); }
      int MB = A.fmt == ELLPACK && P.capmode ? std::min(s, A.M) : s;
      Exp x(s); x.exact = true; for (int i = 0; i < s; i++) for (int j = 0; j < s; j++) { x.v[(size_t)i * s + j] = A.at(r0 + i, c0 + j); x.pat[(size_t)i * s + j] = A.pat[(size_t)(r0 + i) * n + c0 + j]; }
      if (k == K_EXTRACT || s == n || pick(o.p[3], 3) == 0) {
        Admit ad(w, A.fmt, s, MB, A.dist, x); if (!ad.st) return skip(w);
        S.expect_fatal = false;
        Mat &B = out_slot(w, o.b, &A); bml_matrix_t *h = nullptr; if (ad.st == 2) { S.expect_fatal = true; S.logbuf.clear(); }
        lib(w, "extract_submatrix", lf(A), [&] { h = bml_extract_submatrix(A.h, r0, c0, s, MB); });
        ad.done(); adopt(w, B, h, A.fmt, A.prec, s, MB, A.dist, 0); settle(w, B, x, "extracted submatrix"); check_unchanged(w, {&B});
        if (k == K_EXTRACT && pick(o.p[3], 2) == 0) return;
        // extract and assign back is the identity
        Exp y = exp_same(A);
        lib(w, "assign_submatrix", lf(A), [&] { bml_assign_submatrix(A.h, B.h, r0, c0); }); settle(w, A, y, "matrix after assigning the extracted block back"); check_unchanged(w, {&A}); return;
      }
      Mat &B = operand(w, o.b, A.fmt, A.prec, s, MB, A.dist, o.seed, &A, -1, true);
      Exp y = exp_same(A); for (int i = 0; i < s; i++) for (int j = 0; j < s; j++) { size_t q = (size_t)(r0 + i) * n + c0 + j; y.v[q] = B.at(i, j); y.pat[q] = B.pat[(size_t)i * s + j]; }
      Admit ad(w, A.fmt, n, A.M, A.dist, y); if (!ad.st) return skip(w);
      lib(w, "assign_submatrix", lf(A), [&] { bml_assign_submatrix(A.h, B.h, r0, c0); }); ad.done(); settle(w, A, y, "matrix after assigning a block"); check_unchanged(w, {&A}); return;
    }
    case K_M2S: case K_S2M: {
      int L = 1 + pick(o.p[0], n); std::vector<int> ix(n); for (int i = 0; i < n; i++) ix[i] = i; for (int i = n - 1; i > 0; i--) std::swap(ix[i], ix[r.below(i + 1)]); ix.resize(L);
      int ll = 1 + pick(o.p[1], L); UBuf u(L * sizeof(int)); memcpy(u.p, ix.data(), L * sizeof(int)); u.freeze();
      Mat &B = operand(w, o.b, DENSE, A.prec, L, -1, false, o.seed, &A, -1, true);
      Exp x(L); x.exact = true; for (int i = 0; i < L; i++) for (int j = 0; j < L; j++) { x.v[(size_t)i * L + j] = A.at(ix[i], ix[j]); x.pat[(size_t)i * L + j] = 1; }
      if (k == K_M2S || (o.p[2] & 1)) { lib(w, "matrix2submatrix", lf(A), [&] { bml_matrix2submatrix(A.h, B.h, (int *)u.p, L); }); frozen(w, u, "index"); settle(w, B, x, "contracted submatrix"); check_unchanged(w, {&B}); }
      if (k == K_S2M) {
        Exp y = exp_same(A); for (int a = 0; a < ll; a++) { for (int j = 0; j < n; j++) { size_t q = (size_t)ix[a] * n + j; y.v[q] = 0; y.pat[q] = 0; } for (int b = 0; b < L; b++) { size_t q = (size_t)ix[a] * n + ix[b]; y.v[q] = B.at(a, b); y.pat[q] = y.v[q] != cd(0); if (std::abs(y.v[q]) <= o.t * (1 + 1e-6)) y.drop[q] = 1; } }
        Admit ad(w, A.fmt, n, A.M, A.dist, y); if (!ad.st) { u.release(); return skip(w); }
        lib(w, "submatrix2matrix", lf(A), [&] { bml_submatrix2matrix(B.h, A.h, (int *)u.p, L, ll, o.t); }); ad.done(); frozen(w, u, "index"); settle(w, A, y, "assembled matrix"); check_unchanged(w, {&A});
      }
      u.release(); return;
    }
    case K_M2S_INDEX: case K_M2S_INDEX_GRAPH: {
      int ns = 1 + pick(o.p[0], n); std::vector<int> nl(ns); bool dup = o.p[3] & 1; std::vector<int> ix(n); for (int i = 0; i < n; i++) ix[i] = i; for (int i = n - 1; i > 0; i--) std::swap(ix[i], ix[r.below(i + 1)]);
      for (int i = 0; i < ns; i++) nl[i] = dup ? (int)r.below(n) : ix[i];
      bool dj = o.p[1] & 1; Mat &B = operand(w, o.b, ELLPACK, A.prec, n, -1, false, o.seed, &A);
      UBuf un(ns * 4), ci(n * 4), vs(8); memcpy(un.p, nl.data(), ns * 4); un.freeze();
      if (k == K_M2S_INDEX) lib(w, "matrix2submatrix_index", lf(A), [&] { bml_matrix2submatrix_index(A.h, B.h, (int *)un.p, ns, (int *)ci.p, (int *)vs.p, dj); });
      else lib(w, "matrix2submatrix_index_graph", lf(A), [&] { bml_matrix2submatrix_index_graph(B.h, (int *)un.p, ns, (int *)ci.p, (int *)vs.p, dj); });
      frozen(w, un, "node list");
      std::vector<int> core; std::set<int> cs; for (int q : nl) if (cs.insert(q).second) core.push_back(q);
      auto grow = [&](const Mat &G, const std::set<int> &from, std::set<int> &to, bool maybe) { for (int i : from) for (int j = 0; j < n; j++) if (maybe ? G.pat[(size_t)i * n + j] != 0 : G.at(i, j) != cd(0)) to.insert(j); };
      std::set<int> res[2]; for (int mb = 0; mb < 2; mb++) { std::set<int> s = cs; grow(B, cs, s, mb); if (k == K_M2S_INDEX) grow(A, cs, s, mb); if (dj) { std::set<int> t = s; grow(B, t, s, mb); } res[mb] = s; }
      int *v = (int *)vs.p, *c = (int *)ci.p; int l = v[0], llc = v[1]; obs(l); obs(llc); obs_bytes(c, l > 0 && l <= n ? l * 4 : 0);
      if (llc != (int)core.size()) bad(w, "result", "%d cores were listed instead of %zu", llc, core.size());
      if (l < llc || l > n) bad(w, "result", "%d indices were listed", l);
      for (int i = 0; i < llc; i++) if (c[i] != core[i]) bad(w, "result", "core %d is %d, expected %d", i, c[i], core[i]);
      std::set<int> g(c, c + l); if ((int)g.size() != l) bad(w, "result", "an index is listed twice");
      for (int q : res[0]) if (!g.count(q)) bad(w, "result", "neighbour %d is missing from the core/halo list", q);
      for (int q : g) if (!res[1].count(q)) bad(w, "result", "%d is listed but is not a neighbour", q);
      un.release(); ci.release(); vs.release(); check_unchanged(w, {}); return;
    }
    case K_ADJACENCY: {
      if (has_explicit_zero(A)) return skip(w);
      int base = o.p[0] & 1; std::vector<int> xa(n + 1, 0), ad; for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) if (j != i && A.at(i, j) != cd(0)) ad.push_back(j); xa[i + 1] = (int)ad.size(); }
      UBuf ux((n + 1) * 4), ua(std::max<size_t>(1, ad.size()) * 4);
      lib(w, "adjacency", lf(A), [&] { bml_adjacency(A.h, (int *)ux.p, (int *)ua.p, base); });
      int *px = (int *)ux.p, *pa = (int *)ua.p; obs_bytes(px, (n + 1) * 4); obs_bytes(pa, ad.size() * 4);
      for (int i = 0; i <= n; i++) if (px[i] != xa[i] + base) bad(w, "result", "adjacency offset %d is %d, expected %d", i, px[i], xa[i] + base);
      for (size_t q = 0; q < ad.size(); q++) if (pa[q] != ad[q] + base) bad(w, "result", "adjacency entry %zu is %d, expected %d", q, pa[q], ad[q] + base);
      ux.release(); ua.release(); check_unchanged(w, {}); return;
    }
    case K_ADJ_GROUP: case K_GROUP: {
      if (has_explicit_zero(A)) return skip(w);
      int ng = 1 + pick(o.p[0], n); std::set<int> st; st.insert(0); while ((int)st.size() < ng) st.insert(r.below(n)); std::vector<int> hi(st.begin(), st.end());
      UBuf uh(ng * 4); for (int i = 0; i < ng; i++) ((int *)uh.p)[i] = hi[i] + 1; uh.freeze();
      if (k == K_ADJ_GROUP) {
        int base = o.p[1] & 1; std::vector<int> xa(ng + 1, 0), ad; for (int i = 0; i < ng; i++) { for (int j = 0; j < ng; j++) if (A.at(hi[i], hi[j]) != cd(0)) ad.push_back(j); xa[i + 1] = (int)ad.size(); }
        UBuf ux((ng + 1) * 4), ua(std::max<size_t>(1, ad.size()) * 4);
        lib(w, "adjacency_group", lf(A), [&] { bml_adjacency_group(A.h, (int *)uh.p, ng, (int *)ux.p, (int *)ua.p, base); }); frozen(w, uh, "group index");
        int *px = (int *)ux.p, *pa = (int *)ua.p; obs_bytes(px, (ng + 1) * 4); obs_bytes(pa, ad.size() * 4);
        for (int i = 0; i <= ng; i++) if (px[i] != xa[i] + base) bad(w, "result", "group adjacency offset %d is %d, expected %d", i, px[i], xa[i] + base);
        for (size_t q = 0; q < ad.size(); q++) if (pa[q] != ad[q] + base) bad(w, "result", "group adjacency entry %zu is %d, expected %d", q, pa[q], ad[q] + base);
        ux.release(); ua.release(); uh.release(); check_unchanged(w, {}); return;
      }
      Mat &G = is_sym(A, false) ? A : operand(w, o.c, A.fmt, A.prec, n, -1, false, o.seed, &A, PT_SYM, true);
      if (!is_sym(G, false)) { uh.release(); return skip(w); }
      std::vector<int> node(n); for (int g = 0; g < ng; g++) for (int i = hi[g]; i < (g + 1 < ng ? hi[g + 1] : n); i++) node[i] = g;
      Exp x(ng); x.exact = true; for (int g = 0; g < ng; g++) { x.v[(size_t)g * ng + g] = 1; }
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (node[i] != node[j]) { double m = std::abs(G.at(i, j)); size_t q = (size_t)node[i] * ng + node[j]; if (m > o.t * (1 + 1e-6)) { x.v[q] = 1; x.drop[q] = 0; } else if (m > o.t * (1 - 1e-6) && m > 0 && x.v[q] == cd(0)) { x.v[q] = 1; x.drop[q] = 1; } }
      for (size_t q = 0; q < x.v.size(); q++) x.pat[q] = x.v[q] != cd(0);
      Mat &B = out_slot(w, o.b, &A, &G); bml_matrix_t *h = nullptr;
      lib(w, "group_matrix", lf(G), [&] { h = bml_group_matrix(G.h, (int *)uh.p, ng, o.t); }); frozen(w, uh, "group index"); uh.release();
      adopt(w, B, h, ELLPACK, G.prec, ng, ng, false, 0); settle(w, B, x, "grouped matrix"); check_unchanged(w, {&B}); return;
    }
  }
}
