// ------------------------------------------------------------------ files
// Parses a file the library wrote.  Returns "" or what is wrong.
static std::string parse_file(const std::string &d, int prec, int &N, std::vector<cd> &v, int &announced, int &found) {
  size_t e = d.find('\n'); if (e == std::string::npos) return "no header line";
  std::string h = d.substr(0, e); if (h.find("MatrixMarket matrix coordinate") == std::string::npos) return "bad header: " + h;
  bool cx = h.find("complex") != std::string::npos; if (cx != is_cplx(prec)) return "the header announces the wrong kind of numbers";
  const char *p = d.c_str() + e + 1; int n1, n2, used; if (sscanf(p, "%d %d %d%n", &n1, &n2, &announced, &used) != 3 || n1 != n2) return "bad size line";
  p += used; N = n1; v.assign((size_t)N * N, cd(0)); found = 0; std::vector<uint8_t> seen((size_t)N * N, 0);
  for (;;) {
    int i, j; double a, b = 0; 
    while (*p == ' ' || *p == '\n') p++;
    if (!*p) break;
    int r = cx ? sscanf(p, "%d %d %lf %lf%n", &i, &j, &a, &b, &used) : sscanf(p, "%d %d %lf%n", &i, &j, &a, &used);
    if (r != (cx ? 4 : 3)) return "an entry line is malformed";
    p += used; found++;
    if (i < 1 || i > N || j < 1 || j > N) return "an entry lies outside the matrix";
    size_t q = (size_t)(i - 1) * N + j - 1; if (seen[q]) return "an entry occurs twice"; seen[q] = 1; v[q] = cd(a, b);
  }
  if (found != announced) { char b[100]; snprintf(b, sizeof b, "the header announces %d entries but %d follow", announced, found); return b; }
  return "";
}
static double text_tol(int prec, cd v) { return std::abs(v) * (prec == SR || prec == SC ? 2.4e-7 : 5.3e-15); }
static void check_file(World &w, const Mat &A, const std::string &name) {
  auto it = g_disk[0].files.find(name); if (it == g_disk[0].files.end()) bad(w, "result", "no file was written");
  int N = 0, an = 0, fo = 0; std::vector<cd> v; std::string err = parse_file(it->second.data, A.prec, N, v, an, fo);
  if (!err.empty()) bad(w, "result", "the written file is wrong: %s", err.c_str());
  if (N != A.N) bad(w, "result", "the written file announces size %d instead of %d", N, A.N);
  for (size_t q = 0; q < v.size(); q++) if (!(std::abs(v[q] - A.v[q]) <= text_tol(A.prec, A.v[q]) + A.e[q])) bad(w, "result", "the file holds %.17g%+.17gi for element (%d,%d), expected %.17g%+.17gi", v[q].real(), v[q].imag(), (int)q / N, (int)q % N, A.v[q].real(), A.v[q].imag());
  obs_bytes(it->second.data.data(), it->second.data.size());
}
static Exp exp_text(const Mat &A, int prec) { Exp x = exp_same(A); x.exact = false; for (size_t q = 0; q < x.v.size(); q++) { x.tol[q] += text_tol(prec, x.v[q]); x.v[q] = rnd(prec, x.v[q]); if (A.v[q] == cd(0)) x.pat[q] = A.pat[q]; } return x; }
static const Fault *disk_fault(World &w) { const Fault &f = w.P->fault; return f.kind == 2 && f.op == w.opi ? &f : nullptr; }
static std::string damage(World &w, const Op &o, const std::string &good, const Mat &A, bool &must_fail, std::string &what) {
  std::string d = good; must_fail = false; Rng r(o.seed + 99); int n = A.N;
  // line table
  std::vector<size_t> ls; ls.push_back(0); for (size_t i = 0; i < d.size(); i++) if (d[i] == '\n') ls.push_back(i + 1);
  int lines = (int)ls.size() - 1; auto line = [&](int i) { return d.substr(ls[i], ls[i + 1] - ls[i]); };
  auto set_line = [&](int i, const std::string &s) { d = d.substr(0, ls[i]) + s + d.substr(ls[i + 1]); };
  char b[256]; int nnz = lines - 2;
  switch (pick(o.p[0], 13)) {
    case 0: case 1: d.resize(r.below((uint32_t)d.size())); what = "a truncated file"; break;                 // torn anywhere
    case 2: { if (nnz < 1) { d = ""; what = "an empty file"; must_fail = true; break; } int k = 1 + r.below(nnz); d.resize(ls[2 + nnz - k]); what = "a file with fewer entries than announced"; must_fail = true; break; }
    case 3: { int dn = pick(o.p[1], 4); int m = dn == 0 ? n + 1 : dn == 1 ? std::max(1, n - 1) : dn == 2 ? 2 * n : 1; if (m == n) m = n + 1; snprintf(b, sizeof b, "%d %d %d\n", m, m, nnz); set_line(1, b); what = "a file of a different size"; must_fail = true; break; }
    case 4: case 5: { if (nnz < 1) { d = ""; what = "an empty file"; must_fail = true; break; } int k = 2 + r.below(nnz); std::string s = line(k); int i, j, u; if (sscanf(s.c_str(), "%d %d%n", &i, &j, &u) != 2) { d = ""; must_fail = true; break; }
      static const int off[] = {0, -1, 1000000, 2000000000, -2000000000}; int z = pick(o.p[1], 6); int bv = z == 5 ? n + 1 : off[z]; if (o.p[2] & 1) i = bv; else j = bv; snprintf(b, sizeof b, "%d %d", i, j); set_line(k, b + s.substr(u)); what = "a file with an index outside the matrix"; must_fail = true; break; }
    case 6: { snprintf(b, sizeof b, "%d %d %d\n", n, n, nnz + 1 + (int)r.below(3)); set_line(1, b); what = "a file with fewer entries than announced"; must_fail = true; break; }
    case 7: { snprintf(b, sizeof b, "%d %d %d\n", n, n, -1 - (int)r.below(3)); set_line(1, b); what = "a file announcing a negative number of entries"; must_fail = true; break; }
    case 8: { std::string big(10 + r.below(200), 'x'); std::string s = line(0); size_t p = 0; int tok = r.below(5); for (int t = 0; t < tok; t++) { p = s.find(' ', p); if (p == std::string::npos) { p = 0; break; } p++; } s.insert(p, big); set_line(0, s); what = "a file with an overlong header word"; break; }
    case 9: { if (nnz < 1) { d = ""; what = "an empty file"; must_fail = true; break; } int k = 2 + r.below(nnz); std::string s = line(k); size_t p = s.find_last_of(' '); s = s.substr(0, p + 1) + "x?!\n"; set_line(k, s); what = "a file with a malformed value"; must_fail = true; break; }
    case 11: { if (nnz < 1) { d = ""; what = "an empty file"; must_fail = true; break; } snprintf(b, sizeof b, "%d %d %d\n", n, n, nnz - 1); set_line(1, b); what = "a file with more entries than announced"; must_fail = true; break; }
    case 10: d = ""; what = "an empty file"; must_fail = true; break;
    default: { snprintf(b, sizeof b, "%d\n", n); d = line(0) + b; what = "a file that ends after an incomplete size line"; must_fail = true; break; }
  }
  return d;
}
// ---- the text form of a matrix or vector on standard output
extern std::string g_printed[];
static void do_print(World &w, Mat &A, const Op &o) {
  if (S.cfg.nranks > 1 && !A.dist) return skip(w);
  if (!finite(A) || A.amax() > 1e12) return skip(w);
  int n = A.N, c0 = pick(o.p[0], n + 1), c1 = c0 + pick(o.p[1], n + 1 - c0), r0 = pick(o.p[2], n + 1), r1 = r0 + pick(o.p[3], n + 1 - r0); bool cx = is_cplx(A.prec);
  if (pick(o.p[4], 3) == 0) { r0 = c0 = 0; r1 = c1 = n; }
  int how = A.dist ? 0 : pick(o.p[5], 6);   // 4 the dense array itself, 5 a vector of it
  std::string &out = g_printed[w.rank]; out.clear(); const char *what = "print_bml_matrix";
  if (how < 4) lib(w, what, lf(A), [&] { bml_print_bml_matrix(A.h, r0, r1, c0, c1); });
  else if (how == 4) {
    bool cm = o.p[4] & 1; UBuf u((size_t)n * n * esz(A.prec)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) tput(A.prec, u.p, cm ? (size_t)j * n + i : (size_t)i * n + j, A.at(i, j)); u.freeze(); what = "print_dense_matrix";
    lib(w, what, lf(A), [&] { bml_print_dense_matrix(n, (bml_matrix_precision_t)A.prec, cm ? dense_column_major : dense_row_major, u.p, r0, r1, c0, c1); }); frozen(w, u, "printed array"); u.release();
  } else {
    int row = pick(o.p[2], n); UBuf u(n * esz(A.prec)); for (int j = 0; j < n; j++) tput(A.prec, u.p, j, A.at(row, j)); u.freeze(); what = "print_dense_vector";
    lib(w, what, lf(A), [&] { bml_print_dense_vector(n, (bml_matrix_precision_t)A.prec, u.p, c0, c1); }); frozen(w, u, "printed vector"); u.release(); r0 = row; r1 = row + 1;
  }
  std::string text; text.swap(out);
  S.st.comparisons++;
  if (A.dist && w.rank != 0) { if (!text.empty()) bad(w, "result", "rank %d printed text although only the first rank prints the matrix", w.rank); check_unchanged(w, {}); return; }
  size_t pos = 0; bool room = text.size() < 150000;
  for (int i = r0; room && i < r1; i++) {
    size_t e = text.find('\n', pos); if (e == std::string::npos) bad(w, "result", "the printed text ends before row %d", i);
    std::string line = text.substr(pos, e - pos); pos = e + 1; const char *p = line.c_str(); char *q;
    for (int j = c0; j < c1; j++) {
      double re = strtod(p, &q), im = 0; if (q == p) bad(w, "result", "the printed row %d ends before column %d: '%.200s'", i, j, line.c_str()); p = q;
      if (cx) { im = strtod(p, &q); if (q == p || *q != 'i') bad(w, "result", "the printed element (%d,%d) has no imaginary part: '%.200s'", i, j, line.c_str()); p = q + 1; }
      cd v = A.at(i, j); double tol = 0.000501 + 2 * A.e[(size_t)i * n + j] + std::abs(v) * 1e-12;
      if (std::abs(re - v.real()) > tol || std::abs(im - v.imag()) > tol) bad(w, "result", "element (%d,%d) is printed as %g%+gi, expected %g%+gi", i, j, re, im, v.real(), v.imag());
    }
    while (*p == ' ') p++; if (*p) bad(w, "result", "the printed row %d has more than %d columns: '%.200s'", i, c1 - c0, line.c_str());
  }
  if (room && pos != text.size()) bad(w, "result", "more is printed than rows %d to %d: '%.80s'", r0, r1, text.c_str() + pos);
  check_unchanged(w, {});
}
static void do_io_op(World &w, const Op &o) {
  const Plan &P = *w.P; if (S.cfg.nranks > 1 && !P.dist) return skip(w);
  Mat &A = first(w, o); if (!finite(A)) return skip(w); int n = A.N; const Fault *ft = disk_fault(w);
  std::string name = fname_of(w, o, pick(o.p[3], 3)); std::vector<char> fn(name.begin(), name.end()); fn.push_back(0);
  int wrank = 0;
  auto do_write = [&](Mat &X, const char *nm) {
    std::string s = nm; UBuf u(s.size() + 1); memcpy(u.p, s.c_str(), s.size() + 1); u.freeze();
    lib(w, "write_bml_matrix", lf(X), [&] { bml_write_bml_matrix(X.h, (char *)u.p); }); frozen(w, u, "file name"); u.release();
  };
  auto do_read = [&](Mat &X, const char *nm) {
    std::string s = nm; UBuf u(s.size() + 1); memcpy(u.p, s.c_str(), s.size() + 1); u.freeze();
    lib(w, "read_bml_matrix", lf(X), [&] { bml_read_bml_matrix(X.h, (char *)u.p); }); frozen(w, u, "file name"); u.release();
  };
  // ---- write
  bool wf = ft && ft->sub >= IoFault::OPEN_FAIL && ft->sub <= IoFault::CRASH_AT && (o.kind != K_READ || ft->sub != IoFault::OPEN_FAIL);
  bool hard = ft && (ft->sub == IoFault::OPEN_FAIL || ft->sub == IoFault::WRITE_ERR || ft->sub == IoFault::ENOSPC_AT || ft->sub == IoFault::CLOSE_ERR);
  if (wf) { g_iofault = IoFault(); g_iofault.kind = ft->sub; g_iofault.at = ft->at; g_iofault.rank = wrank; if (hard) { S.expect_fatal = true; S.logbuf.clear(); } }
  int f0 = io_open_count();
  do_write(A, name.c_str());
  bool crashed = false;
  if (wf) {
    uint64_t fired = g_iofault.fired; 
    if (A.dist && S.cfg.nranks > 1) { /* other ranks may still be before the write */ }
    if (w.rank == wrank) { crashed = fired && ft->sub == IoFault::CRASH_AT; g_iofault = IoFault(); g_crashed_write = false; 
      if (hard) { S.expect_fatal = false; if (fired) { static const char *nm[] = {"", "opening the file failed", "a write failed with an I/O error", "the disk was full", "", "closing the file failed"}; bad(w, "unreported", "%s but the write returned as if the matrix were saved", nm[ft->sub]); } } }
  }
  if (w.rank == wrank && !crashed) { check_file(w, A, name); if (io_open_count() != f0 && S.cfg.nranks == 1) bad(w, "result", "the file was left open"); }
  check_unchanged(w, {});
  if (!ft && S.cfg.nranks == 1 && P.prop == "C14") { // the file is a function of the matrix, not of the schedule
    quiet(true); do_write(A, "again.mtx"); quiet(false);
    if (g_disk[0].files["again.mtx"].data != g_disk[0].files[name].data) bad(w, "result", "writing the same matrix with %d threads and with one thread gives different files", S.cfg.team);
  }
  if (o.kind == K_WRITE) return;
  // ---- read
  int f2 = A.dist ? A.fmt : 1 + pick(o.p[0], 4); if (o.kind == K_READ_BAD && pick(o.p[5], 3)) f2 = A.fmt;
  if (f2 == ELLBLOCK && A.N != P.N) f2 = A.fmt;
  int MM = A.dist ? A.M : (f2 == ELLPACK && P.capmode == 1 && A.fmt == ELLPACK ? A.M : n);
  if (f2 == ELLPACK && P.capmode == 2) MM = P.M;
  bool dirty = o.p[4] & 1;
  Exp x = exp_text(A, A.prec);
  if (A.fmt == ELLBLOCK && !A.dist) {   // whole blocks are written, so zeros of a stored block become entries of the file
    auto bo = block_offsets(P, n); int nb = (int)bo.size() - 1;
    for (int bi = 0; bi < nb; bi++) for (int bj = 0; bj < nb; bj++) { bool any = !P.capmode;   /* a converted matrix has every block */ for (int i = bo[bi]; i < bo[bi + 1]; i++) for (int j = bo[bj]; j < bo[bj + 1]; j++) any |= A.pat[(size_t)i * n + j] != 0;
      if (any) for (int i = bo[bi]; i < bo[bi + 1]; i++) for (int j = bo[bj]; j < bo[bj + 1]; j++) x.pat[(size_t)i * n + j] = 1; }
  }
  bool symf = o.kind == K_READ && !A.dist && !ft && pick(o.p[5], 3) == 0; std::string symtxt;
  if (symf) {   // a file that holds one triangle of a symmetric matrix
    bool cx = is_cplx(A.prec); int cnt = 0; std::string body; char b[160]; Rng r(o.seed + 5);
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) {
      size_t q = (size_t)i * n + j, qt = (size_t)j * n + i; x.v[qt] = x.v[q]; x.tol[qt] = x.tol[q]; x.pat[qt] = x.pat[q];
      cd v = A.v[q]; if (v == cd(0)) { x.pat[q] = x.pat[qt] = 0; continue; }
      if (cx) snprintf(b, sizeof b, "%d %d %.17g %.17g\n", i + 1, j + 1, v.real(), v.imag()); else snprintf(b, sizeof b, "%d %d  %.17g\n", i + 1, j + 1, v.real());
      body += b; cnt++;
    }
    snprintf(b, sizeof b, "%%%%MatrixMarket matrix coordinate %s symmetric\n%d %d %d\n", cx ? "complex" : "real", n, n, cnt); symtxt = b + body;
  }
  Admit ad(w, f2, n, MM, A.dist, x); S.expect_fatal = false; if (!ad.st) return skip(w);
  Mat &B = out_slot(w, o.b, &A);
  Rng r(o.seed); auto v0 = gen_matrix(o.seed * 7, n, A.prec, P.dkind, dirty ? PT_RANDOM : PT_ZERO, f2 == ELLPACK ? MM : n);
  build(w, B, f2, A.prec, n, MM, A.dist, v0, 0, o.seed);
  if (symf) g_disk[0].files[name].data = symtxt;
  if (o.kind == K_READ_BAD || crashed) {
    bool mf = false; std::string what = "a file whose writing was cut short by a crash"; 
    if (w.rank == 0) {
      if (!crashed) { auto &fl = g_disk[0].files[name]; if (pick(o.p[0], 14) == 13) { g_disk[0].files.erase(name); mf = true; what = "a missing file"; } else fl.data = damage(w, o, fl.data, A, mf, what); S.st.corruptions++; }
    }
    S.expect_fatal = true; S.logbuf.clear();
    do_read(B, name.c_str());
    if (w.rank == 0) { if (S.cfg.nranks == 1) S.expect_fatal = false; if (mf) bad(w, "unreported", "reading %s returned normally", what.c_str());
      if (!A.dist) { std::vector<char> raw; observe(w, B, raw); for (int i = 0; i < n * n; i++) { cd a = tget(B.prec, raw.data(), i); if (!(std::abs(a - x.v[i]) <= x.tol[i])) bad(w, "unreported", "reading %s returned normally with a different matrix: element (%d,%d) is %.17g%+.17gi instead of %.17g%+.17gi", what.c_str(), i / n, i % n, a.real(), a.imag(), x.v[i].real(), x.v[i].imag()); } B.raw = raw; } }
    S.expect_fatal = false;
    if (A.dist) { forget(w, B); check_unchanged(w, {}); return; }
    settle(w, B, x, "matrix read back"); check_unchanged(w, {&B}); return;
  }
  bool rf = ft && (ft->sub == IoFault::READ_ERR || ft->sub == IoFault::SHORT_READS || (ft->sub == IoFault::OPEN_FAIL && o.kind == K_READ)), rhard = rf && ft->sub != IoFault::SHORT_READS;
  if (rf) { g_iofault = IoFault(); g_iofault.kind = ft->sub; g_iofault.at = ft->at; g_iofault.rank = 0; if (rhard) { S.expect_fatal = true; S.logbuf.clear(); } }
  if (ad.st == 2) { S.expect_fatal = true; S.logbuf.clear(); }
  do_read(B, name.c_str());
  if (rf && w.rank == 0) { uint64_t fired = g_iofault.fired; g_iofault = IoFault(); S.expect_fatal = false; if (rhard && fired) { if (A.dist || ft->sub == IoFault::OPEN_FAIL) bad(w, "unreported", "reading failed with an I/O error but the call returned normally"); settle(w, B, x, "matrix read back although the disk reported an error"); } }
  ad.done();
  settle(w, B, x, "matrix read back"); check_unchanged(w, {&B});
  if (w.rank == 0 && S.cfg.nranks == 1 && io_open_count() != f0) bad(w, "result", "the file was left open");
}

// ------------------------------------------------------------------ ranks
static void sent(World &w, const Mat &A) { g_sent[{w.opi, w.rank}] = A; }
static Exp sent_exp(World &w, int src) { auto it = g_sent.find({w.opi, src}); if (it == g_sent.end()) bad(w, "result", "a matrix arrived that was never sent"); Exp x = exp_same(it->second); x.exact = true; return x; }
static void do_comm_op(World &w, const Op &o) {
  int k = o.kind, R = S.cfg.nranks; const Plan &P = *w.P;
  if (!supports(P.fmt, P.dist, k)) return skip(w);
  // the exchange runs on the world communicator, on one with the ranks reversed or on one of two halves
  MPI_Comm comm = MPI_COMM_WORLD; int me = w.rank; std::vector<int> wr; for (int i = 0; i < R; i++) wr.push_back(i);
  struct FreeComm { MPI_Comm &c; ~FreeComm() { if (c != MPI_COMM_WORLD) MPI_Comm_free(&c); } };
  int cv = (int)(o.seed >> 9 & 3), R0 = R;
  if (R > 1 && cv && (k == K_SENDRECV || k == K_BCAST || k == K_FANIN || k == K_RING)) {
    if (cv == 1) { MPI_Comm_split(MPI_COMM_WORLD, 0, R - w.rank, &comm); me = R - 1 - w.rank; for (int i = 0; i < R; i++) wr[i] = R - 1 - i; }
    else if (cv == 2) { int par = w.rank & 1; MPI_Comm_split(MPI_COMM_WORLD, par, w.rank, &comm); me = w.rank / 2; wr.clear(); for (int i = par; i < R; i += 2) wr.push_back(i); R = (int)wr.size(); }
  }
  (void)R0; FreeComm fc{comm};
  switch (k) {
    case K_SENDRECV: {
      if (R < 2) return skip(w);
      Mat &A = first(w, o); int src = pick(o.p[0], R), dst = (src + 1 + pick(o.p[1], R - 1)) % R, var = pick(o.p[2], 3), reps = 1 + (o.p[3] & 1);
      Mat *B; if (var == 1) B = &out_slot(w, o.b, &A); else B = &operand(w, o.b, A.fmt, A.prec, A.N, A.M, false, o.seed, &A);
      if (me == src) { sent(w, A); for (int q = 0; q < reps; q++) lib(w, "mpi_send", A.fmt, [&] { bml_mpi_send(A.h, dst, comm); }); }
      if (me == dst) {
        for (int q = 0; q < reps; q++) {
          if (var == 0) lib(w, "mpi_recv", A.fmt, [&] { bml_mpi_recv(B->h, src, comm); });
          else if (var == 1) { if (q) forget(w, *B); bml_matrix_t *h = nullptr; lib(w, "mpi_recv_matrix", A.fmt, [&] { h = bml_mpi_recv_matrix((bml_matrix_type_t)A.fmt, (bml_matrix_precision_t)A.prec, A.N, A.M, src, comm); }); adopt(w, *B, h, A.fmt, A.prec, A.N, A.M, false, 0); }
          else { lib(w, "mpi_irecv", A.fmt, [&] { bml_mpi_irecv(B->h, src, comm); }); lib(w, "mpi_irecv_complete", A.fmt, [&] { bml_mpi_irecv_complete(B->h); }); }
        }
        settle(w, *B, sent_exp(w, wr[src]), "received matrix"); check_unchanged(w, {B});
      } else {
        if (var == 1) { Exp x = exp_same(A); bml_matrix_t *h = nullptr; lib(w, "copy_new", A.fmt, [&] { h = bml_copy_new(A.h); }); adopt(w, *B, h, A.fmt, A.prec, A.N, A.M, false, 0); settle(w, *B, x); }
        check_unchanged(w, {});
      }
      return;
    }
    case K_BCAST: {
      Mat &A = first(w, o); int root = pick(o.p[0], R); if (me == root) sent(w, A);
      lib(w, "mpi_bcast_matrix", A.fmt, [&] { bml_mpi_bcast_matrix(A.h, root, comm); });
      settle(w, A, sent_exp(w, wr[root]), "broadcast matrix"); check_unchanged(w, {&A}); return;
    }
    case K_FANIN: {
      if (R < 2) return skip(w);
      Mat &A = first(w, o); int root = pick(o.p[0], R), cnt = 1 + pick(o.p[1], std::min(3, R - 1)); Rng r(o.seed);
      int rel = (me - root + R) % R;
      if (rel >= 1 && rel <= cnt) { sent(w, A); lib(w, "mpi_send", A.fmt, [&] { bml_mpi_send(A.h, root, comm); }); }
      if (rel == 0) {
        Mat T[3]; for (int q = 0; q < cnt; q++) { auto v = gen_matrix(o.seed + q, A.N, A.prec, P.dkind, PT_RANDOM, A.fmt == ELLPACK ? A.M : A.N); build(w, T[q], A.fmt, A.prec, A.N, A.M, false, v, 0, o.seed); }
        std::vector<int> ord(cnt); for (int i = 0; i < cnt; i++) ord[i] = i; for (int i = cnt - 1; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]);
        for (int q : ord) lib(w, "mpi_irecv", A.fmt, [&] { bml_mpi_irecv(T[q].h, (root + 1 + q) % R, comm); });
        for (int i = cnt - 1; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]);
        for (int q : ord) lib(w, "mpi_irecv_complete", A.fmt, [&] { bml_mpi_irecv_complete(T[q].h); });
        for (int q = 0; q < cnt; q++) { settle(w, T[q], sent_exp(w, wr[(root + 1 + q) % R]), "received matrix"); forget(w, T[q]); }
      }
      check_unchanged(w, {}); return;
    }
    case K_RING: {
      if (R < 2) return skip(w);
      Mat &A = first(w, o); int st = 1 + pick(o.p[0], R - 1), to = (me + st) % R, from = (me - st + R) % R;
      Mat T; { auto v = gen_matrix(o.seed, A.N, A.prec, P.dkind, PT_RANDOM, A.fmt == ELLPACK ? A.M : A.N); build(w, T, A.fmt, A.prec, A.N, A.M, false, v, 0, o.seed); }
      sent(w, A);
      lib(w, "mpi_irecv", A.fmt, [&] { bml_mpi_irecv(T.h, from, comm); });
      lib(w, "mpi_send", A.fmt, [&] { bml_mpi_send(A.h, to, comm); });
      lib(w, "mpi_irecv_complete", A.fmt, [&] { bml_mpi_irecv_complete(T.h); });
      settle(w, T, sent_exp(w, wr[from]), "received matrix"); forget(w, T); check_unchanged(w, {}); return;
    }
    case K_REDUCE: {
      std::vector<double> v(R); Rng r(o.seed); for (int i = 0; i < R; i++) { double x = r.unit() * 10 - 5; if (pick(o.p[1], 3) == 0) x = r.range(-5, 5); if (pick(o.p[1], 3) == 1) x *= std::pow(10.0, r.range(-8, 8)); v[i] = x; }
      int t = pick(o.p[0], 3); double s = v[0], a = 0; for (int i = 0; i < R; i++) { a += std::fabs(v[i]); if (i) s = t == 0 ? s + v[i] : t == 1 ? std::min(s, v[i]) : std::max(s, v[i]); }
      UBuf u(8); memcpy(u.p, &v[w.rank], 8);
      if (t == 0) lib(w, "sumRealReduce", 0, [&] { bml_sumRealReduce((double *)u.p); }); else if (t == 1) lib(w, "minRealReduce", 0, [&] { bml_minRealReduce((double *)u.p); }); else lib(w, "maxRealReduce", 0, [&] { bml_maxRealReduce((double *)u.p); });
      double g; memcpy(&g, u.p, 8); u.release(); scalar_check(w, "the reduced value", g, s, t == 0 ? 1e-14 * a : 0); same_on_ranks(w, {g}); check_unchanged(w, {}); return;
    }
    case K_ALLGATHER: {
      int N = P.N; if (N < 1) return skip(w); Mat T; Rng r(o.seed);
      // parts: every rank owns a contiguous run of parts, every part a number of rows
      int parts = R + pick(o.p[0], 4); std::vector<int> nn(parts, 0), mn(R), mx(R); 
      std::vector<int> own(parts); for (int i = 0; i < parts; i++) own[i] = i < R ? i : (int)r.below(R); std::sort(own.begin(), own.end());
      for (int i = 0; i < N; i++) nn[r.below(parts)]++;
      for (int i = 0; i < R; i++) { mn[i] = parts + 1; mx[i] = 0; } for (int i = 0; i < parts; i++) { mn[own[i]] = std::min(mn[own[i]], i + 1); mx[own[i]] = std::max(mx[own[i]], i + 1); }
      std::vector<int> rowown(N); { int row = 0; for (int i = 0; i < parts; i++) for (int q = 0; q < nn[i]; q++) rowown[row++] = own[i]; }
      int M = P.fmt == ELLPACK && (o.p[1] & 1) ? std::max(1, N / 2) : N;
      auto full = gen_matrix(o.seed * 3, N, P.prec, P.dkind, pick(o.p[2], PT_COUNT), P.fmt == ELLPACK ? M : N); auto junk = gen_matrix(o.seed * 5 + w.rank, N, P.prec, P.dkind, PT_RANDOM, P.fmt == ELLPACK ? M : N);
      int lr = bml_getMyRank(); auto v = full; for (int i = 0; i < N; i++) if (rowown[i] != lr) for (int j = 0; j < N; j++) v[(size_t)i * N + j] = junk[(size_t)i * N + j];
      build(w, T, P.fmt, P.prec, N, M, false, v, 0, o.seed);
      bool save = o.p[3] & 1; if (save) lib(w, "save_domain", P.fmt, [&] { bml_save_domain(T.h); });
      UBuf a(R * 4), b(R * 4), c(parts * 4); memcpy(a.p, mn.data(), R * 4); memcpy(b.p, mx.data(), R * 4); memcpy(c.p, nn.data(), parts * 4); a.freeze(); b.freeze(); c.freeze();
      lib(w, "update_domain", P.fmt, [&] { bml_update_domain(T.h, (int *)a.p, (int *)b.p, (int *)c.p); }); frozen(w, a, "partition"); frozen(w, b, "partition"); frozen(w, c, "partition");
      a.release(); b.release(); c.release();
      lib(w, "allGatherVParallel", P.fmt, [&] { bml_allGatherVParallel(T.h); });
      Exp x = exp_of(N, full); settle(w, T, x, "gathered matrix");
      if (save) { lib(w, "restore_domain", P.fmt, [&] { bml_restore_domain(T.h); }); cd s = 0; double aa = 0, got = 0; for (int i = 0; i < N; i++) { s += T.at(i, i); aa += std::abs(T.at(i, i)); } lib(w, "trace", P.fmt, [&] { got = bml_trace(T.h); }); scalar_check(w, "the trace after the domain was restored", got, s.real(), C_EPS(P.prec, N) * aa); }
      forget(w, T); check_unchanged(w, {}); return;
    }
    case K_RANKS: {
      int n = 0, r = 0, p = 0; lib(w, "rank_queries", 0, [&] { n = bml_getNRanks(); r = bml_getMyRank(); p = bml_printRank(); });
      int want = w.lrank; if (n != R || r != want || (p != 0) != (want == 0)) bad(w, "result", "the library reports rank %d of %d (print rank %d), expected %d of %d", r, n, p, want, R); return;
    }
    case K_BARRIER: lib(w, "barrierParallel", 0, [&] { bml_barrierParallel(); }); return;
    case K_RESTART: {
      if (P.dist) return skip(w);
      for (int i = 0; i < NSLOT; i++) forget(w, w.s[i]);
      lib(w, "shutdown", 0, [&] { bml_shutdown(); });
      int mode = pick(o.p[0], 3); MPI_Comm c = MPI_COMM_WORLD;
      if (mode == 1) { MPI_Comm_split(MPI_COMM_WORLD, 0, R - w.rank, &c); w.lrank = R - 1 - w.rank; } else if (mode == 2) { MPI_Comm_dup(MPI_COMM_WORLD, &c); w.lrank = w.rank; } else w.lrank = w.rank;
      if (c != MPI_COMM_WORLD) w.comms.push_back(c);
      lib(w, "init", 0, [&] { bml_init(c); });
      int n = bml_getNRanks(), r = bml_getMyRank(); if (n != R || r != w.lrank) bad(w, "result", "after a restart the library reports rank %d of %d, expected %d of %d", r, n, w.lrank, R); return;
    }
    case K_DOMAIN: {
      Mat &A = first(w, o); if (!supports(A.fmt, A.dist, k)) return skip(w);
      lib(w, "save_domain", A.fmt, [&] { bml_save_domain(A.h); }); lib(w, "restore_domain", A.fmt, [&] { bml_restore_domain(A.h); });
      bml_domain_t *d = nullptr; lib(w, "default_domain", A.fmt, [&] { d = bml_default_domain(A.N, A.M, o.p[0] & 1 ? distributed : sequential); });
      if (!d) bad(w, "result", "no domain was returned");
      bool di = o.p[0] & 1; int next = 0;
      if (d->totalProcs != R || d->totalRows != A.N || d->totalCols != A.M || d->globalRowMin != 0 || d->globalRowMax != A.N || d->globalRowExtent != A.N) bad(w, "result", "the domain describes %d ranks and a matrix of %d x %d with rows %d to %d", d->totalProcs, d->totalRows, d->totalCols, d->globalRowMin, d->globalRowMax);
      for (int i = 0; i < R; i++) {
        int lo = d->localRowMin[i], hi = d->localRowMax[i], ex = d->localRowExtent[i];
        if (di ? lo != next || hi - lo < A.N / R || hi - lo > (A.N + R - 1) / R : lo != 0 || hi != A.N) bad(w, "result", "the domain gives rank %d of %d the rows %d to %d of %d", i, R, lo, hi, A.N);
        if (ex != hi - lo || d->localElements[i] != ex * A.M || d->localDispl[i] != lo * A.M) bad(w, "result", "the domain gives rank %d rows %d to %d of length %d, extent %d, %d elements from %d", i, lo, hi, A.M, ex, d->localElements[i], d->localDispl[i]);
        next = hi;
      }
      if (di && next != A.N) bad(w, "result", "the domain covers %d of %d rows", next, A.N);
      bml_domain_t *d2 = nullptr; lib(w, "default_domain", A.fmt, [&] { d2 = bml_default_domain(A.N, A.M, di ? sequential : distributed); });
      lib(w, "copy_domain", A.fmt, [&] { bml_copy_domain(d, d2); });
      for (int i = 0; i < R; i++) if (d2->localRowMin[i] != d->localRowMin[i] || d2->localRowMax[i] != d->localRowMax[i] || d2->localRowExtent[i] != d->localRowExtent[i] || d2->localElements[i] != d->localElements[i] || d2->localDispl[i] != d->localDispl[i]) bad(w, "result", "the copied domain gives rank %d rows %d to %d", i, d2->localRowMin[i], d2->localRowMax[i]);
      lib(w, "deallocate_domain", A.fmt, [&] { bml_deallocate_domain(d2); });
      lib(w, "deallocate_domain", A.fmt, [&] { bml_deallocate_domain(d); }); check_unchanged(w, {}); return;
    }
  }
}

// ------------------------------------------------------------------ matrices with block sizes of their own
// Small integers keep every result exact in every precision.
static void do_blocked(World &w, const Op &o) {
  if (w.P->dist) return skip(w);
  Rng r(o.seed * 77 + data_seed_rank(w, o)); int prec = 1 + pick(o.p[0], 4), n = r.range(1, 12), bmax = r.chance(0.4) ? 10 : 5; size_t nn = (size_t)n * n;
  std::vector<int> bs; for (int left = n; left > 0;) { int b = std::min(left, r.range(1, bmax)); bs.push_back(b); left -= b; }
  int nb = (int)bs.size(); bml_matrix_t *z = nullptr, *A = nullptr, *T = nullptr, *C = nullptr;
  std::vector<cd> v(nn); double dens = r.unit(); for (auto &x : v) if (r.chance(dens)) x = cd((double)r.range(-3, 3), is_cplx(prec) ? (double)r.range(-3, 3) : 0.0);
  lib(w, "zero_matrix", ELLBLOCK, [&] { z = bml_zero_matrix(ellblock, (bml_matrix_precision_t)prec, n, n, sequential); });   // the first one decides the block sizes that are remembered
  lib(w, "block_matrix", ELLBLOCK, [&] { std::vector<int> b(bs); A = bml_block_matrix(ellblock, (bml_matrix_precision_t)prec, nb, nb, n, b.data(), sequential); });
  if (!A) bad(w, "result", "no matrix was created");
  auto look = [&](bml_matrix_t *h, const std::vector<cd> &e, const char *what) {
    Mat m; m.h = h; m.fmt = ELLBLOCK; m.prec = prec; m.N = n; m.M = n; m.dist = 0; std::vector<char> raw; observe(w, m, raw);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { cd a = tget(prec, raw.data(), (size_t)i * n + j); S.st.comparisons++; if (a != e[(size_t)i * n + j]) bad(w, "result", "%s of a matrix with blocks of its own: element (%d,%d) is %.17g%+.17gi, expected %.17g%+.17gi", what, i, j, a.real(), a.imag(), e[(size_t)i * n + j].real(), e[(size_t)i * n + j].imag()); }
  };
  look(A, std::vector<cd>(nn), "the initial contents");
  UBuf u((size_t)n * esz(prec)); std::vector<int> ord(n); for (int i = 0; i < n; i++) ord[i] = i; for (int i = n - 1; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]);
  for (int i : ord) { for (int j = 0; j < n; j++) tput(prec, u.p, j, v[(size_t)i * n + j]); lib(w, "set_row", ELLBLOCK, [&] { bml_set_row(A, i, u.p, 0.0); }); }
  look(A, v, "the contents");
  std::vector<cd> t(nn), sq(nn); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { t[(size_t)j * n + i] = v[(size_t)i * n + j]; for (int k = 0; k < n; k++) sq[(size_t)i * n + j] += v[(size_t)i * n + k] * v[(size_t)k * n + j]; }
  lib(w, "transpose_new", ELLBLOCK, [&] { T = bml_transpose_new(A); }); look(T, t, "the transpose");
  lib(w, "copy_new", ELLBLOCK, [&] { C = bml_copy_new(A); }); look(C, v, "the copy");
  switch (pick(o.p[1], 7)) {
    case 4: case 5: {   // a square run of blocks is taken out and put in somewhere else where the block sizes agree
      std::vector<int> of(1, 0); for (int b : bs) of.push_back(of.back() + b);
      int len = r.range(1, nb), a = r.below(nb - len + 1), b = r.below(nb - len + 1), a2 = r.below(nb - len + 1), b2 = r.below(nb - len + 1);
      auto same = [&](int x, int y) { for (int i = 0; i < len; i++) if (bs[x + i] != bs[y + i]) return false; return true; };
      if (!same(a, b)) b = a; if (!same(a, a2)) a2 = a; if (!same(a, b2)) b2 = a;
      int sz = of[a + len] - of[a]; bml_matrix_t *B = nullptr; std::vector<cd> e((size_t)sz * sz), y(v);
      for (int i = 0; i < sz; i++) for (int j = 0; j < sz; j++) e[(size_t)i * sz + j] = y[(size_t)(of[a2] + i) * n + of[b2] + j] = v[(size_t)(of[a] + i) * n + of[b] + j];
      lib(w, "extract_submatrix", ELLBLOCK, [&] { B = bml_extract_submatrix(A, of[a], of[b], sz, sz); });
      { int keep = n; n = sz; look(B, e, "a submatrix"); n = keep; }
      lib(w, "assign_submatrix", ELLBLOCK, [&] { bml_assign_submatrix(C, B, of[a2], of[b2]); }); look(C, y, "the result of assigning a submatrix");
      lib(w, "deallocate", ELLBLOCK, [&] { bml_deallocate(&B); }); break;
    }
    case 0: lib(w, "multiply", ELLBLOCK, [&] { bml_multiply(A, A, C, 1.0, 0.0, 0.0); }); look(C, sq, "the square"); break;
    case 1: { std::vector<cd> e(nn); for (size_t k = 0; k < nn; k++) e[k] = 2.0 * v[k] - t[k]; lib(w, "add", ELLBLOCK, [&] { bml_add(C, T, 2.0, -1.0, 0.0); }); look(C, e, "the sum"); break; }
    case 2: lib(w, "transpose", ELLBLOCK, [&] { bml_transpose(C); }); look(C, t, "the transpose"); break;
    case 3: { std::vector<cd> e(v); for (int i = 0; i < n; i++) e[(size_t)i * n + i] -= 2.0; lib(w, "add_identity", ELLBLOCK, [&] { bml_add_identity(C, -2.0, 0.0); }); look(C, e, "the shifted matrix"); break; }
    default: { lib(w, "copy", ELLBLOCK, [&] { bml_copy(T, C); }); look(C, t, "the copied-over matrix"); break; }
  }
  look(A, v, "the input"); double tr = 0, want = 0; for (int i = 0; i < n; i++) want += v[(size_t)i * n + i].real();
  lib(w, "trace", ELLBLOCK, [&] { tr = bml_trace(A); }); if (tr != want) bad(w, "result", "the trace of a matrix with blocks of its own is %.17g, expected %.17g", tr, want);
  u.release(); for (bml_matrix_t **h : {&z, &T, &A, &C}) lib(w, "deallocate", ELLBLOCK, [&] { bml_deallocate(h); });
  check_unchanged(w, {});
}

// ------------------------------------------------------------------ invalid calls
// Operations a format does not provide have to say so, not to return something or to touch memory they do not own.
static int unsupported(int f, int64_t r) {
  static const std::vector<int> D = {13, 14}, E = {7, 9, 13, 14}, B = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14}, C = {0, 1, 2, 3, 7, 9, 10, 12, 13, 14};
  const std::vector<int> &v = f == DENSE ? D : f == ELLPACK ? E : f == ELLBLOCK ? B : C; return v[pick(r, (int)v.size())];
}
static void do_invalid_dist(World &w, const Op &o) {   // operations a distributed matrix does not provide
  Mat &A = first(w, o); int n = A.N; const char *what = ""; UBuf u(n * n * esz(A.prec) + 64); memset(u.p, 0, n * n * esz(A.prec) + 64); int ix[2] = {0, 0}; char t[2] = "u";
  auto call = [&](const char *name, const char *fname_, auto f) { what = fname_; S.st.invalid_calls++; S.expect_fatal = true; S.logbuf.clear(); lib(w, name, DIST, f); S.expect_fatal = false; bad(w, "unreported", "%s of a distributed matrix returned normally", what); };
  bool F = w.P->fort; int k = pick(o.p[0], 23); if ((F && (k == 0 || k == 3)) || (k == 21 && S.cfg.nranks == 1)) { u.release(); return skip(w); }
  switch (k) {
    case 0: call("get_element", "get_element", [&] { bml_get_element(A.h, 0, 0); }); break;
    case 1: call("set_element", "set_element", [&] { bml_set_element(A.h, 0, 0, u.p); }); break;
    case 2: call("set_element_new", "set_element_new", [&] { bml_set_element_new(A.h, 0, 0, u.p); }); break;
    case 3: call("get_diagonal", "get_diagonal", [&] { bml_get_diagonal(A.h); }); break;
    case 4: call("inverse", "inverse", [&] { bml_inverse(A.h); }); break;
    case 5: call("multiply_adjust_AB", "multiply_adjust_AB", [&] { bml_multiply_adjust_AB(A.h, A.h, A.h, 0); }); break;
    case 6: call("element_multiply_AB", "element_multiply_AB", [&] { bml_element_multiply_AB(A.h, A.h, A.h, 0); }); break;
    case 7: call("transpose_triangle", "transpose_triangle", [&] { bml_transpose_triangle(A.h, 'u'); }); break;
    case 8: call("adjungate_triangle", "adjungate_triangle", [&] { bml_adjungate_triangle(A.h, t); }); break;
    case 9: call("get_bandwidth", "get_bandwidth", [&] { bml_get_bandwidth(A.h); }); break;
    case 10: call("get_row_bandwidth", "get_row_bandwidth", [&] { bml_get_row_bandwidth(A.h, 0); }); break;
    case 11: call("gershgorin_partial", "gershgorin_partial", [&] { bml_gershgorin_partial(A.h, 1); }); break;
    case 12: call("sum_squares_submatrix", "sum_squares_submatrix", [&] { bml_sum_squares_submatrix(A.h, 1); }); break;
    case 13: call("accumulate_offdiag", "accumulate_offdiag", [&] { bml_accumulate_offdiag(A.h, 0); }); break;
    case 14: call("reorder", "reorder", [&] { bml_reorder(A.h, (int *)u.p); }); break;
    case 15: call("save_domain", "save_domain", [&] { bml_save_domain(A.h); }); break;
    case 16: call("restore_domain", "restore_domain", [&] { bml_restore_domain(A.h); }); break;
    case 17: call("update_domain", "update_domain", [&] { bml_update_domain(A.h, ix, ix, ix); }); break;
    case 18: call("allGatherVParallel", "allGatherVParallel", [&] { bml_allGatherVParallel(A.h); }); break;
    case 19: call("extract_submatrix", "extract_submatrix", [&] { bml_extract_submatrix(A.h, 0, 0, 1, 1); }); break;
    case 20: call("assign_submatrix", "assign_submatrix", [&] { bml_assign_submatrix(A.h, A.h, 0, 0); }); break;
    case 21: call("zero_matrix", "creating a matrix that cannot be divided evenly", [&] { bml_zero_matrix(dense, (bml_matrix_precision_t)A.prec, n + 1, n + 1, distributed); }); break;
    default: call("matrix2submatrix", "matrix2submatrix", [&] { bml_matrix2submatrix(A.h, A.h, ix, 1); }); break;
  }
}
static void do_invalid(World &w, const Op &o) {
  if (w.P->dist) return do_invalid_dist(w, o);
  if (S.cfg.nranks > 1) return skip(w);
  Mat &A = first(w, o); int n = A.N, f = A.fmt; int kind = pick(o.p[0], 66); if (kind >= 51) kind = 51 + unsupported(f, o.p[2]); UBuf u(n * esz(A.prec)); memset(u.p, 0, n * esz(A.prec));
  static const int badix[] = {-1, -2, 1, 7}; int bi = badix[pick(o.p[1], 4)]; int out = bi < 0 ? bi : n - 1 + bi;
  bml_matrix_t *null = nullptr; char what[200] = "";
  bool fk = w.P->fort && pick(o.p[3], 3) == 0; if (fk) kind = 100 + pick(o.p[2], 7);
  static const std::set<int> notf = {5, 9, 19, 25, 38, 39};   // cannot be written in Fortran
  if (w.P->fort && notf.count(kind)) { u.release(); return skip(w); }
  int f2 = 1 + f % 4;
  Mat *B = nullptr; 
  if (kind == 10 || kind == 12 || kind == 14 || kind == 16) { B = &operand(w, o.b, f2, A.prec, n, -1, false, o.seed, &A); }
  if (kind == 11 || kind == 13 || kind == 15 || kind == 17 || kind == 36 || kind == 37) { if (f == ELLBLOCK) { u.release(); return skip(w); } B = &operand(w, o.b, f, A.prec, n + 1 + pick(o.p[2], 2), kind >= 36 && f == ELLPACK ? A.M : -1, false, o.seed, &A); }
  auto begin = [&](const char *t) { S.st.invalid_calls++; snprintf(what, sizeof what, "%s", t); S.expect_fatal = true; S.logbuf.clear(); };
  auto end = [&] { S.expect_fatal = false; bad(w, "unreported", "%s returned normally", what); };
  switch (kind) {
    case 0: if (f == CSR && false) return skip(w); begin("get_element with a row index outside the matrix"); lib(w, "get_element", f, [&] { bml_get_element(A.h, out, 0); }); end();
    case 1: begin("get_element with a column index outside the matrix"); lib(w, "get_element", f, [&] { bml_get_element(A.h, 0, out); }); end();
    case 2: begin("get_row with an index outside the matrix"); lib(w, "get_row", f, [&] { bml_get_row(A.h, out); }); end();
    case 3: begin("trace of a missing matrix"); lib(w, "trace", f, [&] { bml_trace(null); }); end();
    case 4: begin("add with a missing matrix"); lib(w, "add", f, [&] { bml_add(null, A.h, 1, 1, 0); }); end();
    case 5: begin("scale_inplace of a missing matrix"); lib(w, "scale_inplace", f, [&] { bml_scale_inplace(u.p, null); }); end();
    case 6: begin("copy_new of a missing matrix"); lib(w, "copy_new", f, [&] { bml_copy_new(null); }); end();
    case 7: begin("transpose of a missing matrix"); lib(w, "transpose", f, [&] { bml_transpose(null); }); end();
    case 8: begin("multiply with a missing matrix"); lib(w, "multiply", f, [&] { bml_multiply(null, A.h, A.h, 1, 0, 0); }); end();
    case 9: begin("set_row of a missing matrix"); lib(w, "set_row", f, [&] { bml_set_row(null, 0, u.p, 0); }); end();
    case 10: begin("copy between different formats"); lib(w, "copy", f, [&] { bml_copy(A.h, B->h); }); end();
    case 11: begin("copy between different sizes"); lib(w, "copy", f, [&] { bml_copy(A.h, B->h); }); end();
    case 18: begin("creating a matrix of an unknown format"); lib(w, "zero_matrix", f, [&] { bml_zero_matrix((bml_matrix_type_t)77, (bml_matrix_precision_t)A.prec, n, n, sequential); }); end();
    case 19: begin("creating a matrix of an unknown precision"); lib(w, "zero_matrix", f, [&] { bml_zero_matrix((bml_matrix_type_t)f, (bml_matrix_precision_t)77, n, n, sequential); }); end();
    case 20: begin("importing into an unknown format"); lib(w, "import_from_dense", f, [&] { UBuf q((size_t)n * n * esz(A.prec)); memset(q.p, 0, (size_t)n * n * esz(A.prec)); bml_import_from_dense((bml_matrix_type_t)77, (bml_matrix_precision_t)A.prec, dense_row_major, n, n, q.p, 0, sequential); }); end();
    case 21: begin("converting into an unknown format"); lib(w, "convert", f, [&] { bml_convert(A.h, (bml_matrix_type_t)77, (bml_matrix_precision_t)A.prec, n, sequential); }); end();
    case 22: if (f == DENSE || f == ELLPACK) return skip(w); begin("adjungate_triangle on a format that does not support it"); { char t[2] = "u"; lib(w, "adjungate_triangle", f, [&] { bml_adjungate_triangle(A.h, t); }); } end();
    case 23: if (f == ELLPACK) return skip(w); begin("adjacency on a format that does not support it"); lib(w, "adjacency", f, [&] { bml_adjacency(A.h, (int *)u.p, (int *)u.p, 0); }); end();
    case 24: if (f == ELLPACK) return skip(w); begin("group_matrix on a format that does not support it"); lib(w, "group_matrix", f, [&] { bml_group_matrix(A.h, (int *)u.p, 1, 0); }); end();
    case 25: begin("get_diagonal of a missing matrix"); lib(w, "get_diagonal", f, [&] { bml_get_diagonal(null); }); end();
    case 26: begin("threshold of a missing matrix"); lib(w, "threshold", f, [&] { bml_threshold(null, 0.5); }); end();
    case 27: begin("writing a missing matrix"); { char t[4] = "q"; lib(w, "write_bml_matrix", f, [&] { bml_write_bml_matrix(null, t); }); } end();
    case 28: begin("diagonalize of a missing matrix"); lib(w, "diagonalize", f, [&] { bml_diagonalize(null, u.p, A.h); }); end();
    case 29: begin("fnorm of a missing matrix"); lib(w, "fnorm", f, [&] { bml_fnorm(null); }); end();
    case 30: begin("set_element with a row index outside the matrix"); lib(w, "set_element", f, [&] { bml_set_element(A.h, out, 0, u.p); }); end();
    case 31: begin("set_element with a column index outside the matrix"); lib(w, "set_element", f, [&] { bml_set_element(A.h, 0, out, u.p); }); end();
    case 32: begin("set_element_new with a row index outside the matrix"); lib(w, "set_element_new", f, [&] { bml_set_element_new(A.h, out, 0, u.p); }); end();
    case 33: begin("set_element_new with a column index outside the matrix"); lib(w, "set_element_new", f, [&] { bml_set_element_new(A.h, 0, out, u.p); }); end();
    case 34: begin("set_row with an index outside the matrix"); lib(w, "set_row", f, [&] { bml_set_row(A.h, out, u.p, 0); }); end();
    case 35: begin("get_row_bandwidth with an index outside the matrix"); lib(w, "get_row_bandwidth", f, [&] { bml_get_row_bandwidth(A.h, out); }); end();
    case 36: begin("trace_mult of matrices of different sizes"); lib(w, "trace_mult", f, [&] { bml_trace_mult(A.h, B->h); }); end();
    case 37: begin("trace_mult of matrices of different sizes"); lib(w, "trace_mult", f, [&] { bml_trace_mult(B->h, A.h); }); end();
    case 38: begin("importing an array of an unknown order"); lib(w, "import_from_dense", f, [&] { UBuf q((size_t)n * n * esz(A.prec)); memset(q.p, 0, (size_t)n * n * esz(A.prec)); bml_import_from_dense((bml_matrix_type_t)f, (bml_matrix_precision_t)A.prec, (bml_dense_order_t)77, n, n, q.p, 0, sequential); }); end();
    case 39: begin("exporting in an unknown order"); lib(w, "export_to_dense", f, [&] { bml_export_to_dense(A.h, (bml_dense_order_t)77); }); end();
    case 40: if (f != DENSE && f != ELLPACK) { u.release(); return skip(w); } begin("adjungate_triangle of an unknown triangle"); { char t[2] = "x"; lib(w, "adjungate_triangle", f, [&] { bml_adjungate_triangle(A.h, t); }); } end();
    case 41: begin("default_domain of an unknown distribution"); lib(w, "default_domain", f, [&] { bml_default_domain(n, n, o.p[2] & 1 ? graph_distributed : (bml_distribution_mode_t)77); }); end();
    case 42: if (f == ELLPACK) { u.release(); return skip(w); } begin("matrix2submatrix on a format that does not support it"); lib(w, "matrix2submatrix", f, [&] { bml_matrix2submatrix(A.h, A.h, (int *)u.p, 1); }); end();
    case 43: if (f == ELLPACK) { u.release(); return skip(w); } begin("submatrix2matrix on a format that does not support it"); lib(w, "submatrix2matrix", f, [&] { bml_submatrix2matrix(A.h, A.h, (int *)u.p, 1, 1, 0); }); end();
    case 44: if (f == ELLPACK) { u.release(); return skip(w); } begin("matrix2submatrix_index on a format that does not support it"); lib(w, "matrix2submatrix_index", f, [&] { bml_matrix2submatrix_index(A.h, A.h, (int *)u.p, 1, (int *)u.p, (int *)u.p, 0); }); end();
    case 45: if (f == ELLPACK) { u.release(); return skip(w); } begin("adjacency_group on a format that does not support it"); lib(w, "adjacency_group", f, [&] { bml_adjacency_group(A.h, (int *)u.p, 1, (int *)u.p, (int *)u.p, 0); }); end();
    case 46: if (f != CSR) { u.release(); return skip(w); } begin("add_norm on a format that does not support it"); lib(w, "add_norm", f, [&] { bml_add_norm(A.h, A.h, 1, 1, 0); }); end();
    case 47: if (f != CSR) { u.release(); return skip(w); } begin("fnorm2 on a format that does not support it"); lib(w, "fnorm2", f, [&] { bml_fnorm2(A.h, A.h); }); end();
    case 48: begin("multiply into a missing matrix"); lib(w, "multiply", f, [&] { bml_multiply(A.h, null, A.h, 1, 0, 0); }); end();
    case 49: begin("copy into a missing matrix"); lib(w, "copy", f, [&] { bml_copy(A.h, null); }); end();
    case 50: begin("the inverse of a missing matrix"); lib(w, "inverse", f, [&] { bml_inverse(null); }); end();
    case 51: begin("save_domain on a format that keeps no domain"); lib(w, "save_domain", f, [&] { bml_save_domain(A.h); }); end();
    case 52: begin("restore_domain on a format that keeps no domain"); lib(w, "restore_domain", f, [&] { bml_restore_domain(A.h); }); end();
    case 53: begin("update_domain on a format that keeps no domain"); { static int one[2] = {0, 1}; lib(w, "update_domain", f, [&] { bml_update_domain(A.h, one, one + 1, one + 1); }); } end();
    case 54: begin("adjungate_triangle on a format that does not support it"); { char t[2] = "u"; lib(w, "adjungate_triangle", f, [&] { bml_adjungate_triangle(A.h, t); }); } end();
    case 55: begin("element_multiply_AB on a format that does not support it"); lib(w, "element_multiply_AB", f, [&] { bml_element_multiply_AB(A.h, A.h, A.h, 0); }); end();
    case 56: begin("get_row_bandwidth on a format that does not support it"); lib(w, "get_row_bandwidth", f, [&] { bml_get_row_bandwidth(A.h, 0); }); end();
    case 57: begin("get_bandwidth on a format that does not support it"); lib(w, "get_bandwidth", f, [&] { bml_get_bandwidth(A.h); }); end();
    case 58: begin("get_data_ptr of a sparse matrix"); lib(w, "get_data_ptr", f, [&] { (bml_get_data_ptr)(A.h); }); end();
    case 59: begin("sum_squares_submatrix on a format that does not support it"); lib(w, "sum_squares_submatrix", f, [&] { bml_sum_squares_submatrix(A.h, 1); }); end();
    case 60: begin("transpose_triangle on a format that does not support it"); lib(w, "transpose_triangle", f, [&] { bml_transpose_triangle(A.h, 'u'); }); end();
    case 61: begin("reorder on a format that does not support it"); { UBuf q(n * sizeof(int)); for (int i = 0; i < n; i++) ((int *)q.p)[i] = i; lib(w, "reorder", f, [&] { bml_reorder(A.h, (int *)q.p); }); } end();
    case 62: begin("gershgorin_partial on a format that does not support it"); lib(w, "gershgorin_partial", f, [&] { bml_gershgorin_partial(A.h, n); }); end();
    case 63: begin("allGatherVParallel on a format that does not support it"); lib(w, "allGatherVParallel", f, [&] { bml_allGatherVParallel(A.h); }); end();
    case 64: begin("get_local_matrix of a matrix that is not distributed"); lib(w, "get_local_matrix", f, [&] { (bml_get_local_matrix)(A.h); }); end();
    case 65: begin("block_matrix of an unknown format"); { int bs[1] = {n}; lib(w, "block_matrix", f, [&] { bml_block_matrix((bml_matrix_type_t)77, (bml_matrix_precision_t)A.prec, 1, 1, n, bs, sequential); }); } end();
    case 100: begin("a Fortran constructor given an unknown element type"); lib(w, "zero_matrix", f, [&] { fs_invalid(0, f, A.prec, n); }); end();
    case 101: begin("a Fortran constructor given an unknown element kind"); lib(w, "zero_matrix", f, [&] { fs_invalid(1, f, A.prec, n); }); end();
    case 102: begin("a Fortran constructor given an unknown distribution"); lib(w, "zero_matrix", f, [&] { fs_invalid(2, f, A.prec, n); }); end();
    case 103: begin("a Fortran constructor given an unknown format"); lib(w, "zero_matrix", f, [&] { fs_invalid(3, f, A.prec, n); }); end();
    case 104: if (f == DENSE) { u.release(); return skip(w); } begin("a Fortran import to a sparse format without a row capacity"); lib(w, "import_from_dense", f, [&] { fs_invalid(4, f, A.prec, n); }); end();
    case 105: begin("bml_error called from Fortran"); lib(w, "bml_error", f, [&] { fs_invalid(5, f, A.prec, n); }); end();
    case 106: begin("a Fortran constructor given a distribution that is not available"); lib(w, "zero_matrix", f, [&] { fs_invalid(6, f, A.prec, n); }); end();
    default: u.release(); return skip(w);
  }
}
