// Plans: generation, text form, execution and judgement per property.
const std::vector<std::string> g_props = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"};
static World g_worlds[MAX_RANKS];
static int g_ranks_finished;
extern uint64_t g_sim_fired;

static void leak_check(World &w) {
  if (w.P->prop != "C12" && w.P->prop != "C22") return;
  for (auto &k : mem_table()) {
    if (!k.live || k.user || k.rank != w.rank) continue;
    if (lib_segment_refs(k.addr)) continue;     // still reachable from the library's own state
    std::string op = k.op < g_calls.size() ? g_calls[k.op] : "";
    g_rank_op[w.rank] = op; void sim_set_fault_pc(void *); sim_set_fault_pc(k.npcs ? k.pcs[0] : nullptr);
    std::string st; (void)st;
    sim_violate("leak", "%zu bytes allocated during %s are still allocated after every matrix was released and the library was shut down", k.size, op.empty() ? "start-up" : op.c_str());
  }
  if (mpi_live_comms(w.rank)) { g_rank_op[w.rank] = "shutdown:-"; sim_violate("leak", "%d communicators created by the library were never released", mpi_live_comms(w.rank)); }
  if (mpi_live_types(w.rank)) { g_rank_op[w.rank] = "shutdown:-"; sim_violate("leak", "%d datatypes created by the library were never released", mpi_live_types(w.rank)); }
}
static int isqrt_(int n) { int k = 1; while ((k + 1) * (k + 1) <= n) k++; return k; }
static void rank_main(int r) {
  World &w = g_worlds[r]; const Plan &P = *g_plan; g_w[r] = &w;
  Op none; none.kind = K_BARRIER; w.op = &none; w.opi = -1;
  if (int q = isqrt_(S.cfg.nranks); q * q != S.cfg.nranks) {   // a process count the library does not support
    none.kind = K_INVALID; S.st.invalid_calls++; S.expect_fatal = true; S.logbuf.clear();
    lib(w, "init", 0, [&] { bml_init(MPI_COMM_WORLD); });
    S.expect_fatal = false; bad(w, "unreported", "starting the library on %d processes returned normally", S.cfg.nranks);
  }
  lib(w, "init", 0, [&] { bml_init(MPI_COMM_WORLD); });
  if (!P.bsz.empty()) { std::vector<int> b(P.bsz); 
    if (P.cfg.data_seed & 1) lib(w, "set_block_sizes", ELLBLOCK, [&] { bml_set_block_sizes(b.data(), (int)b.size(), P.mb); });
    else {   // the sizes of the first matrix made of blocks are those of the matrices after it
      bml_matrix_t *h = nullptr; lib(w, "block_matrix", ELLBLOCK, [&] { h = bml_block_matrix(ellblock, (bml_matrix_precision_t)P.prec, (int)b.size(), P.mb, P.M, b.data(), sequential); });
      lib(w, "deallocate", ELLBLOCK, [&] { bml_deallocate(&h); });
    } }
  for (size_t i = 0; i < P.ops.size(); i++) {
    w.opi = (int)i; w.op = &P.ops[i]; w.skipped = false; w.fstarted = false;
    exec_op(w, P.ops[i]);
    if (!w.skipped) { g_ops_done++; S.st.ops++; }
  }
  w.opi = -1; w.op = &none;
  for (int i = 0; i < NSLOT; i++) forget(w, w.s[i]);
  for (auto &c : w.comms) MPI_Comm_free(&c);
  lib(w, "shutdown", 0, [&] { bml_shutdown(); });
  if (++g_ranks_finished == S.cfg.nranks) { g_rank_op[r] = "shutdown:-"; mpi_check_quiescent("at the end of the run"); }
  leak_check(w);
}

RunResult run_plan(const Plan &p, const Sched *sched) {
  g_plan = &p; S.cfg = p.cfg; S.replay = sched != nullptr; S.in = sched ? *sched : Sched();
  S.step_limit = 30000000; if (p.N > 34) S.step_limit = (uint64_t)(30000000.0 * (p.N / 34.0) * (p.N / 34.0) * (p.N / 34.0));
  g_obs = 1469598103u; g_obs_trace.clear(); g_sent.clear(); g_scalars.clear(); g_calls.assign(1, ""); g_ops_done = 0; g_ranks_finished = 0;
  g_allocs.assign(p.cfg.nranks, std::vector<uint32_t>(p.ops.size(), 0));
  g_ellblock_mb = p.bsz.empty() ? 0 : p.mb;
  for (int r = 0; r < MAX_RANKS; r++) { g_fort[r] = false; g_rank_op[r].clear(); g_worlds[r] = World(); World &w = g_worlds[r]; w.rank = w.lrank = r; w.P = &p; w.p = p.dist ? isqrt_(p.cfg.nranks) : 1; }
  sim_srand((unsigned)p.seed);
  sim_run(rank_main);
  RunResult R; R.v = S.viol; R.hash = S.hash; R.schedhash = S.schedhash; R.obs = g_obs; R.sched = S.out; R.ended_fatal = S.ended_fatal; R.steps = S.total_steps; R.ops_done = g_ops_done; R.allocs = g_allocs;
  R.trace.swap(g_obs_trace); R.fatal = S.fatal_msg;
  for (auto &f : g_disk[0].files) R.disk_bytes = std::max(R.disk_bytes, f.second.data.size());
  return R;
}

// ------------------------------------------------------------------ which violations speak about which property
typedef std::set<std::string> SS;
static std::string base_call(const std::string &op) { std::string s = op; if (s.compare(0, 8, "observe/") == 0) s = s.substr(8); size_t c = s.find(':'); return s.substr(0, c); }
static const SS &calls_of(const std::string &prop) {
  static const std::map<std::string, SS> m = {
    {"C02", {"add", "add_norm", "add_identity", "scale_add_identity", "scale_new", "scale", "scale_inplace"}},
    {"C03", {"multiply", "multiply_x2", "multiply_AB", "multiply_adjust_AB", "element_multiply_AB"}},
    {"C04", {"transpose", "transpose_new", "transpose_triangle", "adjungate_triangle"}},
    {"C05", {"trace", "trace_mult", "fnorm", "fnorm2", "sum_squares", "sum_squares2", "sum_squares_submatrix", "sum_AB", "accumulate_offdiag", "gershgorin", "gershgorin_partial", "get_bandwidth", "get_row_bandwidth", "get_sparsity"}},
    {"C06", {"set_element", "set_element_new", "set_row", "set_diagonal", "get_element", "get_row", "get_diagonal", "get_element_typed", "clear", "noinit_matrix", "block_matrix", "zero_matrix", "identity_matrix", "random_matrix", "banded_matrix"}},
    {"C07", {"import_from_dense", "export_to_dense", "copy_new", "copy", "reorder", "convert", "introspection", "distribution_mode", "deallocate", "print_bml_matrix", "print_dense_matrix", "print_dense_vector"}},
    {"C08", {"threshold", "threshold_new"}},
    {"C09", {"extract_submatrix", "assign_submatrix", "matrix2submatrix", "submatrix2matrix", "matrix2submatrix_index", "matrix2submatrix_index_graph", "adjacency", "adjacency_group", "group_matrix"}},
    {"C10", {"diagonalize", "inverse", "normalize"}},
    {"C14", {"write_bml_matrix", "read_bml_matrix"}},
    {"C15", {"write_bml_matrix", "read_bml_matrix"}},
    {"C16", {"mpi_send", "mpi_recv", "mpi_recv_matrix", "mpi_irecv", "mpi_irecv_complete", "mpi_bcast_matrix"}},
    {"C19", {"sumRealReduce", "minRealReduce", "maxRealReduce", "save_domain", "restore_domain", "update_domain", "allGatherVParallel", "rank_queries", "init", "shutdown", "barrierParallel", "default_domain", "copy_domain", "deallocate_domain"}},
  };
  static const SS none; auto it = m.find(prop); return it == m.end() ? none : it->second;
}
static const SS MEMCLS = {"out-of-bounds", "use-after-free", "double-free", "bad-free", "crash", "overlap", "overflow"};
bool counts_for(const std::string &prop, const Violation &v) {
  if (!v.set || v.cls == "internal" || v.cls == "escape") return v.set && v.cls == "escape";
  const std::string &c = v.cls; std::string b = base_call(v.op); bool inval = b.compare(0, 8, "invalid/") == 0;
  if (prop == "C21") return c == "mutated" || (inval && c != "race" && c != "leak");
  if (prop == "C22" && inval) return c != "race" && c != "leak" && c != "garbage" && c != "schedule" && c != "mpi-leftover";
  if (inval) return false;
  if (prop == "C01") return c == "race" || c == "deadlock" || c == "sync" || c == "hang" || c == "schedule";
  if (prop == "C11") return MEMCLS.count(c) || c == "garbage";
  if (prop == "C12") return c == "leak";
  if (prop == "C13") return c.compare(0, 6, "setup-") && c != "race" && c != "leak" && c != "garbage" && c != "schedule";
  if (prop == "C17") return c != "race" && c != "leak" && c != "garbage" && c != "schedule" && c != "mpi-leftover";
  if (prop == "C18") return c == "deadlock" || c == "hang" || c.compare(0, 4, "mpi-") == 0;
  if (prop == "C22") return c != "race" && c != "garbage" && c != "schedule" && c != "mpi-leftover";
  if (prop == "C20") return c == "unreported" || c == "result" || c == "mutated" || c == "hang" || MEMCLS.count(c);
  if (c == "race" || c == "leak" || c == "garbage" || c == "schedule") return false;
  const SS &s = calls_of(prop);
  if (prop == "C07" && v.op.compare(0, 8, "observe/") == 0 && c != "mutated" && !s.count(b)) return false;
  return s.count(b) > 0;
}
std::string viol_key(const Violation &v) { return v.cls + "|" + v.op + "|" + v.where; }

// ------------------------------------------------------------------ judgement
static Violation make_viol(const RunResult &r, const char *cls, const std::string &msg, const std::string &op) { Violation v = r.v; v.set = true; v.cls = cls; v.msg = msg; v.op = op; return v; }
static std::string first_diff(const RunResult &a, const RunResult &b) {
  size_t n = std::min(a.trace.size(), b.trace.size());
  for (size_t i = 0; i < n; i++) if (a.trace[i] != b.trace[i]) return a.trace[i].first;
  return a.trace.size() > n ? a.trace[n].first : b.trace.size() > n ? b.trace[n].first : "";
}
static bool functional(const std::string &p) { return (p >= "C02" && p <= "C10") || p == "C14" || p == "C16" || p == "C17" || p == "C19" || p == "C20"; }
static uint64_t g_follow_runs;
uint64_t follow_runs() { return g_follow_runs; }

RunResult judge_plan(Plan &p, const Sched *sched, bool fixed) {
  const std::string &P = p.prop;
  if (P == "C13" && !fixed) {
    p.fault = Fault(); RunResult r = run_plan(p, nullptr);
    if (r.v.set || r.ended_fatal) { return r.v.set ? (r.v.cls = "setup-" + r.v.cls, r) : r; }
    // choose a call and an allocation of that call
    Rng q(p.seed * 1315423911u + 17); std::vector<std::pair<int,int>> c; std::vector<std::pair<int,int>> rare;
    for (int k = 0; k < (int)r.allocs.size(); k++) for (int i = 0; i < (int)r.allocs[k].size(); i++) if (r.allocs[k][i]) { c.push_back({k, i}); if (p.ops[i].kind != K_CREATE) rare.push_back({k, i}); }
    if (c.empty()) return r;
    auto &from = !rare.empty() && q.chance(0.85) ? rare : c; auto s = from[q.below(from.size())];
    p.fault.kind = 1; p.fault.rank = s.first; p.fault.op = s.second; p.fault.at = q.below(r.allocs[s.first][s.second]); p.fault.sub = q.chance(0.2);
    g_follow_runs++; return run_plan(p, &r.sched);
  }
  if (P == "C13" || P == "C12" || P == "C18" || P == "C21" || P == "C22") return run_plan(p, sched);
  if (P == "C15") {
    if (!fixed && p.fault.kind == 2 && p.fault.at == ~0ull) {
      Fault f = p.fault; p.fault = Fault(); RunResult r = run_plan(p, nullptr); p.fault = f;
      if (r.v.set) { r.v.cls = "setup-" + r.v.cls; if (p.ops[f.op].kind != K_READ_BAD) return r; }
      Rng q(p.seed * 97 + 3); p.fault.at = f.sub == IoFault::WRITE_ERR || f.sub == IoFault::READ_ERR ? q.below(q.chance(0.5) ? 2 : 12) : q.below((uint32_t)std::max<size_t>(1, r.disk_bytes + 2)); g_follow_runs++;
    }
    return run_plan(p, sched);
  }
  RunResult r = run_plan(p, sched);
  if (P == "C01") {
    if (r.v.set && !counts_for(P, r.v) && p.cfg.team > 1 && r.v.cls != "leak") {
      Plan q = p; q.cfg.team = 1; q.cfg.shrink = 0; q.cfg.policy = 0; g_follow_runs++; RunResult r2 = run_plan(q, nullptr);
      if (!r2.v.set && !r2.ended_fatal) r.v.cls = "schedule";
    }
    return r;
  }
  if (P == "C11") {
    if (r.v.set && MEMCLS.count(r.v.cls)) return r;
    if (r.ended_fatal) return r;
    Plan q = p; q.cfg.fill = r.v.set ? 0 : (p.cfg.fill + 1 + (int)(p.seed % 6)) % 7; q.cfg.norace = 1; if (q.cfg.fill == p.cfg.fill) q.cfg.fill = (q.cfg.fill + 1) % 7; g_follow_runs++;
    RunResult r2 = run_plan(q, &r.sched);
    if (r.v.set) { if (r.v.cls == "race" || r.v.cls == "leak") return r; if (p.cfg.fill != 0 && (!r2.v.set || r2.v.cls != r.v.cls || r2.v.op != r.v.op || r2.v.msg != r.v.msg)) { std::string o = r.v.op; r.v = make_viol(r, "garbage", "the outcome depends on the contents of uninitialised memory: " + r.v.msg, o); } return r; }
    if (r2.v.set && r2.v.cls == "race") return r;
    if (r2.v.set && MEMCLS.count(r2.v.cls)) { p = q; r2.sched = r.sched; return r2; }
    if (r2.v.set) { std::string o = r2.v.op; r.v = make_viol(r2, "garbage", "the outcome depends on the contents of uninitialised memory: " + r2.v.msg, o); return r; }
    if (r2.obs != r.obs) { std::string o = first_diff(r, r2); r.v = make_viol(r, "garbage", "a result differs between two executions that differ only in the contents of uninitialised memory", o); }
    return r;
  }
  if (functional(P) && r.v.set && r.v.cls == "race" && !p.cfg.norace && !fixed) {
    // a race by itself is not a wrong result: look for a schedule in which it becomes one
    Rng q(p.seed ^ 0xABCDEF);
    for (int i = 0; i < 60; i++) {
      Plan t = p; t.cfg.norace = 1; t.cfg.sched_seed = q.next() | 1; t.cfg.policy = i % 3 == 2 ? 5 : 3; static const double pm[] = {1, 2, 3, 5, 8, 15, 30, 60}; t.cfg.preempt_mean = pm[q.below(8)]; t.cfg.shrink = 0; if (t.cfg.team < 2) t.cfg.team = 2;
      g_follow_runs++; RunResult r2 = run_plan(t, nullptr);
      if (r2.v.set && counts_for(P, r2.v)) { p = t; return r2; }
    }
  }
  return r;
}

// ------------------------------------------------------------------ generation
static const int fmts[] = {DENSE, ELLPACK, ELLBLOCK, CSR};
static double pick_coef(Rng &r) { static const double c[] = {1, -1, 0.5, 2, 0, -0.25, 1.5, 1, 1}; return r.chance(0.85) ? c[r.below(9)] : r.unit() * 4 - 2; }
static double pick_thr(Rng &r, double p) { static const double c[] = {1e-12, 1e-3, 0.25, 0.5, 1, 2}; return r.chance(p) ? c[r.below(6)] : 0; }
static Op mk(Rng &r, int kind, double pthr) {
  Op o; o.kind = kind; o.a = r.below(4); o.b = r.below(NSLOT); o.c = r.below(NSLOT); for (int i = 0; i < 6; i++) o.p[i] = r.below(i == 1 ? 2000 : 1000); if (kind == K_CONVERT && r.chance(0.7)) o.p[1] %= 1000;
  o.x = pick_coef(r); o.y = pick_coef(r); o.t = pick_thr(r, pthr); o.seed = r.next() >> 20; return o;
}
static const std::vector<int> CTX = {K_CREATE, K_CREATE, K_CREATE, K_IDENT, K_ZERO, K_SET_ELEM, K_SET_ROW, K_SET_DIAG, K_TRANSPOSE, K_ADD, K_MULT_AB, K_COPY_NEW, K_CLEAR, K_SCALE_INPLACE, K_ADD_IDENT, K_CONVERT, K_IMPORT, K_THRESH, K_FREE};
static const std::vector<int> ALLOPS = {K_BLOCKED, K_CREATE, K_ZERO, K_IDENT, K_RANDOM, K_BANDED, K_CLEAR, K_ADD, K_ADD_NORM, K_ADD_IDENT, K_SCALE_ADD_IDENT, K_SCALE_NEW, K_SCALE, K_SCALE_INPLACE, K_MULT, K_MULT, K_MULT_X2, K_MULT_AB, K_MULT_ADJ_AB, K_ELEM_MULT, K_TRANSPOSE, K_TRANSPOSE_NEW, K_TRANSPOSE_TRI, K_ADJUNGATE, K_TRACE, K_TRACE_MULT, K_FNORM, K_FNORM2, K_SUMSQ, K_SUMSQ2, K_SUMSQ_SUB, K_SUM_AB, K_OFFDIAG, K_GERSH, K_GERSH_PART, K_BANDWIDTH, K_ROW_BANDWIDTH, K_SPARSITY, K_SET_ELEM, K_SET_ELEM_NEW, K_SET_ROW, K_SET_DIAG, K_GET_ELEM, K_GET_ROW, K_GET_DIAG, K_ELEMENTAL, K_IMPORT, K_EXPORT, K_COPY_NEW, K_COPY, K_REORDER, K_CONVERT, K_INTROSPECT, K_THRESH, K_THRESH_NEW, K_EXTRACT, K_ASSIGN, K_M2S, K_S2M, K_M2S_INDEX, K_M2S_INDEX_GRAPH, K_ADJACENCY, K_ADJ_GROUP, K_GROUP, K_DIAG, K_INVERSE, K_NORMALIZE, K_DOMAIN, K_PRINT};
static const std::vector<int> DISTOPS = {K_CREATE, K_ZERO, K_RANDOM, K_IDENT, K_CLEAR, K_ADD, K_ADD_NORM, K_ADD_IDENT, K_SCALE_ADD_IDENT, K_SCALE_NEW, K_SCALE, K_SCALE_INPLACE, K_MULT, K_MULT, K_MULT_X2, K_MULT_AB, K_TRANSPOSE, K_TRANSPOSE_NEW, K_TRACE, K_TRACE_MULT, K_FNORM, K_FNORM2, K_SUMSQ, K_SUMSQ2, K_SUM_AB, K_GERSH, K_SPARSITY, K_SET_ROW, K_SET_DIAG, K_GET_ROW, K_GET_DIAG, K_IMPORT, K_EXPORT, K_COPY_NEW, K_COPY, K_CONVERT, K_INTROSPECT, K_THRESH, K_THRESH_NEW, K_DIAG, K_NORMALIZE, K_PRINT};
static const std::vector<int> COMMCTX = {K_CREATE, K_CREATE, K_IDENT, K_ZERO, K_SET_ELEM, K_SET_ROW, K_SET_DIAG, K_TRANSPOSE, K_ADD, K_COPY_NEW, K_CLEAR, K_SCALE_INPLACE, K_ADD_IDENT, K_THRESH, K_MULT_AB};
static const std::vector<int> COMMOPS = {K_SENDRECV, K_SENDRECV, K_SENDRECV, K_BCAST, K_BCAST, K_FANIN, K_RING};
static const std::vector<int> RANKOPS = {K_REDUCE, K_REDUCE, K_ALLGATHER, K_ALLGATHER, K_ALLGATHER, K_RANKS, K_BARRIER, K_RESTART, K_DOMAIN};
static std::vector<int> targets(const std::string &p) {
  if (p == "C02") return {K_ADD, K_ADD, K_ADD_NORM, K_ADD_IDENT, K_SCALE_ADD_IDENT, K_SCALE_NEW, K_SCALE, K_SCALE_INPLACE, K_BLOCKED};
  if (p == "C03") return {K_MULT, K_MULT, K_MULT, K_MULT_X2, K_MULT_X2, K_MULT_AB, K_MULT_ADJ_AB, K_ELEM_MULT, K_BLOCKED};
  if (p == "C04") return {K_TRANSPOSE, K_TRANSPOSE, K_TRANSPOSE_NEW, K_TRANSPOSE_NEW, K_TRANSPOSE_TRI, K_ADJUNGATE, K_BLOCKED};
  if (p == "C05") return {K_TRACE, K_TRACE_MULT, K_FNORM, K_FNORM2, K_SUMSQ, K_SUMSQ2, K_SUMSQ_SUB, K_SUM_AB, K_OFFDIAG, K_GERSH, K_GERSH_PART, K_BANDWIDTH, K_ROW_BANDWIDTH, K_SPARSITY};
  if (p == "C06") return {K_SET_ELEM, K_SET_ELEM, K_SET_ELEM_NEW, K_SET_ROW, K_SET_ROW, K_SET_DIAG, K_GET_ELEM, K_GET_ROW, K_GET_DIAG, K_ELEMENTAL, K_CLEAR, K_ZERO, K_IDENT, K_RANDOM, K_BANDED, K_BLOCKED};
  if (p == "C07") return {K_IMPORT, K_IMPORT, K_EXPORT, K_COPY_NEW, K_COPY, K_REORDER, K_CONVERT, K_CONVERT, K_INTROSPECT, K_FREE, K_PRINT, K_BLOCKED};
  if (p == "C08") return {K_THRESH, K_THRESH_NEW};
  if (p == "C09") return {K_EXTRACT, K_ASSIGN, K_M2S, K_S2M, K_M2S_INDEX, K_M2S_INDEX_GRAPH, K_ADJACENCY, K_ADJ_GROUP, K_GROUP, K_BLOCKED};
  if (p == "C10") return {K_DIAG, K_DIAG, K_INVERSE, K_INVERSE, K_NORMALIZE};
  return ALLOPS;
}
static void team_cfg(Rng &r, RunConfig &c, bool want) {
  c.team = want ? r.range(2, 8) : r.range(1, 6); if (r.chance(0.04)) c.team = r.range(9, 12); c.policy = r.below(6); static const double pm[] = {1, 2, 4, 8, 20, 60, 200, 1000}; c.preempt_mean = pm[r.below(8)]; c.shrink = r.chance(0.35) ? 0.3 : 0;
}
Plan make_plan(const std::string &prop, uint64_t seed) {
  Plan p; p.prop = prop; p.seed = seed; Rng r(seed * 0x9E3779B97F4A7C15ull + std::hash<std::string>()(prop) % 1 + (prop[1] * 100 + prop[2]));
  RunConfig &c = p.cfg; c.sched_seed = r.next() >> 8; c.data_seed = r.next() >> 8; c.fill = r.below(7); c.send_mode = r.below(3); c.rank_policy = r.below(7); c.iobuf = r.chance(0.4) ? r.range(1, 200) : 0;
  c.intblas = r.chance(0.15);
  team_cfg(r, c, prop == "C01"); c.variant = g_variant;
  p.fmt = fmts[r.below(4)]; if (!g_variant.empty() && r.chance(0.6)) p.fmt = ELLBLOCK; p.prec = 1 + r.below(4); p.dkind = r.below(7);
  if (prop == "C08") p.dkind = r.chance(0.5) ? 5 : r.below(7);
  if (prop == "C10") { if (r.chance(0.5)) p.dkind = r.chance(0.5) ? 1 : 0; }
  if (prop == "C09" && r.chance(0.6)) p.fmt = ELLPACK;
  // sizes
  double sz = r.unit(); p.N = sz < 0.6 ? r.range(2, 9) : sz < 0.93 ? r.range(4, 18) : sz < 0.96 ? 1 : r.range(19, 34);
  static const bool big = getenv("BMLSIM_BIG") != nullptr;   // for trying out the rare sizes
  { double u = r.unit(); if (big) u *= 0.01; if (u < 0.006) p.N = r.range(35, 70); else if (u < 0.008) p.N = r.range(65, 150); if (prop == "C13" || prop == "C11" || prop == "C10") p.N = std::min(p.N, prop == "C10" ? 60 : 70); }
  static const bool huge = getenv("BMLSIM_HUGE") != nullptr; uint64_t hz = seed * 0xD6E8FEB86659FD93ull; hz ^= hz >> 32;
  bool hg = huge || hz % (prop == "C03" || prop == "C14" || prop == "C09" ? 6000 : 2500) == 0; if (prop == "C10" || prop == "C11" || prop == "C13" || prop == "C15" || prop == "C21" || prop == "C22") hg = false;
  if (hg) p.N = 257 + (int)((hz >> 20) % 30);   // beyond a byte
  p.M = p.N;
  // which kind of system
  int mode = 0; // 0 one rank, 1 ranks exchanging sequential matrices, 2 distributed matrix
  if (prop == "C16" || prop == "C19") mode = 1;
  else if (prop == "C17") mode = 2;
  else if (prop == "C18") mode = r.chance(0.55) ? 2 : 1;
  else if (prop == "C11" || prop == "C12" || prop == "C13") { double u = r.unit(); mode = u < 0.7 ? 0 : u < 0.85 ? 1 : 2; }
  else if (prop == "C21") { double u = r.unit(); mode = u < 0.8 ? 0 : u < 0.9 ? 1 : 2; }
  else if (prop == "C22") { double u = r.unit(); mode = u < 0.75 ? 0 : u < 0.87 ? 1 : 2; }
  else if (prop == "C14" || prop == "C15") mode = r.chance(0.12) ? 2 : 0;
  if (mode == 1) { static const int nq[] = {1, 4, 4, 4, 4, 4, 9, 9, 16}; c.nranks = nq[r.below(9)]; /* the library accepts square process counts only */ if (p.N > 34) p.N = r.range(15, 60); else if (p.N > 14) p.N = r.range(2, 14); p.M = p.N; c.team = r.chance(0.7) ? 1 : r.range(2, r.chance(0.2) ? 8 : 4); }
  if (mode == 2) { p.dist = 1; static const int nr[] = {1, 4, 4, 4, 4, 9, 9, 16}; c.nranks = nr[r.below(8)]; int g = isqrt_(c.nranks); p.N = p.N > 34 ? g * r.range(4, g >= 3 ? 9 : 24) : g * r.range(1, g >= 3 ? 3 : 6); p.M = p.N; c.team = r.chance(0.7) ? 1 : r.range(2, r.chance(0.2) ? 8 : 4); if (prop == "C13" || prop == "C12") if (r.chance(0.5)) { c.nranks = 4; p.N = 2 * r.range(1, 5); p.M = p.N; } }
  double pthr = prop == "C08" ? 0.9 : 0.3;
  if (mode == 0) {
    if (prop == "C20") { p.capmode = 2; if (p.fmt == DENSE || p.fmt == CSR) p.fmt = r.chance(0.75) ? ELLPACK : ELLBLOCK; if (p.N < 3) p.N = 3 + r.below(6); p.M = r.range(1, p.N); if (r.chance(0.6) && p.M > 3) p.M = 1 + r.below(3); }
  }
  if (mode <= 1) {
    if (p.capmode != 2 && p.fmt == ELLPACK && r.chance(0.3)) { p.capmode = 1; p.M = r.range(std::max(1, p.N / 3), p.N); }
    static const bool wide = getenv("BMLSIM_WIDE") != nullptr;
    if (!p.capmode && (p.fmt == ELLPACK || p.fmt == CSR) && (r.chance(0.04) || wide)) p.M = p.N + r.range(1, 6);   // more room per row than columns
    // csr rows grow on demand beyond the estimate they were created with
    if (p.fmt == CSR && p.M == p.N && r.chance(0.5)) { if (!mode && r.chance(0.6)) p.N = r.range(10, 22); p.M = r.range(1, p.N); }
    // up to four blocks of the default size per row are always held, whatever width is asked for
    if (p.fmt == ELLBLOCK && !p.capmode && p.N <= 16 && r.chance(0.3)) p.M = r.range(1, p.N);
    else if (p.fmt == ELLBLOCK && (r.chance(0.5) || p.capmode)) {
      int left = p.N, bmax = r.chance(0.4) ? 10 : 5; while (left > 0) { int b = std::min(left, r.range(1, bmax)); p.bsz.push_back(b); left -= b; }
      int nb = (int)p.bsz.size(); p.mb = nb; if (p.capmode == 2) { p.mb = r.range(1, std::max(1, nb - 1)); } else if (r.chance(0.25)) { p.capmode = 1; p.mb = r.range(1, nb); }
      p.M = p.N;
    }
  }
  if (prop == "C21" && mode == 1 && r.chance(0.05)) { static const int bad[] = {2, 3, 5, 6, 7, 8, 10, 15}; c.nranks = bad[r.below(8)]; }
  p.fort = prop == "C22" || (prop == "C13" && r.chance(0.15));
  int nops = r.range(3, prop == "C13" ? 7 : 12);
  if (p.N > 18 || c.nranks > 5) nops = r.range(3, 6);
  if (p.N > 34) nops = r.range(2, 5);
  if (p.N > 200) nops = 2;
  else if (p.N <= 9 && c.nranks <= 4 && prop != "C13" && prop != "C15" && r.chance(0.02)) nops = r.range(20, 60);   // a long history
  auto add = [&](int k) { if (p.N > 200 && (k == K_INVERSE || k == K_DIAG)) k = K_COPY;   /* LAPACK wants more stack there */ p.ops.push_back(mk(r, k, pthr)); };
  auto pickv = [&](const std::vector<int> &v) { return v[r.below((uint32_t)v.size())]; };
  add(K_CREATE); if (r.chance(0.6)) add(K_CREATE);
  if (mode == 0) {
    auto T = targets(prop);
    if (prop == "C14") T = {K_WRITE_READ, K_WRITE_READ, K_WRITE};
    if (prop == "C15") T = {K_WRITE_READ};
    if (prop == "C12" || prop == "C13" || prop == "C11" || prop == "C22") { T = ALLOPS; T.push_back(K_WRITE_READ); T.push_back(K_WRITE_READ); T.push_back(K_WRITE); }
    if (prop == "C22") { T.push_back(K_INVALID); T.push_back(K_INVALID); }
    if (prop == "C21") { T = ALLOPS; for (int i = 0; i < 12; i++) T.push_back(K_INVALID); T.push_back(K_WRITE_READ); }
    if (prop == "C20") T = {K_ADD, K_ADD_IDENT, K_SCALE_ADD_IDENT, K_ADD_NORM, K_SET_ELEM, K_SET_ELEM_NEW, K_SET_ROW, K_SET_DIAG, K_TRANSPOSE, K_TRANSPOSE_NEW, K_ADJUNGATE, K_IMPORT, K_CONVERT, K_MULT, K_MULT_AB, K_MULT_X2, K_ELEM_MULT, K_ASSIGN, K_EXTRACT, K_S2M, K_NORMALIZE, K_READ, K_WRITE_READ, K_IMPORT, K_SET_ELEM, K_SET_ROW};
    double tp = prop == "C14" || prop == "C15" ? 0.4 : prop == "C01" || prop == "C11" || prop == "C12" || prop == "C13" || prop == "C21" || prop == "C22" ? 0.9 : 0.65;
    static const std::vector<int> EXACTCTX = {K_CREATE, K_CREATE, K_CREATE, K_IDENT, K_SET_ELEM, K_SET_ROW, K_SET_DIAG, K_TRANSPOSE, K_COPY_NEW, K_CLEAR, K_THRESH, K_ADD, K_CONVERT, K_ZERO};
    const auto &X = prop == "C14" || prop == "C15" ? EXACTCTX : CTX;
    for (int i = 0; i < nops; i++) add(r.chance(tp) ? pickv(T) : pickv(X));
    if (prop == "C14") add(K_WRITE_READ);
    if (prop == "C15") {
      p.ops.resize(std::min<size_t>(p.ops.size(), 5));
      if (r.chance(0.5)) { add(K_READ_BAD); }
      else { add(r.chance(0.7) ? K_WRITE_READ : K_READ); p.fault.kind = 2; p.fault.op = (int)p.ops.size() - 1; p.fault.rank = 0; p.fault.at = ~0ull; static const int k[] = {IoFault::OPEN_FAIL, IoFault::WRITE_ERR, IoFault::ENOSPC_AT, IoFault::ENOSPC_AT, IoFault::ENOSPC_AT, IoFault::CLOSE_ERR, IoFault::CRASH_AT, IoFault::CRASH_AT, IoFault::READ_ERR, IoFault::SHORT_READS}; p.fault.sub = k[r.below(10)]; }
    }
  } else if (mode == 1) {
    std::vector<int> T = prop == "C19" ? RANKOPS : prop == "C16" ? COMMOPS : COMMOPS;
    if (prop != "C19" && prop != "C16") { T.insert(T.end(), RANKOPS.begin(), RANKOPS.end()); }
    for (int i = 0; i < nops; i++) add(r.chance(0.7) ? pickv(T) : pickv(COMMCTX));
  } else {
    std::vector<int> T = DISTOPS; if (prop == "C18" || prop == "C12" || prop == "C11" || prop == "C22") { T.push_back(K_REDUCE); T.push_back(K_WRITE_READ); }
    if (prop == "C21") for (int i = 0; i < 12; i++) T.push_back(K_INVALID);
    if (prop == "C14") T = {K_WRITE_READ, K_CREATE, K_TRANSPOSE, K_IDENT};
    if (prop == "C15") T = {K_CREATE, K_IDENT};
    for (int i = 0; i < nops; i++) add(pickv(T));
    if (prop == "C14") add(K_WRITE_READ);
    if (prop == "C15") { p.ops.resize(std::min<size_t>(p.ops.size(), 3)); if (r.chance(0.5)) add(K_READ_BAD); else { add(K_WRITE_READ); p.fault.kind = 2; p.fault.op = (int)p.ops.size() - 1; p.fault.at = ~0ull; static const int k[] = {IoFault::OPEN_FAIL, IoFault::WRITE_ERR, IoFault::ENOSPC_AT, IoFault::CLOSE_ERR, IoFault::CRASH_AT, IoFault::READ_ERR, IoFault::SHORT_READS}; p.fault.sub = k[r.below(7)]; } }
  }
  return p;
}

// ------------------------------------------------------------------ text form
std::string plan_text(const Plan &p, const Sched *s) {
  std::string o; char b[1024]; const RunConfig &c = p.cfg;
  snprintf(b, sizeof b, "property %s\nseed %llu\n", p.prop.c_str(), (unsigned long long)p.seed); o += b;
  snprintf(b, sizeof b, "cfg nranks=%d team=%d shrink=%a policy=%d preempt=%a rankpolicy=%d sendmode=%d fill=%d norace=%d iobuf=%d sched=%llu data=%llu\n", c.nranks, c.team, c.shrink, c.policy, c.preempt_mean, c.rank_policy, c.send_mode, c.fill, c.norace, c.iobuf, (unsigned long long)c.sched_seed, (unsigned long long)c.data_seed); o += b;
  snprintf(b, sizeof b, "mat fmt=%d prec=%d N=%d M=%d dist=%d dkind=%d capmode=%d mb=%d\n", p.fmt, p.prec, p.N, p.M, p.dist, p.dkind, p.capmode, p.mb); o += b;
  if (c.intblas) o += "intblas " + std::to_string(c.intblas) + "\n";
  if (!c.variant.empty()) o += "variant " + c.variant + "\n";
  if (p.fort) o += "fortran " + std::to_string(p.fort) + "\n";
  o += "bsz"; for (int x : p.bsz) o += " " + std::to_string(x); o += "\n";
  snprintf(b, sizeof b, "fault kind=%d op=%d rank=%d at=%llu sub=%d\n", p.fault.kind, p.fault.op, p.fault.rank, (unsigned long long)p.fault.at, p.fault.sub); o += b;
  for (auto &q : p.ops) { snprintf(b, sizeof b, "op %s %d %d %d  %d %d %d %d %d %d  %a %a %a %llu\n", op_name(q.kind), q.a, q.b, q.c, q.p[0], q.p[1], q.p[2], q.p[3], q.p[4], q.p[5], q.x, q.y, q.t, (unsigned long long)q.seed); o += b; }
  if (s) { auto w = [&](const char *n, const std::vector<std::pair<uint64_t,int>> &v) { for (auto &e : v) { snprintf(b, sizeof b, "%s %llu %d\n", n, (unsigned long long)e.first, e.second); o += b; } }; o += "schedule\n"; w("preempt", s->preempt); w("block", s->block); w("rank", s->rank); w("misc", s->misc); }
  o += "end\n"; return o;
}
bool plan_parse(const std::string &t, Plan &p, Sched &s) {
  p = Plan(); s = Sched(); size_t pos = 0; bool have = false; char w[64];
  while (pos < t.size()) {
    size_t e = t.find('\n', pos); if (e == std::string::npos) e = t.size(); std::string l = t.substr(pos, e - pos); pos = e + 1; const char *c = l.c_str(); unsigned long long a, b2; int v;
    if (sscanf(c, "property %63s", w) == 1) p.prop = w;
    else if (sscanf(c, "seed %llu", &a) == 1) p.seed = a;
    else if (l.compare(0, 4, "cfg ") == 0) { auto &k = p.cfg; if (sscanf(c, "cfg nranks=%d team=%d shrink=%la policy=%d preempt=%la rankpolicy=%d sendmode=%d fill=%d norace=%d iobuf=%d sched=%llu data=%llu", &k.nranks, &k.team, &k.shrink, &k.policy, &k.preempt_mean, &k.rank_policy, &k.send_mode, &k.fill, &k.norace, &k.iobuf, &a, &b2) != 12) return false; k.sched_seed = a; k.data_seed = b2; }
    else if (l.compare(0, 4, "mat ") == 0) { if (sscanf(c, "mat fmt=%d prec=%d N=%d M=%d dist=%d dkind=%d capmode=%d mb=%d", &p.fmt, &p.prec, &p.N, &p.M, &p.dist, &p.dkind, &p.capmode, &p.mb) != 8) return false; }
    else if (sscanf(c, "fortran %d", &v) == 1) p.fort = v;
    else if (sscanf(c, "variant %63s", w) == 1) p.cfg.variant = w;
    else if (sscanf(c, "intblas %d", &v) == 1) p.cfg.intblas = v;
    else if (l.compare(0, 3, "bsz") == 0) { const char *q = c + 3; int n; while (sscanf(q, "%d%n", &v, &n) == 1) { p.bsz.push_back(v); q += n; } }
    else if (l.compare(0, 6, "fault ") == 0) { if (sscanf(c, "fault kind=%d op=%d rank=%d at=%llu sub=%d", &p.fault.kind, &p.fault.op, &p.fault.rank, &a, &p.fault.sub) != 5) return false; p.fault.at = a; }
    else if (l.compare(0, 3, "op ") == 0) { Op q; if (sscanf(c, "op %63s %d %d %d %d %d %d %d %d %d %la %la %la %llu", w, &q.a, &q.b, &q.c, &q.p[0], &q.p[1], &q.p[2], &q.p[3], &q.p[4], &q.p[5], &q.x, &q.y, &q.t, &a) != 14) return false; q.kind = op_by_name(w); q.seed = a; if (q.kind < 0) return false; p.ops.push_back(q); }
    else if (l == "schedule") have = true;
    else if (sscanf(c, "preempt %llu %d", &a, &v) == 2) s.preempt.push_back({a, v});
    else if (sscanf(c, "block %llu %d", &a, &v) == 2) s.block.push_back({a, v});
    else if (sscanf(c, "rank %llu %d", &a, &v) == 2) s.rank.push_back({a, v});
    else if (sscanf(c, "misc %llu %d", &a, &v) == 2) s.misc.push_back({a, v});
    else if (l == "end") return have && !p.ops.empty();
  }
  return false;
}
