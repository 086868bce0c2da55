// Simulated message passing: ranks are fibers of one process; delivery order and buffering are the scheduler's choice.
#include "sim.h"
#include "mpi.h"
#include "layout.h"
#include <cstdlib>
#include <complex>
#include <memory>
#include <algorithm>
#include <deque>
#include <set>

void sim_set_fault_pc(void *pc);
#define PC sim_set_fault_pc(__builtin_return_address(0))
bool g_mpi_guard = false;

struct CommS { bool valid = false; std::vector<int> m; bool cart = false; int dims[2] = {0, 0}, per[2] = {0, 0}; int nd = 0; std::vector<char> freed; std::map<int,uint64_t> seq; };
static std::vector<CommS> comms;
struct TypeS { bool valid = false; struct E { long disp; int base; int n; }; std::vector<E> e; long size = 0, extent = 0; bool committed = false; int rank = -1; };
static std::vector<TypeS> types[MAX_RANKS];
static const int base_size[] = {0, 1, 1, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 8, 16, 8, 12, 8, 8};
static const int NBASE = 18, TYPE0 = 100;

typedef std::vector<std::pair<int,int>> Sig; // (base, n) runs
struct Req { bool active = false, send = false, done = false, persistent = false; int rank = 0; void *buf = nullptr; int count = 0; MPI_Datatype dt = 0; int src = 0, tag = 0, comm = 0; MPI_Status st{}; std::string snap; int msg = -1; uint64_t order = 0; std::vector<std::pair<uintptr_t,size_t>> ranges; };
static std::vector<Req> reqs;
struct Msg { int src, dst, comm, tag; std::string data; Sig sig; bool arrived = false, matched = false, sync = false; int req = -1; uint64_t seq; };
static std::vector<Msg> msgs;
static std::map<std::pair<std::pair<int,int>,int>, std::deque<int>> chan;  // in flight, FIFO per (src,dst,comm)
static std::vector<int> unexpected[MAX_RANKS];
static std::vector<int> posted[MAX_RANKS];
static uint64_t order_ctr;
struct Coll { int kind = -1; int root = 0; int op = 0; MPI_Datatype base = 0; long cnt = 0; int arrived = 0; std::vector<char> in; std::vector<std::string> data; std::vector<long> lens; bool sync = false; std::vector<std::pair<int,int>> ck; int newcomm = 0; std::vector<int> newcomms; };
static std::map<std::pair<int,uint64_t>, Coll> colls;
static int nranks_;

void mpi_guard_update();
static void guard_update() { bool g = false; for (auto &r : reqs) if (r.active && r.rank == S.cur_rank) g = true; g_mpi_guard = g; }
void mpi_guard_update() { guard_update(); }
void mpi_reset(int n) {
  nranks_ = n; comms.clear(); comms.resize(3); comms[1].valid = true; for (int i = 0; i < n; i++) comms[1].m.push_back(i);
  comms[2].valid = true; for (auto &t : types) t.clear(); reqs.clear(); reqs.resize(1); msgs.clear(); chan.clear(); for (auto &u : unexpected) u.clear(); for (auto &u : posted) u.clear(); order_ctr = 0; colls.clear(); g_mpi_guard = false;
}
static CommS &C(int c) { if (c <= 0 || c >= (int)comms.size() || !comms[c].valid) sim_violate("mpi-misuse", "call on an invalid communicator"); if (c != 2 && !comms[c].freed.empty() && comms[c].freed[S.cur_rank]) sim_violate("mpi-misuse", "call on a released communicator"); return comms[c]; }
static int crank(int c) { if (c == 2) return 0; CommS &k = C(c); for (size_t i = 0; i < k.m.size(); i++) if (k.m[i] == S.cur_rank) return (int)i; sim_violate("mpi-misuse", "calling rank is not in the communicator"); }
static int csize(int c) { return c == 2 ? 1 : (int)C(c).m.size(); }
static int world_of(int c, int r, const char *what) { if (c == 2) { if (r) sim_violate("mpi-misuse", "%s: rank out of range", what); return S.cur_rank; } CommS &k = C(c); if (r < 0 || r >= (int)k.m.size()) sim_violate("mpi-misuse", "%s: rank %d out of range (communicator has %zu)", what, r, k.m.size()); return k.m[r]; }
static bool allow_freed; // a request keeps the datatype it was started with, even when the caller has released it
static TypeS *T(MPI_Datatype d) { if (d < TYPE0) return nullptr; auto &v = types[S.cur_rank]; int i = d - TYPE0; if (i >= (int)v.size() || (!v[i].valid && !allow_freed)) sim_violate("mpi-misuse", "use of an invalid datatype"); return &v[i]; }
static long tsize(MPI_Datatype d) { if (d >= TYPE0) return T(d)->size; if (d <= 0 || d > NBASE) sim_violate("mpi-misuse", "invalid datatype"); return base_size[d]; }
static long text(MPI_Datatype d) { if (d >= TYPE0) return T(d)->extent; return tsize(d); }
static void need(int n, const char *w) { if (n < 0) sim_violate("mpi-misuse", "%s with negative count %d", w, n); }
static std::string pack(const void *buf, int count, MPI_Datatype d, Sig &sig, const char *what) {
  std::string out; need(count, what);
  if (d < TYPE0) { long n = (long)count * tsize(d); if (n) { access_range(buf, n, false, what); out.assign((const char *)buf, n); } if (count) sig.push_back({d, count}); return out; }
  TypeS t = *T(d); if (!t.committed) sim_violate("mpi-misuse", "datatype used before it was committed");
  for (int i = 0; i < count; i++) for (auto &e : t.e) { const char *p = (const char *)buf + i * t.extent + e.disp; long n = (long)e.n * base_size[e.base]; if (n) { access_range(p, n, false, what); out.append(p, n); if (!sig.empty() && sig.back().first == e.base) sig.back().second += e.n; else sig.push_back({e.base, e.n}); } }
  return out;
}
static long recv_cap(int count, MPI_Datatype d) { return (long)count * tsize(d); }
static void unpack(void *buf, int count, MPI_Datatype d, const std::string &data, const char *what) {
  if (d < TYPE0) { if (data.size()) { access_range(buf, data.size(), true, what); memcpy(buf, data.data(), data.size()); } return; }
  TypeS t = *T(d); size_t pos = 0;
  for (int i = 0; i < count && pos < data.size(); i++) for (auto &e : t.e) { char *p = (char *)buf + i * t.extent + e.disp; size_t n = (size_t)e.n * base_size[e.base]; n = std::min(n, data.size() - pos); if (n) { access_range(p, n, true, what); memcpy(p, data.data() + pos, n); pos += n; } }
}
static void rsig(int count, MPI_Datatype d, Sig &s) { if (d < TYPE0) { if (count) s.push_back({d, count}); return; } for (int i = 0; i < count; i++) for (auto &e : T(d)->e) { if (!s.empty() && s.back().first == e.base) s.back().second += e.n; else if (e.n) s.push_back({e.base, e.n}); } }
static bool sig_ok(const Sig &a, const Sig &b) { // a (sent) must be a prefix of b (expected)
  size_t i = 0, j = 0; int ra = a.empty() ? 0 : a[0].second, rb = b.empty() ? 0 : b[0].second;
  while (i < a.size()) { if (j >= b.size()) return false; int x = a[i].first, y = b[j].first; if (x != y && x != MPI_BYTE && y != MPI_BYTE) return false; if (x == MPI_BYTE || y == MPI_BYTE) return true; int m = std::min(ra, rb); ra -= m; rb -= m; if (!ra && ++i < a.size()) ra = a[i].second; if (!rb && ++j < b.size()) rb = b[j].second; }
  return true;
}
static bool match(const Req &r, const Msg &m) { return r.comm == m.comm && (r.src == MPI_ANY_SOURCE || r.src == m.src) && (r.tag == MPI_ANY_TAG || r.tag == m.tag); }
static void complete_recv(int ri, int mi) {
  Req &r = reqs[ri]; Msg &m = msgs[mi]; m.matched = true; r.msg = mi; r.done = true; ev(0x8000 + m.seq);
  if (m.req >= 0) reqs[m.req].done = true;
}
bool mpi_deliverable(std::vector<int> &out) { for (auto &c : chan) if (!c.second.empty()) out.push_back(c.second.front()); return !out.empty(); }
void mpi_deliver(int id) {
  Msg &m = msgs[id]; auto &q = chan[{{m.src, m.dst}, m.comm}]; q.pop_front(); m.arrived = true; ev(0x8100 + m.seq);
  auto &p = posted[m.dst];
  for (size_t i = 0; i < p.size(); i++) if (match(reqs[p[i]], m)) { int ri = p[i]; p.erase(p.begin() + i); complete_recv(ri, id); return; }
  unexpected[m.dst].push_back(id);
}
static void finish_recv(Req &r, const char *what) { // copy data into the user's buffer, in the receiving rank's context
  if (r.src == MPI_PROC_NULL) return;
  struct Keep { Keep() { allow_freed = true; } ~Keep() { allow_freed = false; } } keep;
  Msg &m = msgs[r.msg];
  if ((long)m.data.size() > recv_cap(r.count, r.dt)) sim_violate("mpi-truncate", "message of %zu bytes received into a buffer of %ld bytes", m.data.size(), recv_cap(r.count, r.dt));
  Sig s; rsig(r.count, r.dt, s); if (!sig_ok(m.sig, s)) sim_violate("mpi-type", "datatype of the message differs from the datatype of the receive");
  unpack(r.buf, r.count, r.dt, m.data, what);
  r.st.MPI_SOURCE = 0; { CommS &k = C(r.comm); for (size_t i = 0; i < k.m.size(); i++) if (k.m[i] == m.src) r.st.MPI_SOURCE = (int)i; }
  r.st.MPI_TAG = m.tag; r.st.MPI_ERROR = 0; r.st.sim_bytes = (int)m.data.size();
  m.data.clear(); m.data.shrink_to_fit();
}
static void set_ranges(Req &q) {
  q.ranges.clear(); if (!q.buf) return;
  if (q.dt < TYPE0) { size_t n = (size_t)q.count * tsize(q.dt); if (n) q.ranges.push_back({(uintptr_t)q.buf, n}); return; }
  TypeS &t = *T(q.dt); for (int i = 0; i < q.count; i++) for (auto &e : t.e) { size_t n = (size_t)e.n * base_size[e.base]; if (n) q.ranges.push_back({(uintptr_t)q.buf + i * t.extent + e.disp, n}); }
}
static int post_send(const void *buf, int count, MPI_Datatype dt, int dst, int tag, int comm, bool sync, int req, const char *what) {
  if (tag < 0 || tag > MPI_TAG_UB) sim_violate("mpi-misuse", "%s: invalid tag %d", what, tag);
  Msg m; m.src = S.cur_rank; m.dst = world_of(comm, dst, what); m.comm = comm; m.tag = tag; m.data = pack(buf, count, dt, m.sig, what); m.sync = sync; m.req = req; m.seq = msgs.size();
  S.st.messages++; if (sync) S.st.sync_sends++;
  int id = (int)msgs.size(); msgs.push_back(m); chan[{{m.src, m.dst}, m.comm}].push_back(id); ev(0x8200 + m.data.size());
  return id;
}
static int post_recv(void *buf, int count, MPI_Datatype dt, int src, int tag, int comm, const char *what) {
  need(count, what); Req r; r.active = true; r.rank = S.cur_rank; r.buf = buf; r.count = count; r.dt = dt; r.tag = tag; r.comm = comm; r.order = order_ctr++;
  C(comm); tsize(dt);
  r.src = src == MPI_ANY_SOURCE || src == MPI_PROC_NULL ? src : world_of(comm, src, what);
  if (src != MPI_PROC_NULL) set_ranges(r);
  int ri = (int)reqs.size(); reqs.push_back(r);
  if (src == MPI_PROC_NULL) { reqs[ri].done = true; return ri; }
  if (recv_cap(count, dt) > 0 && dt < TYPE0) { std::string why; uintptr_t a = (uintptr_t)buf; if (a < 65536) sim_violate("crash", "%s into a null buffer", what); if (mem_in_arena(a) && !mem_valid(a, recv_cap(count, dt), &why)) sim_violate(why.compare(0, 4, "uaf:") == 0 ? "use-after-free" : "out-of-bounds", "%s buffer of %ld bytes: %s", what, recv_cap(count, dt), why.c_str()); }
  auto &u = unexpected[S.cur_rank];
  for (size_t i = 0; i < u.size(); i++) if (match(reqs[ri], msgs[u[i]])) { int mi = u[i]; u.erase(u.begin() + i); complete_recv(ri, mi); return ri; }
  posted[S.cur_rank].push_back(ri);
  return ri;
}
static bool pick_sync() { switch (S.cfg.send_mode) { case 0: return false; case 1: return true; default: return misc_choice(2, 0.5) == 1; } }
void mpi_note_access(uintptr_t a, size_t n, bool w) {
  for (auto &r : reqs) if (r.active && r.rank == S.cur_rank) for (auto &g : r.ranges) if (a < g.first + g.second && g.first < a + n) {
    if (!r.send) sim_violate("mpi-buffer", "%s the buffer of a pending receive", w ? "write to" : "read of");
    else if (w) sim_violate("mpi-buffer", "write to the buffer of a pending send");
  }
}
void mpi_check_free(uintptr_t a, size_t n) { for (auto &r : reqs) if (r.active && r.rank == S.cur_rank) for (auto &g : r.ranges) if (a < g.first + g.second && g.first < a + n) sim_violate("mpi-buffer", "buffer of a pending transfer released"); }
bool mpi_has_pending() { for (auto &r : reqs) if (r.active) return true; return false; }
void mpi_check_quiescent(const char *when) {
  for (auto &m : msgs) if (!m.matched) sim_violate("mpi-leftover", "%s: a message from rank %d to rank %d (tag %d) was never received", when, m.src, m.dst, m.tag);
  for (auto &r : reqs) if (r.active) sim_violate("mpi-leftover", "%s: a %s request of rank %d was never completed", when, r.send ? "send" : "receive", r.rank);
  for (auto &c : colls) if (c.first.first != 2 && c.second.arrived < (int)comms[c.first.first].m.size()) sim_violate("mpi-leftover", "%s: a collective call was not joined by every rank", when);
}
int mpi_live_comms(int rank) { int n = 0; for (size_t i = 3; i < comms.size(); i++) { auto &c = comms[i]; if (!c.valid) continue; bool in = false; for (int m : c.m) if (m == rank) in = true; if (in && !c.freed[rank]) n++; } return n; }
int mpi_live_types(int rank) { int n = 0; for (auto &t : types[rank]) if (t.valid) n++; return n; }

// ------------------------------------------------------------------ collectives
enum { K_BARRIER, K_BCAST, K_REDUCE, K_ALLREDUCE, K_GATHER, K_SCATTER, K_ALLGATHER, K_ALLTOALL, K_SPLIT, K_EIGEN };
static const char *kname[] = {"barrier", "broadcast", "reduce", "all-reduce", "gather", "scatter", "all-gather", "all-to-all", "communicator creation", "eigensolver"};
static Coll &join(int comm, int kind, int root, int op, MPI_Datatype base, long cnt, std::string &&mine, std::pair<int,uint64_t> &key) {
  CommS &k = C(comm); int me = crank(comm), n = (int)k.m.size();
  if (root < 0 || root >= n) sim_violate("mpi-misuse", "%s: root %d out of range", kname[kind], root);
  uint64_t seq = k.seq[me]++; key = {comm, seq}; Coll &c = colls[key]; S.st.collectives++;
  if (c.kind < 0) { c.kind = kind; c.root = root; c.op = op; c.base = base; c.cnt = cnt; c.in.assign(n, 0); c.data.resize(n); c.lens.assign(n, 0); c.ck.resize(n); c.newcomms.assign(n, 0); uint64_t h = hmix(S.cfg.sched_seed, seq * 31 + comm); c.sync = S.cfg.send_mode == 1 || (S.cfg.send_mode == 2 && (h & 1)); }
  else if (c.kind != kind) sim_violate("mpi-collective", "ranks disagree on a collective call: %s and %s", kname[c.kind], kname[kind]);
  else if (c.root != root || c.op != op) sim_violate("mpi-collective", "ranks disagree on root or operation of a %s", kname[kind]);
  else if (c.base != base) sim_violate("mpi-collective", "ranks disagree on the datatype of a %s", kname[kind]);
  else if (cnt >= 0 && c.cnt != cnt) sim_violate("mpi-collective", "ranks disagree on the count of a %s (%ld and %ld)", kname[kind], c.cnt, cnt);
  c.in[me] = 1; c.arrived++; c.data[me] = std::move(mine); ev(0x8300 + kind);
  rank_yield();
  return colls[key];
}
static void wait_all(std::pair<int,uint64_t> key) { Coll *c = &colls[key]; int n = csize(key.first); std::function<bool()> f = [c, n] { return c->arrived == n; }; if (!f()) rank_wait(f); }
static void wait_root(std::pair<int,uint64_t> key) { Coll *c = &colls[key]; std::function<bool()> f = [c] { return c->in[c->root]; }; if (!f()) rank_wait(f); }
template <class X> static X red(int op, X a, X b) { switch (op) { case MPI_SUM: return a + b; case MPI_PROD: return a * b; case MPI_MIN: return b < a ? b : a; case MPI_MAX: return a < b ? b : a; } sim_violate("mpi-misuse", "unsupported reduction"); }
template <class X> static void red_arr(int op, void *acc, const void *in, long n) { X *a = (X *)acc; const X *b = (const X *)in; for (long i = 0; i < n; i++) a[i] = red<X>(op, a[i], b[i]); }
template <class X> static void red_c(int op, void *acc, const void *in, long n) { X *a = (X *)acc; const X *b = (const X *)in; for (long i = 0; i < n; i++) { if (op == MPI_SUM) a[i] += b[i]; else if (op == MPI_PROD) a[i] *= b[i]; else sim_violate("mpi-misuse", "ordering reduction on complex data"); } }
static std::string reduce_all(Coll &c, std::pair<int,uint64_t> key) {
  int n = (int)c.data.size(); std::vector<int> ord(n); for (int i = 0; i < n; i++) ord[i] = i;
  Rng r(hmix(S.cfg.sched_seed, key.second * 131 + key.first)); for (int i = n - 1; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]);
  std::string acc = c.data[ord[0]];
  for (int i = 1; i < n; i++) { const std::string &d = c.data[ord[i]]; switch (c.base) {
    case MPI_INT: red_arr<int>(c.op, &acc[0], &d[0], c.cnt); break; case MPI_UNSIGNED: red_arr<unsigned>(c.op, &acc[0], &d[0], c.cnt); break;
    case MPI_LONG: case MPI_LONG_LONG: red_arr<long>(c.op, &acc[0], &d[0], c.cnt); break; case MPI_UNSIGNED_LONG: red_arr<unsigned long>(c.op, &acc[0], &d[0], c.cnt); break;
    case MPI_FLOAT: red_arr<float>(c.op, &acc[0], &d[0], c.cnt); break; case MPI_DOUBLE: red_arr<double>(c.op, &acc[0], &d[0], c.cnt); break;
    case MPI_C_FLOAT_COMPLEX: red_c<std::complex<float>>(c.op, &acc[0], &d[0], c.cnt); break; case MPI_C_DOUBLE_COMPLEX: red_c<std::complex<double>>(c.op, &acc[0], &d[0], c.cnt); break;
    default: sim_violate("mpi-misuse", "reduction on unsupported datatype"); } }
  return acc;
}
static int new_comm(const std::vector<int> &m) { CommS k; k.valid = true; k.m = m; k.freed.assign(MAX_RANKS, 0); comms.push_back(k); return (int)comms.size() - 1; }
static void done_if_sync(Coll &c, std::pair<int,uint64_t> key) { if (c.sync) wait_all(key); }

extern "C" {
int MPI_Init(int *, char ***) { return 0; }
int MPI_Init_thread(int *, char ***, int want, int *got) { *got = want; return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Finalized(int *f) { *f = 0; return 0; }
int MPI_Finalize(void) { return 0; }
void __wrap_exit(int);
int MPI_Abort(MPI_Comm, int code) { __wrap_exit(code ? code : 1); return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { PC; int k = crank(c); access_range(r, 4, true, "MPI_Comm_rank"); *r = k; return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { PC; int k = csize(c); access_range(n, 4, true, "MPI_Comm_size"); *n = k; return 0; }
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm *out) { PC; access_range(out, 4, true, "MPI_Comm_split"); if (comm == 2) { *out = 2; return 0; }
  // deposit through the data string so that it is visible as soon as the rank is counted
  std::pair<int,uint64_t> k; int me = crank(comm); int v[2] = {color, key};
  Coll *c = &join(comm, K_SPLIT, 0, 0, 0, -1, std::string((char *)v, sizeof v), k); wait_all(k); c = &colls[k];
  int n = csize(comm); for (int i = 0; i < n; i++) { int w[2]; memcpy(w, c->data[i].data(), sizeof w); c->ck[i] = {w[0], w[1]}; }
  if (!c->newcomms[me] && color != MPI_UNDEFINED) { std::map<int, std::vector<std::pair<std::pair<int,int>,int>>> g; for (int i = 0; i < n; i++) if (c->ck[i].first != MPI_UNDEFINED) g[c->ck[i].first].push_back({{c->ck[i].second, i}, i});
    for (auto &x : g) { std::sort(x.second.begin(), x.second.end()); std::vector<int> m; for (auto &y : x.second) m.push_back(comms[comm].m[y.second]); int id = new_comm(m); c = &colls[k]; for (auto &y : x.second) c->newcomms[y.second] = id; } }
  *out = color == MPI_UNDEFINED ? MPI_COMM_NULL : c->newcomms[me]; return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { return MPI_Comm_split(c, 0, crank(c), o); }
int MPI_Comm_free(MPI_Comm *c) { PC; if (*c <= 2) sim_violate("mpi-misuse", "release of a predefined communicator"); CommS &k = C(*c); k.freed[S.cur_rank] = 1; *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { *r = a == b ? 0 : C(a).m == C(b).m ? 1 : 3; return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f) { return f; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return c; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Cart_create(MPI_Comm comm, int nd, const int *dims, const int *per, int reorder, MPI_Comm *out) { PC;
  int tot = 1; for (int i = 0; i < nd; i++) tot *= dims[i]; if (nd < 1 || nd > 2) sim_violate("mpi-misuse", "unsupported grid dimension"); if (tot > csize(comm)) sim_violate("mpi-misuse", "process grid larger than the communicator");
  int me = crank(comm); int rc = MPI_Comm_split(comm, me < tot ? 0 : MPI_UNDEFINED, me, out); if (*out) { CommS &k = comms[*out]; k.cart = true; k.nd = nd; for (int i = 0; i < nd; i++) { k.dims[i] = dims[i]; k.per[i] = per[i]; } if (nd == 1) k.dims[1] = 1; } (void)reorder; return rc; }
static void cart_chk(MPI_Comm c) { if (!C(c).cart) sim_violate("mpi-misuse", "grid query on a communicator without a grid"); }
int MPI_Cart_coords(MPI_Comm c, int rank, int maxd, int *co) { PC; cart_chk(c); CommS &k = C(c); access_range(co, 4 * std::min(maxd, k.nd), true, "MPI_Cart_coords"); int v[2] = {rank / k.dims[1], rank % k.dims[1]}; for (int i = 0; i < k.nd && i < maxd; i++) co[i] = v[i]; return 0; }
int MPI_Cart_rank(MPI_Comm c, const int *co, int *r) { PC; cart_chk(c); CommS &k = C(c); int v[2] = {0, 0}; for (int i = 0; i < k.nd; i++) { v[i] = co[i]; if (k.per[i]) v[i] = ((v[i] % k.dims[i]) + k.dims[i]) % k.dims[i]; else if (v[i] < 0 || v[i] >= k.dims[i]) sim_violate("mpi-misuse", "grid coordinate out of range"); } *r = v[0] * k.dims[1] + v[1]; return 0; }
int MPI_Cart_shift(MPI_Comm c, int dir, int disp, int *src, int *dst) { PC; cart_chk(c); CommS &k = C(c); if (dir < 0 || dir >= k.nd) sim_violate("mpi-misuse", "grid direction out of range"); int me = crank(c); int co[2] = {me / k.dims[1], me % k.dims[1]};
  auto at = [&](int d) { int v[2] = {co[0], co[1]}; v[dir] += d; if (v[dir] < 0 || v[dir] >= k.dims[dir]) { if (!k.per[dir]) return MPI_PROC_NULL; v[dir] = ((v[dir] % k.dims[dir]) + k.dims[dir]) % k.dims[dir]; } return v[0] * k.dims[1] + v[1]; };
  access_range(src, 4, true, "MPI_Cart_shift"); access_range(dst, 4, true, "MPI_Cart_shift"); int s = at(-disp), d = at(disp); *src = s; *dst = d; return 0; }
int MPI_Cart_get(MPI_Comm c, int maxd, int *d, int *p, int *co) { cart_chk(c); CommS &k = C(c); int me = crank(c); int v[2] = {me / k.dims[1], me % k.dims[1]}; for (int i = 0; i < maxd && i < k.nd; i++) { d[i] = k.dims[i]; p[i] = k.per[i]; co[i] = v[i]; } return 0; }
int MPI_Cart_sub(MPI_Comm c, const int *rem, MPI_Comm *o) { PC; cart_chk(c); CommS k = C(c); int me = crank(c); int co[2] = {me / k.dims[1], me % k.dims[1]}; int color = 0, key = 0; for (int i = 0; i < k.nd; i++) { if (rem[i]) key = key * k.dims[i] + co[i]; else color = color * k.dims[i] + co[i]; } return MPI_Comm_split(c, color, key, o); }

static int send_impl(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, bool sync, const char *w) {
  if (dst == MPI_PROC_NULL) return 0;
  int id = post_send(b, n, d, dst, tag, c, sync, -1, w);
  if (sync) { std::function<bool()> f = [id] { return msgs[id].matched; }; rank_wait(f); } else rank_yield();
  guard_update();
  return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { PC; return send_impl(b, n, d, dst, tag, c, pick_sync(), "MPI_Send"); }
int MPI_Ssend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { PC; return send_impl(b, n, d, dst, tag, c, true, "MPI_Ssend"); }
int MPI_Rsend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { PC; return send_impl(b, n, d, dst, tag, c, pick_sync(), "MPI_Rsend"); }
int MPI_Bsend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { PC; return send_impl(b, n, d, dst, tag, c, false, "MPI_Bsend"); }
int MPI_Recv(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Status *st) { PC;
  int ri = post_recv(b, n, d, src, tag, c, "MPI_Recv");
  std::function<bool()> f = [ri] { return reqs[ri].done; }; if (!f()) rank_wait(f); else rank_yield();
  reqs[ri].active = false; guard_update(); finish_recv(reqs[ri], "MPI_Recv"); if (st) *st = reqs[ri].st; reqs[ri].snap.clear(); return 0; }
static int isend_impl(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request *r, bool sync, const char *w) {
  access_range(r, 4, true, w); Req q; q.active = true; q.send = true; q.rank = S.cur_rank; q.buf = (void *)b; q.count = n; q.dt = d; q.comm = c; q.order = order_ctr++; if (dst != MPI_PROC_NULL) set_ranges(q);
  int ri = (int)reqs.size(); reqs.push_back(q); *r = ri;
  if (dst == MPI_PROC_NULL) { reqs[ri].done = true; return 0; }
  int id = post_send(b, n, d, dst, tag, c, sync, ri, w); reqs[ri].snap = msgs[id].data; reqs[ri].msg = id; if (!sync) reqs[ri].done = true;
  rank_yield(); guard_update(); return 0;
}
int MPI_Isend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request *r) { PC; return isend_impl(b, n, d, dst, tag, c, r, pick_sync(), "MPI_Isend"); }
int MPI_Issend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request *r) { PC; return isend_impl(b, n, d, dst, tag, c, r, true, "MPI_Issend"); }
int MPI_Irecv(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Request *r) { PC; access_range(r, 4, true, "MPI_Irecv"); int ri = post_recv(b, n, d, src, tag, c, "MPI_Irecv"); *r = ri; rank_yield(); guard_update(); return 0; }
static Req &R(MPI_Request r) { if (r <= 0 || r >= (int)reqs.size()) sim_violate("mpi-misuse", "wait on an invalid request"); Req &q = reqs[r]; if (q.rank != S.cur_rank) sim_violate("mpi-misuse", "wait on a request of another rank"); if (!q.active) sim_violate("mpi-misuse", "wait on a completed request"); return q; }
static void complete(MPI_Request *r, MPI_Status *st) {
  Req &q = R(*r); q.active = false; guard_update();
  if (q.send) { if (q.msg >= 0) { Sig s; allow_freed = true; std::string now = pack(q.buf, q.count, q.dt, s, "completed send"); if (now != q.snap) sim_violate("mpi-buffer", "send buffer changed while the send was pending"); allow_freed = false; } q.snap.clear(); }
  else finish_recv(q, "completed receive");
  if (st) *st = q.st; *r = MPI_REQUEST_NULL;
}
int MPI_Wait(MPI_Request *r, MPI_Status *st) { PC; access_range(r, 4, true, "MPI_Wait"); if (*r == MPI_REQUEST_NULL) return 0; int ri = *r; R(ri); std::function<bool()> f = [ri] { return reqs[ri].done; }; if (!f()) rank_wait(f); else rank_yield(); guard_update(); complete(r, st); return 0; }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) { PC; if (n > 0) access_range(r, 4 * n, true, "MPI_Waitall"); for (int i = 0; i < n; i++) MPI_Wait(&r[i], st ? &st[i] : nullptr); return 0; }
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st) { PC; bool any = false; for (int i = 0; i < n; i++) if (r[i]) { R(r[i]); any = true; } if (!any) { *idx = MPI_UNDEFINED; return 0; } std::function<bool()> f = [n, r] { for (int i = 0; i < n; i++) if (r[i] && reqs[r[i]].done) return true; return false; }; if (!f()) rank_wait(f); std::vector<int> k; for (int i = 0; i < n; i++) if (r[i] && reqs[r[i]].done) k.push_back(i); int i = k[misc_choice((int)k.size(), 0.5)]; *idx = i; complete(&r[i], st); return 0; }
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st) { PC; rank_yield(); guard_update(); if (*r == MPI_REQUEST_NULL) { *flag = 1; return 0; } if (R(*r).done) { complete(r, st); *flag = 1; } else *flag = 0; return 0; }
int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *st) { PC; rank_yield(); *flag = 1; for (int i = 0; i < n; i++) if (r[i] && !R(r[i]).done) *flag = 0; if (*flag) for (int i = 0; i < n; i++) if (r[i]) complete(&r[i], st ? &st[i] : nullptr); return 0; }
int MPI_Request_free(MPI_Request *r) { Req &q = R(*r); q.active = false; *r = 0; guard_update(); return 0; }
int MPI_Cancel(MPI_Request *) { return 0; }
static int find_unexp(int src, int tag, int comm) { Req r; r.comm = comm; r.src = src == MPI_ANY_SOURCE ? src : world_of(comm, src, "MPI_Probe"); r.tag = tag; for (int i : unexpected[S.cur_rank]) if (match(r, msgs[i])) return i; return -1; }
static void probe_st(int mi, int comm, MPI_Status *st) { if (!st) return; CommS &k = C(comm); for (size_t i = 0; i < k.m.size(); i++) if (k.m[i] == msgs[mi].src) st->MPI_SOURCE = (int)i; st->MPI_TAG = msgs[mi].tag; st->MPI_ERROR = 0; st->sim_bytes = (int)msgs[mi].data.size(); }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *st) { PC; std::function<bool()> f = [=] { return find_unexp(src, tag, c) >= 0; }; int me = S.cur_rank; std::function<bool()> g = [=] { int sv = S.cur_rank; S.cur_rank = me; bool b = find_unexp(src, tag, c) >= 0; S.cur_rank = sv; return b; }; if (!g()) rank_wait(g); probe_st(find_unexp(src, tag, c), c, st); return 0; }
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *st) { PC; rank_yield(); int i = find_unexp(src, tag, c); *flag = i >= 0; if (i >= 0) probe_st(i, c, st); return 0; }
int MPI_Get_count(const MPI_Status *st, MPI_Datatype d, int *n) { long s = tsize(d); *n = s && st->sim_bytes % s == 0 ? (int)(st->sim_bytes / s) : MPI_UNDEFINED; return 0; }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype sd, int dst, int stag, void *rb, int rn, MPI_Datatype rd, int src, int rtag, MPI_Comm c, MPI_Status *st) { PC; MPI_Request q[2]; int r1 = post_recv(rb, rn, rd, src, rtag, c, "MPI_Sendrecv"); q[0] = r1; isend_impl(sb, sn, sd, dst, stag, c, &q[1], pick_sync(), "MPI_Sendrecv"); MPI_Wait(&q[1], nullptr); MPI_Wait(&q[0], st); return 0; }
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype d, int dst, int stag, int src, int rtag, MPI_Comm c, MPI_Status *st) { PC; if (dst != MPI_PROC_NULL) post_send(b, n, d, dst, stag, c, false, -1, "MPI_Sendrecv_replace"); if (src != MPI_PROC_NULL) return MPI_Recv(b, n, d, src, rtag, c, st); return 0; }
int MPI_Barrier(MPI_Comm c) { PC; if (c == 2) return 0; std::pair<int,uint64_t> k; join(c, K_BARRIER, 0, 0, 0, -1, "", k); wait_all(k); return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c) { PC; if (c == 2) return 0; need(n, "MPI_Bcast"); std::pair<int,uint64_t> k; int me = crank(c); Sig s, sn; std::string mine; if (me == root) mine = pack(b, n, d, s, "MPI_Bcast");
  long bytes = (long)n * tsize(d); rsig(n, d, sn); uint64_t h = 0; for (auto &e : sn) h = hmix(h, (uint64_t)e.first << 32 | (unsigned)e.second);
  Coll *x = &join(c, K_BCAST, root, 0, 0, bytes, std::move(mine), k); int ty = sn.empty() ? 0 : (int)(h & 0x7fffffff); if (x->base == 0) x->base = 0; if (x->newcomm == 0) x->newcomm = ty; else if (x->newcomm != ty) sim_violate("mpi-collective", "ranks disagree on the datatype of a broadcast");
  if (me != root) { wait_root(k); x = &colls[k]; guard_update(); unpack(b, n, d, x->data[root], "MPI_Bcast"); } done_if_sync(colls[k], k); guard_update(); return 0; }
static void reduce_args(const void *s, void *r, int n, MPI_Datatype d, std::string &mine) { Sig g; mine = pack(s == MPI_IN_PLACE ? r : s, n, d, g, "reduction"); if (s != MPI_IN_PLACE && n && s == r) sim_violate("mpi-misuse", "aliased reduction buffers"); }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c) { PC; std::string m; int me = crank(c); if (c == 2) { if (s != MPI_IN_PLACE) memcpy(r, s, (size_t)n * tsize(d)); return 0; } reduce_args(s, r, n, d, m); std::pair<int,uint64_t> k; join(c, K_REDUCE, root, op, d, n, std::move(m), k); if (me == root) { wait_all(k); guard_update(); std::string a = reduce_all(colls[k], k); unpack(r, n, d, a, "MPI_Reduce"); } done_if_sync(colls[k], k); return 0; }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { PC; std::string m; if (c == 2) { if (s != MPI_IN_PLACE) memcpy(r, s, (size_t)n * tsize(d)); return 0; } reduce_args(s, r, n, d, m); std::pair<int,uint64_t> k; join(c, K_ALLREDUCE, 0, op, d, n, std::move(m), k); wait_all(k); guard_update(); std::string a = reduce_all(colls[k], k); unpack(r, n, d, a, "MPI_Allreduce"); return 0; }
static int allgather_impl(const void *s, int sn, MPI_Datatype sd, void *r, const int *cnts, const int *displs, int rn, MPI_Datatype rd, MPI_Comm c, const char *w) {
  int me = crank(c), n = csize(c); Sig g; long e = text(rd);
  auto cnt = [&](int i) { return cnts ? cnts[i] : rn; }; auto dsp = [&](int i) { return displs ? (long)displs[i] : (long)i * rn; };
  std::string mine = s == MPI_IN_PLACE ? pack((char *)r + dsp(me) * e, cnt(me), rd, g, w) : pack(s, sn, sd, g, w);
  std::pair<int,uint64_t> k; join(c, K_ALLGATHER, 0, 0, rd < TYPE0 ? rd : 0, -1, std::move(mine), k); wait_all(k); guard_update(); Coll *x = &colls[k];
  for (int i = 0; i < n; i++) { if ((long)x->data[i].size() != (long)cnt(i) * tsize(rd)) { if ((long)x->data[i].size() > (long)cnt(i) * tsize(rd)) sim_violate("mpi-truncate", "%s: rank %d sends %zu bytes where %ld are expected", w, i, x->data[i].size(), (long)cnt(i) * tsize(rd)); else sim_violate("mpi-collective", "%s: rank %d sends %zu bytes where %ld are expected", w, i, x->data[i].size(), (long)cnt(i) * tsize(rd)); }
    unpack((char *)r + dsp(i) * e, cnt(i), rd, x->data[i], w); }
  return 0; }
int MPI_Allgather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, MPI_Comm c) { PC; return allgather_impl(s, sn, sd, r, nullptr, nullptr, rn, rd, c, "MPI_Allgather"); }
int MPI_Allgatherv(const void *s, int sn, MPI_Datatype sd, void *r, const int *cn, const int *dp, MPI_Datatype rd, MPI_Comm c) { PC; access_range(cn, 4 * csize(c), false, "MPI_Allgatherv"); access_range(dp, 4 * csize(c), false, "MPI_Allgatherv"); return allgather_impl(s, sn, sd, r, cn, dp, 0, rd, c, "MPI_Allgatherv"); }
static int gather_impl(const void *s, int sn, MPI_Datatype sd, void *r, const int *cnts, const int *displs, int rn, MPI_Datatype rd, int root, MPI_Comm c, const char *w) {
  int me = crank(c), n = csize(c); Sig g; std::string mine;
  auto cnt = [&](int i) { return cnts ? cnts[i] : rn; }; auto dsp = [&](int i) { return displs ? (long)displs[i] : (long)i * rn; };
  if (!(me == root && s == MPI_IN_PLACE)) mine = pack(s, sn, sd, g, w);
  std::pair<int,uint64_t> k; join(c, K_GATHER, root, 0, 0, -1, std::move(mine), k);
  if (me == root) { wait_all(k); guard_update(); long e = text(rd); for (int i = 0; i < n; i++) { if (i == me && s == MPI_IN_PLACE) continue; std::string &d = colls[k].data[i]; if ((long)d.size() > (long)cnt(i) * tsize(rd)) sim_violate("mpi-truncate", "%s: rank %d sends more than expected", w, i); if ((long)d.size() < (long)cnt(i) * tsize(rd)) sim_violate("mpi-collective", "%s: rank %d sends less than expected", w, i); unpack((char *)r + dsp(i) * e, cnt(i), rd, d, w); } }
  done_if_sync(colls[k], k); return 0; }
int MPI_Gather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c) { PC; return gather_impl(s, sn, sd, r, nullptr, nullptr, rn, rd, root, c, "MPI_Gather"); }
int MPI_Gatherv(const void *s, int sn, MPI_Datatype sd, void *r, const int *cn, const int *dp, MPI_Datatype rd, int root, MPI_Comm c) { PC; return gather_impl(s, sn, sd, r, cn, dp, 0, rd, root, c, "MPI_Gatherv"); }
static int scatter_impl(const void *s, const int *cnts, const int *displs, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c, const char *w) {
  int me = crank(c), n = csize(c); Sig g; std::string mine; std::vector<long> lens;
  auto cnt = [&](int i) { return cnts ? cnts[i] : sn; }; auto dsp = [&](int i) { return displs ? (long)displs[i] : (long)i * sn; };
  if (me == root) for (int i = 0; i < n; i++) { std::string p = pack((const char *)s + dsp(i) * text(sd), cnt(i), sd, g, w); lens.push_back((long)p.size()); mine += p; }
  std::pair<int,uint64_t> k; join(c, K_SCATTER, root, 0, 0, -1, std::move(mine), k); if (me == root) colls[k].lens = lens;
  if (!(me == root && r == MPI_IN_PLACE)) { std::function<bool()> f = [k, root] { Coll &x = colls[k]; if (!x.in[root]) return false; long t = 0; for (long l : x.lens) t += l; return t == (long)x.data[root].size(); }; if (!f()) rank_wait(f); guard_update(); Coll &x = colls[k]; long o = 0; for (int i = 0; i < me; i++) o += x.lens[i]; std::string d = x.data[root].substr(o, x.lens[me]); if ((long)d.size() > (long)rn * tsize(rd)) sim_violate("mpi-truncate", "%s: more data than the receive buffer holds", w); unpack(r, rn, rd, d, w); }
  done_if_sync(colls[k], k); return 0; }
int MPI_Scatter(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c) { PC; return scatter_impl(s, nullptr, nullptr, sn, sd, r, rn, rd, root, c, "MPI_Scatter"); }
int MPI_Scatterv(const void *s, const int *cn, const int *dp, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c) { PC; return scatter_impl(s, cn, dp, 0, sd, r, rn, rd, root, c, "MPI_Scatterv"); }
int MPI_Alltoall(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, MPI_Comm c) { PC; int me = crank(c), n = csize(c); Sig g; std::string mine = pack(s, sn * n, sd, g, "MPI_Alltoall"); std::pair<int,uint64_t> k; join(c, K_ALLTOALL, 0, 0, 0, -1, std::move(mine), k); wait_all(k); long b = (long)sn * tsize(sd); for (int i = 0; i < n; i++) unpack((char *)r + (long)i * rn * text(rd), rn, rd, colls[k].data[i].substr(me * b, b), "MPI_Alltoall"); return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
static int newtype(TypeS &&t, MPI_Datatype *out) { t.valid = true; t.rank = S.cur_rank; types[S.cur_rank].push_back(t); *out = TYPE0 + (int)types[S.cur_rank].size() - 1; return 0; }
static void add_old(TypeS &t, long disp, int n, MPI_Datatype d) { if (d < TYPE0) { tsize(d); t.e.push_back({disp, d, n}); t.size += (long)n * base_size[d]; t.extent = std::max(t.extent, disp + (long)n * base_size[d]); } else { TypeS o = *T(d); for (int i = 0; i < n; i++) for (auto &e : o.e) { t.e.push_back({disp + i * o.extent + e.disp, e.base, e.n}); t.size += (long)e.n * base_size[e.base]; } t.extent = std::max(t.extent, disp + n * o.extent); } }
int MPI_Type_create_struct(int n, const int *bl, const MPI_Aint *dp, const MPI_Datatype *ty, MPI_Datatype *out) { PC; access_range(bl, 4 * n, false, "MPI_Type_create_struct"); access_range(dp, 8 * n, false, "MPI_Type_create_struct"); access_range(ty, 4 * n, false, "MPI_Type_create_struct"); TypeS t; for (int i = 0; i < n; i++) { need(bl[i], "MPI_Type_create_struct"); add_old(t, dp[i], bl[i], ty[i]); } return newtype(std::move(t), out); }
int MPI_Type_create_hindexed(int n, const int *bl, const MPI_Aint *dp, MPI_Datatype ty, MPI_Datatype *out) { TypeS t; for (int i = 0; i < n; i++) add_old(t, dp[i], bl[i], ty); return newtype(std::move(t), out); }
int MPI_Type_contiguous(int n, MPI_Datatype ty, MPI_Datatype *out) { TypeS t; add_old(t, 0, n, ty); return newtype(std::move(t), out); }
int MPI_Type_vector(int n, int bl, int stride, MPI_Datatype ty, MPI_Datatype *out) { TypeS t; for (int i = 0; i < n; i++) add_old(t, (long)i * stride * text(ty), bl, ty); return newtype(std::move(t), out); }
int MPI_Type_commit(MPI_Datatype *t) { if (*t >= TYPE0) T(*t)->committed = true; return 0; }
int MPI_Type_free(MPI_Datatype *t) { if (*t < TYPE0) sim_violate("mpi-misuse", "release of a predefined datatype"); T(*t)->valid = false; *t = 0; return 0; }
int MPI_Type_size(MPI_Datatype d, int *n) { *n = (int)tsize(d); return 0; }
int MPI_Error_string(int, char *s, int *n) { strcpy(s, "error"); *n = 5; return 0; }
int MPI_Get_processor_name(char *s, int *n) { strcpy(s, "sim"); *n = 3; return 0; }
double MPI_Wtime(void) { return (double)S.total_steps * 1e-9; }

// ------------------------------------------------------------------ BLACS / ScaLAPACK stand-in (gathers, calls LAPACK, scatters)
void zheevd_(const char *, const char *, const int *, void *, const int *, double *, void *, const int *, double *, const int *, int *, const int *, int *);
struct Grid { int comm, np, nq; };
static std::vector<Grid> grids;
int Csys2blacs_handle(MPI_Comm c) { C(c); return c; }
void Cblacs_gridinit(int *ctxt, char *order, int np, int nq) { PC; int c = *ctxt; if (np * nq > csize(c)) sim_violate("mpi-misuse", "process grid larger than the communicator"); if (order[0] != 'R' && order[0] != 'r' && order[0] != 'C' && order[0] != 'c') sim_violate("mpi-misuse", "bad grid order"); int o = (order[0] == 'C' || order[0] == 'c'); for (size_t i = 0; i < grids.size(); i++) if (grids[i].comm == (o ? -c : c) && grids[i].np == np && grids[i].nq == nq) { *ctxt = (int)i; return; } grids.push_back({o ? -c : c, np, nq}); *ctxt = (int)grids.size() - 1; }
void Cblacs_gridinfo(int ctxt, int *np, int *nq, int *r, int *q) { Grid g = grids.at(ctxt); int me = crank(abs(g.comm)); *np = g.np; *nq = g.nq; if (g.comm > 0) { *r = me / g.nq; *q = me % g.nq; } else { *r = me % g.np; *q = me / g.np; } }
void Cblacs_gridexit(int) {}
int numroc_(int *n, int *nb, int *iproc, int *isrc, int *nprocs) { int my = (*nprocs + *iproc - *isrc) % *nprocs, nbl = *n / *nb, r = nbl / *nprocs * *nb, ex = nbl % *nprocs; if (my < ex) r += *nb; else if (my == ex) r += *n % *nb; return r; }
}
template <class X> static void peig(const char *jobz, int *n, X *A, int *desca, double *wd, float *wf, X *Z, int *descz, void *work, int *lwork, void *rwork, int *lrwork, int *iwork, int *liwork, int *info) {
  Grid g = grids.at(desca[1]); int comm = abs(g.comm); int N = *n, mb = desca[4], nb = desca[5], lld = desca[8]; int me = crank(comm); int P = g.np, Q = g.nq;
  *info = 0; if (*lwork == -1) { return; }
  auto coord = [&](int r, int &pr, int &pc) { if (g.comm > 0) { pr = r / Q; pc = r % Q; } else { pr = r % P; pc = r / P; } };
  auto own = [&](int i, int b, int p) { return (i / b) % p; }; auto loc = [&](int i, int b, int p) { return (i / (b * p)) * b + i % b; };
  int zero = 0; int pr, pc; coord(me, pr, pc); int lr = numroc_(&N, &mb, &pr, &zero, &P), lc = numroc_(&N, &nb, &pc, &zero, &Q);
  for (int j = 0; j < lc; j++) { access_range(A + (size_t)j * lld, lr * sizeof(X), true, "eigensolver input"); access_range(Z + (size_t)j * descz[8], lr * sizeof(X), true, "eigensolver output"); }
  if (wd) access_range(wd, N * 8, true, "eigenvalues"); else access_range(wf, N * 4, true, "eigenvalues");
  if (*lwork > 0) access_range(work, *lwork * sizeof(X), true, "eigensolver work"); if (*liwork > 0) access_range(iwork, *liwork * 4, true, "eigensolver work"); if (rwork && *lrwork > 0) access_range(rwork, (size_t)*lrwork * (wd ? 8 : 4), true, "eigensolver work");
  std::string mine; for (int j = 0; j < lc; j++) mine.append((char *)(A + (size_t)j * lld), lr * sizeof(X));
  std::pair<int,uint64_t> k; join(comm, K_EIGEN, 0, 0, 0, N, std::move(mine), k); wait_all(k);
  std::vector<std::complex<double>> F((size_t)N * N);
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { int r = own(i, mb, P), c = own(j, nb, Q); int rk = g.comm > 0 ? r * Q + c : c * P + r; int rr = r, lrr = numroc_(&N, &mb, &rr, &zero, &P); const X *d = (const X *)colls[k].data[rk].data(); F[(size_t)j * N + i] = std::complex<double>(d[(size_t)loc(j, nb, Q) * lrr + loc(i, mb, P)]); }
  // upper triangle is referenced
  std::vector<double> w(N), rw(1 + 5 * N + 2 * N * N); std::vector<std::complex<double>> wk(2 * N + N * N); std::vector<int> iw(3 + 5 * N); int lw = 2 * N + N * N, lrw = (int)rw.size(), liw = (int)iw.size();
  zheevd_("V", "U", &N, F.data(), &N, w.data(), wk.data(), &lw, rw.data(), &lrw, iw.data(), &liw, info);
  if (*info) sim_violate("internal", "eigensolver stand-in failed");
  // stand-in destroys A like the real routine
  for (int j = 0; j < lc; j++) memset((void *)(A + (size_t)j * lld), 0x5a, lr * sizeof(X));
  for (int i = 0; i < N; i++) { if (wd) wd[i] = w[i]; else wf[i] = (float)w[i]; }
  // eigenvectors of a real matrix can be made real (LAPACK returns them up to a phase): rotate
  for (int j = 0; j < N; j++) { int b = 0; for (int i = 1; i < N; i++) if (std::abs(F[(size_t)j * N + i]) > std::abs(F[(size_t)j * N + b])) b = i; std::complex<double> ph = std::conj(F[(size_t)j * N + b]) / std::abs(F[(size_t)j * N + b]); for (int i = 0; i < N; i++) F[(size_t)j * N + i] *= ph; }
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (own(i, mb, P) == pr && own(j, nb, Q) == pc) { std::complex<double> v = F[(size_t)j * N + i]; X *z = Z + (size_t)loc(j, nb, Q) * descz[8] + loc(i, mb, P); if constexpr (std::is_same<X, float>::value || std::is_same<X, double>::value) *z = (X)v.real(); else *z = X(v.real(), v.imag()); }
}
extern "C" {
void pdsyevd_(const char *j, const char *, int *n, double *A, int *, int *, int *da, double *w, double *Z, int *, int *, int *dz, double *wk, int *lw, int *iw, int *li, int *info) { peig<double>(j, n, A, da, w, nullptr, Z, dz, wk, lw, nullptr, nullptr, iw, li, info); }
void pssyevd_(const char *j, const char *, int *n, float *A, int *, int *, int *da, float *w, float *Z, int *, int *, int *dz, float *wk, int *lw, int *iw, int *li, int *info) { peig<float>(j, n, A, da, nullptr, w, Z, dz, wk, lw, nullptr, nullptr, iw, li, info); }
void pcheevd_(const char *j, const char *, int *n, std::complex<float> *A, int *, int *, int *da, float *w, std::complex<float> *Z, int *, int *, int *dz, void *wk, int *lw, float *rw, int *lr, int *iw, int *li, int *info) { peig<std::complex<float>>(j, n, A, da, nullptr, w, Z, dz, wk, lw, rw, lr, iw, li, info); }
void pzheevd_(const char *j, const char *, int *n, std::complex<double> *A, int *, int *, int *da, double *w, std::complex<double> *Z, int *, int *, int *dz, void *wk, int *lw, double *rw, int *lr, int *iw, int *li, int *info) { peig<std::complex<double>>(j, n, A, da, w, nullptr, Z, dz, wk, lw, rw, lr, iw, li, info); }
}
// ------------------------------------------------------------------ BLAS/LAPACK wrappers: real OpenBLAS, operands checked
static void mat(const void *p, long rows, long cols, long ld, size_t es, bool w, const char *what) { if (rows <= 0) return; for (long j = 0; j < cols; j++) access_range((const char *)p + (size_t)j * ld * es, rows * es, w, what); }
static void vec(const void *p, long n, long inc, size_t es, bool w, const char *what) { if (n <= 0) return; if (inc == 1) access_range(p, n * es, w, what); else { if (inc < 0) inc = -inc; for (long i = 0; i < n; i++) access_range((const char *)p + (size_t)i * inc * es, es, w, what); } }
#define GEMM(pre, nm, X) extern "C" __attribute__((weak)) void bml_gemm_internal_##nm(const char *, const char *, const int *, const int *, const int *, const X *, const X *, const int *, const X *, const int *, const X *, X *, const int *); \
extern "C" void pre##gemm_(const char *, const char *, const int *, const int *, const int *, const X *, const X *, const int *, const X *, const int *, const X *, X *, const int *); \
extern "C" void __wrap_##pre##gemm_(const char *ta, const char *tb, const int *m, const int *n, const int *k, const X *al, const X *a, const int *lda, const X *b, const int *ldb, const X *be, X *c, const int *ldc) { \
  if (S.cfg.intblas && (void *)bml_gemm_internal_##nm) { bml_gemm_internal_##nm(ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); return; } \
  PC; \
  bool na = *ta == 'N' || *ta == 'n', nb = *tb == 'N' || *tb == 'n'; mat(a, na ? *m : *k, na ? *k : *m, *lda, sizeof(X), false, "gemm operand"); mat(b, nb ? *k : *n, nb ? *n : *k, *ldb, sizeof(X), false, "gemm operand"); mat(c, *m, *n, *ldc, sizeof(X), true, "gemm result"); \
  pre##gemm_(ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
GEMM(s, single_real, float) GEMM(d, double_real, double) GEMM(c, single_complex, std::complex<float>) GEMM(z, double_complex, std::complex<double>)
#define V1(pre, X) extern "C" void pre##axpy_(const int *, const X *, const X *, const int *, X *, const int *); \
extern "C" void __wrap_##pre##axpy_(const int *n, const X *a, const X *x, const int *ix, X *y, const int *iy) { PC; vec(x, *n, *ix, sizeof(X), false, "axpy operand"); vec(y, *n, *iy, sizeof(X), true, "axpy result"); pre##axpy_(n, a, x, ix, y, iy); } \
extern "C" void pre##scal_(const int *, const X *, X *, const int *); \
extern "C" void __wrap_##pre##scal_(const int *n, const X *a, X *x, const int *ix) { PC; vec(x, *n, *ix, sizeof(X), true, "scal operand"); pre##scal_(n, a, x, ix); } \
extern "C" void pre##copy_(const int *, const X *, const int *, X *, const int *); \
extern "C" void __wrap_##pre##copy_(const int *n, const X *x, const int *ix, X *y, const int *iy) { PC; vec(x, *n, *ix, sizeof(X), false, "copy operand"); vec(y, *n, *iy, sizeof(X), true, "copy result"); pre##copy_(n, x, ix, y, iy); } \
extern "C" void pre##lacpy_(const char *, const int *, const int *, const X *, const int *, X *, const int *); \
extern "C" void __wrap_##pre##lacpy_(const char *u, const int *m, const int *n, const X *a, const int *la, X *b, const int *lb) { PC; mat(a, *m, *n, *la, sizeof(X), false, "lacpy operand"); mat(b, *m, *n, *lb, sizeof(X), true, "lacpy result"); pre##lacpy_(u, m, n, a, la, b, lb); } \
extern "C" void pre##getrf_(const int *, const int *, X *, const int *, int *, int *); \
extern "C" void __wrap_##pre##getrf_(const int *m, const int *n, X *a, const int *la, int *ip, int *info) { PC; mat(a, *m, *n, *la, sizeof(X), true, "getrf operand"); access_range(ip, 4 * (size_t)(*m < *n ? *m : *n), true, "getrf pivots"); pre##getrf_(m, n, a, la, ip, info); } \
extern "C" void pre##getri_(const int *, X *, const int *, const int *, X *, const int *, int *); \
extern "C" void __wrap_##pre##getri_(const int *n, X *a, const int *la, const int *ip, X *w, const int *lw, int *info) { PC; mat(a, *n, *n, *la, sizeof(X), true, "getri operand"); access_range(ip, 4 * (size_t)*n, false, "getri pivots"); if (*lw > 0) access_range(w, *lw * sizeof(X), true, "getri work"); pre##getri_(n, a, la, ip, w, lw, info); }
V1(s, float) V1(d, double) V1(c, std::complex<float>) V1(z, std::complex<double>)
#define SYEVD(pre, X) extern "C" void pre##syevd_(const char *, const char *, const int *, X *, const int *, X *, X *, const int *, int *, const int *, int *); \
extern "C" void __wrap_##pre##syevd_(const char *j, const char *u, const int *n, X *a, const int *la, X *w, X *wk, const int *lw, int *iw, const int *li, int *info) { PC; mat(a, *n, *n, *la, sizeof(X), true, "syevd operand"); access_range(w, *n * sizeof(X), true, "eigenvalues"); if (*lw > 0) access_range(wk, *lw * sizeof(X), true, "syevd work"); if (*li > 0) access_range(iw, *li * 4, true, "syevd work"); pre##syevd_(j, u, n, a, la, w, wk, lw, iw, li, info); } \
extern "C" void pre##syev_(const char *, const char *, const int *, X *, const int *, X *, X *, const int *, int *); \
extern "C" void __wrap_##pre##syev_(const char *j, const char *u, const int *n, X *a, const int *la, X *w, X *wk, const int *lw, int *info) { PC; mat(a, *n, *n, *la, sizeof(X), true, "syev operand"); access_range(w, *n * sizeof(X), true, "eigenvalues"); if (*lw > 0) access_range(wk, *lw * sizeof(X), true, "syev work"); pre##syev_(j, u, n, a, la, w, wk, lw, info); }
SYEVD(s, float) SYEVD(d, double)
#define HEEVR(pre, X, Rr) extern "C" void pre##heevr_(const char *, const char *, const char *, const int *, X *, const int *, const Rr *, const Rr *, const int *, const int *, const Rr *, int *, Rr *, X *, const int *, int *, X *, const int *, Rr *, const int *, int *, const int *, int *); \
extern "C" void __wrap_##pre##heevr_(const char *j, const char *r, const char *u, const int *n, X *a, const int *la, const Rr *vl, const Rr *vu, const int *il, const int *iu, const Rr *ab, int *m, Rr *w, X *z, const int *lz, int *isz, X *wk, const int *lw, Rr *rw, const int *lr, int *iw, const int *li, int *info) { PC; mat(a, *n, *n, *la, sizeof(X), true, "heevr operand"); mat(z, *n, *n, *lz, sizeof(X), true, "heevr result"); access_range(w, *n * sizeof(Rr), true, "eigenvalues"); if (*lw > 0) access_range(wk, *lw * sizeof(X), true, "heevr work"); if (*lr > 0) access_range(rw, *lr * sizeof(Rr), true, "heevr work"); if (*li > 0) access_range(iw, *li * 4, true, "heevr work"); access_range(isz, 8 * (size_t)*n, true, "heevr support"); \
  pre##heevr_(j, r, u, n, a, la, vl, vu, il, iu, ab, m, w, z, lz, isz, wk, lw, rw, lr, iw, li, info); }
HEEVR(c, std::complex<float>, float) HEEVR(z, std::complex<double>, double)
