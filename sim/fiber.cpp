// Fibers, thread-team scheduler (simulated OpenMP runtime), access hooks, race detector.
#include "sim.h"
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <cstdarg>
#include <cstdlib>
#include <cerrno>
#include <link.h>
#include <dlfcn.h>
#include <sys/time.h>
#include <algorithm>
#include "layout.h"

Sim S;
void mpi_guard_update();

// ------------------------------------------------------------------ fibers
static const size_t STACK_SZ = 1u << 20;
struct Team;
struct OmpLock;
enum FState { F_IDLE, F_RUN, F_BLOCK, F_DONE };
struct Fiber {
  void *sp = nullptr;
  char *base = nullptr;
  int rank = 0, tid = 0;
  FState st = F_IDLE;
  Team *team = nullptr;
  OmpLock *waitlock = nullptr;
  void *waitcrit = nullptr;
  int waitbar = -1;
  bool waitjoin = false;
  bool used = false;
  uint32_t prio = 0;
  uint16_t clk = 1;
  uint16_t vc[MAX_TEAM];
  void *pcs[512];
  int depth = 0;
};
struct Team {
  int n = 1;
  void (*fn)(void *) = nullptr;
  void *data = nullptr;
  Fiber *m[MAX_TEAM];
  int done = 0;
  int bar_count = 0, bar_gen = 0;
  int single_next = 0;
  int single_seen[MAX_TEAM];
  Team *outer = nullptr;
  int outer_tid = 0;
  // dynamic loops
  long lnext = 0, lend = 0, lincr = 1, lchunk = 1;
  unsigned long long ulnext = 0, ulend = 0, ulincr = 1, ulchunk = 1;
  int loop_gen = 0; int loop_seen[MAX_TEAM]; int loop_users = 0;
  bool seq = true;
  uint16_t barvc[MAX_TEAM];
};
static Fiber g_fib[MAX_RANKS][MAX_TEAM];
static Fiber *cur = nullptr;
static Fiber *rank_cur[MAX_RANKS];      // fiber to resume for each rank
static bool rank_done[MAX_RANKS];
static const std::function<bool()> *rank_cond[MAX_RANKS];
static void *host_sp;
static rank_main_fn g_main;
static bool par_active = false;         // current rank is inside a multi-thread region
static uint32_t g_gen = 1;              // race-detector region generation
static int64_t countdown = INT64_MAX;
static Rng r_sched(1), r_rank(1), r_misc(1);
static uint64_t block_idx, rank_idx, misc_idx;
static size_t in_pre, in_blk, in_rank, in_misc;
static int icv_threads[MAX_RANKS];

extern "C" void sim_switch(void **save, void *load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static void fiber_entry();
static void init_stack(Fiber *f) {
  uintptr_t top = (uintptr_t)f->base + STACK_SZ;
  top &= ~(uintptr_t)63;
  uint64_t *p = (uint64_t *)top;
  *--p = 0;                       // alignment / fake return
  *--p = (uint64_t)(void *)fiber_entry;  // ret target: rsp at entry == 16n+8
  for (int i = 0; i < 6; i++) *--p = 0;
  --p; uint32_t mx = 0x1f80; uint16_t cw = 0x37f;
  memset(p, 0, 8); memcpy(p, &mx, 4); memcpy((char *)p + 4, &cw, 2);
  f->sp = p; f->depth = 0;
}

static void fill_stack(Fiber *f) {
  char *top = f->base + STACK_SZ;
  const size_t n = 48 * 1024;
  static unsigned char pat[4096]; static int lastfill = -1; static uint64_t lastseed = ~0ull;
  if (lastfill != S.cfg.fill || lastseed != S.cfg.data_seed) { for (int i = 0; i < 4096; i++) pat[i] = fill_byte(i); lastfill = S.cfg.fill; lastseed = S.cfg.data_seed; }
  for (size_t o = 0; o < n; o += 4096) memcpy(top - n + o, pat, 4096);
}
__attribute__((noinline)) void scribble_stack() {
  volatile unsigned char b[8192];
  for (int i = 0; i < 8192; i++) b[i] = fill_byte(i * 7 + 3);
  asm volatile("" ::"r"(b) : "memory");
  S.st.stack_scribbles++;
}

// ------------------------------------------------------------------ library writable segment (per rank image)
static char *seg_base; static size_t seg_len;
static std::vector<char> seg_pristine, seg_img[MAX_RANKS];
static uintptr_t lib_lo, lib_hi;
static int seg_loaded = -1;
static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
  if (!i->dlpi_name || !strstr(i->dlpi_name, "/libbmlsim")) return 0;
  uintptr_t wlo = ~0ul, whi = 0, rlo = 0, rhi = 0; lib_lo = ~0ul; lib_hi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &p = i->dlpi_phdr[k];
    uintptr_t a = i->dlpi_addr + p.p_vaddr, b = a + p.p_memsz;
    if (p.p_type == PT_LOAD) { lib_lo = std::min(lib_lo, a); lib_hi = std::max(lib_hi, b); if (p.p_flags & PF_W) { wlo = std::min(wlo, a); whi = std::max(whi, b); } }
    if (p.p_type == PT_GNU_RELRO) { rlo = a; rhi = (b + 4095) & ~4095ul; }
  }
  if (whi) { if (rhi && rlo <= wlo) wlo = std::max(wlo, rhi); if (wlo < whi) { seg_base = (char *)wlo; seg_len = whi - wlo; } }
  return 1;
}
void load_library_segment() {
  dl_iterate_phdr(phdr_cb, nullptr);
  if (!seg_base) { fprintf(stderr, "no writable segment of libbmlsim.so found\n"); exit(3); }
  seg_pristine.assign(seg_base, seg_base + seg_len);
}
static void seg_switch(int r) {
  if (seg_loaded == r) return;
  if (seg_loaded >= 0) memcpy(seg_img[seg_loaded].data(), seg_base, seg_len);
  memcpy(seg_base, seg_img[r].data(), seg_len);
  seg_loaded = r;
}

// ------------------------------------------------------------------ shadow for races
struct Cell { uint32_t gen; uint16_t wclk; uint8_t wtid; uint8_t pad; uint16_t rclk[MAX_TEAM]; };
static Cell *g_cells; static Cell *g_segcells; static size_t g_segcells_n;
static inline Cell *cell_of(uintptr_t a) {
  if (a - ARENA_BASE < REGION_SIZE) return g_cells + ((a - ARENA_BASE) >> 2);
  if (a - (uintptr_t)seg_base < seg_len) return g_segcells + ((a - (uintptr_t)seg_base) >> 2);
  return nullptr;
}

static bool segv_armed = false;
static void on_segv(int sig, siginfo_t *si, void *);
static void on_alarm(int) {
  if (!cur) return;
  S.viol.set = false;
  sim_violate("hang", "no progress: the operation keeps computing without end (watchdog)");
}
void sim_init() {
  void *p = mmap((void *)ARENA_BASE, REGION_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)ARENA_BASE) { perror("mmap region"); exit(3); }
  g_cells = (Cell *)mmap((void *)CELL_BASE, (REGION_SIZE >> 2) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (g_cells == MAP_FAILED) { perror("mmap cells"); exit(3); }
  char *sb = (char *)STACK_BASE;
  for (int r = 0; r < MAX_RANKS; r++) for (int t = 0; t < MAX_TEAM; t++) {
    Fiber &f = g_fib[r][t]; f.rank = r; f.tid = t; f.base = sb; sb += STACK_SZ;
    mprotect(f.base, 4096, PROT_NONE);
    f.base += 4096; // usable part; STACK_SZ top computed below
    f.base -= 4096;
  }
  load_library_segment();
  g_segcells_n = seg_len / 4 + 4; g_segcells = (Cell *)calloc(g_segcells_n, sizeof(Cell));
  mem_init();
  stack_t ss; ss.ss_sp = malloc(1 << 17); ss.ss_size = 1 << 17; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGILL, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr);
  struct sigaction al; memset(&al, 0, sizeof al); al.sa_handler = on_alarm; al.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(SIGVTALRM, &al, nullptr);
}
static void on_segv(int sig, siginfo_t *si, void *) {
  if (!cur) { signal(sig, SIG_DFL); raise(sig); return; }
  uintptr_t a = (uintptr_t)si->si_addr;
  if (S.viol.set) { sim_end_run(); }
  const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : "SIGILL";
  uintptr_t sb = (uintptr_t)cur->base;
  if (a >= sb && a < sb + 4096) sim_violate("crash", "stack overflow");
  if (a < 65536) sim_violate("crash", "%s: null pointer dereference (+%zu)", n, (size_t)a);
  sim_violate("crash", "%s at a wild address", n);
}

// ------------------------------------------------------------------ ending a run
static bool sym_ok = true;
std::string symbolize_stack() {
  if (!cur) return "";
  std::string out; int n = 0;
  for (int i = cur->depth - 1; i >= 0 && n < 8; i--) {
    // pcs[] holds caller pcs pushed by function entry; frame i's caller
    Dl_info d; if (dladdr(cur->pcs[i], &d) && d.dli_sname) { if (n) out += " < "; out += d.dli_sname; n++; }
  }
  return out;
}
static void *g_fault_pc = nullptr;
static std::string pc_name(void *pc) {
  Dl_info d; if (pc && dladdr(pc, &d) && d.dli_fname && strstr(d.dli_fname, "/libbmlsim")) {
    char cmd[512]; snprintf(cmd, sizeof cmd, "addr2line -f -s -e '%s' 0x%lx 2>/dev/null", d.dli_fname, (unsigned long)((char *)pc - (char *)d.dli_fbase - 1));
    if (sym_ok) { FILE *f = popen(cmd, "r"); if (f) { char fn[256] = "", ln[256] = ""; if (!fgets(fn, 256, f)) fn[0] = 0; if (!fgets(ln, 256, f)) ln[0] = 0; pclose(f); fn[strcspn(fn, "\n")] = 0; ln[strcspn(ln, "\n(")] = 0; if (fn[0] && fn[0] != '?') { std::string s = fn; size_t p = s.find("._omp_fn"); if (p != std::string::npos) s.resize(p); return s + "@" + ln; } } }
    if (d.dli_sname) return d.dli_sname;
  }
  return "";
}
std::string cur_where() { std::string w = pc_name(g_fault_pc); return w; }
extern std::string g_rank_op[MAX_RANKS];
bool g_symbolize = false;
std::string g_variant;
void sim_violate(const char *cls, const char *fmt, ...) {
  if (!S.viol.set) {
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    S.viol.set = true; S.viol.cls = cls; S.viol.msg = b; S.viol.op = g_rank_op[S.cur_rank]; S.viol.rank = S.cur_rank;
    if (cur) { S.viol.stack = symbolize_stack(); }
    if (g_symbolize && g_fault_pc) S.viol.where = pc_name(g_fault_pc);
    uint64_t h = 0; for (const char *c = cls; *c; c++) h = hmix(h, *c); for (char c : S.viol.msg) h = hmix(h, (unsigned char)c); ev(h);
  }
  sim_end_run();
}
void sim_end_run() {
  void *dummy; cur = nullptr; par_active = false; countdown = INT64_MAX;
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGVTALRM); sigprocmask(SIG_UNBLOCK, &ss, nullptr);
  sim_switch(&dummy, host_sp);
  __builtin_unreachable();
}

// ------------------------------------------------------------------ rank scheduling
static int choose_recorded(std::vector<std::pair<uint64_t,int>> &out, const std::vector<std::pair<uint64_t,int>> &in, size_t &pos, uint64_t &idx, int n, int rnd, int dflt) {
  uint64_t i = idx++;
  int c;
  if (S.replay) { while (pos < in.size() && in[pos].first < i) pos++; c = dflt; if (pos < in.size() && in[pos].first == i) c = in[pos].second; if (c >= n || c < 0) c = dflt; }
  else c = rnd;
  if (c != dflt) out.push_back({i, c});
  ev(0x1000 + c);
  return c;
}
int misc_choice(int n, double p) {
  int rnd = 0; if (!S.replay && n > 1 && r_misc.chance(p)) rnd = 1 + r_misc.below(n - 1);
  return choose_recorded(S.out.misc, S.in.misc, in_misc, misc_idx, n, rnd, 0);
}
static int stalled_rank = -1;
static void switch_rank(int r) {
  Fiber *me = cur; Fiber *to = rank_cur[r];
  if (to == me) return;
  if (me) rank_cur[me->rank] = me;
  S.st.rank_switches++; ev(0x2000 + r); S.schedhash = hmix(S.schedhash, 0x2000 + r);
  seg_switch(r); S.cur_rank = r;
  cur = to; par_active = cur->team && cur->team->n > 1;
  if (me) sim_switch(&me->sp, to->sp); else { void *d; sim_switch(&d, to->sp); }
}
// pick which rank continues (or deliver messages) until someone can run; returns rank
static void rank_dispatch(bool must_block) {
  for (;;) {
    int cand[MAX_RANKS + 64]; int n = 0; int nr = S.cfg.nranks; int me = S.cur_rank;
    for (int k = 0; k < nr; k++) {
      int r = (me + k) % nr; if (rank_done[r]) continue;
      if (rank_cond[r] && !(*rank_cond[r])()) continue;
      cand[n++] = r;
    }
    std::vector<int> ch; mpi_deliverable(ch);
    int nrk = n;
    for (size_t i = 0; i < ch.size() && n < (int)(sizeof cand / sizeof *cand); i++) cand[n++] = 1000 + ch[i];
    if (n == 0) {
      std::string who; for (int r = 0; r < nr; r++) if (!rank_done[r]) { who += " rank" + std::to_string(r); }
      bool all_done = who.empty();
      if (all_done) sim_end_run();
      g_fault_pc = nullptr;
      sim_violate("deadlock", "all unfinished ranks are blocked and no message is in flight:%s", who.c_str());
    }
    int rnd = 0;
    if (!S.replay && n > 1) {
      switch (S.cfg.rank_policy) {
        case 0: rnd = r_rank.below(n); break;                                   // uniform
        case 1: rnd = nrk ? r_rank.below(nrk) : r_rank.below(n); break;         // messages as late as possible
        case 2: rnd = (n > nrk) ? nrk + r_rank.below(n - nrk) : r_rank.below(n); break; // messages at once
        case 3: { rnd = 0; break; }                                             // run to block
        case 4: { // one rank stalled for as long as possible
          int pool[MAX_RANKS + 64]; int m = 0; for (int i = 0; i < n; i++) if (cand[i] != stalled_rank) pool[m++] = i;
          if (m) rnd = pool[r_rank.below(m)]; else { rnd = 0; S.st.stalls++; }
          break; }
        case 5: rnd = r_rank.chance(0.2) ? (int)r_rank.below(n) : 0; break;
        case 6: rnd = n - 1; break;
      }
    }
    int c = choose_recorded(S.out.rank, S.in.rank, in_rank, rank_idx, n, rnd, 0);
    if (cand[c] >= 1000) { if (c > nrk) S.st.reordered++; mpi_deliver(cand[c] - 1000); S.schedhash = hmix(S.schedhash, cand[c]); if (++S.total_steps > S.step_limit) sim_violate("hang", "step limit exceeded"); continue; }
    if (nrk < n) S.st.delayed++;
    int r = cand[c];
    rank_cond[r] = nullptr;
    switch_rank(r);
    mpi_guard_update();
    return;
  }
}
void rank_wait(const std::function<bool()> &ready) {
  if (ready() && S.cfg.nranks == 1) return;
  rank_cond[S.cur_rank] = &ready;
  if (++S.total_steps > S.step_limit) sim_violate("hang", "step limit exceeded");
  rank_dispatch(true);
}
void rank_yield() {
  if (S.cfg.nranks == 1) return;
  if (++S.total_steps > S.step_limit) sim_violate("hang", "step limit exceeded");
  rank_cond[S.cur_rank] = nullptr;
  rank_dispatch(false);
}

// ------------------------------------------------------------------ team scheduling
// policies: 0 run-to-block lowest tid, 1 highest tid first, 2 random order run-to-block,
//           3 random walk with preemption, 4 priority (PCT-like), 5 lockstep round robin
static void arm_countdown() {
  if (!par_active) { countdown = INT64_MAX; return; }
  if (S.replay) {
    while (in_pre < S.in.preempt.size() && S.in.preempt[in_pre].first <= S.steps) in_pre++;
    countdown = in_pre < S.in.preempt.size() ? (int64_t)(S.in.preempt[in_pre].first - S.steps) : INT64_MAX;
    return;
  }
  switch (S.cfg.policy) {
    case 3: case 4: { double m = S.cfg.preempt_mean; double u = r_sched.unit(); int64_t g = 1 + (int64_t)(-m * __builtin_log(1 - u)); countdown = g; break; }
    case 5: countdown = S.cfg.preempt_mean < 1 ? 1 : (int64_t)S.cfg.preempt_mean; break;
    default: countdown = INT64_MAX;
  }
}
static inline bool runnable(Fiber *f) { return f->st == F_RUN; }
static void to_fiber(Fiber *t) {
  Fiber *me = cur; if (t == me) return;
  S.st.switches++; ev(0x3000 + t->tid); S.schedhash = hmix(S.schedhash, (S.steps << 4) | t->tid);
  cur = t; rank_cur[t->rank] = t; par_active = cur->team && cur->team->n > 1;
  sim_switch(&me->sp, t->sp);
}
static int pick_team(Team *T, bool preempt) {
  int c[MAX_TEAM], n = 0;
  for (int i = 0; i < T->n; i++) if (runnable(T->m[i])) c[n++] = i;
  if (!n) return -1;
  if (S.replay) return -2;
  switch (S.cfg.policy) {
    case 1: return c[n - 1];
    case 2: case 3: return c[r_sched.below(n)];
    case 4: { int b = c[0]; for (int i = 1; i < n; i++) if (T->m[c[i]]->prio > T->m[b]->prio) b = c[i]; return b; }
    case 5: { for (int k = 1; k <= T->n; k++) { int t = (cur->tid + k) % T->n; if (runnable(T->m[t])) return t; } return c[0]; }
    default: return c[0];
  }
}
static void team_block() {   // current fiber cannot continue (or has finished): run somebody else
  Team *T = cur->team;
  int c[MAX_TEAM], n = 0;
  for (int i = 0; i < T->n; i++) if (runnable(T->m[i])) c[n++] = i;
  if (!n) sim_violate("deadlock", "every thread of the team is blocked on a lock or barrier");
  int ch;
  if (n == 1 && !S.replay) { ch = c[0]; block_idx++; }
  else {
    uint64_t i = block_idx++;
    ch = c[0];
    if (S.replay) { while (in_blk < S.in.block.size() && S.in.block[in_blk].first < i) in_blk++; if (in_blk < S.in.block.size() && S.in.block[in_blk].first == i) { int t = S.in.block[in_blk].second; if (t < T->n && runnable(T->m[t])) ch = t; } }
    else ch = pick_team(T, false);
    if (ch != c[0]) S.out.block.push_back({i, ch});
  }
  to_fiber(T->m[ch]);
}
static void preempt_now() {
  Team *T = cur->team; int t;
  if (S.replay) while (in_pre < S.in.preempt.size() && S.in.preempt[in_pre].first < S.steps) in_pre++;
  if (S.replay) t = (in_pre < S.in.preempt.size() && S.in.preempt[in_pre].first == S.steps) ? S.in.preempt[in_pre].second : cur->tid;
  else {
    if (S.cfg.policy == 4) { cur->prio = r_sched.below(1000); }
    t = pick_team(T, true);
  }
  if (t >= 0 && t < T->n && runnable(T->m[t]) && t != cur->tid) {
    S.out.preempt.push_back({S.steps, t}); S.st.preempts++;
    to_fiber(T->m[t]);
  }
  arm_countdown();
}

static void fiber_entry() {
  Fiber *f = cur;
  if (f->tid == 0) {
    g_main(f->rank);
    f->st = F_DONE; rank_done[f->rank] = true;
    rank_dispatch(true);
    __builtin_trap();
  }
  arm_countdown();
  f->team->fn(f->team->data);
  f->st = F_DONE; Team *T = f->team; T->done++;
  if (T->done == T->n && T->m[0]->waitjoin) { T->m[0]->waitjoin = false; T->m[0]->st = F_RUN; }
  team_block();
  __builtin_trap();
}

// ------------------------------------------------------------------ run
void sim_run(rank_main_fn fn) {
  g_main = fn;
  S.viol = Violation(); S.hash = 0; S.schedhash = 0; S.steps = 0; S.total_steps = 0; S.out = Sched();
  S.logbuf.clear(); S.expect_fatal.clear(); S.ended_fatal = false; S.fatal_msg.clear(); S.cur_op.clear(); S.in_lib = false;
  r_sched = Rng(S.cfg.sched_seed * 3 + 1); r_rank = Rng(S.cfg.sched_seed * 3 + 2); r_misc = Rng(S.cfg.sched_seed * 3 + 3);
  block_idx = rank_idx = misc_idx = 0; in_pre = in_blk = in_rank = in_misc = 0;
  stalled_rank = S.cfg.nranks > 1 ? (int)r_rank.below(S.cfg.nranks) : -1;
  g_fault_pc = nullptr; countdown = INT64_MAX; par_active = false;
  mem_reset(); io_reset(); mpi_reset(S.cfg.nranks);
  for (int r = 0; r < S.cfg.nranks; r++) {
    seg_img[r] = seg_pristine; rank_done[r] = false; rank_cond[r] = nullptr; icv_threads[r] = S.cfg.team;
    for (int t = 0; t < MAX_TEAM; t++) { g_fib[r][t].used = false; g_fib[r][t].st = F_IDLE; g_fib[r][t].team = nullptr; }
    Fiber &f = g_fib[r][0]; fill_stack(&f); init_stack(&f); f.st = F_RUN; f.used = true; rank_cur[r] = &f;
  }
  seg_loaded = -1; seg_switch(0);
  for (auto c = g_segcells; c < g_segcells + g_segcells_n; c++) c->gen = 0;
  S.cur_rank = 0;
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &it, nullptr);
  cur = rank_cur[0];
  sim_switch(&host_sp, cur->sp);
  cur = nullptr; par_active = false; countdown = INT64_MAX;
  S.st.runs++;
}

// ------------------------------------------------------------------ access hook
bool in_parallel_region() { return par_active; }
bool is_thread_main() { return cur && cur->tid == 0 && !par_active; }
static __attribute__((noinline)) void race_report(uintptr_t a, size_t n, bool w, int other, bool otherw) {
  std::string d = mem_describe(a);
  sim_violate("race", "data race: thread %d %s %zu bytes that thread %d %s without synchronisation (%s)", cur->tid, w ? "writes" : "reads", n, other, otherw ? "wrote" : "read", d.c_str());
}
static inline void race_cell(Cell *c, uintptr_t a, size_t n, bool w) {
  int t = cur->tid;
  if (c->gen != g_gen) { c->gen = g_gen; c->wclk = 0; memset(c->rclk, 0, sizeof c->rclk); }
  if (c->wclk && c->wtid != t && cur->vc[c->wtid] < c->wclk) race_report(a, n, w, c->wtid, true);
  if (w) {
    for (int i = 0; i < MAX_TEAM; i++) if (c->rclk[i] && i != t && cur->vc[i] < c->rclk[i]) race_report(a, n, w, i, false);
    c->wclk = cur->clk; c->wtid = t; memset(c->rclk, 0, sizeof c->rclk);
  } else c->rclk[t] = cur->clk;
}
static void race_access(uintptr_t a, size_t n, bool w) {
  if (S.cfg.norace) return;
  if (n < 4 && (a & 3) + n <= 4 && n < 4) return; // sub-word accesses are not tracked
  uintptr_t e = a + n;
  for (uintptr_t x = a & ~3ul; x < e; x += 4) { Cell *c = cell_of(x); if (c) race_cell(c, a, n, w); }
}
static __attribute__((noinline)) void bad_access(uintptr_t a, size_t n, bool w, const std::string &why) {
  const char *cls = why.compare(0, 4, "uaf:") == 0 ? "use-after-free" : "out-of-bounds";
  sim_violate(cls, "%s of %zu bytes: %s", w ? "write" : "read", n, why.c_str());
}
extern uint8_t *g_ashadow;
static bool check_write_ro(uintptr_t a) { return false; }
static inline void hook(uintptr_t a, size_t n, bool w, void *pc) {
  if (__builtin_expect(!cur, 0)) return;
  if (a - ARENA_BASE < ARENA_SIZE) {
    uint8_t s = g_ashadow[(a - ARENA_BASE) >> 3];
    if (__builtin_expect(s != 0 || (a & 7) + n > 8, 0)) {
      std::string why;
      if (!mem_valid(a, n, &why)) { g_fault_pc = pc; bad_access(a, n, w, why); }
    }
    if (__builtin_expect(g_mpi_guard, 0)) { g_fault_pc = pc; mpi_note_access(a, n, w); }
  } else if (__builtin_expect(a < 0x10000, 0)) { g_fault_pc = pc; sim_violate("crash", "%s through a null pointer (+%zu)", w ? "write" : "read", (size_t)a); }
  if (par_active) {
    g_fault_pc = pc;
    race_access(a, n, w);
    S.steps++;
    if (--countdown <= 0) preempt_now();
  }
  if (__builtin_expect(++S.total_steps > S.step_limit, 0)) { g_fault_pc = pc; sim_violate("hang", "step limit of %llu accesses exceeded", (unsigned long long)S.step_limit); }
}
void access_range(const void *p, size_t n, bool w, const char *what) {
  if (!cur || !n) return;
  uintptr_t a = (uintptr_t)p;
  if (a < 0x10000) sim_violate("crash", "null pointer passed to %s", what);
  if (a - ARENA_BASE < ARENA_SIZE) {
    std::string why; if (!mem_valid(a, n, &why)) bad_access(a, n, w, std::string(why) + " (" + what + ")");
    if (g_mpi_guard) mpi_note_access(a, n, w);
  }
  if (par_active) { race_access(a, n, w); S.steps++; if (--countdown <= 0) preempt_now(); }
  S.total_steps += 1 + n / 64;
  if (S.total_steps > S.step_limit) sim_violate("hang", "step limit exceeded");
}
bool lib_segment_refs(uintptr_t a) { for (size_t i = 0; i + 8 <= seg_len; i += 8) { uintptr_t v; memcpy(&v, seg_base + i, 8); if (v == a) return true; } return false; }
bool ptr_in_region(const void *p) { return (uintptr_t)p - ARENA_BASE < REGION_SIZE; }
int arena_capture_stack(void **pcs, int n) {
  if (!cur) return 0; int k = 0;
  for (int i = cur->depth - 1; i >= 0 && k < n; i--) if (i < 512) pcs[k++] = cur->pcs[i];
  return k;
}
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) { if (cur) { if (cur->depth < 512) cur->pcs[cur->depth] = __builtin_extract_return_addr(RA); cur->depth++; if (cur->depth > 100000) sim_violate("crash", "unbounded recursion"); } }
void __tsan_func_exit() { if (cur && cur->depth) cur->depth--; }
#define RW(N) \
  void __tsan_read##N(void *a) { hook((uintptr_t)a, N, false, RA); } \
  void __tsan_write##N(void *a) { hook((uintptr_t)a, N, true, RA); } \
  void __tsan_unaligned_read##N(void *a) { hook((uintptr_t)a, N, false, RA); } \
  void __tsan_unaligned_write##N(void *a) { hook((uintptr_t)a, N, true, RA); } \
  void __tsan_volatile_read##N(void *a) { hook((uintptr_t)a, N, false, RA); } \
  void __tsan_volatile_write##N(void *a) { hook((uintptr_t)a, N, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (n) hook((uintptr_t)a, n, false, RA); }
void __tsan_write_range(void *a, unsigned long n) { if (n) hook((uintptr_t)a, n, true, RA); }
void __tsan_vptr_update(void *a, void *) { hook((uintptr_t)a, 8, true, RA); }
void __tsan_vptr_read(void *a) { hook((uintptr_t)a, 8, false, RA); }
// kernel-address instrumentation variant (memory-safety build: stack and global redzones)
#define KA(N) \
  void __asan_load##N##_noabort(uintptr_t a) { extern void sim_kasan_check(uintptr_t, size_t, bool, void *); sim_kasan_check(a, N, false, RA); hook(a, N, false, RA); } \
  void __asan_store##N##_noabort(uintptr_t a) { extern void sim_kasan_check(uintptr_t, size_t, bool, void *); sim_kasan_check(a, N, true, RA); hook(a, N, true, RA); }
}
void sim_set_fault_pc(void *pc) { g_fault_pc = pc; }
static void sched_point(void *pc) { if (par_active) { g_fault_pc = pc; S.steps++; if (--countdown <= 0) preempt_now(); } if (++S.total_steps > S.step_limit) sim_violate("hang", "step limit exceeded"); }

// ------------------------------------------------------------------ synchronisation: vector clocks
static inline void vc_join(uint16_t *d, const uint16_t *s) { for (int i = 0; i < MAX_TEAM; i++) if (s[i] > d[i]) d[i] = s[i]; }
static inline void vc_release(Fiber *f, uint16_t *dst) { f->vc[f->tid] = f->clk; vc_join(dst, f->vc); if (f->clk < 65000) f->clk++; f->vc[f->tid] = f->clk; }
struct SyncVar { uint32_t gen = 0; uint16_t vc[MAX_TEAM]; };
static inline void sv_fresh(SyncVar &s) { if (s.gen != g_gen) { s.gen = g_gen; memset(s.vc, 0, sizeof s.vc); } }
static void sv_acquire(SyncVar &s) { if (!par_active) return; sv_fresh(s); vc_join(cur->vc, s.vc); }
static void sv_release(SyncVar &s) { if (!par_active) return; sv_fresh(s); vc_release(cur, s.vc); }

struct OmpLock { uint32_t magic; SyncVar sv; Fiber *owner = nullptr; int depth = 0; bool alive = false; };
static std::map<uintptr_t, OmpLock> g_locks;    // keyed by address of the omp_lock_t
static std::map<uintptr_t, SyncVar> g_atomics;
static OmpLock g_atomic_lock, g_crit_default;
void sync_reset() { g_locks.clear(); g_atomics.clear(); g_atomic_lock = OmpLock(); g_crit_default = OmpLock(); }
static void lock_acquire(OmpLock &l, const char *what, void *pc) {
  sched_point(pc);
  if (!par_active) { if (l.owner == cur) sim_violate("deadlock", "%s acquired twice by the same thread", what); l.owner = cur; return; }
  while (l.owner) {
    if (l.owner == cur) sim_violate("deadlock", "%s acquired twice by the same thread", what);
    S.st.lock_contention++;
    cur->st = F_BLOCK; cur->waitlock = &l; team_block();
    cur->waitlock = nullptr;
    if (par_active) arm_countdown();
  }
  l.owner = cur; sv_acquire(l.sv);
}
static void lock_release(OmpLock &l, const char *what, void *pc) {
  if (l.owner != cur) sim_violate("sync", "%s released by a thread that does not hold it", what);
  l.owner = nullptr;
  if (par_active) {
    sv_release(l.sv);
    Team *T = cur->team; for (int i = 0; i < T->n; i++) if (T->m[i]->st == F_BLOCK && T->m[i]->waitlock == &l) T->m[i]->st = F_RUN;
  }
  sched_point(pc);
}

// ------------------------------------------------------------------ atomics
template <class T> static T at_rmw(volatile T *p, T (*f)(T, T), T v, void *pc) {
  sched_point(pc); std::string why; if (mem_in_arena((uintptr_t)p) && !mem_valid((uintptr_t)p, sizeof(T), &why)) bad_access((uintptr_t)p, sizeof(T), true, why);
  SyncVar *s = par_active ? &g_atomics[(uintptr_t)p] : nullptr; if (s) { sv_acquire(*s); }
  T o = *p; *p = f(o, v); if (s) sv_release(*s); return o;
}
#define ATOMICS(B, T) \
extern "C" { \
T __tsan_atomic##B##_load(const volatile T *p, int) { sched_point(RA); if (par_active) sv_acquire(g_atomics[(uintptr_t)p]); return *p; } \
void __tsan_atomic##B##_store(volatile T *p, T v, int) { sched_point(RA); *p = v; if (par_active) sv_release(g_atomics[(uintptr_t)p]); } \
T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { return at_rmw<T>(p, [](T, T b) { return b; }, v, RA); } \
T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { return at_rmw<T>(p, [](T a, T b) { return (T)(a + b); }, v, RA); } \
T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { return at_rmw<T>(p, [](T a, T b) { return (T)(a - b); }, v, RA); } \
T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { return at_rmw<T>(p, [](T a, T b) { return (T)(a & b); }, v, RA); } \
T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { return at_rmw<T>(p, [](T a, T b) { return (T)(a | b); }, v, RA); } \
T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) { return at_rmw<T>(p, [](T a, T b) { return (T)(a ^ b); }, v, RA); } \
T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int) { return at_rmw<T>(p, [](T a, T b) { return (T)~(a & b); }, v, RA); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T d, int, int) { sched_point(RA); if (par_active) sv_acquire(g_atomics[(uintptr_t)p]); if (*p == *e) { *p = d; if (par_active) sv_release(g_atomics[(uintptr_t)p]); return 1; } *e = *p; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T d, int a, int b) { return __tsan_atomic##B##_compare_exchange_strong(p, e, d, a, b); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T d, int a, int b) { T x = e; __tsan_atomic##B##_compare_exchange_strong(p, &x, d, a, b); return x; } \
}
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ OpenMP runtime
static void region(void (*fn)(void *), void *data, unsigned want, Team *preset = nullptr) {
  int n = want ? (int)want : icv_threads[S.cur_rank];
  if (n > MAX_TEAM) n = MAX_TEAM;
  if (!cur) { fn(data); return; }
  if (cur->team && cur->team->n > 1) n = 1;          // nested regions are serialised
  if (n > 1 && S.cfg.team > 1) {
    int d = misc_choice(n, S.cfg.shrink);            // fewer threads than requested
    if (d) { n -= d; S.st.shrinks++; }
  }
  S.st.regions++;
  Team T; if (preset) T = *preset;
  T.n = n; T.fn = fn; T.data = data; T.outer = cur->team; T.outer_tid = cur->tid;
  for (int i = 0; i < MAX_TEAM; i++) { T.single_seen[i] = 0; T.loop_seen[i] = preset ? 0 : 0; }
  if (n <= 1) {
    T.m[0] = cur; Team *o = cur->team; 
    // keep race tracking of an enclosing team: only the loop bookkeeping is new
    static thread_local int dummy; (void)dummy;
    if (o && o->n > 1) { // nested inside a real team: run inline, tid 0 of 1
      extern void nested_inline(void (*)(void *), void *); nested_inline(fn, data); return;
    }
    cur->team = &T; fn(data); cur->team = o; return;
  }
  g_gen++; if (g_gen == 0) g_gen = 1;
  Fiber *me = cur; Team *o = me->team;
  T.m[0] = me;
  for (int t = 0; t < n; t++) {
    Fiber *f = &g_fib[me->rank][t]; T.m[t] = f; f->clk = 1; memset(f->vc, 0, sizeof f->vc); f->vc[t] = 1; f->prio = 1000 + r_sched.below(1000000);
    f->waitlock = nullptr; f->waitbar = -1; f->waitjoin = false;
    if (t) { if (!f->used) { fill_stack(f); f->used = true; } init_stack(f); f->team = nullptr; }
  }
  for (int t = 0; t < n; t++) { T.m[t]->team = &T; T.m[t]->st = F_RUN; }
  par_active = true; arm_countdown();
  // the first thread to run is a scheduling decision too
  {
    uint64_t i = block_idx++; int ch = 0;
    if (S.replay) { while (in_blk < S.in.block.size() && S.in.block[in_blk].first < i) in_blk++; if (in_blk < S.in.block.size() && S.in.block[in_blk].first == i) ch = S.in.block[in_blk].second; if (ch >= n || ch < 0) ch = 0; }
    else ch = pick_team(&T, false);
    if (ch) S.out.block.push_back({i, ch});
    if (ch) to_fiber(T.m[ch]);
  }
  arm_countdown();
  fn(data);
  T.done++;
  if (T.done < T.n) { me->waitjoin = true; me->st = F_BLOCK; team_block(); }
  me->team = o; me->st = F_RUN; par_active = false; countdown = INT64_MAX;
}
static int nested_depth[MAX_RANKS][MAX_TEAM];
void nested_inline(void (*fn)(void *), void *data) { int &d = nested_depth[cur->rank][cur->tid]; d++; fn(data); d--; }
static inline bool is_nested() { return cur && nested_depth[cur->rank][cur->tid] > 0; }
void nested_reset() { memset(nested_depth, 0, sizeof nested_depth); }
static void barrier(void *pc) {
  if (!par_active || is_nested()) return;
  sched_point(pc);
  Team *T = cur->team;
  for (int i = 0; i < T->n; i++) if (T->m[i]->st == F_DONE) sim_violate("deadlock", "barrier reached by only part of the team");
  T->bar_count++;
  if (T->bar_count == 1) memset(T->barvc, 0, sizeof T->barvc);
  cur->vc[cur->tid] = cur->clk; vc_join(T->barvc, cur->vc);
  if (T->bar_count < T->n) {
    int g = T->bar_gen; cur->waitbar = g; cur->st = F_BLOCK; team_block();
    cur->waitbar = -1;
  } else {
    T->bar_count = 0; T->bar_gen++;
    for (int i = 0; i < T->n; i++) { Fiber *f = T->m[i]; memcpy(f->vc, T->barvc, sizeof f->vc); if (f->clk < 65000) f->clk++; f->vc[f->tid] = f->clk; if (f->waitbar >= 0) { f->st = F_RUN; f->waitbar = -1; } }
  }
  arm_countdown();
}
// work-sharing loops with run-time schedules: chunks are handed out in scheduler order
static void loop_init_long(Team *T, int tid, long s, long e, long incr, long chunk) {
  if (T->loop_users == 0) { T->lnext = s; T->lend = e; T->lincr = incr; T->lchunk = chunk < 1 ? 1 : chunk; }
  T->loop_users++;
}
static bool loop_next_long(Team *T, long *a, long *b) {
  if (T->lincr > 0 ? T->lnext >= T->lend : T->lnext <= T->lend) return false;
  *a = T->lnext; long e = T->lnext + T->lchunk * T->lincr; if (T->lincr > 0 ? e > T->lend : e < T->lend) e = T->lend; *b = e; T->lnext = e; return true;
}
struct LoopKey { Team *t; };
static Team g_serial_team;
static Team *lteam() { if (cur && cur->team && !is_nested()) return cur->team; return &g_serial_team; }
extern "C" {
int omp_get_thread_num(void) { return par_active && !is_nested() ? cur->tid : 0; }
int omp_get_num_threads(void) { return par_active && !is_nested() ? cur->team->n : 1; }
int omp_get_max_threads(void) { return icv_threads[S.cur_rank]; }
int omp_get_num_procs(void) { return S.cfg.team; }
int omp_in_parallel(void) { return par_active; }
int omp_get_level(void) { return par_active; }
int omp_get_thread_limit(void) { return MAX_TEAM; }
int omp_get_dynamic(void) { return S.cfg.shrink > 0; }
void omp_set_dynamic(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_num_devices(void) { return 0; }
int omp_get_default_device(void) { return 0; }
int omp_get_initial_device(void) { return 0; }
int omp_is_initial_device(void) { return 1; }
void omp_set_num_threads(int n) { if (n > 0) icv_threads[S.cur_rank] = n > MAX_TEAM ? MAX_TEAM : n; }
double omp_get_wtime(void) { return (double)S.total_steps * 1e-9; }
typedef struct { unsigned char x[4]; } simlock_t;
void omp_init_lock(void *l) { access_range(l, 4, true, "omp_init_lock"); OmpLock &k = g_locks[(uintptr_t)l]; k = OmpLock(); k.alive = true; }
void omp_destroy_lock(void *l) { auto it = g_locks.find((uintptr_t)l); if (it == g_locks.end() || !it->second.alive) sim_violate("sync", "omp_destroy_lock on an uninitialised lock"); if (it->second.owner) sim_violate("sync", "omp_destroy_lock on a held lock"); it->second.alive = false; }
void omp_set_lock(void *l) { sim_set_fault_pc(RA); { std::string why; if (mem_in_arena((uintptr_t)l) && !mem_valid((uintptr_t)l, 4, &why)) bad_access((uintptr_t)l, 4, true, why); } auto it = g_locks.find((uintptr_t)l); if (it == g_locks.end() || !it->second.alive) sim_violate("sync", "omp_set_lock on an uninitialised lock"); lock_acquire(it->second, "lock", RA); }
void omp_unset_lock(void *l) { auto it = g_locks.find((uintptr_t)l); if (it == g_locks.end() || !it->second.alive) sim_violate("sync", "omp_unset_lock on an uninitialised lock"); lock_release(it->second, "lock", RA); }
int omp_test_lock(void *l) { auto it = g_locks.find((uintptr_t)l); if (it == g_locks.end() || !it->second.alive) sim_violate("sync", "omp_test_lock on an uninitialised lock"); sched_point(RA); if (it->second.owner) return 0; it->second.owner = cur; sv_acquire(it->second.sv); return 1; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { region(fn, data, nt); }
void GOMP_barrier(void) { barrier(RA); }
void GOMP_critical_start(void) { lock_acquire(g_crit_default, "critical section", RA); }
void GOMP_critical_end(void) { lock_release(g_crit_default, "critical section", RA); }
void GOMP_critical_name_start(void **p) { lock_acquire(g_locks[(uintptr_t)p], "critical section", RA); }
void GOMP_critical_name_end(void **p) { lock_release(g_locks[(uintptr_t)p], "critical section", RA); }
void GOMP_atomic_start(void) { lock_acquire(g_atomic_lock, "atomic", RA); }
void GOMP_atomic_end(void) { lock_release(g_atomic_lock, "atomic", RA); }
static void *g_single_copy[MAX_RANKS];
void *GOMP_single_copy_start(void);
void GOMP_single_copy_end(void *p);
bool GOMP_single_start(void) { if (!par_active || is_nested()) return true; Team *T = cur->team; int me = T->single_seen[cur->tid]++; if (me == T->single_next) { T->single_next++; return true; } return false; }
void *GOMP_single_copy_start(void) { if (!par_active || is_nested()) return nullptr; if (GOMP_single_start()) return nullptr; barrier(RA); void *p = g_single_copy[cur->rank]; return p; }
void GOMP_single_copy_end(void *p) { if (!par_active || is_nested()) return; g_single_copy[cur->rank] = p; barrier(RA); }
#define LOOPSTART(name) bool GOMP_loop_##name##_start(long s, long e, long incr, long chunk, long *a, long *b) { Team *T = lteam(); sched_point(RA); loop_init_long(T, 0, s, e, incr, chunk); return loop_next_long(T, a, b); } \
  bool GOMP_loop_##name##_next(long *a, long *b) { sched_point(RA); return loop_next_long(lteam(), a, b); }
LOOPSTART(dynamic) LOOPSTART(guided) LOOPSTART(static) LOOPSTART(nonmonotonic_dynamic) LOOPSTART(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long incr, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, incr, 1, a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long incr, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, incr, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long incr, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, incr, 1, a, b); }
bool GOMP_loop_nonmonotonic_runtime_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
static void loop_leave() { Team *T = lteam(); if (T->loop_users >= (par_active ? T->n : 1)) {} }
void GOMP_loop_end(void) { barrier(RA); lteam()->loop_users = 0; }
void GOMP_loop_end_nowait(void) { loop_leave(); Team *T = lteam(); T->loop_gen++; if (T->loop_gen % (par_active && !is_nested() ? T->n : 1) == 0) T->loop_users = 0; }
#define PARLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned nt, long s, long e, long incr, long chunk, unsigned) { Team p; p.lnext = s; p.lend = e; p.lincr = incr; p.lchunk = chunk < 1 ? 1 : chunk; region(fn, data, nt, &p); }
PARLOOP(dynamic) PARLOOP(guided) PARLOOP(static) PARLOOP(nonmonotonic_dynamic) PARLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *data, unsigned nt, long s, long e, long incr, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, nt, s, e, incr, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned nt, long s, long e, long incr, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, nt, s, e, incr, 1, f); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned nt, long s, long e, long incr, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, nt, s, e, incr, 1, f); }
unsigned GOMP_sections_start(unsigned n) { Team *T = lteam(); sched_point(RA); if (T->loop_users == 0) { T->lnext = 1; T->lend = n + 1; T->lincr = 1; T->lchunk = 1; } T->loop_users++; long a, b; return loop_next_long(T, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next(void) { sched_point(RA); long a, b; return loop_next_long(lteam(), &a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end(void) { barrier(RA); lteam()->loop_users = 0; }
void GOMP_sections_end_nowait(void) { GOMP_loop_end_nowait(); }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned nt, unsigned n, unsigned) { Team p; p.lnext = 1; p.lend = n + 1; p.lincr = 1; p.lchunk = 1; region(fn, data, nt, &p); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) {
  if (cpy) { char *b = (char *)__builtin_alloca(sz + al); char *p = (char *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpy(p, data); fn(p); } else fn(data); }
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
void GOMP_taskyield(void) {}
#define ULOOP(name) bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long chunk, unsigned long long *a, unsigned long long *b) { (void)up; return GOMP_loop_##name##_start((long)s, (long)e, (long)incr, (long)chunk, (long *)a, (long *)b); } \
  bool GOMP_loop_ull_##name##_next(unsigned long long *a, unsigned long long *b) { return GOMP_loop_##name##_next((long *)a, (long *)b); }
ULOOP(dynamic) ULOOP(guided) ULOOP(static) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided)
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned nt, unsigned) { region(fn, data, nt); return nt; }
}
