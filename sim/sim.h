// Deterministic simulator core interface.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <functional>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint32_t below(uint32_t n) { return n <= 1 ? 0 : (uint32_t)((next() >> 11) % n); }
  int range(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  bool chance(double p) { return unit() < p; }
};

static inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }

constexpr int MAX_RANKS = 16;
constexpr int MAX_TEAM = 12;

// ---- configuration of one run (everything that is not an operation) ----
struct RunConfig {
  int nranks = 1;
  int team = 1;            // OpenMP team size offered to the library
  double shrink = 0;       // probability that a region gets fewer threads than requested
  int policy = 0;          // team scheduling policy, see fiber.cpp
  double preempt_mean = 0; // mean accesses between preemptions
  int rank_policy = 0;     // rank/message scheduling policy
  int send_mode = 0;       // 0 eager, 1 synchronous, 2 mixed
  int fill = 0;            // uninitialised-memory fill pattern
  int norace = 0;          // do not report data races (their consequences are searched for instead)
  int intblas = 0;         // matrix products by bml's own gemm, as in a build with BML_INTERNAL_BLAS
  std::string variant;     // which build of the library (build.py, VARIANTS); empty: the default one
  int iobuf = 0;           // stdio buffer size on the simulated disk (0: default)
  uint64_t sched_seed = 1, data_seed = 1;
};

// explicit schedule: decisions recorded in a run, replayable
struct Sched {
  std::vector<std::pair<uint64_t,int>> preempt;   // (step, tid)
  std::vector<std::pair<uint64_t,int>> block;     // (index, choice)
  std::vector<std::pair<uint64_t,int>> rank;      // (index, choice)
  std::vector<std::pair<uint64_t,int>> misc;      // (index, choice): team sizes, send modes, reduction orders
};

struct Violation {
  bool set = false;
  std::string cls;    // class
  std::string msg;    // human text
  std::string op;     // operation in progress
  std::string where;  // innermost library function
  std::string stack;
  int rank = 0;
};

struct Stats {
  uint64_t runs = 0, ops = 0, skipped_ops = 0, regions = 0, switches = 0, steps = 0, preempts = 0;
  uint64_t shrinks = 0, lock_contention = 0, messages = 0, delayed = 0, reordered = 0, sync_sends = 0, collectives = 0;
  uint64_t alloc_calls = 0, alloc_failed = 0, fatal_reported = 0, io_opens = 0, io_faults = 0, io_writes = 0, crashes = 0, corruptions = 0;
  uint64_t exports = 0, comparisons = 0, invalid_calls = 0, stack_scribbles = 0, lapack_limits = 0, rank_switches = 0, stalls = 0;
  std::map<std::string,uint64_t> named;
};

// ---- global simulator state ----
struct Fiber;
struct Sim {
  RunConfig cfg;
  bool replay = false;      // use `in` for scheduling decisions
  Sched in, out;
  Violation viol;
  Stats st;
  uint64_t hash = 0;        // hash of the event log
  uint64_t schedhash = 0;   // hash of the interleaving only
  bool verbose = false;
  // run-time
  uint64_t steps = 0;       // instrumented accesses in multi-threaded regions
  uint64_t total_steps = 0;
  uint64_t step_limit = 0;
  int cur_rank = 0;
  std::string logbuf;       // captured stdout/stderr of library
  bool in_lib = false;
  // fatal handling
  struct PerRank { bool v[MAX_RANKS] = {}; int *r; operator bool() const { return v[*r]; } PerRank &operator=(bool b) { v[*r] = b; return *this; } void clear() { for (bool &b : v) b = false; } };
  PerRank expect_fatal{{}, &cur_rank};   // the current call of this rank may end the program with a reported error
  bool ended_fatal = false; // run ended through a reported fatal error
  bool outcome_unreported = false;
  std::string fatal_msg;
  std::string cur_op;
};
extern Sim S;

static inline void ev(uint64_t v) { S.hash = hmix(S.hash, v); }

// ---- fiber.cpp ----
typedef void (*rank_main_fn)(int rank);
void sim_init();
void sim_run(rank_main_fn fn);           // executes one run to completion
[[noreturn]] void sim_violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void sim_end_run();
void rank_wait(const std::function<bool()> &ready);  // block the current rank
void rank_yield();                                   // scheduling point between ranks
int misc_choice(int n, double p_nonzero);            // recorded choice, 0 default
void load_library_segment();                         // find libbml's writable segment
void access_range(const void *p, size_t n, bool write, const char *what);
std::string symbolize_stack();
extern bool g_symbolize;
extern std::string g_variant;   // the build this simulator is linked with
std::string cur_where();
void scribble_stack();
bool in_parallel_region();
void check_addr_release(const void *p, size_t n);
bool ptr_in_region(const void *p);
bool is_thread_main();
bool lib_segment_refs(uintptr_t a);

// ---- mem.cpp ----
void mem_init();
void mem_reset();
void *mem_alloc(size_t n, size_t align, bool zero, const char *tag, bool user);
void mem_free(void *p, bool user);
void *mem_realloc(void *p, size_t n);
void *mem_alloc_nofail(size_t n, const char *tag);
bool mem_valid(uintptr_t a, size_t n, std::string *why);
bool mem_in_arena(uintptr_t a);
size_t mem_block_size(const void *p);           // 0 if not a live block start
struct AllocInfo { uintptr_t addr; size_t size; bool live; bool user; int rank; uint32_t op; void *pcs[10]; int npcs; bool freed_by_user; };
const AllocInfo *mem_lookup(uintptr_t a);
std::vector<AllocInfo> &mem_table();
size_t mem_live_lib(int rank);                  // number of live library allocations
std::string mem_describe(uintptr_t a);
// allocation faults
struct AllocFault { bool armed = false; int rank = 0; uint64_t count = 0; uint64_t fail_at = 0; bool sticky = false; uint64_t fired = 0; };
extern AllocFault g_afault;
extern uint32_t g_cur_opno;
unsigned char fill_byte(uint64_t i);
int arena_capture_stack(void **pcs, int n);

// ---- io.cpp ----
struct SimFile { std::string data; };
struct Disk { std::map<std::string, SimFile> files; };
struct IoFault {
  enum Kind { NONE, OPEN_FAIL, WRITE_ERR, ENOSPC_AT, SHORT_WRITES, CLOSE_ERR, CRASH_AT, READ_ERR, SHORT_READS };
  int kind = NONE; uint64_t at = 0; int rank = -1; uint64_t fired = 0;
};
extern Disk g_disk[MAX_RANKS];
extern IoFault g_iofault;
void io_reset();
int io_open_count();   // FILEs opened by the library and not closed

// ---- mpisim.cpp ----
void mpi_reset(int nranks);
bool mpi_deliverable(std::vector<int> &out);  // ids of deliverable channel heads
void mpi_deliver(int id);
void mpi_check_quiescent(const char *when);   // raises violation on leftovers
void mpi_note_access(uintptr_t a, size_t n, bool write);
bool mpi_has_pending();
void mpi_check_free(uintptr_t a, size_t n);
int mpi_live_comms(int rank);
int mpi_live_types(int rank);
extern bool g_mpi_guard;
