// Workload plans, reference model, operation executor.
#pragma once
#include "sim.h"
#include <complex>
typedef std::complex<double> cd;
enum { DENSE = 1, ELLPACK = 2, ELLBLOCK = 3, CSR = 4, DIST = 5 };
enum { SR = 1, DR = 2, SC = 3, DC = 4 };
static const int NSLOT = 6;

struct Op {
  int kind = 0;
  int a = 0, b = 0, c = 0;         // slots
  int p[6] = {0, 0, 0, 0, 0, 0};   // integers, interpreted modulo what is legal
  double x = 0, y = 0, t = 0;      // alpha, beta, threshold
  uint64_t seed = 1;
};
struct Fault {
  int kind = 0;          // 0 none, 1 allocation, 2 disk
  int op = -1, rank = 0; // operation in which it strikes
  uint64_t at = 0;       // which allocation / byte / call
  int sub = 0;           // allocation: sticky; disk: IoFault kind
};
struct Plan {
  std::string prop;
  uint64_t seed = 0;
  RunConfig cfg;
  int fmt = DENSE, prec = DR, N = 4, M = 4, dist = 0;
  int dkind = 0;                  // data kind of created matrices
  int capmode = 0;                // row capacities below N are in use
  int mb = 0;                     // ellblock: blocks per row when sizes are set
  int fort = 0;                   // the program calls the library through its Fortran interface
  std::vector<int> bsz;           // ellblock block sizes (empty: library default)
  std::vector<Op> ops;
  Fault fault;
};

struct OpDef { const char *name; int id; };
extern const char *op_name(int kind);
int op_by_name(const std::string &);

Plan make_plan(const std::string &prop, uint64_t seed);
std::string plan_text(const Plan &, const Sched *);
bool plan_parse(const std::string &txt, Plan &, Sched &);

struct RunResult {
  Violation v;
  uint64_t hash = 0, schedhash = 0, obs = 0;
  Sched sched;
  bool ended_fatal = false;
  uint64_t steps = 0;
  int ops_done = 0;
  std::vector<std::vector<uint32_t>> allocs; // [rank][op]
  std::vector<std::pair<std::string, uint64_t>> trace; // observations
  size_t disk_bytes = 0;                     // size of the largest file on the simulated disk
  std::string fatal;
};
// executes the plan once; sched != null replays recorded decisions
RunResult run_plan(const Plan &p, const Sched *sched);
// the complete verdict for a plan under its property (may execute several runs)
RunResult judge_plan(Plan &p, const Sched *sched, bool fixed);
bool counts_for(const std::string &prop, const Violation &v);
std::string viol_key(const Violation &v);
extern const std::vector<std::string> g_props;
extern std::string g_rank_op[MAX_RANKS];
extern uint64_t g_obs;
