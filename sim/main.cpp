// Command line: seeded search, exact replay, minimisation.
#include "work.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <fnmatch.h>
#include <ctime>
#include <cstdlib>
#include <algorithm>
#include <set>
#include <unordered_set>

uint64_t follow_runs();
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += '?'; else o += c; } return o; }
static std::string slurp(const char *f) { std::string s; FILE *p = fopen(f, "r"); if (!p) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }
static std::string arg(int c, char **v, const char *n, const char *d = "") { for (int i = 1; i + 1 < c; i++) if (std::string(v[i]) == n) return v[i + 1]; return d; }
static size_t rss_mb() { long a = 0, b = 0; FILE *f = fopen("/proc/self/statm", "r"); if (!f) return 0; if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); return (size_t)b * 4096 >> 20; }

static std::string stats_json(const Stats &s) {
  std::string o = "{"; char b[128]; bool first = true;
  auto f = [&](const char *n, uint64_t v) { snprintf(b, sizeof b, "%s\"%s\":%llu", first ? "" : ",", n, (unsigned long long)v); o += b; first = false; };
#define F(x) f(#x, s.x);
  F(runs) F(ops) F(skipped_ops) F(lapack_limits) F(regions) F(switches) F(steps) F(preempts) F(shrinks) F(lock_contention) F(messages) F(delayed) F(reordered) F(sync_sends) F(collectives) F(alloc_calls) F(alloc_failed) F(fatal_reported) F(io_opens) F(io_faults) F(io_writes) F(crashes) F(corruptions) F(exports) F(comparisons) F(invalid_calls) F(stack_scribbles) F(rank_switches) F(stalls)
  return o + "}";
}
static std::string describe(const Violation &v) {
  std::string o = "class " + v.cls + "\nduring " + v.op + "\n"; if (!v.where.empty()) o += "where " + v.where + "\n"; o += "message " + v.msg + "\n"; char b[64]; snprintf(b, sizeof b, "onrank %d\n", v.rank); o += b; if (!v.stack.empty()) o += "callers " + v.stack + "\n"; return o;
}
static bool write_replay(const std::string &path, const Plan &p, const RunResult &r) {
  FILE *f = fopen(path.c_str(), "w"); if (!f) return false; std::string t = "bmlsim-replay 1\n" + describe(r.v) + plan_text(p, &r.sched); fwrite(t.data(), 1, t.size(), f); fclose(f); return true;
}

// a plan of another build of the library is handed to the simulator of that build, beside this one
static std::string self_dir(bool base) { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); std::string e(b, n > 0 ? n : 0); size_t s = e.rfind('/') + 1; return base ? e.substr(s) : e.substr(0, s); }
static void other_build(const Plan &p, char **v) {
  if (p.cfg.variant == g_variant) return;
  std::string d = self_dir(false) + "bmlsim" + (p.cfg.variant.empty() ? "" : "-" + p.cfg.variant);
  execv(d.c_str(), v); fprintf(stderr, "cannot run %s\n", d.c_str()); exit(3);
}
static int cmd_run(int c, char **v) {
  std::string prop = arg(c, v, "--prop"), out = arg(c, v, "--out"), rep = arg(c, v, "--replay-to"), hashes = arg(c, v, "--hashes");
  uint64_t start = strtoull(arg(c, v, "--start", "1").c_str(), 0, 10), count = strtoull(arg(c, v, "--count", "1000000000").c_str(), 0, 10), stride = strtoull(arg(c, v, "--stride", "1").c_str(), 0, 10);
  double secs = atof(arg(c, v, "--seconds", "10").c_str()); bool keep = !arg(c, v, "--keep-going").empty(); 
  std::vector<std::string> known; { std::string k = slurp(arg(c, v, "--known", "/dev/null").c_str()); size_t p = 0; while (p < k.size()) { size_t e = k.find('\n', p); if (e == std::string::npos) e = k.size(); if (e > p) known.push_back(k.substr(p, e - p)); p = e + 1; } }
  g_symbolize = keep || !known.empty();
  double t0 = now(); uint64_t n = 0, seed = start, clean = 0, fatal = 0, inconcl = 0, vtime = 0, nontrivial = 0; std::map<std::string, uint64_t> inc, opc, viols, knownhits; std::unordered_set<uint64_t> il, ex;
  std::map<std::string, std::string> sample; std::string vk; int rc = 0; uint64_t vseed = 0; std::vector<std::string> samples;
  FILE *pf = nullptr; std::string prog = arg(c, v, "--progress"); 
  for (; n < count && now() - t0 < secs; n++, seed += stride) {
    if ((n & 255) == 255 && rss_mb() > 2500) break;
    if (!prog.empty()) { pf = fopen(prog.c_str(), "w"); if (pf) { fprintf(pf, "%llu\n", (unsigned long long)seed); fclose(pf); } }
    Plan p = make_plan(prop, seed); RunResult r = judge_plan(p, nullptr, false);
    vtime += r.steps; for (auto &o : p.ops) opc[op_name(o.kind)]++;
    if (il.size() < 400000) il.insert(r.schedhash ? r.schedhash : 1); if (ex.size() < 400000 && r.ops_done > 1) ex.insert(r.hash ? r.hash : 1);
    if (r.ops_done > 1) nontrivial++;
    if (samples.size() < 4 && r.ops_done > 2) { std::string s = "seed " + std::to_string(seed) + ": " + std::to_string(p.cfg.nranks) + " rank(s), team " + std::to_string(p.cfg.team) + ", N=" + std::to_string(p.N) + ", format " + std::to_string(p.fmt) + ", precision " + std::to_string(p.prec) + ", ops"; for (auto &o : p.ops) s += std::string(" ") + op_name(o.kind); samples.push_back(s); }
    if (!r.v.set) { if (r.ended_fatal) fatal++; else clean++; continue; }
    std::string k = viol_key(r.v);
    if (!counts_for(prop, r.v)) { inconcl++; inc[k]++; if (keep && !sample.count("inc " + k)) sample["inc " + k] = std::to_string(seed) + " " + r.v.msg; continue; }
    { const std::string *kn = nullptr; for (auto &g : known) if (fnmatch(g.c_str(), k.c_str(), 0) == 0) { kn = &g; break; } if (kn) { knownhits[*kn]++; continue; } }
    if (keep) { viols[k]++; if (!sample.count(k)) { sample[k] = std::to_string(seed) + " " + r.v.msg; } continue; }
    rc = 10; vk = k; vseed = seed; if (!rep.empty()) write_replay(rep, p, r); n++; seed += stride; break;

  }
  std::string o = "{\"prop\":\"" + prop + "\",\"plans\":" + std::to_string(n) + ",\"next\":" + std::to_string(seed) + ",\"clean\":" + std::to_string(clean) + ",\"ended_reported\":" + std::to_string(fatal) + ",\"inconclusive\":" + std::to_string(inconcl) + ",\"nontrivial\":" + std::to_string(nontrivial) + ",\"vtime\":" + std::to_string(vtime) + ",\"follow\":" + std::to_string(follow_runs()) + ",\"wall\":" + std::to_string(now() - t0) + ",\"interleavings\":" + std::to_string(il.size()) + ",\"executions\":" + std::to_string(ex.size()) + ",\"stats\":" + stats_json(S.st);
  auto mp = [&](const char *n, std::map<std::string, uint64_t> &m) { o += std::string(",\"") + n + "\":{"; bool f = true; for (auto &e : m) { if (!f) o += ","; f = false; o += "\"" + jesc(e.first) + "\":" + std::to_string(e.second); } o += "}"; };
  mp("inconclusive_kinds", inc); mp("ops", opc); mp("violations", viols); mp("known", knownhits);
  o += ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) o += std::string(i ? "," : "") + "\"" + jesc(samples[i]) + "\""; o += "]";
  o += ",\"first\":{"; { bool f = true; for (auto &e : sample) { if (!f) o += ","; f = false; o += "\"" + jesc(e.first) + "\":\"" + jesc(e.second) + "\""; } } o += "}";
  if (rc) o += ",\"violation\":\"" + jesc(vk) + "\",\"vseed\":" + std::to_string(vseed);
  o += "}\n";
  if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); if (f) { fwrite(o.data(), 1, o.size(), f); fclose(f); } } else fwrite(o.data(), 1, o.size(), stdout);
  if (!hashes.empty()) { FILE *f = fopen(hashes.c_str(), "wb"); if (f) { for (auto h : il) fwrite(&h, 8, 1, f); uint64_t z = 0; fwrite(&z, 8, 1, f); for (auto h : ex) fwrite(&h, 8, 1, f); fclose(f); } }
  return rc;
}
static int cmd_replay(int c, char **v) {
  Plan p; Sched s; std::string t = slurp(v[2]); if (!plan_parse(t, p, s)) { fprintf(stderr, "cannot parse %s\n", v[2]); return 3; }
  other_build(p, v); g_symbolize = true; RunResult r = judge_plan(p, &s, true);
  printf("hash %016llx obs %016llx steps %llu\n", (unsigned long long)r.hash, (unsigned long long)r.obs, (unsigned long long)r.steps);
  if (!r.v.set) { printf("no violation (%s)\n", r.ended_fatal ? r.fatal.c_str() : "ran to completion"); return 0; }
  printf("%scounts %d\n", describe(r.v).c_str(), counts_for(p.prop, r.v));
  return counts_for(p.prop, r.v) ? 1 : 2;
}
static int cmd_show(int c, char **v) { Plan p = make_plan(v[2], strtoull(v[3], 0, 10)); g_symbolize = true; RunResult r = judge_plan(p, nullptr, false); printf("%s%shash %016llx fatal %d %s\n", plan_text(p, c > 4 ? &r.sched : nullptr).c_str(), r.v.set ? describe(r.v).c_str() : "", (unsigned long long)r.hash, r.ended_fatal, r.fatal.c_str()); return r.v.set; }

// ---- minimisation: every trial in a child process, so that crashes of the harness cannot matter
static std::string want_cls, want_op; static double deadline;
static bool trial(Plan p, const Sched *s, RunResult *full = nullptr) {
  int fd[2]; if (pipe(fd)) return false; pid_t k = fork();
  if (k == 0) {
    close(fd[0]); alarm(20); RunResult r = judge_plan(p, s, true); bool ok = r.v.set && r.v.cls == want_cls && r.v.op == want_op && counts_for(p.prop, r.v);
    std::string t = ok ? std::string("1") + plan_text(p, &r.sched) : "0"; size_t o = 0; while (o < t.size()) { ssize_t n = write(fd[1], t.data() + o, t.size() - o); if (n <= 0) break; o += n; } _exit(0);
  }
  close(fd[1]); std::string t; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) t.append(b, n); close(fd[0]); int st; waitpid(k, &st, 0);
  if (t.size() < 2 || t[0] != '1') return false;
  if (full) { Plan q; Sched sc; if (!plan_parse(t.substr(1), q, sc)) return false; full->sched = sc; }
  return true;
}
static int cmd_minimise(int c, char **v) {
  Plan p; Sched s; std::string t = slurp(v[2]); if (!plan_parse(t, p, s)) return 3; other_build(p, v); deadline = now() + (c > 4 ? atof(v[4]) : 60);
  { size_t a = t.find("\nclass "), b = t.find("\nduring "); if (a == std::string::npos || b == std::string::npos) return 3; want_cls = t.substr(a + 7, t.find('\n', a + 7) - a - 7); want_op = t.substr(b + 8, t.find('\n', b + 8) - b - 8); }
  RunResult cur; cur.sched = s; if (!trial(p, &s, &cur)) { fprintf(stderr, "does not reproduce\n"); return 4; }
  // operations: the schedule is drawn again from the seed, or replayed as far as it fits
  auto try_plan = [&](const Plan &q) { RunResult r; if (trial(q, nullptr, &r) || trial(q, &cur.sched, &r)) { p = q; cur.sched = r.sched; return true; } return false; };
  for (bool ch = true; ch && now() < deadline;) {
    ch = false;
    for (int len = std::max<int>(1, (int)p.ops.size() / 2); len >= 1 && now() < deadline; len /= 2)
      for (int i = (int)p.ops.size() - len; i >= 0 && now() < deadline; i--) {
        if (i + len > (int)p.ops.size()) continue;
        Plan q = p; if (q.fault.kind && q.fault.op >= i && q.fault.op < i + len) continue; q.ops.erase(q.ops.begin() + i, q.ops.begin() + i + len); if (q.fault.kind && q.fault.op > i) q.fault.op -= len; if (q.ops.empty()) continue;
        if (try_plan(q)) ch = true;
      }
  }
  // fewer threads and simpler settings
  { std::vector<std::function<void(Plan &)>> simp = {[](Plan &q) { q.cfg.shrink = 0; }, [](Plan &q) { q.cfg.team = 1; }, [](Plan &q) { q.cfg.team = 2; }, [](Plan &q) { q.cfg.team = 3; }, [](Plan &q) { q.cfg.fill = 0; }, [](Plan &q) { q.cfg.policy = 0; }, [](Plan &q) { q.cfg.rank_policy = 3; }, [](Plan &q) { q.cfg.iobuf = 0; }, [](Plan &q) { for (auto &o : q.ops) o.t = 0; }, [](Plan &q) { for (auto &o : q.ops) { o.x = 1; o.y = 1; } }};
    for (auto &f : simp) { Plan q = p; f(q); if (plan_text(q, nullptr) != plan_text(p, nullptr) && now() < deadline) try_plan(q); } }
  // schedule decisions: delta debugging over all of them
  { typedef std::pair<int, std::pair<uint64_t,int>> D; auto flat = [](const Sched &x) { std::vector<D> d; for (auto &e : x.preempt) d.push_back({0, e}); for (auto &e : x.block) d.push_back({1, e}); for (auto &e : x.rank) d.push_back({2, e}); for (auto &e : x.misc) d.push_back({3, e}); return d; };
    auto mkk = [](const std::vector<D> &d) { Sched x; for (auto &e : d) (e.first == 0 ? x.preempt : e.first == 1 ? x.block : e.first == 2 ? x.rank : x.misc).push_back(e.second); return x; };
    auto d = flat(cur.sched); { Sched e; if (!d.empty() && trial(p, &e)) d.clear(); }
    size_t chunk = std::max<size_t>(1, d.size() / 2);
    while (!d.empty() && now() < deadline) {
      bool any = false;
      for (size_t i = 0; i < d.size() && now() < deadline;) { auto q = d; q.erase(q.begin() + i, q.begin() + std::min(d.size(), i + chunk)); Sched x = mkk(q); if (trial(p, &x)) { d = q; any = true; } else i += chunk; }
      if (chunk == 1 && !any) break; chunk = std::max<size_t>(1, chunk / 2); if (chunk == 1 && !any && d.size() > 400) break;
    }
    cur.sched = mkk(d); }
  g_symbolize = true; Plan q = p; RunResult r = judge_plan(q, &cur.sched, true); r.sched = cur.sched;
  if (!r.v.set || r.v.cls != want_cls) { fprintf(stderr, "minimised trace does not reproduce\n"); return 4; }
  return write_replay(v[3], p, r) ? 0 : 3;
}
// every execution must be repeatable: the seeded run again, and the run driven by its recorded schedule, must both be bit for bit the same
static int cmd_fidelity(int c, char **v) {
  std::string prop = v[2]; uint64_t start = strtoull(v[3], 0, 10), count = strtoull(v[4], 0, 10), bad = 0;
  for (uint64_t s = start; s < start + count; s++) {
    Plan p = make_plan(prop, s); if (p.fault.at == ~0ull) p.fault = Fault();
    RunResult a = run_plan(p, nullptr), b = run_plan(p, nullptr), d = run_plan(p, &a.sched);
    if (a.hash != b.hash || a.obs != b.obs) { printf("seed %llu: not repeatable\n", (unsigned long long)s); bad++; }
    if (a.hash != d.hash || a.obs != d.obs) { printf("seed %llu: the recorded schedule gives another execution\n", (unsigned long long)s); bad++; }
  }
  printf("fidelity %s: %llu plans, %llu differences\n", prop.c_str(), (unsigned long long)count, (unsigned long long)bad);
  return bad ? 1 : 0;
}
int main(int argc, char **argv) {
  setenv("OPENBLAS_NUM_THREADS", "1", 1);
  if (argc < 2) { fprintf(stderr, "bmlsim run --prop C01 --start 1 --count N --seconds S [--out F] [--replay-to F] | replay FILE | minimise IN OUT [SECONDS] | show PROP SEED\n"); return 3; }
  { std::string e = self_dir(true); size_t q = e.find("bmlsim-"); if (q != std::string::npos) g_variant = e.substr(q + 7); }
  sim_init(); std::string c = argv[1];
  if (c == "run") return cmd_run(argc, argv);
  if (c == "replay" && argc > 2) return cmd_replay(argc, argv);
  if (c == "fidelity" && argc > 4) return cmd_fidelity(argc, argv);
  if (c == "show" && argc > 3) return cmd_show(argc, argv);
  if (c == "minimise" && argc > 3) return cmd_minimise(argc, argv);
  if (c == "list") { for (auto &p : g_props) puts(p.c_str()); return 0; }
  return 3;
}
