// Simulated disk, captured terminal output, process exit.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <cstdarg>
#include <cerrno>
#include <cstdlib>
#include <algorithm>
#include <wchar.h>

Disk g_disk[MAX_RANKS];
std::string g_printed[MAX_RANKS];   // what each rank printed on standard output
IoFault g_iofault;
void sim_set_fault_pc(void *pc);
#define PC sim_set_fault_pc(__builtin_return_address(0))
struct Ck { int rank; std::string name; size_t pos; bool w, r, app; bool dead; };
struct OpenF { FILE *f; Ck *c; std::vector<char> *buf; bool closed; };
static std::vector<OpenF> opens;
static uint64_t wcalls, wbytes, rcalls;
bool g_crashed_write = false;      // CRASH_AT: the disk no longer accepts anything

void io_reset() {
  for (auto &o : opens) if (!o.closed) { o.c->dead = true; fclose(o.f); }
  for (auto &o : opens) { delete o.c; delete o.buf; }
  opens.clear(); for (auto &d : g_disk) d.files.clear(); for (auto &p : g_printed) p.clear(); g_iofault = IoFault(); wcalls = wbytes = rcalls = 0; g_crashed_write = false;
}
int io_open_count() { int n = 0; for (auto &o : opens) if (!o.closed) n++; return n; }
static bool fault_here(int rank) { return g_iofault.kind && (g_iofault.rank < 0 || g_iofault.rank == rank); }
static ssize_t ck_write(void *v, const char *b, size_t n) {
  Ck *c = (Ck *)v; if (c->dead) return n;
  S.st.io_writes++;
  std::string &d = g_disk[c->rank].files[c->name].data;
  size_t m = n; bool fail = false; int err = EIO;
  uint64_t k = wcalls++;
  if (fault_here(c->rank)) {
    if (g_iofault.kind == IoFault::WRITE_ERR && k >= g_iofault.at) { fail = true; m = 0; }
    if (g_iofault.kind == IoFault::ENOSPC_AT && wbytes + n > g_iofault.at) { m = g_iofault.at > wbytes ? g_iofault.at - wbytes : 0; err = ENOSPC; if (m == 0) fail = true; g_iofault.fired++; S.st.io_faults++; }
    if (g_iofault.kind == IoFault::CRASH_AT) { if (wbytes + n > g_iofault.at) { size_t keep = g_iofault.at > wbytes ? g_iofault.at - wbytes : 0; if (c->pos > d.size()) d.resize(c->pos); if (keep) d.replace(c->pos, keep, b, keep); c->pos += keep; wbytes += n; if (!g_crashed_write) { g_crashed_write = true; g_iofault.fired++; S.st.io_faults++; S.st.crashes++; } return n; } }
  }
  if (fail) { if (g_iofault.kind == IoFault::WRITE_ERR) { g_iofault.fired++; S.st.io_faults++; } errno = err; ev(0x6001); return 0; }
  if (c->pos > d.size()) d.resize(c->pos);
  d.replace(c->pos, m, b, m); c->pos += m; wbytes += m;
  ev(0x6100 + m);
  if (m < n && g_iofault.kind == IoFault::ENOSPC_AT) { errno = err; }
  return m;
}
static ssize_t ck_read(void *v, char *b, size_t n) {
  Ck *c = (Ck *)v; if (c->dead) return 0;
  uint64_t k = rcalls++;
  if (fault_here(c->rank)) {
    if (g_iofault.kind == IoFault::READ_ERR && k >= g_iofault.at) { g_iofault.fired++; S.st.io_faults++; errno = EIO; return -1; }
    if (g_iofault.kind == IoFault::SHORT_READS && n > 1) { size_t m = 1 + (k * 5) % 17; if (m < n) { n = m; g_iofault.fired++; S.st.io_faults++; } }
  }
  auto it = g_disk[c->rank].files.find(c->name); if (it == g_disk[c->rank].files.end()) return 0;
  const std::string &d = it->second.data; if (c->pos >= d.size()) return 0;
  size_t m = std::min(n, d.size() - c->pos); memcpy(b, d.data() + c->pos, m); c->pos += m; return m;
}
static int ck_seek(void *v, off64_t *o, int wh) {
  Ck *c = (Ck *)v; off64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)c->pos : (off64_t)g_disk[c->rank].files[c->name].data.size();
  off64_t p = base + *o; if (p < 0) { errno = EINVAL; return -1; } c->pos = p; *o = p; return 0;
}
static int ck_close(void *v) {
  Ck *c = (Ck *)v; if (c->dead) return 0;
  if (fault_here(c->rank) && g_iofault.kind == IoFault::CLOSE_ERR && c->w) { g_iofault.fired++; S.st.io_faults++; errno = EIO; return -1; }
  return 0;
}

static void logput(const char *s, size_t n) { if (S.logbuf.size() < 20000) S.logbuf.append(s, n); }
static void termput(FILE *f, const char *s, size_t n) { logput(s, n); std::string &p = g_printed[S.cur_rank]; if (f == stdout && p.size() < 200000) p.append(s, n); }
static bool is_term(FILE *f) { return f == stdout || f == stderr; }
static OpenF *of(FILE *f) { for (size_t i = opens.size(); i-- > 0;) if (opens[i].f == f) return &opens[i]; return nullptr; }
static void chk(FILE *f, const char *what) {
  if (!f) sim_violate("crash", "%s on a null stream", what);
  OpenF *o = of(f); if (o && o->closed) sim_violate("use-after-free", "%s on a closed stream", what);
}
extern "C" {
FILE *__wrap_fopen(const char *name, const char *mode) {
  PC; S.st.io_opens++;
  int r = S.cur_rank; auto &files = g_disk[0].files; r = 0; // one shared file system
  if (fault_here(S.cur_rank) && g_iofault.kind == IoFault::OPEN_FAIL) { g_iofault.fired++; S.st.io_faults++; errno = EACCES; return nullptr; }
  bool rd = mode[0] == 'r', wr = mode[0] == 'w' || mode[0] == 'a' || strchr(mode, '+');
  if (rd && !files.count(name)) { errno = ENOENT; return nullptr; }
  if (mode[0] == 'w') files[name].data.clear(); else if (mode[0] == 'a') files[name];
  Ck *c = new Ck{r, name, mode[0] == 'a' ? files[name].data.size() : 0, wr, rd || strchr(mode, '+'), mode[0] == 'a', false};
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie(c, mode, io);
  if (!f) { delete c; return nullptr; }
  OpenF o{f, c, nullptr, false};
  int bs = S.cfg.iobuf;
  if (bs > 0) { o.buf = new std::vector<char>(bs); setvbuf(f, o.buf->data(), _IOFBF, bs); }
  opens.push_back(o); ev(0x6200);
  return f;
}
int __wrap_fclose(FILE *f) {
  PC; chk(f, "fclose"); OpenF *o = of(f); if (!o) return 0;
  o->closed = true; int rc = fclose(f); ev(0x6300 + (rc != 0)); return rc;
}
int __wrap_vfprintf(FILE *f, const char *fmt, va_list ap) { PC; chk(f, "fprintf"); if (is_term(f)) { char b[4096]; int n = vsnprintf(b, sizeof b, fmt, ap); termput(f, b, std::min<size_t>(n, sizeof b - 1)); return n; } return vfprintf(f, fmt, ap); }
int __wrap_fprintf(FILE *f, const char *fmt, ...) { PC; va_list ap; va_start(ap, fmt); int r = __wrap_vfprintf(f, fmt, ap); va_end(ap); return r; }
int __wrap_vprintf(const char *fmt, va_list ap) { return __wrap_vfprintf(stdout, fmt, ap); }
int __wrap_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = __wrap_vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int __wrap_puts(const char *s) { termput(stdout, s, strlen(s)); termput(stdout, "\n", 1); return 1; }
int __wrap_putchar(int c) { char b = (char)c; termput(stdout, &b, 1); return c; }
int __wrap_fputs(const char *s, FILE *f) { PC; chk(f, "fputs"); if (is_term(f)) { termput(f, s, strlen(s)); return 1; } return fputs(s, f); }
int __wrap_fputc(int ch, FILE *f) { PC; chk(f, "fputc"); if (is_term(f)) { char b = (char)ch; termput(f, &b, 1); return ch; } return fputc(ch, f); }
int __wrap_putc(int ch, FILE *f) { return __wrap_fputc(ch, f); }
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) { PC; chk(f, "fwrite"); if (a * b) access_range(p, a * b, false, "fwrite"); if (is_term(f)) { termput(f, (const char *)p, a * b); return b; } return fwrite(p, a, b, f); }
size_t __wrap_fread(void *p, size_t a, size_t b, FILE *f) { PC; chk(f, "fread"); size_t n = fread(p, a, b, f); if (n) access_range(p, n * a, true, "fread"); return n; }
int __wrap_fflush(FILE *f) { PC; if (!f) return 0; chk(f, "fflush"); if (is_term(f)) return 0; return fflush(f); }
char *__wrap_fgets(char *b, int n, FILE *f) { PC; chk(f, "fgets"); if (n > 0) access_range(b, n, true, "fgets"); return fgets(b, n, f); }
int __wrap_fgetc(FILE *f) { PC; chk(f, "fgetc"); return fgetc(f); }
int __wrap_getc(FILE *f) { PC; chk(f, "getc"); return fgetc(f); }
int __wrap_feof(FILE *f) { chk(f, "feof"); return feof(f); }
int __wrap_ferror(FILE *f) { chk(f, "ferror"); return ferror(f); }
int __wrap___isoc99_vfscanf(FILE *f, const char *fmt, va_list ap) {
  PC; chk(f, "fscanf");
  // bound unbounded %s/%[ conversions by scanning what they would store
  va_list a2; va_copy(a2, ap);
  long p0 = ftell(f);
  int rc = 0; bool unb = false; for (const char *p = fmt; *p; p++) if (p[0] == '%' && p[1] == 's') unb = true;
  if (unb && p0 >= 0) {
    int c; long n = 0, mx = 0; while ((c = fgetc(f)) != EOF) { if (c == '\n' || n > 100000) break; n = (c == ' ' || c == '\t' || c == '\r') ? 0 : n + 1; mx = std::max(mx, n); }
    fseek(f, p0, SEEK_SET);
    if (mx > 4000) { va_end(a2); sim_violate("out-of-bounds", "unbounded %%s conversion stores a word of %ld characters", mx); }
  }
  rc = vfscanf(f, fmt, a2); va_end(a2);
  return rc;
}
int __wrap___isoc99_fscanf(FILE *f, const char *fmt, ...) { PC; va_list ap; va_start(ap, fmt); int r = __wrap___isoc99_vfscanf(f, fmt, ap); va_end(ap); return r; }
int __wrap_fscanf(FILE *f, const char *fmt, ...) { PC; va_list ap; va_start(ap, fmt); int r = __wrap___isoc99_vfscanf(f, fmt, ap); va_end(ap); return r; }
int __wrap_remove(const char *n) { return g_disk[0].files.erase(n) ? 0 : -1; }
int __wrap_unlink(const char *n) { return __wrap_remove(n); }
int __wrap_rename(const char *a, const char *b) { auto &fs = g_disk[0].files; if (!fs.count(a)) { errno = ENOENT; return -1; } fs[b] = fs[a]; fs.erase(a); return 0; }
int __wrap_backtrace(void **, int) { return 0; }
char **__wrap_backtrace_symbols(void *const *, int) { return nullptr; }
FILE *__wrap_popen(const char *, const char *) { return nullptr; }
int __wrap_pclose(FILE *) { return 0; }
int __wrap_system(const char *) { sim_violate("escape", "the library tried to run a shell command"); }
void __wrap_exit(int code) {
  PC;
  size_t k = S.logbuf.size() > 300 ? S.logbuf.size() - 300 : 0; S.fatal_msg = S.logbuf.substr(k);
  ev(0x7000 + code);
  if (S.expect_fatal && code != 0 && !S.logbuf.empty()) { S.ended_fatal = true; S.st.fatal_reported++; sim_end_run(); }
  if (code == 0) sim_violate("exit0", "the library ended the process with success status");
  std::string m = S.fatal_msg; size_t ob = m.rfind("Obtained "); if (ob != std::string::npos && ob > 0) m.resize(ob); size_t nl = m.find_last_not_of("\n"); if (nl != std::string::npos) m.resize(nl + 1); size_t st = m.rfind('\n'); if (st != std::string::npos) m = m.substr(st + 1);
  sim_violate(S.logbuf.empty() ? "silent-exit" : "unexpected-error", "the call ended the program: %s", m.c_str());
}
void __wrap__exit(int c) { __wrap_exit(c); }
void __wrap_abort(void) { PC; if (S.expect_fatal) { S.ended_fatal = true; S.st.fatal_reported++; sim_end_run(); } sim_violate("abort", "the library aborted"); }
void __wrap___assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
  PC; (void)line; const char *b = strrchr(file, '/'); ev(0x7100);
  if (S.expect_fatal) { S.ended_fatal = true; S.fatal_msg = std::string("assertion ") + e; S.st.fatal_reported++; sim_end_run(); }
  sim_violate("assertion", "assertion `%s' failed in %s (%s)", e, fn, b ? b + 1 : file);
}
void __wrap___stack_chk_fail(void) { PC; sim_violate("out-of-bounds", "stack buffer overflow detected at function return"); }
unsigned __wrap_sleep(unsigned) { rank_yield(); return 0; }
int __wrap_usleep(unsigned) { rank_yield(); return 0; }
}
