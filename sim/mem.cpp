// Simulated heap: fixed-address bump arena, byte-accurate shadow, ledger, seeded garbage, failing allocations.
#include "sim.h"
#include "layout.h"
#include <sys/mman.h>
#include <cstdlib>
#include <cerrno>
#include <cstdarg>
#include <algorithm>

uint8_t *g_ashadow;               // 0 valid, 1..7 first k bytes valid, 0xfa redzone, 0xfd freed, 0xff never allocated
static uintptr_t brk_, hi_;
static std::vector<AllocInfo> tab;
AllocFault g_afault;
uint32_t g_cur_opno;
void sync_reset(); void nested_reset();
static const size_t RZ = 64;

unsigned char fill_byte(uint64_t i) {
  switch (S.cfg.fill) {
    case 0: return 0x00;
    case 1: return 0xff;
    case 2: return 0x7f;
    case 3: { uint64_t z = (S.cfg.data_seed * 0x9E3779B97F4A7C15ull) ^ (i * 0xD6E8FEB86659FD93ull); z ^= z >> 32; z *= 0xD6E8FEB86659FD93ull; z ^= z >> 32; return (unsigned char)z; }
    case 4: return (i & 3) == 0 ? 1 : 0;                 // ints of value 1
    case 5: { static const unsigned char d[8] = {0, 0, 0, 0, 0, 0, 0xf0, 0x3f}; return d[i & 7]; } // doubles of value 1.0
    case 6: return (i & 3) == 0 ? 3 : 0;
    default: return 0xaa;
  }
}
static void fill(uintptr_t a, size_t n, uint64_t salt) {
  unsigned char *p = (unsigned char *)a;
  if (S.cfg.fill == 0) { memset(p, 0, n); return; }
  if (S.cfg.fill == 3) { uint64_t z = S.cfg.data_seed * 0x9E3779B97F4A7C15ull + salt; for (size_t i = 0; i < n; i++) { if ((i & 7) == 0) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z ^= z >> 27; } p[i] = (unsigned char)(z >> ((i & 7) * 8)); } return; }
  for (size_t i = 0; i < n; i++) p[i] = fill_byte(i);
}
void mem_init() {
  g_ashadow = (uint8_t *)mmap((void *)ASHADOW_BASE, ARENA_SIZE >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (g_ashadow == MAP_FAILED) { perror("mmap shadow"); exit(3); }
  hi_ = ARENA_BASE + ARENA_SIZE; brk_ = ARENA_BASE + 4096;
  memset(g_ashadow, 0xff, ARENA_SIZE >> 3);
}
uint64_t g_alloc_count[MAX_RANKS]; uint32_t g_rank_opno[MAX_RANKS];
void mem_reset() {
  memset(g_alloc_count, 0, sizeof g_alloc_count); memset(g_rank_opno, 0, sizeof g_rank_opno);
  if (hi_ != ARENA_BASE + ARENA_SIZE || true) { size_t used = std::min<size_t>(brk_ - ARENA_BASE, ARENA_SIZE); memset(g_ashadow, 0xff, (used >> 3) + 16 < (ARENA_SIZE >> 3) ? (used >> 3) + 16 : (ARENA_SIZE >> 3)); if (used > (8u << 20)) madvise((void *)(ARENA_BASE + (8u << 20)), used - (8u << 20), MADV_DONTNEED); }
  brk_ = ARENA_BASE + 4096; tab.clear(); g_afault = AllocFault(); g_cur_opno = 0; sync_reset(); nested_reset();
}
bool mem_in_arena(uintptr_t a) { return a - ARENA_BASE < ARENA_SIZE; }
static void shadow_range(uintptr_t a, size_t n, uint8_t v) { memset(g_ashadow + ((a - ARENA_BASE) >> 3), v, (n + 7) >> 3); }
// the ledger is sorted by address (bump allocation)
static int find_le(uintptr_t a) { int lo = 0, hi = (int)tab.size(); while (lo < hi) { int m = (lo + hi) / 2; if (tab[m].addr <= a) lo = m + 1; else hi = m; } return lo - 1; }
const AllocInfo *mem_lookup(uintptr_t a) { int i = find_le(a); if (i < 0) return nullptr; return &tab[i]; }
std::vector<AllocInfo> &mem_table() { return tab; }

static bool g_nofail;
void *mem_alloc(size_t n, size_t align, bool zero, const char *tag, bool user) {
  if (align < 16) align = 16;
  if (!user && !g_nofail) {
    S.st.alloc_calls++; g_alloc_count[S.cur_rank]++;
    if (g_afault.armed && g_afault.rank == S.cur_rank) {
      uint64_t c = g_afault.count++;
      if (c == g_afault.fail_at || (g_afault.sticky && c > g_afault.fail_at)) { g_afault.fired++; S.st.alloc_failed++; ev(0xA110C); return nullptr; }
    }
  }
  if (n > ARENA_SIZE / 2) { ev(0xA110C + 1); return nullptr; }
  uintptr_t a = (brk_ + RZ + align - 1) & ~(uintptr_t)(align - 1);
  size_t body = (n + 7) & ~(size_t)7;
  if (a + body + RZ + 4096 >= ARENA_BASE + ARENA_SIZE) { ev(0xA110C + 2); return nullptr; }
  shadow_range(brk_, a - brk_, 0xfa);
  if (n) { shadow_range(a, n & ~(size_t)7, 0); if (n & 7) g_ashadow[(a + (n & ~(size_t)7) - ARENA_BASE) >> 3] = n & 7; }
  shadow_range(a + body, RZ, 0xfa);
  // redzone bytes hold garbage too, so reads by uninstrumented code are noticed as wrong values
  if (zero) memset((void *)a, 0, n); else fill(a, body, a);
  memset((void *)(a + n), 0xcb, body - n + RZ);
  brk_ = a + body + 8 + RZ - 8;
  brk_ = (brk_ + 7) & ~(uintptr_t)7;
  AllocInfo k; k.addr = a; k.size = n; k.live = true; k.user = user; k.rank = S.cur_rank; k.op = g_rank_opno[S.cur_rank]; k.freed_by_user = false;
  k.npcs = user ? 0 : arena_capture_stack(k.pcs, 10);
  tab.push_back(k);
  ev(0x4000 + n);
  return (void *)a;
}
void mem_free(void *p, bool user) {
  if (!p) return;
  uintptr_t a = (uintptr_t)p;
  int i = mem_in_arena(a) ? find_le(a) : -1;
  if (i < 0 || tab[i].addr != a) sim_violate("bad-free", "free of a pointer that is not the start of an allocation: %s", mem_describe(a).c_str());
  if (!tab[i].live) sim_violate("double-free", "block of %zu bytes released twice", tab[i].size);
  size_t n = tab[i].size;
  mpi_check_free(a, n);
  // overrun by uninstrumented code shows in the redzone bytes
  size_t body = (n + 7) & ~(size_t)7; const unsigned char *q = (const unsigned char *)(a + n);
  for (size_t k = 0; k < body - n + RZ; k++) if (q[k] != 0xcb) sim_violate("out-of-bounds", "bytes after a block of %zu bytes were overwritten", n);
  if (n && in_parallel_region()) access_range(p, n, true, "free");
  tab[i].live = false; tab[i].freed_by_user = user;
  if (n) { shadow_range(a, body, 0xfd); memset((void *)a, 0xdb, n); }
  ev(0x5000 + n);
}
void *mem_realloc(void *p, size_t n) {
  if (!p) return mem_alloc(n, 16, false, "realloc", false);
  uintptr_t a = (uintptr_t)p; int i = mem_in_arena(a) ? find_le(a) : -1;
  if (i < 0 || tab[i].addr != a) sim_violate("bad-free", "realloc of a pointer that is not the start of an allocation");
  if (!tab[i].live) sim_violate("use-after-free", "realloc of a released block");
  size_t o = tab[i].size;
  if (n == 0) { mem_free(p, false); return nullptr; }
  void *q = mem_alloc(n, 16, false, "realloc", false);
  if (!q) return nullptr;
  memcpy(q, p, o < n ? o : n);
  mem_free(p, false);
  return q;
}
std::string mem_describe(uintptr_t a) {
  char b[256];
  if (a - ARENA_BASE >= ARENA_SIZE) { if (ptr_in_region((void *)a)) return "a variable on a thread stack"; if (a < 0x10000) return "null page"; return "static storage"; }
  const AllocInfo *k = mem_lookup(a);
  if (!k) return "unallocated memory";
  long off = (long)(a - k->addr);
  snprintf(b, sizeof b, "offset %ld of a %s block of %zu bytes", off, k->live ? "live" : "released", k->size);
  return b;
}
bool mem_valid(uintptr_t a, size_t n, std::string *why) {
  for (uintptr_t x = a; x < a + n;) {
    if (!mem_in_arena(x)) { if (why) *why = "past the heap"; return false; }
    uint8_t s = g_ashadow[(x - ARENA_BASE) >> 3];
    uintptr_t g = x & ~(uintptr_t)7; uintptr_t end = std::min<uintptr_t>(g + 8, a + n);
    if (s != 0) {
      if (s <= 7 && end - g <= s) { x = end; continue; }
      if (why) {
        std::string d = mem_describe(s <= 7 ? std::max<uintptr_t>(x, g + s) : x);
        *why = (s == 0xfd ? "uaf: " : "") + d;
      }
      return false;
    }
    x = end;
  }
  return true;
}
size_t mem_live_lib(int rank) { size_t c = 0; for (auto &k : tab) if (k.live && !k.user && k.rank == rank) c++; return c; }
size_t mem_block_size(const void *p) { const AllocInfo *k = mem_lookup((uintptr_t)p); return k && k->live && k->addr == (uintptr_t)p ? k->size : 0; }

// ------------------------------------------------------------------ wrapped libc entry points (library only)
void sim_set_fault_pc(void *pc);
#define PC sim_set_fault_pc(__builtin_return_address(0))
void *mem_alloc_nofail(size_t n, const char *tag) { g_nofail = true; void *p = mem_alloc(n, 16, false, tag, false); g_nofail = false; return p; }
extern "C" {
void *__wrap_malloc(size_t n) { PC; return mem_alloc(n, 16, false, "malloc", false); }
void *__wrap_calloc(size_t a, size_t b) { PC; if (b && a > SIZE_MAX / b) return nullptr; return mem_alloc(a * b, 16, true, "calloc", false); }
void *__wrap_realloc(void *p, size_t n) { PC; return mem_realloc(p, n); }
int __wrap_posix_memalign(void **p, size_t al, size_t n) { PC; void *q = mem_alloc(n, al, false, "posix_memalign", false); if (!q) return ENOMEM; access_range(p, sizeof(void *), true, "posix_memalign"); *p = q; return 0; }
void *__wrap_aligned_alloc(size_t al, size_t n) { PC; return mem_alloc(n, al, false, "aligned_alloc", false); }
void __wrap_free(void *p) { PC; mem_free(p, false); }
char *__wrap_strdup(const char *s) { PC; size_t n = strlen(s) + 1; char *q = (char *)mem_alloc(n, 16, false, "strdup", false); if (q) memcpy(q, s, n); return q; }
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { PC; access_range(s, n, false, "memcpy source"); access_range(d, n, true, "memcpy destination"); const char *a = (const char *)s, *b = (const char *)d; if (a != b && a < b + n && b < a + n) sim_violate("overlap", "memcpy with overlapping operands"); memmove(d, s, n); } return d; }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { PC; access_range(s, n, false, "memmove source"); access_range(d, n, true, "memmove destination"); memmove(d, s, n); } return d; }
void *__wrap_memset(void *d, int c, size_t n) { if (n) { PC; access_range(d, n, true, "memset"); memset(d, c, n); } return d; }
void __wrap_qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  PC; if (n && sz) access_range(b, n * sz, true, "qsort");
  // stable insertion sort: deterministic, no hidden allocation
  std::vector<char> t(sz); char *p = (char *)b;
  for (size_t i = 1; i < n; i++) { memcpy(t.data(), p + i * sz, sz); size_t j = i; while (j > 0 && cmp(p + (j - 1) * sz, t.data()) > 0) { memcpy(p + j * sz, p + (j - 1) * sz, sz); j--; } memcpy(p + j * sz, t.data(), sz); }
}
static uint64_t rand_state = 1;
void __wrap_srand(unsigned s) { rand_state = s; }
int __wrap_rand(void) { rand_state = rand_state * 6364136223846793005ull + 1442695040888963407ull; return (int)((rand_state >> 33) & 0x7fffffff); }
}
void sim_srand(unsigned s) { rand_state = s * 2654435761u + 12345; }
