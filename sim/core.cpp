// Simulator core: decisions, simulated heap / stack / disk / time / randomness, fork-per-run driver.
// Compiled WITHOUT sanitizers or coverage; only the code under test is instrumented.
#include "sim.h"
#include "core.h"
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <search.h>
#include <getopt.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <math.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <deque>
#include <unordered_map>

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:halt_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:"
         "handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:allow_user_segv_handler=1:"
         "use_sigaltstack=0:print_legend=0:log_path=/dev/null:quarantine_size_mb=1:"
         "malloc_context_size=0:detect_odr_violation=0:verify_asan_link_order=0";
}

extern "C" {
extern char repo_data_begin[], repo_data_end[], repo_bss_begin[], repo_bss_end[];
}

namespace sim {

Shared *sh = nullptr;
Slot *slot = nullptr;
static bool gTrace = false;
static bool gRecord = true;            // false: replaying a tape
static std::vector<uint32_t> gTape;    // replay input
static size_t gTapePos = 0;
static Prng gGen;
static uint64_t gHash;
static uint64_t gDraws = 0;
// a scenario run inside another one (see rehearse): its decisions and what it observed
static std::vector<std::string> *gLog = nullptr;
static const uint32_t *gAgain = nullptr;
static size_t gAgainPos = 0, gAgainLen = 0;
static bool gRehearsal = false;
static int gAgainFill = -1;
static uint64_t gAgainFillSeed = 0;

uint64_t mix(uint64_t a, uint64_t b) {
  Prng p(a ^ (b * 0x9e3779b97f4a7c15ULL + 0x632be59bd9b4e019ULL));
  p.next();
  return p.next() ^ b;
}
uint64_t hashBytes(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}

// ---- decisions --------------------------------------------------------------------------------
uint32_t choose(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (gAgain) return gAgainPos < gAgainLen ? gAgain[gAgainPos++] % n : 0;
  if (gRecord) v = gGen.below(n);
  else { v = gTapePos < gTape.size() ? gTape[gTapePos] % n : 0; }
  gTapePos++;
  if (slot->ntape < TAPE_MAX) slot->tape[slot->ntape++] = v;
  else infra("tape overflow");
  return v;
}
bool flip(int num, int den) { return (int)choose(den) >= den - num; }
int range(int lo, int hi) { return lo + (int)choose((uint32_t)(hi - lo + 1)); }
uint64_t seed64() { uint64_t a = choose(0x7fffffff); return mix(a, 77); }
double weightChoice() {
  static const double w[] = {1, 2, 3, 0.5, 0.25, 1.5, 5, 10, 0.1, 0.7};
  return w[choose(10)];
}

// ---- trace / verdict ----------------------------------------------------------------------------
bool tracing() { return gTrace; }
static void traceRaw(const char *s, size_t n) {
  if (!gTrace) return;
  if (slot->ntrace + n + 1 >= TRACE_MAX) return;
  memcpy(slot->trace + slot->ntrace, s, n);
  slot->ntrace += n;
  slot->trace[slot->ntrace++] = '\n';
}
void op(const char *fmt, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  gHash = hashBytes(b, n, gHash);
  if (gLog && strncmp(b, "  -> ", 5)) gLog->push_back(b);
  traceRaw(b, n);
}
void note(const char *fmt, ...) {
  if (!gTrace) return;
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  traceRaw(b, n);
}
void fold(uint64_t v) {
  gHash = hashBytes(&v, 8, gHash);
  if (gLog) { char b[32]; snprintf(b, sizeof b, "value %016llx", (unsigned long long)v); gLog->push_back(b); }
}
void foldDouble(double v, double q) {
  double r = v / q;
  if (!(fabs(r) < 9e18)) fold(0xdeadULL);
  else fold((uint64_t)llround(r));
}
static uint64_t stepsNow();
[[noreturn]] void finish(int status, const char *cls, const char *msg) {
  // what a scenario finds wrong the first time is for the property it belongs to
  static std::string m;
  if (gRehearsal && status == ST_FAIL && !gAgain && strcmp(cls, "no-progress")) { status = ST_SKIP; gLog = nullptr; }
  else if (gRehearsal && status == ST_FAIL && gAgain) {
    m = std::string("the same calls with the same arguments and random source went well before, and now: ") + msg;
    msg = m.c_str();
    cls = "library-not-repeatable";
  }
  gLog = nullptr;
  snprintf(slot->cls, sizeof slot->cls, "%s", cls);
  snprintf(slot->msg, sizeof slot->msg, "%s", msg);
  fold(stepsNow());
  if (status == ST_FAIL) gHash = hashBytes(cls, strlen(cls), gHash);
  slot->hash = gHash;
  slot->steps = stepsNow();
  slot->draws = gDraws;
  slot->status = status;
  _exit(0);
}
void fail(const char *cls, const char *fmt, ...) {
  char b[1500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  finish(ST_FAIL, cls, b);
}
void skip(const char *why) {
  probe((std::string("skip:") + why).c_str());
  finish(ST_SKIP, "", why);
}
void infra(const char *why) { finish(ST_INFRA, "infra", why); }
void nontrivial() { slot->nontrivial = 1; }
void eval(uint64_t n) { slot->evals += n; }
static void count(Counter *c, const char *name, uint64_t n) {
  for (int i = 0; i < NCOUNTERS; i++) {
    if (c[i].name[0] == 0) {
      // claim the cell under a spinlock
      while (__atomic_exchange_n(&sh->lock, 1, __ATOMIC_ACQUIRE)) usleep(10);
      if (c[i].name[0] == 0) snprintf(c[i].name, sizeof c[i].name, "%s", name);
      __atomic_store_n(&sh->lock, 0, __ATOMIC_RELEASE);
    }
    if (strncmp(c[i].name, name, sizeof c[i].name - 1) == 0) {
      __atomic_fetch_add(&c[i].n, n, __ATOMIC_RELAXED);
      return;
    }
  }
}
void probe(const char *name, uint64_t n) { if (sh->counting) count(sh->probes, name, n); }
void fault(const char *name, uint64_t n) {
  gHash = hashBytes(name, strlen(name), gHash);
  note("  [fault] %s x%llu", name, (unsigned long long)n);
  if (sh->counting) count(sh->faults, name, n);
}
bool setInsert(uint64_t *set, uint64_t size, uint64_t h, uint64_t *cnt) {
  if (h == 0) h = 1;
  uint64_t i = h & (size - 1);
  for (int k = 0; k < 64; k++, i = (i + 1) & (size - 1)) {
    uint64_t cur = __atomic_load_n(&set[i], __ATOMIC_RELAXED);
    if (cur == h) return false;
    if (cur == 0) {
      uint64_t z = 0;
      if (__atomic_compare_exchange_n(&set[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
        __atomic_fetch_add(cnt, 1, __ATOMIC_RELAXED);
        return true;
      }
      if (z == h) return false;
    }
  }
  return false;
}
void state(uint64_t h) {
  fold(h);
  if (sh->counting) setInsert(sh->states, STATES, mix(h, 5), &sh->nstates);
}

// ---- simulated time -------------------------------------------------------------------------------
static uint64_t gSteps = 0, gStopAt = ~0ULL, gBudgetEnd = ~0ULL, gCrashAt = ~0ULL;
static const uint64_t DEFAULT_GUARD = 600000000ULL;
static void recomputeStop() { gStopAt = gBudgetEnd < gCrashAt ? gBudgetEnd : gCrashAt; }
static uint64_t stepsNow() { return gSteps; }
uint64_t steps() { return gSteps; }
uint64_t draws() { return gDraws; }
void budget(uint64_t more) { gBudgetEnd = gSteps + more; recomputeStop(); }
void noBudget() { gBudgetEnd = gSteps + DEFAULT_GUARD; recomputeStop(); }
static void stopReached();
static inline void tick() { if (__builtin_expect(++gSteps >= gStopAt, 0)) stopReached(); }
}  // namespace sim

extern "C" void __sanitizer_cov_trace_pc(void) {
  using namespace sim;
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  if (sh) {
    uint32_t x = (uint32_t)(pc & (COVMAP - 1));
    if (!sh->cov[x]) sh->cov[x] = 1;
  }
  tick();
}

namespace sim {
// ---- heap -------------------------------------------------------------------------------------------
static char *const ARENA = (char *)0x10000000UL;
static char *const ARENA_END = (char *)0x7fff0000UL;
static char *gBump = ARENA;
static char *gHigh = ARENA;  // bytes below were handed out at some time in this run
struct Hdr { uint64_t magic; uint64_t size; uint64_t total; uint64_t seq; };
static const uint64_t M_LIVE = 0x51A11FE5A11FE51AULL, M_FREE = 0x51AF4EED0F4EED51ULL;
static HeapCfg gHeap = {1, 1, 0, false, 0};
static uint64_t gLiveBlocks = 0, gLiveBytes = 0, gAllocs = 0;
static Prng gHeapRng(1), gPadRng(1);
static std::deque<char *> *gQuarantine;
static std::unordered_map<uint64_t, std::vector<char *>> *gFreeLists;
static Proc *gProc = nullptr;
static FaultPlan gPlan;

void heapConfig(const HeapCfg &c) { gHeap = c; gHeapRng = Prng(c.fillSeed); gPadRng = Prng(c.fillSeed ^ 99); }
void heapRandom() {
  HeapCfg c;
  c.fill = (int)choose(5);
  c.fillSeed = 1 + choose(1000000);
  c.pad = (int)choose(3);
  c.reuse = choose(2);
  c.failAt = 0;
  heapConfig(c);
  if (!gRehearsal) op("heap fill=%d pad=%d reuse=%d", c.fill, c.pad, (int)c.reuse);
  if (gAgainFill >= 0) { c.fill = gAgainFill; c.fillSeed = gAgainFillSeed; heapConfig(c); }
  static const char *nm[] = {"heap-fill:zero", "heap-fill:AA", "heap-fill:random", "heap-fill:small-ints", "heap-fill:small-doubles"};
  fault(nm[c.fill]);
  if (c.reuse) fault("heap-reuse");
}
void heapReset() {
  if (gHigh > ARENA) __asan_unpoison_memory_region(ARENA, gHigh - ARENA);
  gBump = ARENA;
  gQuarantine->clear();
  gFreeLists->clear();
  gLiveBlocks = gLiveBytes = gAllocs = 0;
}
uint64_t heapLiveBlocks() { return gLiveBlocks; }
uint64_t heapLiveBytes() { return gLiveBytes; }
uint64_t heapAllocs() { return gAllocs; }
bool heapContains(const void *p) { return (char *)p >= ARENA && (char *)p < ARENA_END; }
static void fillWith(int fill, Prng &r, char *p, size_t n) {
  switch (fill) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xAA, n); break;
    case 2: for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t v = r.next(); memcpy(p + i, &v, 8); }
            for (size_t i = n & ~7UL; i < n; i++) p[i] = (char)r.next();
            break;
    case 3: for (size_t i = 0; i + 4 <= n; i += 4) { int v = (int)(r.next() % 7); memcpy(p + i, &v, 4); }
            for (size_t i = n & ~3UL; i < n; i++) p[i] = 1;
            break;
    default: for (size_t i = 0; i + 8 <= n; i += 8) { double v = 1 + (double)(r.next() % 5); memcpy(p + i, &v, 8); }
            for (size_t i = n & ~7UL; i < n; i++) p[i] = 1;
  }
}
static void fillBlock(char *p, size_t n) {
  if (n <= (1u << 16)) fillWith(gHeap.fill, gHeapRng, p, n);
  else { fillWith(gHeap.fill, gHeapRng, p, 1 << 12); fillWith(gHeap.fill, gHeapRng, p + ((n - (1 << 12)) & ~15UL), 1 << 12); }
}
static void *arenaAlloc(size_t n, bool zero) {
  gAllocs++;
  if (gProc) gProc->allocs = gAllocs;
  if ((gHeap.failAt && gAllocs == gHeap.failAt) || (gPlan.allocFailAt && gAllocs == gPlan.allocFailAt)) {
    fault("alloc-failure");
    if (gProc) gProc->allocErrHit = true;
    errno = ENOMEM;
    return nullptr;
  }
  if (n > (size_t)(ARENA_END - ARENA)) { errno = ENOMEM; return nullptr; }
  size_t body = (n + 15) & ~15UL;
  if (body == n) body += 16; else body += 0;
  size_t total = sizeof(Hdr) + body + 16;
  char *base = nullptr;
  if (gHeap.reuse) {
    auto it = gFreeLists->find(total);
    if (it != gFreeLists->end() && !it->second.empty()) { base = it->second.back(); it->second.pop_back(); }
  }
  bool fresh = false;
  if (!base) {
    base = gBump;
    if (gHeap.pad == 1) base += 16 * (gPadRng.next() % 4);
    else if (gHeap.pad == 2) base += 16 * (gPadRng.next() % 64);
    if (base + total > ARENA_END) {  // the arena is used up: blocks freed earlier must be reused
      for (char *b : *gQuarantine) (*gFreeLists)[((Hdr *)b)->total].push_back(b);
      gQuarantine->clear();
      auto it = gFreeLists->find(total);
      if (it == gFreeLists->end() || it->second.empty()) { errno = ENOMEM; return nullptr; }
      base = it->second.back();
      it->second.pop_back();
    } else {
      gBump = base + total;
      fresh = base >= gHigh;
      if (gBump > gHigh) gHigh = gBump;
    }
  }
  Hdr *h = (Hdr *)base;
  char *p = base + sizeof(Hdr);
  __asan_unpoison_memory_region(base, total);
  h->magic = M_LIVE; h->size = n; h->total = total; h->seq = gAllocs;
  if (zero) { if (!fresh) memset(p, 0, n); }
  else fillBlock(p, n);
  __asan_poison_memory_region(base, sizeof(Hdr));
  // the end of the last partial 8-byte granule is covered by ASan's partial-granule encoding
  __asan_poison_memory_region(p + n, total - sizeof(Hdr) - n);
  gLiveBlocks++; gLiveBytes += n;
  return p;
}
static void arenaFree(void *vp, const char *what) {
  char *p = (char *)vp;
  Hdr *h = (Hdr *)(p - sizeof(Hdr));
  if (((uintptr_t)p & 15) || h->magic != M_LIVE) {
    if (!((uintptr_t)p & 15) && h->magic == M_FREE) fail("memory-error:double-free", "double %s of a block", what);
    fail("memory-error:bad-free", "%s of a pointer that is not an allocated block", what);
  }
  h->magic = M_FREE;
  gLiveBlocks--; gLiveBytes -= h->size;
  __asan_poison_memory_region(p, h->total - sizeof(Hdr));
  gQuarantine->push_back((char *)h);
  if (gHeap.reuse && gQuarantine->size() > 32) {
    char *b = gQuarantine->front();
    gQuarantine->pop_front();
    (*gFreeLists)[((Hdr *)b)->total].push_back(b);
  }
}
}  // namespace sim
extern "C" {
void *sim_malloc(size_t n) { sim::tick(); return sim::arenaAlloc(n, false); }
void *sim_calloc(size_t a, size_t b) {
  sim::tick();
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return sim::arenaAlloc(n, true);
}
void sim_free(void *p) {
  if (!p) return;
  if (!sim::heapContains(p)) { free(p); return; }
  sim::arenaFree(p, "free");
}
void *sim_realloc(void *p, size_t n) {
  sim::tick();
  if (!p) return sim::arenaAlloc(n, false);
  if (!sim::heapContains(p)) return realloc(p, n);
  if (n == 0) { sim::arenaFree(p, "realloc"); return nullptr; }
  sim::Hdr *h = (sim::Hdr *)((char *)p - sizeof(sim::Hdr));
  if (h->magic != sim::M_LIVE) sim::fail("memory-error:bad-realloc", "realloc of a pointer that is not an allocated block");
  size_t old = h->size;
  void *q = sim::arenaAlloc(n, false);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  sim::arenaFree(p, "realloc");
  return q;
}
char *sim_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  char *q = (char *)sim_malloc(n);
  if (q) memcpy(q, s, n);
  return q;
}
}

namespace sim {
// ---- randomness -----------------------------------------------------------------------------------
struct RngState { int mode; uint64_t stream; Prng p; uint32_t stick; int left; uint64_t confined; uint32_t low, high; };
static uint32_t drawU32(RngState *s) {
  gDraws++;
  if (s->low) { s->low--; return 0; }
  if (s->high) { s->high--; return 0xffffffffu; }
  if (s->confined) { s->confined--; return s->stick + (s->p.u32() >> 3); }
  switch (s->mode) {
    case EXTREME: {
      uint32_t k = s->p.u32() & 7;
      if (k == 0) return 0;
      if (k == 1) return 0xffffffffu;
      if (k == 2) return 1;
      return s->p.u32();
    }
    case STICKY:
      if (s->left <= 0) { s->stick = s->p.u32(); s->left = 1 + s->p.u32() % 8; }
      s->left--;
      return s->stick;
    case GRID: return (s->p.u32() >> 28) << 28;
    case LOWISH: { double u = s->p.u(); return (uint32_t)(u * u * u * 4294967295.0); }
    case HIGHISH: { double u = s->p.u(); return (uint32_t)((1 - u * u * u) * 4294967295.0); }
    default: return s->p.u32();
  }
}
static void rset(void *st, unsigned long seed) {
  RngState *s = (RngState *)st;
  s->p = Prng(mix(s->stream, seed));
  s->left = 0;
}
static unsigned long rget(void *st) { tick(); return drawU32((RngState *)st); }
static double rgetd(void *st) { tick(); return drawU32((RngState *)st) / 4294967296.0; }
static const gsl_rng_type simRngType = {"sim", 0xffffffffUL, 0, sizeof(RngState), &rset, &rget, &rgetd};
static RngMode gProcMode = FAIR;
static uint64_t gProcStream = 1;
static gsl_rng *makeRng(RngMode m, uint64_t stream, unsigned long seed) {
  gsl_rng *r = (gsl_rng *)malloc(sizeof(gsl_rng));
  r->type = &simRngType;
  r->state = calloc(1, sizeof(RngState));
  RngState *s = (RngState *)r->state;
  s->mode = m;
  s->stream = stream;
  rset(s, seed);
  return r;
}
const char *modeName(int m) {
  static const char *n[] = {"fair", "extreme", "sticky", "grid", "lowish", "highish"};
  return n[m];
}
gsl_rng *newRng(RngMode m, uint64_t seed) { return makeRng(m, seed, 1); }
gsl_rng *anyRng(int n) {
  // fair in about a third of the runs; the rest of the draw schedules are adversarial
  uint32_t k = choose(9);
  int m = k < 3 ? FAIR : k < 5 ? EXTREME : k == 5 ? STICKY : k == 6 ? (n > 16 ? FAIR : GRID) : k == 7 ? LOWISH : HIGHISH;
  uint64_t s = seed64();
  op("draws mode=%s stream=%llx", modeName(m), (unsigned long long)s);
  fault((std::string("draws:") + modeName(m)).c_str());
  return newRng((RngMode)m, s);
}
gsl_rng *fairRng() {
  uint64_t s = seed64();
  op("draws mode=fair stream=%llx", (unsigned long long)s);
  fault("draws:fair");
  return newRng(FAIR, s);
}
gsl_rng *confinedRng(uint64_t n) {
  gsl_rng *r = fairRng();
  RngState *s = (RngState *)r->state;
  s->stick = choose(7) << 29;
  s->confined = n;
  op("the first %llu draws lie between %d/8 and %d/8", (unsigned long long)n, (int)(s->stick >> 29), (int)(s->stick >> 29) + 1);
  fault("draws:confined-at-first");
  return r;
}
gsl_rng *cornersRng(int n, uint64_t stream) {
  gsl_rng *r = newRng(FAIR, stream);
  RngState *s = (RngState *)r->state;
  s->low = s->high = n;
  op("the first %d draws are the smallest, the next %d the largest possible", n, n);
  fault("draws:corners-first");
  return r;
}
}  // namespace sim
extern "C" gsl_rng *sim_gsl_rng_alloc(const gsl_rng_type *) { return sim::makeRng(sim::gProcMode, sim::gProcStream, 0); }

namespace sim {
// ---- disk ------------------------------------------------------------------------------------------
std::map<std::string, File> disk;
struct Stream {
  char *own = nullptr;   // buffer of the size the plan asks for (glibc ignores the size when it brings its own)
  ~Stream() { free(own); }
  std::string name;
  bool readable = false, writable = false, append = false, dead = false;
  size_t pos = 0;
  std::string *target = nullptr;   // not on the disk: stdout, stderr, stdin
  bool counts = true;
  uint64_t written = 0;
  std::string inbuf;               // private content for stdin
  FILE *f = nullptr;
};
static std::vector<Stream *> gOpen;
static Prng gChunk(1);

const FaultPlan &plan() { return gPlan; }
static uint64_t gRead = 0, gWritten = 0, gOpens = 0;
void setPlan(const FaultPlan &p) { gPlan = p; gChunk = Prng(p.chunkSeed); gRead = 0; }
[[noreturn]] static void crashNow(const char *where);

static ssize_t ckRead(void *c, char *buf, size_t n) {
  Stream *s = (Stream *)c;
  tick();
  const std::string &d = s->target ? s->inbuf : disk[s->name].data;
  if (gPlan.readErrAt >= 0 && (gPlan.readErrFile.empty() || gPlan.readErrFile == s->name)) {
    if ((long)gRead >= gPlan.readErrAt) {
      if (gProc) gProc->readErrHit = true;
      fault("read-EIO");
      errno = EIO;
      return -1;
    }
    if ((long)(gRead + n) > gPlan.readErrAt) n = gPlan.readErrAt - gRead;
  }
  size_t left = s->pos < d.size() ? d.size() - s->pos : 0;
  size_t m = n < left ? n : left;
  if (m && gPlan.readChunk > 0 && m > (size_t)gPlan.readChunk) { m = gPlan.readChunk; fault("short-read"); }
  if (m > 1 && gPlan.readChunk < 0) {
    size_t k = 1 + gChunk.below(-gPlan.readChunk);
    if (k < m) { m = k; fault("short-read"); }
  }
  memcpy(buf, d.data() + s->pos, m);
  s->pos += m;
  gRead += m;
  if (gProc) gProc->bytesRead = gRead;
  return (ssize_t)m;
}
static ssize_t ckWrite(void *c, const char *buf, size_t n) {
  Stream *s = (Stream *)c;
  if (s->dead) return (ssize_t)n;
  tick();
  if (s->counts && gProc) {
    if (gPlan.crashWriteByte >= 0 && (long)(gWritten + n) > gPlan.crashWriteByte) {
      size_t m = gPlan.crashWriteByte - gWritten;
      std::string &d = s->target ? *s->target : disk[s->name].data;
      if (s->append || s->target) d.append(buf, m);
      else { if (d.size() < s->pos + m) d.resize(s->pos + m); memcpy(&d[s->pos], buf, m); }
      fault("crash-at-write-byte");
      crashNow("write");
    }
    bool mine = gPlan.faultFile.empty() || gPlan.faultFile == s->name;
    uint64_t sofar = gPlan.faultFile.empty() ? gWritten : s->written;
    bool nospc = mine && gPlan.diskCapacity >= 0 && (long)(sofar + n) > gPlan.diskCapacity;
    bool eio = mine && gPlan.writeErrAt >= 0 && (long)(sofar + n) > gPlan.writeErrAt;
    if ((nospc || eio) && gPlan.errOnce && gProc->writeErrHit) nospc = eio = false;  // there is room again
    if (nospc || eio) {
      long lim = nospc ? gPlan.diskCapacity : gPlan.writeErrAt;
      size_t m = lim > (long)sofar ? lim - sofar : 0;
      gProc->writeErrHit = true;
      fault(nospc ? "write-ENOSPC" : "write-EIO");
      if (gPlan.errOnce) fault("error-goes-away");
      if (!gPlan.faultFile.empty()) fault("one-file-fails");
      if (m == 0) { errno = nospc ? ENOSPC : EIO; return 0; }
      n = m;  // torn write: the prefix reaches the disk
    }
  }
  std::string &d = s->target ? *s->target : disk[s->name].data;
  if (s->target || s->append) d.append(buf, n);
  else {
    if (d.size() < s->pos + n) d.resize(s->pos + n);
    memcpy(&d[s->pos], buf, n);
    s->pos += n;
  }
  if (s->counts) gWritten += n;
  s->written += n;
  if (gProc) gProc->bytesWritten = gWritten;
  if (d.size() > (64u << 20)) fail("no-progress", "a stream grew beyond 64 MB");
  return (ssize_t)n;
}
static int ckSeek(void *c, off64_t *o, int w) {
  Stream *s = (Stream *)c;
  if (s->target) { errno = ESPIPE; return -1; }
  size_t sz = disk[s->name].data.size();
  off64_t np = w == SEEK_SET ? *o : w == SEEK_CUR ? (off64_t)s->pos + *o : (off64_t)sz + *o;
  if (np < 0) { errno = EINVAL; return -1; }
  s->pos = (size_t)np;
  *o = np;
  return 0;
}
static int ckClose(void *c) {
  Stream *s = (Stream *)c;
  bool bad = !s->dead && s->writable && gPlan.closeErr && gProc && s->counts && (gPlan.faultFile.empty() || gPlan.faultFile == s->name);
  if (bad && !s->target) { std::string &d = disk[s->name].data; d.resize(d.size() - d.size() / 3); }  // written-back data is lost
  for (size_t i = 0; i < gOpen.size(); i++) if (gOpen[i] == s) { gOpen.erase(gOpen.begin() + i); break; }
  delete s;
  if (bad) { gProc->closeErrHit = true; fault("close-EIO"); errno = EIO; return -1; }
  return 0;
}
static FILE *makeStream(Stream *s, const char *mode, int buf) {
  cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
  s->f = fopencookie(s, mode, io);
  if (!s->f) infra("fopencookie failed");
  if (buf > 0) setvbuf(s->f, s->own = (char *)malloc(buf), _IOFBF, buf);
  gOpen.push_back(s);
  return s->f;
}
FILE *openMem(const std::string &name, const char *mode) {
  Stream *s = new Stream;
  s->name = name;
  s->readable = mode[0] == 'r' || strchr(mode, '+');
  s->writable = mode[0] != 'r' || strchr(mode, '+');
  s->append = mode[0] == 'a';
  if (mode[0] == 'r' && !disk.count(name)) { delete s; errno = ENOENT; return nullptr; }
  if (mode[0] == 'w') disk[name].data.clear();
  if (mode[0] == 'a') disk[name];
  return makeStream(s, mode, gPlan.bufSize);
}
static std::string *gOutTarget, *gErrTarget;
static FILE *gRealOut, *gRealErr, *gRealIn;
static FILE *sinkStream(std::string *t, bool unbuf, bool counts, const char *name) {
  Stream *s = new Stream;
  s->name = name; s->writable = true; s->target = t; s->counts = counts;
  FILE *f = makeStream(s, "w", 0);
  if (unbuf) setvbuf(f, nullptr, _IONBF, 0);
  else if (gPlan.bufSize > 0) setvbuf(f, s->own = (char *)malloc(gPlan.bufSize), _IOFBF, gPlan.bufSize);
  return f;
}
struct Cap { FILE *o, *e; std::string *so, *se; };
static std::vector<Cap> gCaps;
void captureBegin() {
  Cap c = {stdout, stderr, new std::string, new std::string};
  stdout = sinkStream(c.so, false, false, "<stdout>");
  stderr = sinkStream(c.se, false, false, "<stderr>");
  gCaps.push_back(c);
}
void captureEnd(std::string *out, std::string *err) {
  Cap c = gCaps.back();
  gCaps.pop_back();
  fclose(stdout);
  fclose(stderr);
  stdout = c.o;
  stderr = c.e;
  if (gLog) gLog->push_back("printed " + *c.so);
  if (out) *out = *c.so;
  if (err) *err = *c.se;
  delete c.so;
  delete c.se;
}

// ---- process life ----------------------------------------------------------------------------------
static sigjmp_buf gProcJmp;
static bool gInProc = false;
static std::vector<char> *gSnapData, *gSnapBss;
static void rawCopy(char *dst, const char *src, size_t n) {  // across ASan's global redzones
  __asm__ volatile("rep movsb" : "+D"(dst), "+S"(src), "+c"(n) : : "memory");
}
static void snapStatics() {
  gSnapData = new std::vector<char>(repo_data_end - repo_data_begin);
  gSnapBss = new std::vector<char>(repo_bss_end - repo_bss_begin);
  rawCopy(gSnapData->data(), repo_data_begin, gSnapData->size());
  rawCopy(gSnapBss->data(), repo_bss_begin, gSnapBss->size());
}
static void restoreStatics() {
  rawCopy(repo_data_begin, gSnapData->data(), gSnapData->size());
  rawCopy(repo_bss_begin, gSnapBss->data(), gSnapBss->size());
}
void crashNow(const char *where) {
  if (!gInProc) infra("crash outside a process");
  gProc->crashed = true;
  note("  [crash] at step %llu (%s)", (unsigned long long)gSteps, where);
  siglongjmp(gProcJmp, 1);
}
static void stopReached() {
  if (gSteps >= gCrashAt) {
    gCrashAt = ~0ULL;
    recomputeStop();
    if (gInProc) { fault("crash-at-step"); crashNow("step"); }
    return;
  }
  if (gSteps >= gBudgetEnd) {
    gBudgetEnd = ~0ULL;
    recomputeStop();
    fail("no-progress", "step budget exhausted after %llu basic blocks", (unsigned long long)gSteps);
  }
}
static bool gEnvDrawn = false;
static uint64_t gClock = 0;
static pid_t gPid = 0;
static Prng gLibc(1);
static void environment() {
  if (gEnvDrawn) return;
  gEnvDrawn = true;
  gClock = 1000000000000000000ull + 1000000007ull * choose(700000000);
  gPid = 2 + choose(30000);
  op("clock reads %llu s, process number %d", (unsigned long long)(gClock / 1000000000), (int)gPid);
  fault("clock-and-process-number");
}
static uint64_t clockNow() { environment(); return gClock + gSteps * 20; }
static Proc *gProcBody(const std::function<int()> &body, const std::string &in, const FaultPlan &fp,
                       uint64_t stepBudget) {
  gEnvDrawn = false;
  gLibc = Prng(1);
  Proc *P = new Proc;
  FILE *so = stdout, *se = stderr, *si = stdin;
  FaultPlan savedPlan = gPlan;
  HeapCfg savedHeap = gHeap;
  hdestroy();
  optind = 0;
  opterr = 1;
  restoreStatics();
  heapReset();
  setPlan(fp);
  gRead = gWritten = gOpens = 0;
  std::vector<Stream *> before = gOpen;
  stdout = sinkStream(&P->out, false, true, "<stdout>");
  stderr = sinkStream(&P->err, true, false, "<stderr>");
  Stream *is = new Stream;
  is->name = "<stdin>"; is->readable = true; is->target = &is->inbuf; is->inbuf = in;
  stdin = makeStream(is, "r", gPlan.bufSize);
  FILE *po = stdout, *pe = stderr, *pi = stdin;
  gProc = P;
  gInProc = true;
  uint64_t start = gSteps;
  if (stepBudget) budget(stepBudget);
  if (fp.crashStep) { gCrashAt = gSteps + fp.crashStep; recomputeStop(); }
  if (sigsetjmp(gProcJmp, 1) == 0) P->code = body();
  gCrashAt = ~0ULL;
  noBudget();
  P->steps = gSteps - start;
  // streams the process left open: flushed by a normal end, lost by a crash
  stdout = po; stderr = pe; stdin = pi;
  if (P->crashed) for (Stream *s : gOpen) { bool old = false; for (Stream *b : before) old |= b == s; if (!old) s->dead = true; }
  for (;;) {
    Stream *v = nullptr;
    for (Stream *s : gOpen) { bool old = false; for (Stream *b : before) old |= b == s; if (!old) { v = s; break; } }
    if (!v) break;
    if (v->readable && !v->writable) v->pos = 0;
    fclose(v->f);
  }
  stdout = so; stderr = se; stdin = si;
  gInProc = false;
  gProc = nullptr;
  setPlan(savedPlan);
  gHeap = savedHeap;
  heapReset();
  hdestroy();
  restoreStatics();
  op("  -> %s code=%d steps=%llu out=%zuB err=%zuB", P->crashed ? "CRASHED" : "ended", P->code,
     (unsigned long long)P->steps, P->out.size(), P->err.size());
  return P;
}
Proc runProcess(MainFn fn, const std::vector<std::string> &args, const std::string &in, const FaultPlan &fp,
                RngMode mode, uint64_t stream, uint64_t stepBudget) {
  std::string cmd;
  for (auto &a : args) cmd += a + " ";
  op("run %s(mode=%s)", cmd.c_str(), modeName(mode));
  gProcMode = mode;
  gProcStream = stream;
  // argv lives in harness memory
  std::vector<char *> *av = new std::vector<char *>;
  for (auto &a : args) av->push_back(strdup(a.c_str()));
  av->push_back(nullptr);
  int argc = (int)args.size();
  Proc *P = gProcBody([=]() { return fn(argc, av->data()); }, in, fp, stepBudget);
  Proc r = *P;
  delete P;
  return r;
}
Proc runBody(const std::function<void()> &body, const FaultPlan &fp, uint64_t stepBudget) {
  Proc *P = gProcBody([&]() { body(); return 0; }, "", fp, stepBudget);
  Proc r = *P;
  delete P;
  return r;
}
}  // namespace sim
extern "C" {
void sim_exit(int code) {
  using namespace sim;
  if (!gInProc) fail("unexpected-exit", "the code under test called exit(%d)", code);
  gProc->code = code;
  siglongjmp(gProcJmp, 2);
}
void sim_abort(void) { sim::fail("memory-error:abort", "the code under test called abort()"); }
FILE *sim_fopen(const char *name, const char *mode) {
  using namespace sim;
  tick();
  uint64_t k = gOpens++;
  if (gProc) gProc->opens = gOpens;
  if (gPlan.openFailAt >= 0 && (long)k == gPlan.openFailAt) {
    if (gProc) gProc->openErrHit = true;
    fault("fopen-failure");
    errno = gPlan.openErrno;
    return nullptr;
  }
  return openMem(name, mode);
}
// The clock, the process number, the C library's own random numbers and the environment: nothing
// the project promises may depend on them. Each process meets its own, drawn when first asked for.
time_t sim_time(time_t *t) {
  using namespace sim;
  tick();
  time_t v = clockNow() / 1000000000;
  if (t) *t = v;
  return v;
}
clock_t sim_clock(void) { sim::tick(); return (clock_t)(sim::clockNow() / 1000 % 3600000000ull); }
int sim_gettimeofday(struct timeval *tv, void *) { uint64_t v = sim::clockNow(); tv->tv_sec = v / 1000000000; tv->tv_usec = v / 1000 % 1000000; return 0; }
int sim_clock_gettime(clockid_t, struct timespec *ts) { uint64_t v = sim::clockNow(); ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0; }
pid_t sim_getpid(void) { sim::environment(); return sim::gPid; }
int sim_rand(void) { sim::tick(); return (int)(sim::gLibc.u32() >> 1); }
void sim_srand(unsigned s) { sim::gLibc = sim::Prng(s); }
long sim_random(void) { return sim_rand(); }
void sim_srandom(unsigned s) { sim_srand(s); }
double sim_drand48(void) { sim::tick(); return sim::gLibc.u(); }
void sim_srand48(long s) { sim_srand((unsigned)s); }
long sim_lrand48(void) { return sim_rand(); }
char *sim_getenv(const char *name) {
  using namespace sim;
  environment();
  static char v[2][12];
  fault("environment");
  if (gPid % 3 == 0) return nullptr;
  snprintf(v[0], sizeof v[0], "%d", (int)(gPid % 7 + strlen(name)));
  return v[0];
}
const gsl_rng_type *sim_gsl_rng_env_setup(void) {
  const char *s = sim_getenv("GSL_RNG_SEED");
  gsl_rng_default_seed = s ? strtoul(s, nullptr, 0) : 0;
  return gsl_rng_default = gsl_rng_mt19937;
}
int sim_remove(const char *name) { return sim::disk.erase(name) ? 0 : -1; }
int sim_unlink(const char *name) { return sim_remove(name); }
int sim_rename(const char *a, const char *b) {
  using namespace sim;
  if (!disk.count(a)) { errno = ENOENT; return -1; }
  File f = disk[a];
  disk.erase(a);
  disk[b] = f;
  return 0;
}
}

namespace sim {
// ---- a scenario inside a scenario -------------------------------------------------------------------
// Runs fn with decisions of its own and writes down what it observed; with again, the decisions
// are those recorded from mark on and memory holds something else.
Rehearsal rehearse(void (*fn)(), const Rehearsal *again, int fill, uint64_t fillSeed) {
  Rehearsal r;
  disk.clear();
  setPlan(FaultPlan());
  if (again) {
    gAgain = slot->tape + again->from; gAgainPos = 0; gAgainLen = again->to - again->from;
    gAgainFill = fill; gAgainFillSeed = fillSeed;
  }
  r.from = slot->ntape;
  gRehearsal = true;
  gLog = &r.log;
  uint64_t d = gDraws, st = gSteps;
  uint64_t savedHash = gHash;
  fn();
  noBudget();
  char b[64];
  snprintf(b, sizeof b, "%llu random draws", (unsigned long long)(gDraws - d));
  r.log.push_back(b);
  for (auto &f : disk) r.log.push_back("file " + f.first + ": " + f.second.data);
  r.steps = gSteps - st;
  r.to = slot->ntape;
  gLog = nullptr;
  gAgain = nullptr;
  gAgainFill = -1;
  gRehearsal = false;
  gHash = savedHash;
  for (auto &l : r.log) gHash = hashBytes(l.data(), l.size(), gHash);
  disk.clear();
  setPlan(FaultPlan());
  return r;
}

// ---- scenarios and child execution -----------------------------------------------------------------
std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
void registerScenario(const char *p, const char *n, void (*f)(), int w) { scenarios().push_back({p, n, f, w}); }

static void diedWithoutMemory() { probe("died-of-allocation-failure"); nontrivial(); finish(ST_OK, "", ""); }
static void asanReport(const char *txt) {
  if (gInProc && gProc->allocErrHit) diedWithoutMemory();
  const char *p = strstr(txt, "AddressSanitizer: ");
  char kind[40] = "unknown", fn[80] = "?";
  if (p) sscanf(p + 18, "%39[a-zA-Z-]", kind);
  // frames in the code under test (the first stack only)
  const char *q = strstr(txt, "    #0 ");
  const char *stop = q ? strstr(q, "\n\n") : nullptr;
  bool first = true;
  while (q && (q = strstr(q, " in ")) && (!stop || q < stop)) {
    q += 4;
    char f[80], where[200] = "";
    if (sscanf(q, "%79[^ \n] %199[^ \n]", f, where) < 1) continue;
    if (strstr(where, "libsanitizer") || strstr(where, "/sim/") || !strstr(where, ".c:")) continue;
    const char *base = strrchr(where, '/');
    note("  at %s %s", f, base ? base + 1 : where);
    if (first) snprintf(fn, sizeof fn, "%s", f);
    first = false;
  }
  char cls[64], msg[700];
  snprintf(cls, sizeof cls, "memory-error:%s", kind);
  snprintf(msg, sizeof msg, "invalid memory access (%s) in %s", kind, fn);
  finish(ST_FAIL, cls, msg);
}
extern "C" void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out, size_t n);
static char *const STACK = (char *)0x0c000000UL;
static const size_t STACK_SIZE = 0x02000000UL;
static void endProcess() { siglongjmp(gProcJmp, 3); }
static void onSignal(int sig, siginfo_t *si, void *ctx) {
  char msg[120];
  // a bad pointer used after a failed allocation ends the process, as it would for a user
  if (gInProc && gProc->allocErrHit && sig == SIGSEGV) {
    gProc->code = 139;
    gProc->crashed = true;
    // inside the C library, which may hold locks, the run ends here
    uintptr_t rip = (uintptr_t)((ucontext_t *)ctx)->uc_mcontext.gregs[REG_RIP];
    if (rip >= 0x10000000UL) diedWithoutMemory();
    // leave the signal stack: go on in endProcess on the stack of the code under test
    greg_t *r = ((ucontext_t *)ctx)->uc_mcontext.gregs;
    r[REG_RSP] = (((r[REG_RSP] - 128) & ~15LL) - 8);
    r[REG_RIP] = (greg_t)(uintptr_t)endProcess;
    return;
  }
  if (sig == SIGXCPU) {  // far beyond what any run needs, where the step budget of the scenario is larger still
    gHash = 7; gSteps = 0; gDraws = 0;
    finish(ST_FAIL, "no-progress", "the run had not ended after 80 seconds of processor time");
  }
  if (tracing()) {
    char where[200] = "";
    __sanitizer_symbolize_pc((void *)((ucontext_t *)ctx)->uc_mcontext.gregs[REG_RIP], "%f %s:%l", where, sizeof where);
    const char *b = strrchr(where, '/');
    if (b) { char *sp = strchr(where, ' '); if (sp) *sp = 0; note("  at %s %s", where, b + 1); }
  }
  snprintf(msg, sizeof msg, "the code under test died of signal %d%s", sig,
           sig == SIGSEGV && (uintptr_t)si->si_addr < 65536 ? " (null pointer)" : "");
  finish(ST_FAIL, sig == SIGFPE ? "memory-error:sigfpe" : "memory-error:signal", msg);
}
static ucontext_t gMainCtx, gFiber;
static void (*gFn)();
void dirtyStack(int fill) {
  char here;
  char *top = &here - 4096;
  char *lo = top - (256 << 10);
  if (lo < STACK) return;
  Prng r(fill * 77 + 5);
  fillWith(fill, r, (char *)((uintptr_t)lo & ~15UL), 255 << 10);
}
static void fiberMain() {
  __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
  gFn();
  finish(ST_OK, "", "");
}
void childRun(void (*fn)(), bool record, uint64_t seed, const std::vector<uint32_t> &tape, bool trace) {
  struct rlimit rl = {80, 200};
  setrlimit(RLIMIT_CPU, &rl);
  rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  gTrace = trace;
  gRecord = record;
  gTape = tape;
  gTapePos = 0;
  gGen = Prng(seed);
  gHash = 1469598103934665603ULL;
  gSteps = 0;
  gDraws = 0;
  gQuarantine = new std::deque<char *>;
  gFreeLists = new std::unordered_map<uint64_t, std::vector<char *>>;
  __asan_set_error_report_callback(asanReport);
  static char alt[65536];
  stack_t ss = {};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_sigaction = onSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) sigaction(s, &sa, nullptr);
  snapStatics();
  noBudget();
  gOutTarget = new std::string;
  gErrTarget = new std::string;
  gRealOut = stdout; gRealErr = stderr; gRealIn = stdin;
  struct Null { static ssize_t w(void *, const char *, size_t n) { return (ssize_t)n; } };
  cookie_io_functions_t nul = {nullptr, Null::w, nullptr, nullptr};
  stdout = fopencookie(nullptr, "w", nul);
  stderr = fopencookie(nullptr, "w", nul);
  gFn = fn;
  memset(STACK + STACK_SIZE - (512 << 10), 0, 512 << 10);
  getcontext(&gFiber);
  gFiber.uc_stack.ss_sp = STACK;
  gFiber.uc_stack.ss_size = STACK_SIZE;
  gFiber.uc_link = &gMainCtx;
  makecontext(&gFiber, fiberMain, 0);
  void *fake;
  __sanitizer_start_switch_fiber(&fake, STACK, STACK_SIZE);
  swapcontext(&gMainCtx, &gFiber);
  _exit(3);
}
void initProcess() {
  void *a = mmap(ARENA, ARENA_END - ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *s = mmap(STACK, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != (void *)ARENA || s != (void *)STACK) { fprintf(stderr, "simrun: cannot map the simulated memory\n"); exit(2); }
  void *m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { fprintf(stderr, "simrun: cannot map shared memory\n"); exit(2); }
  sh = (Shared *)m;
  slot = &sh->slots[0];
}
}  // namespace sim
