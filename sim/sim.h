// Deterministic simulator for rgraph: public API used by the scenarios.
// Everything nondeterministic that the code under test can see (random draws, heap contents and
// layout, stream chunking, I/O errors, crash points) is decided here from one seed.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <gsl/gsl_rng.h>

namespace sim {

struct Prng {  // splitmix64
  uint64_t s;
  explicit Prng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint32_t u32() { return (uint32_t)(next() >> 32); }
  double u() { return u32() / 4294967296.0; }
  uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL);

// ---- decisions -------------------------------------------------------------------------------
uint32_t choose(uint32_t n);            // 0..n-1, one tape cell; 0 is the simplest option
bool flip(int num, int den);            // true with probability num/den
int range(int lo, int hi);              // inclusive
uint64_t seed64();
double weightChoice();                  // a "nice" positive link weight

// ---- trace / verdict -------------------------------------------------------------------------
void op(const char *fmt, ...) __attribute__((format(printf, 1, 2)));    // hashed and traced
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // traced only
void fold(uint64_t v);                                                   // hashed only
void foldDouble(double v, double quantum = 1e-7);
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void skip(const char *why);  // run ends early, counted as trivial
void nontrivial();
void eval(uint64_t n = 1);               // number of oracle evaluations
void probe(const char *name, uint64_t n = 1);
void fault(const char *name, uint64_t n = 1);
void state(uint64_t h);                  // distinct-state measure
bool tracing();

// ---- simulated time --------------------------------------------------------------------------
uint64_t steps();                        // basic blocks of code under test executed so far
uint64_t draws();
void budget(uint64_t moreSteps);         // violation "no-progress" if exceeded from now on
void noBudget();

// ---- randomness ------------------------------------------------------------------------------
enum RngMode { FAIR, EXTREME, STICKY, GRID, LOWISH, HIGHISH, NMODES };
gsl_rng *newRng(RngMode m, uint64_t seed);
gsl_rng *anyRng(int n = 0);              // mode and seed from the tape; with many nodes no mode that cannot name each of them
gsl_rng *fairRng();
gsl_rng *confinedRng(uint64_t n);          // the first n draws lie in one eighth of the range, fair afterwards
gsl_rng *cornersRng(int n, uint64_t stream);  // n draws of the smallest value, n of the largest, then fair ones
const char *modeName(int m);

// ---- heap ------------------------------------------------------------------------------------
struct HeapCfg { int fill; uint64_t fillSeed; int pad; bool reuse; uint64_t failAt; };
void heapConfig(const HeapCfg &c);
void heapRandom();                       // contents/layout from the tape
void heapReset();                        // forget everything allocated (process end)
uint64_t heapLiveBlocks();
uint64_t heapLiveBytes();
uint64_t heapAllocs();
bool heapContains(const void *p);
void dirtyStack(int fill);

// ---- files -----------------------------------------------------------------------------------
struct FaultPlan {
  int readChunk = 0;        // 0: whole buffer; n>0: at most n bytes per read; <0: random 1..-n
  uint64_t chunkSeed = 1;
  int bufSize = 0;          // stdio buffer size for opened files (0: default)
  long readErrAt = -1;      // EIO once this many bytes were delivered (over the run of the process)
  std::string readErrFile;  // restrict to this file ("" = any)
  long diskCapacity = -1;   // ENOSPC once total bytes written by the process exceed this
  long writeErrAt = -1;     // EIO at this byte
  bool closeErr = false;    // last close of a written file fails
  std::string faultFile;    // restrict write and close faults to this file ("" = any; limits then count its bytes)
  bool errOnce = false;     // a write fails once, later writes succeed
  int openFailAt = -1;      // n-th fopen fails
  int openErrno = 24;       // EMFILE
  uint64_t crashStep = 0;   // crash at this basic block (relative), 0 = never
  long crashWriteByte = -1; // crash when this many bytes reached the disk (the rest is lost)
  uint64_t allocFailAt = 0; // n-th allocation of the process returns NULL
};
struct File { std::string data; };
extern std::map<std::string, File> disk;  // the simulated disk, survives crashes
FILE *openMem(const std::string &name, const char *mode);  // through the simulated disk
void setPlan(const FaultPlan &p);
const FaultPlan &plan();

struct Proc {
  bool crashed = false;   // simulated crash
  int code = 0;
  std::string out, err;
  uint64_t steps = 0;
  bool readErrHit = false, writeErrHit = false, openErrHit = false, closeErrHit = false, allocErrHit = false;
  uint64_t bytesRead = 0, bytesWritten = 0, opens = 0, allocs = 0;
  bool faulted() const { return readErrHit || writeErrHit || openErrHit || closeErrHit || allocErrHit; }
};
typedef int (*MainFn)(int, char **);
// Runs a whole program on the simulated disk; one call = one process life.
Proc runProcess(MainFn fn, const std::vector<std::string> &args, const std::string &in,
                const FaultPlan &plan, RngMode mode, uint64_t rngStream, uint64_t stepBudget);
// Runs library code as a process body (for crash points in library calls).
Proc runBody(const std::function<void()> &body, const FaultPlan &plan, uint64_t stepBudget);

// stdout/stderr capture for library calls
void captureBegin();
void captureEnd(std::string *out, std::string *err);

// A scenario run as a part of another one, and what it observed.
struct Rehearsal { uint32_t from = 0, to = 0; uint64_t steps = 0; std::vector<std::string> log; };
Rehearsal rehearse(void (*fn)(), const Rehearsal *again = nullptr, int fill = -1, uint64_t fillSeed = 0);

struct Scenario { const char *prop; const char *name; void (*fn)(); int weight; };
void registerScenario(const char *prop, const char *name, void (*fn)(), int weight);
struct Reg { Reg(const char *p, const char *n, void (*f)(), int w) { registerScenario(p, n, f, w); } };
}  // namespace sim

#define SCENARIO(prop, name, weight) \
  static void scen_##prop##_##name(); \
  static sim::Reg reg_##prop##_##name(#prop, #name, scen_##prop##_##name, weight); \
  static void scen_##prop##_##name()
#define CHECK(cond, cls, ...) do { sim::eval(); if (!(cond)) sim::fail(cls, __VA_ARGS__); } while (0)
