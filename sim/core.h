// Internal interface between the simulator core and the driver.
#pragma once
#include "sim.h"
namespace sim {
enum { ST_NONE = 0, ST_OK, ST_SKIP, ST_FAIL, ST_INFRA };
static const uint32_t TAPE_MAX = 1 << 17;
static const uint32_t TRACE_MAX = 1 << 20;
static const int NCOUNTERS = 256;
static const uint64_t STATES = 1 << 22;
static const uint64_t TRACES = 1 << 20;
static const uint32_t COVMAP = 1 << 23;
static const uint32_t MAXRUNS = 1 << 22;
struct Slot {
  volatile int status;
  int nontrivial;
  uint64_t evals, hash, steps, draws;
  char cls[64];
  char msg[1600];
  uint32_t ntape, ntrace;
  uint32_t tape[TAPE_MAX];
  char trace[TRACE_MAX];
};
struct Counter { char name[56]; uint64_t n; };
struct Shared {
  Slot slots[20];
  int lock;
  int counting;
  uint64_t next, done, evals, nontrivialRuns, skips, steps, draws, failIndex, infraCount, knownHits;
  char infraMsg[256];
  Counter probes[NCOUNTERS], faults[NCOUNTERS], scen[NCOUNTERS];
  uint64_t states[STATES], nstates;
  uint64_t longest;
  uint64_t traces[TRACES], ntraces;
  unsigned char cov[COVMAP];
  uint64_t hashes[MAXRUNS];
};
extern Shared *sh;
extern Slot *slot;
std::vector<Scenario> &scenarios();
bool setInsert(uint64_t *set, uint64_t size, uint64_t h, uint64_t *cnt);
[[noreturn]] void infra(const char *why);
void childRun(void (*fn)(), bool record, uint64_t seed, const std::vector<uint32_t> &tape, bool trace);
void initProcess();
}  // namespace sim
