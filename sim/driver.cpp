// Seeded search over runs, minimisation, replay and evidence.
#include "core.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <algorithm>
#include <fstream>
#include <sstream>
using namespace sim;

static double now() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }
struct RunSpec {
  const Scenario *sc = nullptr;
  bool record = true;
  uint64_t seed = 0;
  std::vector<uint32_t> tape;
  bool trace = false;
};
// Executes one run in a forked child; the result is in `s`.
static void execRun(const RunSpec &r, Slot *s) {
  s->status = ST_NONE; s->nontrivial = 0; s->evals = 0; s->hash = 0; s->ntape = 0; s->ntrace = 0;
  s->cls[0] = s->msg[0] = 0; s->steps = s->draws = 0;
  pid_t p = fork();
  if (p < 0) { s->status = ST_INFRA; snprintf(s->msg, sizeof s->msg, "fork failed"); return; }
  if (p == 0) { slot = s; childRun(r.sc->fn, r.record, r.seed, r.tape, r.trace); }
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (s->status == ST_NONE) {
    s->status = ST_INFRA;
    snprintf(s->msg, sizeof s->msg, "child ended without a verdict (wait status %x)", st);
  }
}
static std::vector<Scenario> forProp(const std::string &p) {
  std::vector<Scenario> v;
  for (auto &s : scenarios()) if (p == s.prop) v.push_back(s);
  std::sort(v.begin(), v.end(), [](const Scenario &a, const Scenario &b) { return strcmp(a.name, b.name) < 0; });
  return v;
}
static const Scenario *pick(const std::vector<Scenario> &v, uint64_t seed, uint64_t idx, uint64_t *runSeed) {
  uint64_t h = mix(mix(seed, hashBytes(v[0].prop, strlen(v[0].prop))), idx);
  Prng p(h);
  int tot = 0;
  for (auto &s : v) tot += s.weight;
  int k = (int)p.below(tot);
  *runSeed = p.next();
  for (auto &s : v) { if (k < s.weight) return &s; k -= s.weight; }
  return &v[0];
}
static std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
struct Known { std::string prop, cls, match, text; };
static std::vector<Known> loadKnown() {
  std::vector<Known> v;
  const char *d = getenv("SIM_KNOWN");
  std::ifstream f(d ? d : "known-findings.txt");
  std::string line;
  while (std::getline(f, line)) {
    if (line.compare(0, 6, "known:")) continue;  // "fixed:" entries suppress nothing
    Known k;
    auto get = [&](const char *key) {
      size_t i = line.find(std::string(key) + "=\"");
      size_t off = strlen(key) + 2;
      if (i == std::string::npos) return std::string();
      size_t j = line.find('"', i + off);
      return line.substr(i + off, j - i - off);
    };
    size_t i = line.find("property=");
    if (i == std::string::npos) continue;
    k.prop = line.substr(i + 9, line.find(' ', i) - i - 9);
    k.cls = get("class");
    k.match = get("match");
    k.text = get("what");
    if (k.cls.empty()) continue;
    v.push_back(k);
  }
  return v;
}
static std::vector<Known> gKnown;
static const Known *isKnown(const std::string &prop, const Slot *s) {
  for (auto &k : gKnown)
    if (k.prop == prop && k.cls == s->cls && (k.match.empty() || strstr(s->msg, k.match.c_str()))) return &k;
  return nullptr;
}
// ---- replay files ---------------------------------------------------------------------------------
static void writeReplay(const std::string &path, const std::string &prop, const Scenario *sc, uint64_t seed, uint64_t idx,
                        const Slot *s, size_t origLen) {
  std::ofstream f(path);
  f << "rgraph-sim-replay 1\nproperty " << prop << "\nscenario " << sc->name << "\nverif_seed " << seed << "\nrun_index " << idx
    << "\nclass " << s->cls << "\nhash " << std::hex << s->hash << std::dec << "\noriginal_decisions " << origLen
    << "\nmessage " << esc(s->msg) << "\ntape " << s->ntape;
  for (uint32_t i = 0; i < s->ntape; i++) f << (i % 24 ? " " : "\n") << s->tape[i];
  f << "\ntrace\n" << std::string(s->trace, s->ntrace);
}
struct Replay { std::string prop, scen, cls; uint64_t hash = 0; std::vector<uint32_t> tape; };
static bool readReplay(const char *path, Replay &r) {
  std::ifstream f(path);
  std::string w;
  if (!(f >> w) || w != "rgraph-sim-replay") return false;
  f >> w;
  while (f >> w) {
    if (w == "property") f >> r.prop;
    else if (w == "scenario") f >> r.scen;
    else if (w == "class") f >> r.cls;
    else if (w == "hash") f >> std::hex >> r.hash >> std::dec;
    else if (w == "message") std::getline(f, w);
    else if (w == "tape") { size_t n; f >> n; r.tape.resize(n); for (auto &x : r.tape) f >> x; return true; }
    else f >> w;
  }
  return false;
}
// ---- minimisation -----------------------------------------------------------------------------------
static int gShrinkRuns = 0;
static std::vector<uint32_t> shrink(const Scenario *sc, std::vector<uint32_t> tape, const std::string &cls, double deadline) {
  Slot *s = &sh->slots[18];
  auto still = [&](std::vector<uint32_t> &t) {
    if (gShrinkRuns >= 4000 || now() > deadline) return false;
    gShrinkRuns++;
    RunSpec r; r.sc = sc; r.record = false; r.tape = t;
    execRun(r, s);
    if (s->status == ST_FAIL && cls == s->cls) {
      t.assign(s->tape, s->tape + s->ntape);
      while (!t.empty() && t.back() == 0) t.pop_back();
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && now() < deadline && gShrinkRuns < 4000) {
    progress = false;
    for (size_t len = tape.size() / 2; len >= 1; len /= 2) {     // truncate / delete chunks
      for (size_t i = 0; i + len <= tape.size();) {
        std::vector<uint32_t> t = tape;
        t.erase(t.begin() + i, t.begin() + i + len);
        if (t.size() < tape.size() && still(t) && t.size() < tape.size()) { tape = t; progress = true; }
        else i += len;
        if (now() > deadline) return tape;
      }
    }
    for (size_t len = 8; len >= 1; len /= 2)                     // zero chunks
      for (size_t i = 0; i + len <= tape.size(); i += len) {
        std::vector<uint32_t> t = tape;
        bool any = false;
        for (size_t k = i; k < i + len; k++) { any |= t[k] != 0; t[k] = 0; }
        if (any && still(t) && (t.size() <= tape.size())) { if (t != tape) progress = true; tape = t; }
        if (now() > deadline) return tape;
      }
    for (size_t i = 0; i < tape.size(); i++) {                   // lower values
      uint32_t lo = 0, v = tape[i];
      while (lo < v) {
        uint32_t mid = lo + (v - lo) / 2;
        std::vector<uint32_t> t = tape;
        t[i] = mid;
        if (still(t) && t.size() <= tape.size()) { tape = t; progress = true; if (i >= tape.size()) break; v = tape[i]; if (v > mid) break; }
        else lo = mid + 1;
        if (now() > deadline) return tape;
      }
    }
  }
  return tape;
}
// ---- search -------------------------------------------------------------------------------------------
static void worker(int w, const std::vector<Scenario> &v, const std::string &prop, uint64_t seed, uint64_t runs, double deadline) {
  Slot *s = &sh->slots[w];
  for (;;) {
    uint64_t idx = __atomic_fetch_add(&sh->next, 1, __ATOMIC_RELAXED);
    if (idx >= runs || now() > deadline) return;
    if (idx > __atomic_load_n(&sh->failIndex, __ATOMIC_RELAXED)) return;
    RunSpec r;
    r.sc = pick(v, seed, idx, &r.seed);
    execRun(r, s);
    if (s->status == ST_INFRA) {
      __atomic_fetch_add(&sh->infraCount, 1, __ATOMIC_RELAXED);
      snprintf(sh->infraMsg, sizeof sh->infraMsg, "run %llu (%s): %.180s", (unsigned long long)idx, r.sc->name, s->msg);
      return;
    }
    if (idx < MAXRUNS) sh->hashes[idx] = s->hash ? s->hash : 1;
    __atomic_fetch_add(&sh->done, 1, __ATOMIC_RELAXED);
    __atomic_fetch_add(&sh->evals, s->evals, __ATOMIC_RELAXED);
    __atomic_fetch_add(&sh->steps, s->steps, __ATOMIC_RELAXED);
    __atomic_fetch_add(&sh->draws, s->draws, __ATOMIC_RELAXED);
    for (uint64_t m = __atomic_load_n(&sh->longest, __ATOMIC_RELAXED); s->steps > m && !__atomic_compare_exchange_n(&sh->longest, &m, s->steps, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED);) {}
    if (s->status == ST_SKIP) __atomic_fetch_add(&sh->skips, 1, __ATOMIC_RELAXED);
    else if (s->nontrivial && setInsert(sh->traces, TRACES, s->hash, &sh->ntraces))
      __atomic_fetch_add(&sh->nontrivialRuns, 1, __ATOMIC_RELAXED);
    for (size_t i = 0; i < v.size(); i++) if (&v[i] == r.sc) __atomic_fetch_add(&sh->scen[i].n, 1, __ATOMIC_RELAXED);
    if (s->status == ST_FAIL) {
      if (isKnown(prop, s)) { __atomic_fetch_add(&sh->knownHits, 1, __ATOMIC_RELAXED); continue; }
      uint64_t cur = __atomic_load_n(&sh->failIndex, __ATOMIC_RELAXED);
      while (idx < cur && !__atomic_compare_exchange_n(&sh->failIndex, &cur, idx, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
    }
  }
}
static void search(const std::vector<Scenario> &v, const std::string &prop, uint64_t seed, uint64_t runs, int nw, double deadline) {
  std::vector<pid_t> ps;
  fflush(stdout);
  for (int w = 0; w < nw; w++) {
    pid_t p = fork();
    if (p == 0) { worker(w, v, prop, seed, runs, deadline); _exit(0); }
    ps.push_back(p);
  }
  for (pid_t p : ps) { int st; waitpid(p, &st, 0); }
}
static std::string slurpCmd(const std::string &c, int *rc) {
  FILE *p = popen(c.c_str(), "r");
  std::string o;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, p)) > 0) o.append(b, n);
  int st = pclose(p);
  *rc = WIFEXITED(st) ? WEXITSTATUS(st) : 99;
  return o;
}
static std::string counters(const Counter *c) {
  std::string o = "{";
  for (int i = 0; i < NCOUNTERS && c[i].name[0]; i++) {
    if (i) o += ", ";
    o += "\"" + esc(c[i].name) + "\": " + std::to_string(c[i].n);
  }
  return o + "}";
}
struct Tier { uint64_t runs; double cap; };
static int cmdCheck(const std::string &prop, const std::string &tier, uint64_t seed, uint64_t runs, double cap, int nw,
                    const std::string &evidence, const std::string &replayDir, const char *self) {
  double t0 = now();
  std::vector<Scenario> v = forProp(prop);
  if (v.empty()) { fprintf(stderr, "simrun: no scenario for %s\n", prop.c_str()); return 2; }
  printf("property %s tier %s VERIF_SEED=%llu runs=%llu workers=%d\n", prop.c_str(), tier.c_str(), (unsigned long long)seed,
         (unsigned long long)runs, nw);
  sh->counting = 1;
  sh->failIndex = ~0ULL;
  search(v, prop, seed, runs, nw, t0 + cap);
  double tSearch = now() - t0;
  sh->counting = 0;
  if (sh->infraCount && sh->failIndex == ~0ULL) { printf("simrun: infrastructure error: %s\n", sh->infraMsg); return 2; }
  int violations = 0;
  std::string violLine;
  Slot *s = &sh->slots[16];
  std::vector<std::string> samples;
  auto addSample = [&](uint64_t idx) {
    RunSpec r;
    r.sc = pick(v, seed, idx, &r.seed);
    r.trace = true;
    execRun(r, s);
    std::string t(s->trace, s->ntrace);
    if (t.size() > 1200) t = t.substr(0, 1200) + " ...";
    samples.push_back("run " + std::to_string(idx) + " scenario " + r.sc->name + " steps=" + std::to_string(s->steps) + " draws=" + std::to_string(s->draws) + "\n" + t);
  };
  if (sh->failIndex != ~0ULL) {
    uint64_t idx = sh->failIndex;
    RunSpec r;
    r.sc = pick(v, seed, idx, &r.seed);
    execRun(r, s);
    uint64_t h1 = s->hash;
    std::string cls = s->cls;
    if (s->status != ST_FAIL || h1 != sh->hashes[idx]) {
      printf("simrun: nondeterminism: run %llu failed once, then gave status %d\n", (unsigned long long)idx, s->status);
      return 2;
    }
    std::vector<uint32_t> tape(s->tape, s->tape + s->ntape);
    size_t orig = tape.size();
    printf("run %llu (%s) violates the property: [%s] %s\n", (unsigned long long)idx, r.sc->name, s->cls, s->msg);
    std::vector<uint32_t> mini = shrink(r.sc, tape, cls, now() + (tier == "thorough" ? 60 : 25));
    RunSpec m; m.sc = r.sc; m.record = false; m.tape = mini; m.trace = true;
    execRun(m, s);
    // describing a run disturbs what the stack held before; code that reads it may need an undescribed run, or the whole one
    auto failed = [&]() { return s->status == ST_FAIL && cls == s->cls; };
    if (!failed()) { m.trace = false; execRun(m, s); }
    if (!failed()) { mini = m.tape = tape; m.trace = true; execRun(m, s); }
    if (!failed()) { m.trace = false; execRun(m, s); }
    if (!failed()) { printf("simrun: the minimised run does not fail\n"); return 2; }
    mkdir(replayDir.c_str(), 0777);
    char path[600];
    snprintf(path, sizeof path, "%s/%s-%llu-%llu.replay", replayDir.c_str(), prop.c_str(), (unsigned long long)seed, (unsigned long long)idx);
    writeReplay(path, prop, r.sc, seed, idx, s, orig);
    printf("minimised from %zu to %zu decisions in %d runs: [%s] %s\n", orig, mini.size(), gShrinkRuns, s->cls, s->msg);
    printf("---- minimised schedule and fault trace ----\n%.*s--------------------------------------------\n", (int)std::min<uint32_t>(s->ntrace, 6000), s->trace);
    int rc;
    std::string out = slurpCmd(std::string(self) + " replay " + path + " --quiet 2>&1", &rc);
    if (rc != 1) { printf("simrun: the replay in a fresh process did not reproduce (exit %d): %s\n", rc, out.c_str()); return 2; }
    violations = 1;
    violLine = "VIOLATION property=" + prop + " replay=" + path;
  }
  // determinism self-check: a sample of indexes again, in a fresh process with another worker count
  uint64_t dn = 0, dbad = 0;
  if (!violations) {
    uint64_t n = std::min<uint64_t>(sh->done, tier == "thorough" ? 400 : 48);
    int rc;
    char cmd[900];
    snprintf(cmd, sizeof cmd, "%s hashes %s --seed %llu --n %llu --stride 1", self, prop.c_str(), (unsigned long long)seed, (unsigned long long)n);
    std::istringstream is(slurpCmd(cmd, &rc));
    uint64_t idx, h;
    while (is >> idx >> std::hex >> h >> std::dec) { if (sh->hashes[idx]) { dn++; if (sh->hashes[idx] != h) { dbad++; printf("run %llu hash differs in a fresh process\n", (unsigned long long)idx); } } }
    if (rc != 0 || dbad) { printf("simrun: determinism self-check failed (%llu of %llu differ)\n", (unsigned long long)dbad, (unsigned long long)dn); return 2; }
    for (uint64_t i = 0; i < std::min<uint64_t>(4, sh->done); i++) addSample(i);
  }
  uint64_t covered = 0;
  for (uint32_t i = 0; i < COVMAP; i++) covered += sh->cov[i];
  if (const char *cd = getenv("SIM_COVDUMP")) { FILE *f = fopen(cd, "a"); for (uint32_t i = 0; f && i < COVMAP; i++) if (sh->cov[i]) fprintf(f, "%x\n", i); if (f) fclose(f); }
  std::string scn = "{";
  for (size_t i = 0; i < v.size(); i++) scn += (i ? ", \"" : "\"") + std::string(v[i].name) + "\": " + std::to_string(sh->scen[i].n);
  scn += "}";
  double wall = now() - t0;
  std::ofstream f(evidence);
  f << "{\n  \"property\": \"" << prop << "\",\n  \"tier\": \"" << tier << "\",\n  \"seed\": " << seed
    << ",\n  \"level\": \"exploration\",\n  \"coverage\": {\n    \"evaluations\": " << sh->evals << ",\n    \"distinct_nontrivial\": "
    << sh->nontrivialRuns << ",\n    \"rule\": \"an evaluation is one oracle comparison; a distinct non-trivial run is one whose hashed decision-and-observation trace (operations, faults, observations, basic-block count) was not seen before and that reached the scenario's property-relevant condition\",\n    \"samples\": [";
  for (size_t i = 0; i < samples.size(); i++) f << (i ? ", " : "") << "\"" << esc(samples[i]) << "\"";
  if (samples.empty()) f << "\"run " << sh->failIndex << " failed\"";
  f << "],\n    \"simulated_runs\": " << sh->done << ",\n    \"runs_skipped\": " << sh->skips << ",\n    \"runs_per_hour\": "
    << (uint64_t)(sh->done / std::max(0.001, tSearch) * 3600) << ",\n    \"simulated_time_basic_blocks\": " << sh->steps << ",\n    \"longest_run_basic_blocks\": " << sh->longest << ",\n    \"random_draws_scheduled\": "
    << sh->draws << ",\n    \"distinct_states\": " << sh->nstates << ",\n    \"distinct_traces\": " << sh->ntraces
    << ",\n    \"code_blocks_reached\": " << covered << ",\n    \"faults_injected\": " << counters(sh->faults) << ",\n    \"probes\": "
    << counters(sh->probes) << ",\n    \"scenarios\": " << scn << ",\n    \"determinism_checked_runs\": " << dn
    << ",\n    \"known_finding_hits\": " << sh->knownHits
    << ",\n    \"components\": \"real: all of /repo/src, /repo/lib/search.c and the program mains, GSL, glibc stdio; simulated: heap, stack contents, disk and standard streams, random generator, clock (basic blocks), process crash\"\n  },\n"
    << "  \"assumptions\": [\"inputs are in the documented domain (no duplicate links or self-loops where the engine excludes them, labels under 100 characters without blanks)\", \"gcc 13 at -O1 with AddressSanitizer instrumentation behaves as the shipped -O2 build\", \"GSL and glibc are correct\"],\n  \"wall_s\": "
    << wall << ",\n  \"violations\": " << violations << "\n}\n";
  f.close();
  for (auto &k : gKnown) if (k.prop == prop) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.text.c_str());
  printf("%llu runs (%llu skipped), %llu evaluations, %llu distinct non-trivial runs, %llu distinct states, %llu basic blocks of simulated time, %.1f s\n",
         (unsigned long long)sh->done, (unsigned long long)sh->skips, (unsigned long long)sh->evals, (unsigned long long)sh->nontrivialRuns,
         (unsigned long long)sh->nstates, (unsigned long long)sh->steps, wall);
  printf("faults: %s\nprobes: %s\n", counters(sh->faults).c_str(), counters(sh->probes).c_str());
  if (violations) { printf("%s\n", violLine.c_str()); return 1; }
  return 0;
}
int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  initProcess();
  gKnown = loadKnown();
  auto opt = [&](const char *k, const char *d) -> std::string {
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], k)) return argv[i + 1];
    return d;
  };
  auto has = [&](const char *k) { for (int i = 1; i < argc; i++) if (!strcmp(argv[i], k)) return true; return false; };
  if (argc < 2) { fprintf(stderr, "usage: simrun list | check P | one P IDX | replay FILE | hashes P\n"); return 2; }
  std::string cmd = argv[1];
  const char *se = getenv("VERIF_SEED");
  uint64_t seed = strtoull(opt("--seed", se && *se ? se : "1").c_str(), nullptr, 10);
  if (cmd == "list") {
    for (auto &s : scenarios()) printf("%s %s %d\n", s.prop, s.name, s.weight);
    return 0;
  }
  if (cmd == "check") {
    int nw = std::min(16, atoi(opt("--workers", "8").c_str()));
    return cmdCheck(argv[2], opt("--tier", "quick"), seed, strtoull(opt("--runs", "10000").c_str(), nullptr, 10),
                    atof(opt("--cap", "60").c_str()), nw, opt("--evidence", "/dev/null"), opt("--replays", "replays"), argv[0]);
  }
  if (cmd == "hashes") {
    std::vector<Scenario> v = forProp(argv[2]);
    uint64_t n = strtoull(opt("--n", "10").c_str(), nullptr, 10), st = strtoull(opt("--stride", "1").c_str(), nullptr, 10);
    std::string only = opt("--scenario", "");
    for (uint64_t i = 0; i < n; i++) {
      RunSpec r;
      r.sc = pick(v, seed, i * st, &r.seed);
      execRun(r, &sh->slots[0]);
      if (sh->slots[0].status == ST_INFRA) { fprintf(stderr, "%s\n", sh->slots[0].msg); return 2; }
      printf("%llu %llx\n", (unsigned long long)(i * st), (unsigned long long)sh->slots[0].hash);
    }
    return 0;
  }
  if (cmd == "one") {
    std::vector<Scenario> v = forProp(argv[2]);
    std::string only = opt("--scenario", "");
    if (!only.empty()) { std::vector<Scenario> u; for (auto &s : v) if (only == s.name) u.push_back(s); v = u; }
    RunSpec r;
    r.sc = pick(v, seed, strtoull(argv[3], nullptr, 10), &r.seed);
    r.trace = !has("--quiet");
    Slot *s = &sh->slots[0];
    sh->counting = 1;
    double t = now();
    execRun(r, s);
    printf("%.*s", (int)s->ntrace, s->trace);
    printf("scenario %s status %d class [%s] %s\nhash %llx steps %llu draws %llu tape %u evals %llu nontrivial %d time %.4f\nprobes %s\n", r.sc->name, s->status, s->cls, s->msg,
           (unsigned long long)s->hash, (unsigned long long)s->steps, (unsigned long long)s->draws, s->ntape, (unsigned long long)s->evals, s->nontrivial, now() - t, counters(sh->probes).c_str());
    return 0;
  }
  if (cmd == "replay") {
    Replay rp;
    if (!readReplay(argv[2], rp)) { fprintf(stderr, "simrun: cannot read %s\n", argv[2]); return 2; }
    const Scenario *sc = nullptr;
    std::vector<Scenario> v = forProp(rp.prop);
    for (auto &s : v) if (rp.scen == s.name) sc = &s;
    if (!sc) { fprintf(stderr, "simrun: unknown scenario %s\n", rp.scen.c_str()); return 2; }
    RunSpec r; r.sc = sc; r.record = false; r.tape = rp.tape; r.trace = true;
    Slot *s = &sh->slots[0];
    execRun(r, s);
    if (s->status != ST_FAIL || rp.cls != s->cls || rp.hash != s->hash) { r.trace = false; execRun(r, s); }
    if (!has("--quiet")) printf("%.*s", (int)s->ntrace, s->trace);
    if (s->status == ST_INFRA) { printf("infrastructure error: %s\n", s->msg); return 2; }
    if (s->status != ST_FAIL) { printf("replay: the property held (the recorded violation was [%s])\n", rp.cls.c_str()); return 0; }
    printf("replay: [%s] %s\n", s->cls, s->msg);
    if (rp.cls != s->cls || rp.hash != s->hash) { printf("replay: differs from the recorded run\n"); return 3; }
    printf("VIOLATION property=%s replay=%s\n", rp.prop.c_str(), argv[2]);
    return 1;
  }
  return 2;
}
