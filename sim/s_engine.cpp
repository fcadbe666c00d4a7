// P01-P04: the annealing engine's partition bookkeeping, energy differences, splits and results.
#include "engine.h"
using namespace sim;
using namespace model;
namespace engine {
std::vector<int> modulesOf(const Partition *p) {
  std::vector<int> v(p->N);
  for (unsigned i = 0; i < p->N; i++) v[i] = (int)p->nodes[i]->module;
  return v;
}
void recount(const Partition *p, const Mod &mod, const std::vector<int> *expect, const char *when) {
  int N = (int)p->N, M = (int)p->M;
  CHECK(N == mod.n, "bookkeeping", "%s: partition has %d nodes, the network %d", when, N, mod.n);
  std::vector<int> seen(N, -1);
  int empty = 0;
  for (int m = 0; m < M; m++) {
    const Module *q = p->modules[m];
    CHECK(q != nullptr && (int)q->id == m, "bookkeeping", "%s: module %d carries id %d", when, m, q ? (int)q->id : -1);
    int cnt = 0;
    double s = 0;
    const Node *prev = nullptr;
    for (const Node *x = q->first; x; x = x->next) {
      CHECK(cnt <= N, "bookkeeping", "%s: list of module %d does not end", when, m);
      CHECK((int)x->id >= 0 && (int)x->id < N && p->nodes[x->id] == x, "bookkeeping", "%s: foreign node in module %d", when, m);
      CHECK(x->prev == prev, "bookkeeping", "%s: back link broken in module %d", when, m);
      CHECK(seen[x->id] < 0, "bookkeeping", "%s: node %d is in modules %d and %d", when, (int)x->id, seen[x->id], m);
      CHECK((int)x->module == m, "bookkeeping", "%s: node %d listed in %d but labelled %d", when, (int)x->id, m, (int)x->module);
      seen[x->id] = m;
      s += x->strength;
      cnt++;
      prev = x;
    }
    CHECK(q->last == prev, "bookkeeping", "%s: last node of module %d is wrong", when, m);
    CHECK((int)q->size == cnt, "bookkeeping", "%s: module %d says size %u, has %d", when, m, q->size, cnt);
    CHECK(std::fabs(q->strength - s) <= 1e-9 * std::max(1.0, mod.scale), "bookkeeping", "%s: module %d says strength %.12g, members sum to %.12g", when, m, q->strength, s);
    if (!cnt) empty++;
  }
  for (int i = 0; i < N; i++) {
    CHECK(seen[i] >= 0, "bookkeeping", "%s: node %d is in no module", when, i);
    CHECK(std::fabs(p->nodes[i]->strength - mod.k[i]) <= 1e-9 * std::max(1.0, mod.scale), "strength", "%s: node %d has strength %.12g, its links give %.12g", when, i, p->nodes[i]->strength, mod.k[i]);
    if (expect) CHECK(seen[i] == (*expect)[i], "bookkeeping", "%s: node %d should be in module %d, is in %d", when, i, (*expect)[i], seen[i]);
  }
  CHECK((int)p->nempty == empty, "bookkeeping", "%s: %u empty modules recorded, %d counted", when, p->nempty, empty);
}
void checkAdj(const Eng &e, const char *when) {
  int n = e.n;
  std::vector<std::vector<double>> A(n, std::vector<double>(n, 0));
  unsigned pos = e.adj->idx[0];
  CHECK(pos == 0, "adjacency", "%s: first node starts at %u", when, pos);
  for (int i = 0; i < n; i++) {
    CHECK(e.adj->idx[i + 1] >= e.adj->idx[i] && e.adj->idx[i + 1] <= 2 * e.adj->E, "adjacency", "%s: index of node %d out of order", when, i);
    for (unsigned k = e.adj->idx[i]; k < e.adj->idx[i + 1]; k++) {
      unsigned j = e.adj->neighbors[k];
      CHECK((int)j < n, "adjacency", "%s: neighbour %u of node %d out of range", when, j, i);
      CHECK(A[i][j] == 0, "adjacency", "%s: pair %d-%u stored twice", when, i, j);
      A[i][j] = e.adj->strength[k];
    }
  }
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      CHECK(std::fabs(A[i][j] - e.mod.A[i][j]) <= 1e-9 * std::max(1.0, e.mod.scale), "adjacency", "%s: weight of pair %d-%d is %.12g, should be %.12g", when, i, j, A[i][j], e.mod.A[i][j]);
}
Eng build(int minN, int maxN, bool allowBip, int big) {
  Eng e;
  bool weighted = choose(2);
  e.bip = allowBip && choose(3) == 1;
  bool huge = minN > 256 || (big > 100 && choose(150) == 149);   // numbers past what a byte holds
  if (huge) { probe("hundreds-of-nodes"); big = 330; maxN = 256; }
  if (!e.bip) {
    e.g = huge ? genBigGraph(257, 330, weighted) : genGraph(minN, maxN, weighted, true, big);
    if (e.g.e.empty() && e.g.n > 1) e.g.e.push_back({0, 1, 1});
    if (e.g.e.empty()) skip("no-links");
    e.n = e.g.n;
    bool norm = choose(4) != 1;
    e.mod = plainMod(e.g, norm);
    int E = (int)e.g.e.size();
    std::vector<int> a(E), b(E);
    std::vector<double> w(E);
    for (int i = 0; i < E; i++) { a[i] = e.g.e[i].a; b[i] = e.g.e[i].b; w[i] = e.g.e[i].w; }
    int M = e.n;
    if (choose(4) == 1) M = range(1, e.n);
    e.part = CreatePartition(e.n, M);
    e.adj = CreateAdjaArray(e.n, E);
    int err = EdgeListToAdjaArray(a.data(), b.data(), w.data(), e.adj, e.part, norm);
    CHECK(err == 0, "adjacency", "construction failed with %d", err);
    op("engine M=%d normalize=%d", M, (int)norm);
  } else {
    e.b = huge ? genBigBip(range(257, 330), range(1, 6), weighted, true) : big && choose(40) == 39 ? genBigBip(range(maxN + 1, big), range(1, 60), weighted) : genBip(minN, maxN, 1, 8, weighted, false);
    // drop trailing first-side nodes without links: they do not exist for the reader
    int mx = -1;
    for (auto &x : e.b.e) mx = std::max(mx, x.a);
    if (mx < 0) skip("no-links");
    e.b.n1 = mx + 1;
    e.n = e.b.n1;
    if (e.n < minN) skip("too-small");
    e.mod = bipMod(e.b);
    int E = (int)e.b.e.size();
    std::vector<unsigned> a(E), b(E);
    std::vector<double> w(E);
    for (int i = 0; i < E; i++) { a[i] = e.b.e[i].a; b[i] = e.b.e[i].b; w[i] = e.b.e[i].w; }
    dirtyStack((int)choose(4));
    ProjectBipartEdgeList(a.data(), b.data(), w.data(), E, &e.part, &e.adj);
    probe("bipartite-projection");
    op("engine from bipartite projection");
  }
  checkAdj(e, "after construction");
  return e;
}
static int emptyModule(const Partition *p) {
  for (unsigned m = 0; m < p->M; m++) if (!p->modules[m]->size) return (int)m;
  return -1;
}
struct Snap {
  std::vector<int> mod, next, prev;
  std::vector<double> ms;
  std::vector<unsigned> size;
  unsigned nempty;
  bool operator==(const Snap &o) const { return mod == o.mod && next == o.next && prev == o.prev && ms == o.ms && size == o.size && nempty == o.nempty; }
};
static Snap snap(const Partition *p) {
  Snap s;
  for (unsigned i = 0; i < p->N; i++) {
    s.mod.push_back(p->nodes[i]->module);
    s.next.push_back(p->nodes[i]->next ? (int)p->nodes[i]->next->id : -1);
    s.prev.push_back(p->nodes[i]->prev ? (int)p->nodes[i]->prev->id : -1);
  }
  for (unsigned m = 0; m < p->M; m++) { s.ms.push_back(p->modules[m]->strength); s.size.push_back(p->modules[m]->size); }
  s.nempty = p->nempty;
  return s;
}
// One history of movements; `energy` also checks every predicted difference.
static void history(bool energy) {
  heapRandom();
  Eng e = build(2, 14, true, 150);
  gsl_rng *gen = anyRng(e.n);
  AssignNodesToModules(e.part, gen);
  std::vector<int> ref = modulesOf(e.part);
  recount(e.part, e.mod, nullptr, "after the initial assignment");
  if (e.part->N == e.part->M) for (int i = 0; i < e.n; i++) CHECK(e.part->modules[i]->size == 1, "bookkeeping", "initial assignment with as many modules as nodes leaves module %d with %u nodes", i, e.part->modules[i]->size);
  double tol = 1e-9 * std::max(1.0, e.mod.scale);
  double E0 = e.mod.energy(ref), sum = 0;
  int nops = range(1, 40), moves = 0;
  Partition *aside = nullptr;
  Snap asideSnap;
  for (int t = 0; t < nops; t++) {
    Partition *p = e.part;
    int N = (int)p->N, M = (int)p->M;
    int kind = (int)choose(14);
    if (kind <= 4 && M > 1) {  // move a node
      int x = (int)choose(N), to = (int)choose(M - 1);
      int from = (int)p->nodes[x]->module;
      if (to >= from) to++;
      op("move node %d: %d -> %d", x, from, to);
      double before = energy ? e.mod.energy(ref) : 0, dE = energy ? dEChangeModule(x, to, p, e.adj) : 0;
      if (energy) { Snap s = snap(p); dEChangeModule(x, to, p, e.adj); CHECK(s == snap(p), "predicted-energy", "asking for a difference changed the partition"); }
      ChangeModule(x, to, p);
      ref[x] = to;
      moves++;
      if (energy) {
        double act = e.mod.energy(ref) - before;
        CHECK(std::fabs(dE - act) <= tol, "predicted-energy", "moving node %d from %d to %d: predicted %.12g, actual %.12g", x, from, to, dE, act);
        sum += dE;
      }
      recount(p, e.mod, &ref, "after a move");
    } else if (kind <= 7 && M > 1) {  // merge two modules
      int a, b;
      if (choose(4)) { a = (int)p->nodes[choose(N)]->module; b = (int)p->nodes[choose(N)]->module; if (a == b) b = (a + 1) % M; }
      else { a = (int)choose(M); b = (int)choose(M - 1); if (b >= a) b++; }
      op("merge %d and %d", a, b);
      double before = energy ? e.mod.energy(ref) : 0, dE = energy ? dEMergeModules(a, b, p, e.adj) : 0;
      bool both = p->modules[a]->size && p->modules[b]->size;
      MergeModules(a, b, p);
      std::vector<int> want = ref;
      if (both) {
        probe("merge-nonempty");
        int keep = p->modules[a]->size ? a : b;
        CHECK(!(p->modules[a]->size && p->modules[b]->size), "bookkeeping", "merged modules %d and %d are both non-empty", a, b);
        for (auto &m : want) if (m == a || m == b) m = keep;
        moves++;
      } else probe("merge-with-empty");
      ref = want;
      if (energy) {
        double act = e.mod.energy(ref) - before;
        CHECK(std::fabs(dE - act) <= tol, "predicted-energy", "merging %d and %d: predicted %.12g, actual %.12g", a, b, dE, act);
        sum += dE;
      }
      recount(p, e.mod, &ref, "after a merge");
    } else if (kind <= 10 && p->nempty) {  // split a module
      int target = (int)p->nodes[choose(N)]->module, em = emptyModule(p);
      bool comp = choose(2);
      double before = energy ? e.mod.energy(ref) : 0;
      unsigned rc = 0;
      if (comp) {
        op("split %d by component into %d", target, em);
        rc = SplitModuleByComponent(target, em, p, e.adj, gen);
      } else {
        double Ti = choose(2) ? 1.0 / N : 1.0, Tf = choose(2) ? 1e-3 : 1e-200;
        op("split %d by annealing into %d (size %u)", target, em, p->modules[target]->size);
        rc = SplitModuleSA(target, em, Ti, Tf, 0.95, range(1, 25), p, e.adj, gen);
        CHECK(rc == 0, "bookkeeping", "annealed split reports error %u", rc);
      }
      std::vector<int> got = modulesOf(p);
      for (int i = 0; i < N; i++) {
        if (ref[i] == target) CHECK(got[i] == target || got[i] == em, "bookkeeping", "split of %d put node %d in module %d", target, i, got[i]);
        else CHECK(got[i] == ref[i], "bookkeeping", "split of module %d moved node %d of module %d", target, i, ref[i]);
      }
      if (got != ref) moves++;
      ref = got;
      if (energy && p->modules[target]->size && p->modules[em]->size) {
        double d = -dEMergeModules(target, em, p, e.adj), act = e.mod.energy(ref) - before;
        CHECK(std::fabs(d - act) <= tol, "predicted-energy", "split of %d: predicted %.12g, actual %.12g", target, d, act);
      }
      if (energy) sum += e.mod.energy(ref) - before;
      recount(p, e.mod, &ref, comp ? "after a component split" : "after an annealed split");
    } else if (kind == 11) {  // deep copy: continue on the copy, keep the original aside
      Partition *c = CopyPartitionStruct(p);
      op("copy");
      recount(c, e.mod, &ref, "copy");
      if (aside) { CHECK(asideSnap == snap(aside), "copy-independent", "working on a copy changed the original"); FreePartition(aside); }
      aside = p;
      asideSnap = snap(p);
      e.part = c;
    } else if (kind == 12 && aside && choose(2)) {  // restore
      CHECK(asideSnap == snap(aside), "copy-independent", "working on a copy changed the original");
      op("restore the copy");
      FreePartition(e.part);
      e.part = CopyPartitionStruct(aside);
      ref = modulesOf(e.part);
      recount(e.part, e.mod, &ref, "restored copy");
      sum = e.mod.energy(ref) - E0;
    } else if (kind == 13 && (t > nops / 2) && choose(3) == 1) {
      op("compress (M=%d, empty=%u)", M, p->nempty);
      unsigned ne = p->nempty;
      CompressPartition(p);
      if (ne) probe("compress-with-empty");
      std::vector<int> got = modulesOf(p);
      CHECK((int)p->M == M - (int)ne, "bookkeeping", "compressing %d modules with %u empty leaves %u", M, ne, p->M);
      CHECK(p->nempty == 0, "bookkeeping", "compressed partition says %u empty", p->nempty);
      CHECK(sameSetPartition(got, ref), "bookkeeping", "compressing changed the grouping: %s -> %s", show(ref).c_str(), show(got).c_str());
      ref = got;
      recount(p, e.mod, &ref, "after compression");
    }
    uint64_t h = 7;
    for (int m : ref) h = mix(h, m);
    state(h);
  }
  if (energy) {
    double act = e.mod.energy(ref) - E0;
    CHECK(std::fabs(act - sum) <= 40 * tol, "predicted-energy", "after %d operations the summed differences are %.12g, the actual change %.12g", nops, sum, act);
    double pm = PartitionModularity(e.part, e.adj, 0), pd = PartitionModularity(e.part, e.adj, 1);
    CHECK(std::fabs(pm - e.mod.energy(ref)) <= tol, "modularity", "modularity %.12g, from scratch %.12g", pm, e.mod.energy(ref));
    CHECK(std::fabs(pd - (e.mod.energy(ref) - e.mod.diag())) <= tol, "modularity", "modularity with diagonal %.12g, from scratch %.12g", pd, e.mod.energy(ref) - e.mod.diag());
  }
  if (moves >= 3) nontrivial();
  if (aside) { CHECK(asideSnap == snap(aside), "copy-independent", "working on a copy changed the original"); FreePartition(aside); }
  FreePartition(e.part);
  FreeAdjaArray(e.adj);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks are still allocated after everything was freed", (unsigned long long)heapLiveBlocks());
}
SCENARIO(P01, history, 3) { history(false); }
SCENARIO(P02, history, 3) { history(true); }

SCENARIO(P03, components, 1) {
  heapRandom();
  Eng e = build(2, 16, false, 150);
  gsl_rng *gen = anyRng(e.n);
  AssignNodesToModules(e.part, gen);
  Partition *p = e.part;
  // a random assignment into few modules
  int k = range(1, std::min<int>(3, p->M));
  for (int i = 0; i < e.n; i++) {
    int to = (int)choose(k);
    if ((int)p->nodes[i]->module != to) ChangeModule(i, to, p);
  }
  std::vector<int> ref = modulesOf(p);
  int rounds = range(1, 4);
  if (choose(60) == 59) { rounds = range(100, 600); probe("hundreds-of-splits"); }
  Prng shuffle(rounds > 4 ? seed64() : 1);
  for (int r = 0; r < rounds; r++) {
    if (rounds > 4 && r) for (int i = 0; i < e.n; i++) if (shuffle.below(3) == 0) { int to = (int)shuffle.below(k); if (to != ref[i]) { ChangeModule(i, to, p); ref[i] = to; } }
    if (!p->nempty) break;
    int target = (int)p->nodes[choose(e.n)]->module, em = emptyModule(p);
    std::vector<int> in;
    for (int i = 0; i < e.n; i++) if (ref[i] == target) in.push_back(i);
    std::vector<int> c = components(e.g, in);
    int nc = 0;
    for (int i : in) nc = std::max(nc, c[i] + 1);
    bool through = false;  // components that are joined only through other modules
    {
      std::vector<int> all(e.n);
      for (int i = 0; i < e.n; i++) all[i] = i;
      std::vector<int> ca = components(e.g, all);
      for (int i : in) for (int j : in) if (ca[i] == ca[j] && c[i] != c[j]) through = true;
    }
    if (through) probe("components-joined-only-through-other-modules");
    if (nc > 2) probe("more-than-two-components");
    op("split %d (size %zu, %d components) into %d of %s", target, in.size(), nc, em, show(ref).c_str());
    unsigned rc = SplitModuleByComponent(target, em, p, e.adj, gen);
    std::vector<int> got = modulesOf(p);
    recount(p, e.mod, &got, "after a component split");
    for (int i = 0; i < e.n; i++) if (ref[i] != target) CHECK(got[i] == ref[i], "component-split", "node %d outside the split module moved", i);
    CHECK((int)rc == nc, "component-split", "reported %u components, the module's own links give %d", rc, nc);
    std::vector<int> where(nc, -1);
    int moved = 0;
    for (int i : in) {
      CHECK(got[i] == target || got[i] == em, "component-split", "node %d went to module %d", i, got[i]);
      if (where[c[i]] < 0) where[c[i]] = got[i];
      CHECK(where[c[i]] == got[i], "component-split", "a connected component was torn apart at node %d", i);
      if (got[i] == em) moved++;
    }
    if (nc > 1) { CHECK(moved > 0 && moved < (int)in.size(), "component-split", "%d components but the module was not split", nc); nontrivial(); }
    else CHECK(moved == 0, "component-split", "a connected module was changed");
    ref = got;
  }
  FreePartition(e.part);
  FreeAdjaArray(e.adj);
}

static void anneal(bool large) {
  heapRandom();
  Eng e = large ? build(257, 330, true, 330) : build(2, 12, true, 40);
  if (e.part->M < 2) skip("one-module");
  gsl_rng *gen = large ? fairRng() : anyRng(e.n);
  AssignNodesToModules(e.part, gen);
  std::vector<int> ref = modulesOf(e.part);
  double E0 = e.mod.energy(ref);
  double Ti = choose(3) == 1 ? 1.0 : 1.0 / e.n, Tf, Ts, fac;
  static const double tfs[] = {1e-200, 1e-3, 1e-8, 1e-30};
  static const double tss[] = {0.97, 0.9, 0.5, 0.99};
  static const double facs[] = {1.0, 0.1, 0.3, 0.01};
  Tf = tfs[choose(4)];
  Ts = tss[choose(4)];
  fac = facs[choose(4)];
  if (large) { Ti = 1. / e.n; Tf = 1e-5; Ts = .3 + .1 * choose(4); fac = .01; }
  int M = (int)e.part->M;
  double pc = choose(3) / 2.0;
  int limit = choose(2) ? 25 : range(1, 6);
  op("anneal fac=%g Ti=%g Tf=%g Ts=%g components=%g limit=%d", fac, Ti, Tf, Ts, pc, limit);
  std::string err;
  double temps = std::log(Tf / Ti) / std::log(Ts) + 2;
  double perTemp = (std::max(10.0, fac * e.n * e.n) + std::max(2.0, fac * e.n) * (e.n + std::log(Tf / Ti) / std::log(.95) + 50)) * (40.0 + 8 * e.n);
  budget((uint64_t)(20 * temps * perTemp) + 2000000);
  captureBegin();
  unsigned rc = GeneralSA(&e.part, e.adj, fac, Ti, Tf, Ts, pc, limit, gen);
  captureEnd(nullptr, &err);
  noBudget();
  CHECK(rc == 0, "anneal-result", "annealing reports error %u", rc);
  CHECK(e.part != nullptr, "anneal-result", "annealing returned no partition");
  CHECK((int)e.part->M == M, "anneal-result", "annealing returned %u modules' worth of structure, started with %d", e.part->M, M);
  std::vector<int> got = modulesOf(e.part);
  recount(e.part, e.mod, nullptr, "annealed partition");
  double E = e.mod.energy(got) - E0, best = -1e300;
  int seen = 0;
  for (auto &l : lines(err)) {
    auto f = fields(l, '\t');
    if (f.size() != 3 || l[0] == '#') continue;
    char *end;
    double v = strtod(f[1].c_str(), &end);
    if (*end || f[1].empty()) continue;
    // the first report describes the starting partition, before any decision
    if (seen++) best = std::max(best, v);
  }
  if (seen > 2) probe("energy-log-read");
  if (strstr(err.c_str(), "Restarting")) probe("restart-from-best");
  double tol = 2e-6 * std::max(1.0, std::fabs(best)) * std::max(1.0, e.mod.scale);
  if (seen > 1) CHECK(E >= best - tol, "anneal-result", "the returned partition has energy %.9g, but %.9g was reached", E, best);
  // compression keeps the grouping
  CompressPartition(e.part);
  std::vector<int> cg = modulesOf(e.part);
  CHECK(sameSetPartition(got, cg), "anneal-result", "compressing the result changed the grouping");
  recount(e.part, e.mod, nullptr, "compressed result");
  op("result %s energy %.6f", show(cg).c_str(), E);
  if (seen > 3) nontrivial();
  uint64_t h = 3;
  for (int m : cg) h = mix(h, m);
  state(h);
  FreePartition(e.part);
  FreeAdjaArray(e.adj);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks are still allocated after everything was freed", (unsigned long long)heapLiveBlocks());
}
SCENARIO(P04, anneal, 60) { anneal(false); }
SCENARIO(P04, anneal_large, 4) { anneal(true); }
}  // namespace engine
