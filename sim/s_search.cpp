// P28: repeated annealing with fair draws reaches the best groupings of small networks.
#include "engine.h"
#include "legacy.h"
#include <functional>
using namespace sim;
using namespace model;
extern "C" group *SACommunityIdent(node_gra *, double Ti, double Tf, double Ts, double fac, int ngroup, char initial_sw, int collective_sw, char output_sw, gsl_rng *);
namespace {
typedef std::function<double(const std::vector<int> &)> Energy;
// the largest value over all groupings into at most M groups (few nodes), or the best of
// a hill climb from several starts (more nodes): what annealing has to reach
double target(int n, int M, const Energy &f, bool &exact) {
  exact = n <= 7;
  double best = -1e300;
  std::vector<int> m(n, 0);
  if (exact) {
    std::function<void(int, int)> rec = [&](int i, int used) {
      if (i == n) { best = std::max(best, f(m)); return; }
      for (int l = 0; l <= used && l < M; l++) { m[i] = l; rec(i + 1, std::max(used, l + 1)); }
    };
    rec(0, 0);
    return best;
  }
  for (int s = 0; s < 6; s++) {
    for (int i = 0; i < n; i++) m[i] = s == 0 ? i % M : (i * (s * 2 + 1) / 3 + i * i * s) % M;
    double cur = f(m);
    for (bool any = true; any;) {
      any = false;
      for (int i = 0; i < n; i++) {
        int o = m[i], at = o;
        for (int l = 0; l < M; l++) {
          if (l == o) continue;
          m[i] = l;
          double v = f(m);
          if (v > cur + 1e-9) { cur = v; at = l; any = true; }
        }
        m[i] = at;
      }
    }
    best = std::max(best, cur);
  }
  return best;
}
const int ATTEMPTS = 60;  // from the eleventh on with slower cooling
}  // namespace
SCENARIO(P28, engine, 3) {
  heapRandom();
  engine::Eng e = engine::build(2, 12, true);
  if (e.part->M < 2 || e.n < 2) skip("one-module");
  gsl_rng *gen = fairRng();
  AssignNodesToModules(e.part, gen);
  double sc = std::max(1e-12, e.mod.scale);
  bool exact;
  double want = target(e.n, (int)e.part->M, [&](const std::vector<int> &m) { return e.mod.energy(m); }, exact);
  double pc = choose(3) / 2.0, got = -1e300, Ts = choose(2) ? .9 : .8, fac = choose(2) ? 1. : .5;
  double tol = 2e-6 * sc * std::max(1.0, std::fabs(want));
  op("search Ts=%g fac=%g components=%g modules=%d target %.6f", Ts, fac, pc, (int)e.part->M, want);
  int k = 0;
  budget(2500000000ull);
  for (; k < ATTEMPTS && got < want - tol; k++) {
    std::string err;
    captureBegin();
    unsigned rc = GeneralSA(&e.part, e.adj, k < 10 ? fac : 1., 2. * sc / e.n, 2e-4 * sc / e.n, k < 10 ? Ts : .97, pc, 25, gen);
    captureEnd(nullptr, &err);
    CHECK(rc == 0 && e.part, "search", "annealing reports error %u", rc);
    double E = e.mod.energy(engine::modulesOf(e.part));
    if (exact) CHECK(E <= want + tol, "search", "grouping of energy %.9g, the largest is %.9g", E, want);
    got = std::max(got, E);
  }
  noBudget();
  CHECK(got >= want - tol, "search", "the best of %d slow annealings has energy %.9g; %s %.9g", k, got, exact ? "the largest of all groupings is" : "hill climbing reaches", want);
  if (k > 1) probe("engine-repeated");
  if (k > 5) probe("engine-repeated-5");
  if (k > 10) probe("engine-repeated-10");
  if (exact) probe("exhaustive"); else probe("hill-climb");
  if (want > 1e-9) nontrivial();
  uint64_t h = 11;
  for (int m : engine::modulesOf(e.part)) h = mix(h, m);
  state(h);
  FreePartition(e.part);
  FreeAdjaArray(e.adj);
}
SCENARIO(P28, legacy, 3) {
  heapRandom();
  Graph g = genGraph(2, 12, false, true);
  if (g.e.empty()) skip("no-links");
  node_gra *net = legacy::buildNet(g);
  double M = g.e.size();
  auto A = g.matrix();
  std::vector<double> d(g.n, 0);
  for (auto &x : g.e) d[x.a]++, d[x.b]++;
  char init = choose(2) ? 'r' : 'o';
  int ng = choose(3) ? 0 : range(2, g.n), coll = choose(3) != 1, top = init == 'o' || ng == 0 ? g.n : ng;
  Energy f = [&](const std::vector<int> &m) {
    double q = 0;
    for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) if (m[i] == m[j]) q += (i != j ? (A[i][j] != 0) : 0) / (2 * M) - d[i] * d[j] / (4 * M * M);
    return q;
  };
  bool exact;
  double want = target(g.n, top, f, exact), got = -1e300, Ts = choose(2) ? .9 : .8;
  op("legacy search Ts=%g groups=%d init=%c collective=%d target %.6f", Ts, ng, init, coll, want);
  gsl_rng *gen = fairRng();
  int k = 0;
  budget(2500000000ull);
  for (; k < ATTEMPTS && got < want - 2e-6; k++) {
    group *part = SACommunityIdent(net, 2. / g.n, 2e-3 / g.n, k < 10 ? Ts : .97, 1., ng, init, coll, 'n', gen);
    std::vector<int> lab = legacy::labelsOf(net, g.n);
    double E = f(lab);
    if (exact) CHECK(E <= want + 2e-6, "search", "grouping of modularity %.9g, the largest is %.9g", E, want);
    got = std::max(got, E);
    RemovePartition(part);
  }
  noBudget();
  CHECK(got >= want - 2e-6, "search", "the best of %d slow legacy annealings has modularity %.9g; %s %.9g", k, got, exact ? "the largest of all groupings is" : "hill climbing reaches", want);
  if (k > 1) probe("legacy-repeated");
  if (k > 5) probe("legacy-repeated-5");
  if (k > 10) probe(coll ? "legacy-repeated-10" : "legacy-single-repeated-10");
  if (k > 20) probe(coll ? "legacy-repeated-20" : "legacy-single-repeated-20");
  if (want > 1e-9) nontrivial();
  state(mix(13, (uint64_t)(want * 1e6)));
  RemoveGraph(net);
}
namespace {
// Cliques joined in a ring by single links, in a drawn order of nodes; the cliques are a grouping
// no annealing may fall short of.
Graph cliqueRing(std::vector<int> &lab, bool weighted) {
  int c = range(3, 7), s = c > 5 ? 4 : range(4, 7), n = c * s;
  double w = weighted ? 1 + choose(3) * .5 : 1;
  std::vector<int> at(n);
  for (int i = 0; i < n; i++) { at[i] = i; std::swap(at[i], at[choose(i + 1)]); }
  Graph g;
  g.n = n;
  lab.assign(n, 0);
  for (int i = 0; i < n; i++) {
    lab[at[i]] = i / s;
    for (int j = i + 1; j < (i / s + 1) * s; j++) g.e.push_back({at[i], at[j], w});
  }
  for (int k = 0; k < c; k++) {
    int a = at[k * s], b = at[(k + 1) % c * s + 1];
    g.e.push_back({a, b, w});
  }
  for (size_t i = g.e.size(); i > 1; i--) {
    std::swap(g.e[i - 1], g.e[choose((uint32_t)i)]);
    if (choose(2)) std::swap(g.e[i - 1].a, g.e[i - 1].b);
  }
  for (int i = 0; i < n; i++) g.label.push_back("n" + std::to_string(i));
  op("ring of %d cliques of %d nodes, weight %g", c, s, w);
  return g;
}
const int RING_ATTEMPTS = 3, RING_SINGLE = 12;  // single moves alone get stuck in local optima more often
}  // namespace
SCENARIO(P28, engine_cliques, 1) {
  heapRandom();
  std::vector<int> lab;
  Graph g = cliqueRing(lab, true);
  Mod mod = plainMod(g, true);
  int n = g.n, E = (int)g.e.size(), k = 0;
  std::vector<int> a(E), b(E);
  std::vector<double> w(E);
  for (int i = 0; i < E; i++) { a[i] = g.e[i].a; b[i] = g.e[i].b; w[i] = g.e[i].w; }
  Partition *part = CreatePartition(n, n);
  AdjaArray *adj = CreateAdjaArray(n, E);
  CHECK(EdgeListToAdjaArray(a.data(), b.data(), w.data(), adj, part, true) == 0, "search", "construction failed");
  gsl_rng *gen = fairRng();
  AssignNodesToModules(part, gen);
  double want = mod.energy(lab), got = -1e300, Ts = choose(2) ? .9 : .85, fac = choose(2) ? 1. : .5, pc = choose(3) / 2.0;
  op("search Ts=%g fac=%g components=%g target %.6f", Ts, fac, pc, want);
  budget(2500000000ull);
  for (; k < RING_ATTEMPTS && got < want - 2e-6; k++) {
    std::string err;
    captureBegin();
    unsigned rc = GeneralSA(&part, adj, fac, 2. / n, 2e-4 / n, Ts, pc, 25, gen);
    captureEnd(nullptr, &err);
    CHECK(rc == 0 && part, "search", "annealing reports error %u", rc);
    got = std::max(got, mod.energy(engine::modulesOf(part)));
  }
  noBudget();
  CHECK(got >= want - 2e-6, "search", "the best of %d slow annealings has energy %.9g; the cliques alone have %.9g", k, got, want);
  probe(("engine-ring-" + std::to_string(k)).c_str());
  nontrivial();
  state(mix(17, mix(n, E)));
  FreePartition(part);
  FreeAdjaArray(adj);
}
SCENARIO(P28, legacy_cliques, 1) {
  heapRandom();
  std::vector<int> lab;
  Graph g = cliqueRing(lab, false);
  node_gra *net = legacy::buildNet(g);
  double M = g.e.size(), got = -1e300;
  int n = g.n, k = 0, coll = choose(3) != 1;
  auto q = [&](const std::vector<int> &m) {
    std::vector<double> in(n, 0), d(n, 0);
    double s = 0;
    for (auto &x : g.e) { in[m[x.a]] += m[x.a] == m[x.b]; d[m[x.a]]++; d[m[x.b]]++; }
    for (int i = 0; i < n; i++) s += in[i] / M - d[i] * d[i] / (4 * M * M);
    return s;
  };
  double want = q(lab), Ts = choose(2) ? .9 : .85;
  char init = choose(2) ? 'r' : 'o';
  op("legacy search Ts=%g init=%c collective=%d target %.6f", Ts, init, coll, want);
  gsl_rng *gen = fairRng();
  budget(2500000000ull);
  for (; k < (coll ? RING_ATTEMPTS : RING_SINGLE) && got < want - 2e-6; k++) {
    group *part = SACommunityIdent(net, 2. / n, 2e-3 / n, Ts, .5, 0, init, coll, 'n', gen);
    std::vector<int> l = legacy::labelsOf(net, n), id;
    for (int &x : l) { size_t i = std::find(id.begin(), id.end(), x) - id.begin(); if (i == id.size()) id.push_back(x); x = (int)i; }
    got = std::max(got, q(l));
    RemovePartition(part);
  }
  noBudget();
  CHECK(got >= want - 2e-6, "search", "the best of %d slow legacy annealings has modularity %.9g; the cliques alone have %.9g", k, got, want);
  probe(((coll ? "legacy-ring-" : "legacy-single-ring-") + std::to_string(k)).c_str());
  nontrivial();
  state(mix(19, mix(n, k)));
  RemoveGraph(net);
}
