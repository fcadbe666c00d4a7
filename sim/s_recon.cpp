// P21: sampled groupings, reliability of whole networks, reconstruction.
#include "sampler.h"
#include <sstream>
using namespace sim;
using namespace model;
namespace sampler {
namespace {
double pickC() { static const double v[] = {0, 0, 0, 0.7, -0.4}; return v[choose(5)]; }
std::vector<double> posterior(const Model &m, const std::vector<std::vector<int>> &all) {
  std::vector<double> p;
  double Z = 0;
  for (auto &v : all) { p.push_back(std::exp(-m.H(v, false))); Z += p.back(); }
  for (double &x : p) x /= Z;
  return p;
}
void freeParts(group **l, int n) { for (int i = 0; i < n; i++) RemovePartition(l[i]); free_i_vec((int *)l); }
// the grouping, by node number, of a partition known by names
std::vector<int> byName(group *p, const Graph &g) {
  std::map<std::string, int> num;
  for (int i = 0; i < g.n; i++) num[g.label[i]] = i;
  std::vector<int> lab(g.n, -1);
  int k = 0;
  for (group *q = p->next; q; q = q->next, k++) {
    int c = 0;
    for (node_lis *x = q->nodeList->next; x; x = x->next, c++) {
      auto it = num.find(x->nodeLabel);
      CHECK(it != num.end() && lab[it->second] == -1, "sampled-grouping", "node %s is unknown, or in two groups", x->nodeLabel);
      lab[it->second] = k;
    }
    CHECK(c == q->size, "sampled-grouping", "a group of %d nodes has size %d", c, q->size);
  }
  for (int i = 0; i < g.n; i++) CHECK(lab[i] >= 0, "sampled-grouping", "node %d is in no group", i);
  return lab;
}
group **sampling(node_gra *net, double linC, int n, gsl_rng *gen, char v, int burn, double thin, std::string *err) {
  captureBegin();
  std::string out;
  budget(1000000000ull);
  group **r = PartitionSampling(net, linC, n, gen, v, burn, thin);
  noBudget();
  captureEnd(&out, err);
  CHECK(out.empty(), "stdout", "sampling printed on stdout: %s", out.substr(0, 60).c_str());
  return r;
}
}  // namespace
SCENARIO(P21, sampled_groupings, 8) {
  heapRandom();
  Graph g = genGraph(2, choose(5) == 4 ? 20 : 8, false, true);
  Model m;
  m.g = &g;
  m.linC = pickC();
  int nIter = range(1, 6), burn = (int)choose(3);
  static const double th[] = {1, .5, .1, 2};
  double thin = th[choose(4)];
  char v = "dqv"[choose(3)];
  node_gra *net = legacy::buildNet(g);
  gsl_rng *gen = fairRng();
  op("%d groupings of %d nodes, linC=%g, burn-in %d, thinning %g, report %c", nIter, g.n, m.linC, burn, thin, v);
  std::string err;
  group **l = sampling(net, m.linC, nIter, gen, v, burn, thin, &err);
  legacy::checkNet(net, g, "sampling-input", "after sampling");
  std::vector<std::vector<int>> labs;
  for (int i = 0; i < nIter; i++) {
    CHECK(l[i], "sampled-grouping", "grouping %d is missing", i);
    for (int j = 0; j < i; j++) CHECK(l[i] != l[j], "sampled-grouping", "groupings %d and %d are the same object", i, j);
    labs.push_back(byName(l[i], g));
  }
  // any of them can be mapped on the network again, and the others do not notice
  for (int t = 0; t < 3; t++) {
    int i = (int)choose(nIter);
    MapPartToNet(l[i], net);
    legacy::recountGroups(l[i], net, g, nullptr, "sampled-grouping", "mapped again");
    auto now = legacy::labelsOf(net, g.n);
    CHECK(sameSetPartition(now, labs[i]), "sampled-grouping", "mapping grouping %d gives other groups", i);
  }
  // the reported energies are those of the groupings
  std::istringstream in(err);
  std::string line;
  int sample = 0, burned = 0;
  bool sampled = false;
  while (std::getline(in, line)) {
    int it;
    double H, full;
    if (v == 'd' && sscanf(line.c_str(), "burn %d %lf %lf", &it, &H, &full) == 3) {
      CHECK(it == burned++ && std::fabs(H - full) < 1e-3, "sampled-energy", "burn-in step %d reports energy %g, recomputed %g", it, H, full);
      sampled = true;
    }
    if (v == 'v' && sscanf(line.c_str(), "burn %d %lf", &it, &H) == 2) burned++;
    (void)sampled;
  }
  if (v != 'q') CHECK(burned == burn, "sampled-energy", "%d burn-in steps reported, should be %d", burned, burn);
  if (v == 'd') {  // the last nIter lines
    std::vector<std::string> ls = lines(err);
    CHECK((int)ls.size() >= nIter, "sampled-energy", "only %zu lines were reported", ls.size());
    for (; sample < nIter; sample++) {
      int it;
      double H, full;
      const std::string &s = ls[ls.size() - nIter + sample];
      CHECK(sscanf(s.c_str(), "%d %lf %lf", &it, &H, &full) == 3 && it == sample, "sampled-energy", "line '%s' is not the report of sample %d", s.c_str(), sample);
      double want = m.H(labs[sample]);
      CHECK(std::fabs(H - want) < 2e-6 * (1 + std::fabs(want)) + 1e-5 && std::fabs(full - want) < 2e-6 * (1 + std::fabs(want)) + 1e-5, "sampled-energy", "sample %d reports energies %g and %g, its grouping has %.9g", sample, H, full, want);
    }
  }
  freeParts(l, nIter);
  RemoveGraph(net);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks are still allocated after sampling", (unsigned long long)heapLiveBlocks());
  nontrivial();
  uint64_t h = g.n;
  for (auto &x : labs) for (int y : x) h = mix(h, y);
  state(h);
}
SCENARIO(P21, sampling_posterior, 1) {
  Graph g = genGraph(2, 4, false, true);
  Model m;
  m.g = &g;
  m.linC = pickC();
  int nIter = range(1, 3), burn = (int)choose(2);
  gsl_rng *gen = fairRng();
  auto all = setPartitions(g.n);
  auto p = posterior(m, all);
  // chains that never reject alternate between the groupings (known limit of the sampler): skip them
  double mn = 1, mx = 0;
  for (double x : p) mn = std::min(mn, x), mx = std::max(mx, x);
  op("groupings of %d nodes in proportion to their probability, linC=%g, sample %d, burn-in %d", g.n, m.linC, nIter, burn);
  chiCheck(p, [&](int R) {
    std::vector<double> c(all.size(), 0);
    for (int t = 0; t < R; t++) {
      node_gra *net = legacy::buildNet(g);
      std::string e;
      group **l = sampling(net, m.linC, nIter, gen, 'q', burn, 1, &e);
      c[canonical(byName(l[nIter - 1], g), all)]++;
      freeParts(l, nIter);
      RemoveGraph(net);
    }
    return c;
  }, 100, "sampling-bias", "sampled groupings");
  nontrivial();
}
namespace {
// log of the ratio of the probability of a target to that of the observation itself, given a grouping
struct Contrib { double tar, obs; };
double lchoose(int n, int k) { return std::lgamma(n + 1.) - std::lgamma(k + 1.) - std::lgamma(n - k + 1.); }
Contrib contrib(const Graph &obs, const Graph &tar, const std::vector<int> &lab) {
  std::map<int, int> size;
  std::map<std::pair<int, int>, std::pair<int, int>> L;
  for (int x : lab) size[x]++;
  for (auto &e : obs.e) L[std::minmax(lab[e.a], lab[e.b])].first++;
  for (auto &e : tar.e) L[std::minmax(lab[e.a], lab[e.b])].second++;
  Contrib c{0, 0};
  for (auto &x : size) for (auto &y : size) {
    if (y.first < x.first) continue;
    int r = x.first == y.first ? x.second * (x.second - 1) / 2 : x.second * y.second;
    int lo = 0, lt = 0;
    auto it = L.find({x.first, y.first});
    if (it != L.end()) lo = it->second.first, lt = it->second.second;
    double base = std::log(r + 1.) + lchoose(r, lo) - std::log(2. * r + 1);
    c.tar += base - lchoose(2 * r, lo + lt);
    c.obs += base - lchoose(2 * r, 2 * lo);
  }
  return c;
}
double netScore(const Graph &tar, const Graph &obs, double linC, int nIter, gsl_rng *gen, char v, bool same) {
  node_gra *o = legacy::buildNet(obs), *t = same ? o : legacy::buildNet(tar);
  captureBegin();
  budget(1500000000ull);
  double s = NetworkScore(t, o, linC, nIter, gen, v);
  noBudget();
  std::string out, err;
  captureEnd(&out, &err);
  CHECK(out.empty(), "stdout", "scoring printed on stdout: %s", out.substr(0, 60).c_str());
  legacy::checkNet(o, obs, "score-input", "observed network after scoring");
  if (!same) { legacy::checkNet(t, tar, "score-input", "target network after scoring"); RemoveGraph(t); }
  RemoveGraph(o);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks are still allocated after scoring a network", (unsigned long long)heapLiveBlocks());
  return s;
}
// same nodes, other links, other order
Graph target(const Graph &g, bool sameLinks) {
  Graph t = g;
  std::vector<int> ord(g.n), pos(g.n);
  for (int i = 0; i < g.n; i++) ord[i] = i;
  if (choose(2)) for (int i = g.n - 1; i > 0; i--) std::swap(ord[i], ord[choose(i + 1)]);
  for (int i = 0; i < g.n; i++) { t.label[i] = g.label[ord[i]]; pos[ord[i]] = i; }
  t.e.clear();
  if (sameLinks) { for (auto &e : g.e) t.e.push_back({pos[e.a], pos[e.b], 1}); return t; }
  int den = range(1, 4);
  for (int i = 0; i < g.n; i++) for (int j = 0; j < i; j++) {
    bool has = false;
    for (auto &e : g.e) has |= (e.a == i && e.b == j) || (e.a == j && e.b == i);
    if (choose(4) == 3) has = (int)choose(4) < den;
    if (has) t.e.push_back({pos[i], pos[j], 1});
  }
  return t;
}
// target with the nodes numbered as in the observation
Graph aligned(const Graph &t, const Graph &g) {
  std::map<std::string, int> num;
  for (int i = 0; i < g.n; i++) num[g.label[i]] = i;
  Graph r = g;
  r.e.clear();
  for (auto &e : t.e) r.e.push_back({num[t.label[e.a]], num[t.label[e.b]], 1});
  return r;
}
}  // namespace
SCENARIO(P21, network_score, 8) {
  heapRandom();
  Graph obs = genGraph(2, choose(4) == 3 ? 12 : 5, false, true);
  bool equal = choose(4) == 3, self = equal && choose(2);
  Graph tar = target(obs, equal), al = aligned(tar, obs);
  double linC = pickC();
  int nIter = range(1, 4);
  if (choose(4) == 3) nIter = range(5, 40);
  op("score of a network of %zu links, observed %zu, %d samples, linC=%g%s", tar.e.size(), obs.e.size(), nIter, linC, self ? ", the same network" : "");
  char v = "qvd"[choose(3)];
  double s = netScore(tar, obs, linC, nIter, fairRng(), v, self);
  CHECK(std::isfinite(s) && s > 0, "score-value", "score is %g", s);
  nontrivial();
  state((uint64_t)(s * 1e6));
  if (equal) { CHECK(std::fabs(s - 1) < 1e-9, "score-value", "the observed network itself scores %.12g, should be 1", s); probe("itself"); return; }
  if (obs.n > 5) return;
  auto all = setPartitions(obs.n);
  std::vector<Contrib> c;
  double lo = 1e300, hi = 0;
  for (auto &l : all) {
    c.push_back(contrib(obs, al, l));
    double x = std::exp(c.back().tar - c.back().obs);
    lo = std::min(lo, x); hi = std::max(hi, x);
  }
  CHECK(s > lo * (1 - 1e-6) && s < hi * (1 + 1e-6), "score-value", "score %.9g, groupings give %.9g to %.9g", s, lo, hi);
  if (nIter > 2) return;
  double best = 1e300, at = 0;
  for (size_t i = 0; i < c.size(); i++) for (size_t j = i; j < (nIter == 1 ? i + 1 : c.size()); j++) {
    double b = c[i].obs, x = (std::exp(c[i].tar - b) + std::exp(c[j].tar - b)) / (1 + std::exp(c[j].obs - b));
    if (std::fabs(x - s) < best) best = std::fabs(x - s), at = x;
  }
  CHECK(best < 1e-6 * (1 + s), "score-value", "no choice of %d grouping(s) gives score %.9g, nearest is %.9g", nIter, s, at);
  probe("exact");
}
SCENARIO(P21, network_score_average, 1) {
  Graph obs = genGraph(2, 4, false, true);
  Graph tar = target(obs, false), al = aligned(tar, obs);
  Model m;
  m.g = &obs;
  m.linC = pickC();
  gsl_rng *gen = fairRng();
  auto all = setPartitions(obs.n);
  auto p = posterior(m, all);
  double mu = 0, m2 = 0;
  for (size_t i = 0; i < all.size(); i++) { auto c = contrib(obs, al, all[i]); double x = std::exp(c.tar - c.obs); mu += p[i] * x; m2 += p[i] * x * x; }
  op("average score of a network of %zu links, observed %zu, linC=%g", tar.e.size(), obs.e.size(), m.linC);
  meanCheck({mu}, {std::sqrt(std::max(0., m2 - mu * mu))}, [&](int R) {
    double s = 0;
    for (int i = 0; i < R; i++) s += netScore(tar, obs, m.linC, 1, gen, 'q', false) / R;
    return std::vector<double>{s};
  }, 60, "score-average", "network score");
  nontrivial();
}
SCENARIO(P21, reconstruct, 3) {
  heapRandom();
  Graph g = genGraph(2, 5, false, true);
  if (choose(3) == 2) {  // nothing to exchange
    g.e.clear();
    if (choose(2)) for (int i = 0; i < g.n; i++) for (int j = 0; j < i; j++) g.e.push_back({j, i, 1});
  }
  size_t links = g.e.size(), pairs = g.n * (g.n - 1) / 2;
  op("reconstruct a network of %d nodes and %zu links", g.n, links);
  node_gra *obs = legacy::buildNet(g);
  gsl_rng *gen = fairRng();
  captureBegin();
  budget(5000000000ull);
  node_gra *net = NetReconstruct(obs, gen);
  noBudget();
  std::string out, err;
  captureEnd(&out, &err);
  CHECK(out.empty(), "stdout", "reconstructing printed on stdout: %s", out.substr(0, 60).c_str());
  CHECK(net && net != obs, "reconstruction", "no new network came out");
  legacy::checkNet(obs, g, "reconstruction-input", "observed network after a reconstruction");
  Graph r = g;
  r.e.clear();
  int i = 0;
  std::vector<node_gra *> v;
  for (node_gra *p = net->next; p; p = p->next, i++) {
    CHECK(i < g.n && p->num == i && g.label[i] == p->label, "reconstruction", "node %d of the result is %s", i, p->label);
    v.push_back(p);
    for (node_lis *x = p->neig->next; x; x = x->next) if (x->node > i) r.e.push_back({i, x->node, 1});
  }
  CHECK(i == g.n, "reconstruction", "the result has %d nodes, the observation %d", i, g.n);
  std::set<std::pair<int, int>> once;
  for (auto &e : r.e) CHECK(once.insert({e.a, e.b}).second, "reconstruction", "link %d-%d comes up twice", e.a, e.b);
  legacy::checkNet(net, r, "reconstruction", "reconstructed network");
  CHECK(r.e.size() == links, "reconstruction", "the result has %zu links, the observation %zu", r.e.size(), links);
  if (links == 0 || links == pairs) probe("nothing-to-exchange"); else nontrivial();
  uint64_t h = g.n;
  size_t diff = 0;
  for (auto &e : r.e) { h = mix(h, e.a * 8 + e.b); bool was = false; for (auto &f : g.e) was |= std::minmax(f.a, f.b) == std::minmax(e.a, e.b); diff += !was; }
  if (diff) probe("exchanged");
  state(h);
  RemoveGraph(net);
  RemoveGraph(obs);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks are still allocated after a reconstruction", (unsigned long long)heapLiveBlocks());
}
// With 10000 samples the scores are close to the exact averages, so the network they imply is known.
SCENARIO(P21, implied_network, 1) {
  heapRandom();
  Graph g = genGraph(2, 4, false, true);
  Model m;
  m.g = &g;
  auto all = setPartitions(g.n);
  auto p = posterior(m, all);
  int n = g.n;
  std::vector<std::vector<double>> s(n, std::vector<double>(n, 0));
  for (size_t k = 0; k < all.size(); k++) {
    auto &lab = all[k];
    std::map<int, int> size;
    std::map<std::pair<int, int>, int> L;
    for (int x : lab) size[x]++;
    for (auto &e : g.e) L[std::minmax(lab[e.a], lab[e.b])]++;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) {
      auto a = std::minmax(lab[i], lab[j]);
      int r = a.first == a.second ? size[a.first] * (size[a.first] - 1) / 2 : size[a.first] * size[a.second];
      s[i][j] += p[k] * m.score(r, L[a]);
    }
  }
  bool flat = true;  // every grouping as likely: the chain may alternate
  for (double x : p) flat &= std::fabs(x * p.size() - 1) < 1e-9;
  auto A = g.matrix();
  node_gra *net = legacy::buildNet(g);
  gsl_rng *gen = fairRng();
  int kind = (int)choose(7) % 4;
  if (kind == 3) {
    // a network some of whose links can be switched, so that its randomizations differ
    RemoveGraph(net);
    g = Graph();
    n = g.n = range(5, 6);
    for (int i = 0; i < n; i++) g.label.push_back("n" + std::to_string(i));
    for (int i = 0; i < n; i++) g.e.push_back({i, (i + 1) % n, 1});
    if (choose(2)) g.e.push_back({0, 2, 1});
    net = legacy::buildNet(g);
    int nrep = range(2, 3);
    op("structure score of %d nodes and %zu links, %d randomizations", n, g.e.size(), nrep);
    budget(5000000000ull);
    double got = SBMStructureScore(net, nrep, gen);
    noBudget();
    note("structure score %.3f", got);
    CHECK(std::isfinite(got), "structure-score", "the structure score is %g", got);
    probe("structure-score");
  } else if (kind < 2) {
    op("network implied by the scores of %d nodes and %zu links", n, g.e.size());
    budget(5000000000ull);
    node_gra *r = NetFromSBMScores(net, gen);
    noBudget();
    int i = 0;
    std::set<std::pair<int, int>> L;
    for (node_gra *q = r->next; q; q = q->next, i++) {
      CHECK(i < n && q->num == i && g.label[i] == q->label, "implied-network", "node %d of the result is %s", i, q->label);
      for (node_lis *x = q->neig->next; x; x = x->next) CHECK(x->node != i && L.insert({i, x->node}).second, "implied-network", "link %d-%d comes up twice, or is a loop", i, x->node);
    }
    CHECK(i == n, "implied-network", "%d nodes, should be %d", i, n);
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b) {
      CHECK(L.count({a, b}) == L.count({b, a}), "implied-network", "link %d-%d exists one way only", a, b);
      if (!flat && std::fabs(s[a][b] - .5) > .1) CHECK((int)L.count({a, b}) == (s[a][b] > .5), "implied-network", "pair %d-%d has exact score %.4f but is %slinked", a, b, s[a][b], L.count({a, b}) ? "" : "not ");
    }
    RemoveGraph(r);
  } else {
    op("error of the block model for %d nodes and %zu links", n, g.e.size());
    double want = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { double d = (A[i][j] != 0) - s[i][j]; want += d * d; }
    want = std::sqrt(want / (n * (n - 1) / 2));
    budget(5000000000ull);
    double got = SBMError(net, gen);
    noBudget();
    note("error %.6f exact %.6f", got, want);
    CHECK(std::isfinite(got) && got > 0 && got < 1, "model-error", "error is %g", got);
    if (!flat) CHECK(std::fabs(got - want) < .08, "model-error", "error is %.5f, the exact scores give %.5f", got, want);
  }
  legacy::checkNet(net, g, "score-input", "after scoring");
  RemoveGraph(net);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks are still allocated after scoring", (unsigned long long)heapLiveBlocks());
  nontrivial();
  state(mix(n * 4 + kind, g.e.size()));
}
}  // namespace sampler
