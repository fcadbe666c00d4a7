// P15 randomization, P16 removal and addition of random links, P17 random network models.
#include "store.h"
#include "progs.h"
using namespace sim;
using namespace model;
using store::Net;
namespace {
gsl_rng *wideRng() {  // every value is possible: rejection loops end
  static const RngMode M[] = {FAIR, FAIR, FAIR, EXTREME, STICKY, LOWISH, HIGHISH};
  RngMode m = M[choose(7)];
  uint64_t s = seed64();
  op("draws mode=%s stream=%llx", modeName(m), (unsigned long long)s);
  fault((std::string("draws:") + modeName(m)).c_str());
  return newRng(m, s);
}
Net readNet(node_gra *net) {
  Net m;
  auto v = store::nodes(net);
  std::map<node_gra *, int> id;
  for (auto p : v) { id[p] = m.n(); m.add(p->label); }
  for (auto p : v) for (node_lis *q = p->neig->next; q; q = q->next) {
    CHECK(q->ref && id.count(q->ref), "structure", "a link of node %s leads out of the network", p->label);
    CHECK(m.a[id[p]].insert({id[q->ref], q->weight}).second, "structure", "link %s-%s exists twice", p->label, q->ref->label);
  }
  return m;
}
void checkSimple(const Net &m, bool symmetric) {
  for (int i = 0; i < m.n(); i++) {
    CHECK(!m.has(i, i), "structure", "node %d is linked to itself", i);
    if (symmetric) for (auto &x : m.a[i]) CHECK(m.has(x.first, i), "structure", "link %d-%d has no counterpart", i, x.first);
  }
}
std::string key(const Net &m) { std::string s; for (int i = 0; i < m.n(); i++) for (auto &x : m.a[i]) s += std::to_string(i) + "-" + std::to_string(x.first) + " "; return s; }
// every pair of links that can be switched, and how (unordered links)
std::map<std::string, double> switches(const Net &m) {
  std::vector<std::pair<int, int>> e;
  for (int i = 0; i < m.n(); i++) for (auto &x : m.a[i]) if (i < x.first) e.push_back({i, x.first});
  std::map<std::string, double> r;
  double tot = 0;
  for (size_t a = 0; a < e.size(); a++) for (size_t b = 0; b < a; b++) for (int o = 0; o < 2; o++) {
    int n1 = e[a].first, n2 = e[a].second, n3 = o ? e[b].first : e[b].second, n4 = o ? e[b].second : e[b].first;
    if (n1 == n3 || n1 == n4 || n2 == n3 || n2 == n4 || m.has(n1, n4) || m.has(n2, n3)) continue;
    Net t = m;
    t.a[n1].erase(n2); t.a[n2].erase(n1); t.a[n3].erase(n4); t.a[n4].erase(n3);
    t.a[n1][n4] = t.a[n4][n1] = t.a[n2][n3] = t.a[n3][n2] = 1;
    r[key(t)]++; tot++;
  }
  for (auto &x : r) x.second /= tot;
  return r;
}
void frequencies(const std::map<std::string, double> &want, const std::map<std::string, int> &got, int N, const char *what) {
  for (auto &x : got) CHECK(want.count(x.first), "distribution", "%s: impossible result %s", what, x.first.c_str());
  for (auto &x : want) {
    double p = x.second, f = got.count(x.first) ? got.at(x.first) : 0;
    // 7 deviations, and room for the discreteness of small counts
    CHECK(std::fabs(f - N * p) <= 7 * std::sqrt(N * p * (1 - p)) + 6, "distribution", "%s: result %s came up %g times of %d, should be %.1f", what, x.first.c_str(), f, N, N * p);
  }
}
}  // namespace
SCENARIO(P15, plain, 4) {
  heapRandom();
  Graph g = choose(8) == 7 ? genBigGraph(13, 40, false) : genGraph(1, 10, false, true, 300);
  Net m = store::fromGraph(g);
  node_gra *net = CreateHeaderGraph();
  std::vector<node_gra *> v;
  for (auto &l : m.lab) v.push_back(CreateNodeGraph(net, const_cast<char *>(l.c_str())));
  for (auto &e : g.e) { AddAdjacency(v[e.a], v[e.b], 0, 0, 1, 0); AddAdjacency(v[e.b], v[e.a], 0, 0, 1, 0); }
  double times = choose(4) == 3 ? 0 : range(1, 20) / 4.;
  int rounds = range(1, 3);
  gsl_rng *gen = wideRng();
  bool sw = g.n <= 10 && !switches(m).empty();
  if (sw) nontrivial();
  for (int r = 0; r < rounds; r++) {
    op("randomize %g times the links", times);
    std::string so, se;
    budget(400000000ull);
    captureBegin();
    node_gra *got = RandomizeSymmetricNetwork(net, times, gen);
    captureEnd(&so, &se);
    noBudget();
    CHECK(got == net, "structure", "another network is returned");
    CHECK(se.empty() && so.empty(), "structure", "randomization complains: %.60s", (so + se).c_str());
    Net x = readNet(net);
    checkSimple(x, true);
    CHECK(x.lab == m.lab, "structure", "nodes changed");
    for (int i = 0; i < m.n(); i++) CHECK(x.a[i].size() == m.a[i].size(), "degrees", "degree of node %d went from %zu to %zu", i, m.a[i].size(), x.a[i].size());
    store::check(net, x, "structure", "after randomizing");
    if (g.n <= 10 && !sw) CHECK(key(x) == key(m), "degrees", "links changed although none can be switched");
    state(hashBytes(key(x).data(), key(x).size()));
    if (key(x) != key(m)) probe("randomized");
    if (!sw && g.n <= 10) probe("nothing-to-switch");
  }
  RemoveGraph(net);
  gsl_rng_free(gen);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
}
SCENARIO(P15, one_switch, 1) {
  heapRandom();
  Graph g = genGraph(4, 7, false, true);
  bool star = choose(20) == 19;
  if (star) {   // a star and a separate link: only pairs with that link can be switched
    int k = range(20, 90);
    g.n = k + 3; g.e.clear(); g.label = genLabels(g.n, "n");
    std::vector<int> id(g.n);
    for (int i = 0; i < g.n; i++) { id[i] = i; std::swap(id[i], id[choose(i + 1)]); }
    for (int i = 1; i <= k; i++) g.e.push_back({id[0], id[i], 1});
    g.e.push_back({id[k + 1], id[k + 2], 1});
    if (choose(2)) std::swap(g.e.back(), g.e[choose(g.e.size())]);
    probe("star-and-link");
  }
  Net m = store::fromGraph(g);
  auto want = switches(m);
  if (want.empty()) skip("nothing-to-switch");
  nontrivial();
  gsl_rng *gen = fairRng();
  const int N = star ? 30 : 250;
  std::map<std::string, int> got;
  for (int k = 0; k < N; k++) {
    node_gra *net = CreateHeaderGraph();
    std::vector<node_gra *> v;
    for (auto &l : m.lab) v.push_back(CreateNodeGraph(net, const_cast<char *>(l.c_str())));
    for (auto &e : g.e) { AddAdjacency(v[e.a], v[e.b], 0, 0, 1, 0); AddAdjacency(v[e.b], v[e.a], 0, 0, 1, 0); }
    budget(50000000ull);
    RandomizeSymmetricNetwork(net, 0, gen);
    noBudget();
    Net x = readNet(net);
    got[key(x)]++;
    RemoveGraph(net);
  }
  op("%d single switches, %zu results", N, got.size());
  frequencies(want, got, N, "single switch");
  gsl_rng_free(gen);
}
SCENARIO(P15, one_switch_bipartite, 1) {
  heapRandom();
  Bip b = genBip(2, 6, 2, 6, false, true);
  if (b.e.empty()) skip("no-links");
  store::Two m = store::fromBip(b);
  auto k2 = [](const std::vector<std::map<int, double>> &a) { std::string s; for (size_t i = 0; i < a.size(); i++) for (auto &x : a[i]) s += std::to_string(i) + "-" + std::to_string(x.first) + " "; return s; };
  std::map<std::string, double> want;
  double tot = 0;
  for (size_t i = 0; i < b.e.size(); i++) for (size_t j = 0; j < i; j++) {
    auto &e = b.e[i], &f = b.e[j];
    if (e.a == f.a || e.b == f.b || m.a[e.a].count(f.b) || m.a[f.a].count(e.b)) continue;
    auto t = m.a;
    t[e.a].erase(e.b); t[f.a].erase(f.b); t[e.a][f.b] = t[f.a][e.b] = 1;
    want[k2(t)]++; tot++;
  }
  if (want.empty()) skip("nothing-to-switch");
  for (auto &x : want) x.second /= tot;
  nontrivial();
  gsl_rng *gen = fairRng();
  const int N = 1500;
  std::map<std::string, int> got;
  for (int k = 0; k < N; k++) {
    binet *net = store::buildTwo(m);
    budget(50000000ull);
    RandomizeBipart(net, .5 / b.e.size(), gen);   // one switch
    noBudget();
    auto v = store::nodes(net->net1), y = store::nodes(net->net2);
    std::vector<std::map<int, double>> a(v.size());
    for (size_t i = 0; i < v.size(); i++)
      for (node_lis *q = v[i]->neig->next; q; q = q->next) a[i][std::find(y.begin(), y.end(), q->ref) - y.begin()] = 1;
    got[k2(a)]++;
    RemoveBipart(net);
  }
  op("%d single switches, %zu results", N, got.size());
  frequencies(want, got, N, "single bipartite switch");
  gsl_rng_free(gen);
}
SCENARIO(P15, bipartite, 3) {
  heapRandom();
  Bip b = choose(40) == 39 ? genBigBip(range(1, choose(4) ? 60 : 300), range(1, choose(4) ? 60 : 300), false) : genBip(1, 8, 1, 8, false, true);
  if (b.e.empty()) skip("no-links");
  store::Two m = store::fromBip(b);
  binet *net = store::buildTwo(m);
  auto k2 = [](const std::vector<std::map<int, double>> &a) { std::string s; for (size_t i = 0; i < a.size(); i++) for (auto &x : a[i]) s += std::to_string(i) + "-" + std::to_string(x.first) + " "; return s; };
  bool can = false;
  for (auto &e : b.e) for (auto &f : b.e) can |= e.a != f.a && e.b != f.b && !m.a[e.a].count(f.b) && !m.a[f.a].count(e.b);
  if (can) nontrivial();
  gsl_rng *gen = wideRng();
  int rounds = range(1, 3);
  std::string so, se;
  for (int r = 0; r < rounds; r++) {
    double times = range(0, 20) / 4.;
    op("randomize %g times the links", times);
    budget(400000000ull);
    captureBegin();
    binet *got = RandomizeBipart(net, times, gen);
    captureEnd(&so, &se);
    noBudget();
    CHECK(got == net, "structure", "another network is returned");
    CHECK(so.empty() && se.empty(), "structure", "randomization complains: %.60s", (so + se).c_str());
    store::Two x = m;
    auto v = store::nodes(net->net1), y = store::nodes(net->net2);
    CHECK(v.size() == m.l1.size() && y.size() == m.l2.size(), "structure", "nodes changed");
    std::vector<int> d2(y.size(), 0), w2(y.size(), 0);
    for (size_t i = 0; i < v.size(); i++) {
      x.a[i].clear();
      for (node_lis *q = v[i]->neig->next; q; q = q->next) {
        auto it = std::find(y.begin(), y.end(), q->ref);
        CHECK(it != y.end(), "structure", "a link does not lead to the other side");
        CHECK(x.a[i].insert({it - y.begin(), q->weight}).second, "structure", "a link exists twice");
        d2[it - y.begin()]++;
      }
      CHECK(x.a[i].size() == m.a[i].size(), "degrees", "degree of node %zu of side 1 went from %zu to %zu", i, m.a[i].size(), x.a[i].size());
      for (auto &e : m.a[i]) w2[e.first]++;
    }
    for (size_t j = 0; j < y.size(); j++) CHECK(d2[j] == w2[j], "degrees", "degree of node %zu of side 2 went from %d to %d", j, w2[j], d2[j]);
    store::checkTwo(net, x, "structure", "after randomizing");
    if (!can) CHECK(k2(x.a) == k2(m.a), "degrees", "links changed although none can be switched");
    if (k2(x.a) != k2(m.a)) probe("randomized");
    std::string k = k2(x.a);
    state(hashBytes(k.data(), k.size()));
  }
  RemoveBipart(net);
  gsl_rng_free(gen);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
}
SCENARIO(P15, program, 1) {
  Graph g = genGraph(2, 9, false, false);
  if (g.e.empty()) skip("no-links");
  nontrivial();
  disk["net"] = {edgeText(g, false, true)};
  FaultPlan fp;
  fp.readChunk = choose(2) ? -range(1, 40) : 0;
  fp.chunkSeed = seed64();
  op("netrandomize");
  Proc p = runProcess(prog_main_utils_netrandomize, {"netrandomize", "net", std::to_string(choose(1000))}, "", fp, FAIR, seed64(), 2000000000ull);
  CHECK(!p.crashed && p.code == 0, "program", "netrandomize ended with code %d", p.code);
  std::map<std::string, int> want, got;
  std::set<std::pair<std::string, std::string>> seen;
  for (auto &e : g.e) { want[g.label[e.a]]++; want[g.label[e.b]]++; }
  for (auto &l : lines(p.out)) {
    auto w = words(l);
    CHECK(w.size() >= 2, "program", "strange line '%s'", l.c_str());
    CHECK(w[0] != w[1], "program", "self link '%s'", l.c_str());
    CHECK(seen.insert(std::minmax(w[0], w[1])).second, "program", "link '%s' exists twice", l.c_str());
    got[w[0]]++; got[w[1]]++;
  }
  CHECK(want == got, "degrees", "netrandomize changed the degrees of the nodes");
}
// ------------------------------------------------------------------------------------------------
namespace {
node_gra *buildDirected(const Net &m) {
  node_gra *net = CreateHeaderGraph();
  std::vector<node_gra *> v;
  for (auto &l : m.lab) v.push_back(CreateNodeGraph(net, const_cast<char *>(l.c_str())));
  for (int i = 0; i < m.n(); i++) for (auto &x : m.a[i]) AddAdjacency(v[i], v[x.first], 0, 0, x.second, 0);
  return net;
}
Net genNet(bool sym, int lo, int hi, bool weighted) {
  Net m;
  int n = genSize(lo, hi, 40), dens = range(0, 6);
  auto labs = genLabels(n, "n");
  for (auto &l : labs) m.add(l);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && !(sym && j < i) && (int)choose(6) < dens) {
    double w = weighted ? weightChoice() : 1;
    m.a[i][j] = w;
    if (sym) m.a[j][i] = w;
  }
  op("%s network of %d nodes:%s", sym ? "undirected" : "directed", n, store::show(m).c_str());
  return m;
}
}  // namespace
SCENARIO(P16, history, 4) {
  heapRandom();
  bool sym = choose(3) != 2, weighted = choose(2);
  Net m = genNet(sym, 2, 9, weighted);
  node_gra *net = buildDirected(m);
  gsl_rng *gen = wideRng();
  int steps = range(1, 6), unit = sym ? 2 : 1;
  for (int s = 0; s < steps; s++) {
    int L = m.links() / unit, cap = m.n() * (m.n() - 1) / unit;
    bool add = choose(2);
    int k = range(0, add ? cap - L : L);
    op("%s %d of %d", add ? "add" : "remove", k, add ? cap - L : L);
    budget(400000000ull);
    if (add) AddRandomLinks(net, k, sym, gen);
    else RemoveRandomLinks(net, k, sym, gen);
    noBudget();
    Net x = readNet(net);
    checkSimple(x, sym);
    CHECK(x.lab == m.lab, "links", "nodes changed");
    int lx = x.links() / unit;
    CHECK(lx == (add ? L + k : L - k), "links", "%d links after %s %d of %d", lx, add ? "adding" : "removing", k, L);
    const Net &big = add ? x : m, &small = add ? m : x;
    for (int i = 0; i < m.n(); i++) for (auto &e : small.a[i]) {
      CHECK(big.has(i, e.first), "links", "link %d-%d %s", i, e.first, add ? "was lost while adding others" : "appeared while removing others");
      CHECK(big.a[i].at(e.first) == e.second, "links", "weight of link %d-%d changed from %g to %g", i, e.first, m.a[i][e.first], x.a[i][e.first]);
    }
    if (add) for (int i = 0; i < m.n(); i++) for (auto &e : x.a[i]) if (!m.has(i, e.first)) CHECK(e.second == 1, "links", "added link %d-%d weighs %g", i, e.first, e.second);
    store::check(net, x, "links", add ? "after adding" : "after removing");
    if (k) { nontrivial(); probe(add ? "added" : "removed"); }
    m = x;
    std::string q = key(m);
    state(hashBytes(q.data(), q.size()));
  }
  RemoveGraph(net);
  gsl_rng_free(gen);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
}
SCENARIO(P16, choice, 1) {
  heapRandom();
  bool sym = choose(2), add = choose(2);
  Net m = genNet(sym, 2, 6, false);
  std::vector<std::pair<int, int>> c;
  for (int i = 0; i < m.n(); i++) for (int j = 0; j < m.n(); j++) if (i != j && (!sym || i < j) && m.has(i, j) != add) c.push_back({i, j});
  if (c.empty()) skip("no-choice");
  int k = range(1, std::min((int)c.size(), 3));
  gsl_rng *gen = fairRng();
  const int N = 250;
  std::map<std::string, int> got;
  std::map<std::string, double> want;
  op("%s %d, %d times", add ? "add" : "remove", k, N);
  nontrivial();
  for (int t = 0; t < N; t++) {
    node_gra *net = buildDirected(m);
    if (add) AddRandomLinks(net, k, sym, gen); else RemoveRandomLinks(net, k, sym, gen);
    Net x = readNet(net);
    int changed = 0;
    for (auto &e : c) if (x.has(e.first, e.second) == add) { got[std::to_string(e.first) + "-" + std::to_string(e.second)]++; changed++; }
    CHECK(changed == k, "links", "%d links %s instead of %d", changed, add ? "added" : "removed", k);
    RemoveGraph(net);
  }
  for (auto &e : c) want[std::to_string(e.first) + "-" + std::to_string(e.second)] = (double)k / c.size();
  frequencies(want, got, N, add ? "added link" : "removed link");
  gsl_rng_free(gen);
}
// ------------------------------------------------------------------------------------------------
namespace {
void checkPlainModel(node_gra *net, int S, Net &x) {
  x = readNet(net);
  checkSimple(x, true);
  CHECK(x.n() == S, "model", "%d nodes, should be %d", x.n(), S);
  for (int i = 0; i < S; i++) CHECK(x.lab[i] == std::to_string(i + 1), "model", "node %d is called %s", i, x.lab[i].c_str());
  store::check(net, x, "model", "generated network");
  std::string q = key(x);
  state(hashBytes(q.data(), q.size()));
}
}  // namespace
SCENARIO(P17, structure, 4) {
  heapRandom();
  int kind = (int)choose(5);
  gsl_rng *gen = kind == 2 ? wideRng() : anyRng();
  Net x;
  node_gra *net = nullptr;
  std::string so, se;
  budget(400000000ull);
  if (kind == 0) {
    int S = genSize(0, 40, 300);
    op("empty graph of %d", S);
    net = EmptyGraph(S);
    checkPlainModel(net, S, x);
    CHECK(x.links() == 0, "model", "an empty graph has %d links", x.links());
    if (S) nontrivial();
  } else if (kind == 1) {
    int S = genSize(1, 30, 150);
    double p = choose(3) == 0 ? 0 : choose(3) == 1 ? 1 : range(0, 20) / 20.;
    op("random graph of %d, probability %g", S, p);
    net = ERGraph(S, p, gen);
    checkPlainModel(net, S, x);
    if (p == 0) CHECK(x.links() == 0, "model", "%d links with probability 0", x.links() / 2);
    if (p == 1) CHECK(x.links() == S * (S - 1), "model", "%d links of %d with probability 1", x.links() / 2, S * (S - 1) / 2);
    if (x.links()) nontrivial();
  } else if (kind == 2) {
    int m = range(1, 5), S = genSize(m, m + 25, 200);
    op("preferential attachment, %d nodes, %d links each", S, m);
    net = PAGraph(S, m, gen);
    checkPlainModel(net, S, x);
    CHECK(x.links() / 2 == m * (m - 1) / 2 + m * (S - m), "model", "%d links, should be %d", x.links() / 2, m * (m - 1) / 2 + m * (S - m));
    for (int i = 0; i < S; i++) {
      int back = 0;
      for (auto &e : x.a[i]) back += e.first < i;
      CHECK(back == (i < m ? i : m), "model", "node %d has %d links to earlier nodes, should be %d", i, back, i < m ? i : m);
    }
    nontrivial();
  } else {
    int ng = range(1, 5);
    std::vector<int> size(ng);
    std::vector<std::vector<double>> q(ng, std::vector<double>(ng));
    std::vector<double *> rows;
    int S = 0;
    bool verbose = choose(8) == 7;
    if (kind == 3) {
      for (int i = 0; i < ng; i++) {
        S += size[i] = range(1, 7);
        for (int j = 0; j <= i; j++) q[i][j] = q[j][i] = choose(3) == 0 ? 0 : choose(2) ? 1 : range(0, 10) / 10.;
      }
      for (auto &r : q) rows.push_back(r.data());
      op("block graph of %d groups, %d nodes", ng, S);
      captureBegin();
      net = UndirectedBlockGraph(ng, size.data(), rows.data(), verbose ? 'v' : 'q', gen);
      captureEnd(&so, &se);
    } else {
      int gs = range(2, 8);
      double kin = choose(2) ? (choose(2) ? gs - 1 : 0) : range(0, gs - 1), kout = ng < 2 ? 0 : choose(2) ? (choose(2) ? gs * (ng - 1) : 0) : range(0, gs * (ng - 1));
      S = gs * ng;
      for (int i = 0; i < ng; i++) for (int j = 0; j < ng; j++) q[i][j] = i == j ? kin / (gs - 1) : kout / (gs * (ng - 1));
      size.assign(ng, gs);
      op("Girvan-Newman graph of %d groups of %d, kin %g kout %g", ng, gs, kin, kout);
      captureBegin();
      net = GirvanNewmanGraph(ng, gs, kin, kout, verbose ? 'v' : 'q', gen);
      captureEnd(&so, &se);
    }
    checkPlainModel(net, S, x);
    std::vector<int> grp;
    for (int i = 0; i < ng; i++) for (int j = 0; j < size[i]; j++) grp.push_back(i);
    auto v = store::nodes(net);
    for (int i = 0; i < S; i++) {
      CHECK(v[i]->inGroup == grp[i], "model", "node %d is in group %d, should be in %d", i, v[i]->inGroup, grp[i]);
      for (int j = 0; j < S; j++) if (i != j) {
        double p = q[grp[i]][grp[j]];
        if (p <= 0) CHECK(!x.has(i, j), "model", "link %d-%d between groups with probability 0", i, j);
        if (p >= 1) CHECK(x.has(i, j), "model", "no link %d-%d between groups with probability 1", i, j);
      }
    }
    if (!verbose) CHECK(so.empty() && se.empty(), "model", "unasked output %.40s", (so + se).c_str());
    if (x.links()) nontrivial();
  }
  noBudget();
  RemoveGraph(net);
  gsl_rng_free(gen);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
}
SCENARIO(P17, frequencies, 1) {
  heapRandom();
  gsl_rng *gen = fairRng();
  int kind = (int)choose(3);
  const int N = 250;
  std::map<std::string, int> got;
  std::map<std::string, double> want;
  auto pair = [](int i, int j) { return std::to_string(i) + "-" + std::to_string(j); };
  nontrivial();
  if (kind == 0) {
    int S = range(2, 6);
    double p = range(1, 9) / 10.;
    op("random graph of %d, probability %g, %d times", S, p, N);
    for (int i = 0; i < S; i++) for (int j = i + 1; j < S; j++) want[pair(i, j)] = p;
    for (int t = 0; t < N; t++) { node_gra *net = ERGraph(S, p, gen); Net x = readNet(net); for (int i = 0; i < S; i++) for (auto &e : x.a[i]) if (i < e.first) got[pair(i, e.first)]++; RemoveGraph(net); }
  } else if (kind == 1) {
    int ng = range(1, 3), S = 0;
    std::vector<int> size(ng), grp;
    std::vector<std::vector<double>> q(ng, std::vector<double>(ng));
    std::vector<double *> rows;
    for (int i = 0; i < ng; i++) { S += size[i] = range(1, 3); for (int k = 0; k < size[i]; k++) grp.push_back(i); for (int j = 0; j <= i; j++) q[i][j] = q[j][i] = range(1, 9) / 10.; }
    for (auto &r : q) rows.push_back(r.data());
    op("block graph of %d groups, %d nodes, %d times", ng, S, N);
    for (int i = 0; i < S; i++) for (int j = i + 1; j < S; j++) want[pair(i, j)] = q[grp[i]][grp[j]];
    for (int t = 0; t < N; t++) { node_gra *net = UndirectedBlockGraph(ng, size.data(), rows.data(), 'q', gen); Net x = readNet(net); for (int i = 0; i < S; i++) for (auto &e : x.a[i]) if (i < e.first) got[pair(i, e.first)]++; RemoveGraph(net); }
  } else {
    // the newcomer picks nodes in proportion to their degrees
    int m = range(2, 3), S = m + 2;
    op("preferential attachment, %d nodes, %d links each, %d times", S, m, N);
    for (int t = 0; t < N; t++) {
      node_gra *net = PAGraph(S, m, gen);
      Net x = readNet(net);
      for (auto &e : x.a[S - 1]) got[std::to_string(e.first)]++;
      RemoveGraph(net);
    }
    // before the last node: node m has degree m, the others m (all but ... linked to m): every one of the first m has m
    // links (m-1 among themselves and one to node m); all m+1 nodes are equivalent
    for (int i = 0; i <= m; i++) want[std::to_string(i)] = (double)m / (m + 1);
  }
  frequencies(want, got, N, kind == 2 ? "neighbour of the last node" : "link");
  gsl_rng_free(gen);
}
SCENARIO(P17, attachment, 1) {
  heapRandom();
  // one link per node: the last node of a tree joins node i with probability deg(i)/sum
  gsl_rng *gen = fairRng();
  int S = range(4, 7);
  const int N = 400;
  double hubs = 0, ex = 0, var = 0;
  for (int t = 0; t < N; t++) {
    node_gra *net = PAGraph(S, 1, gen);
    Net x = readNet(net);
    int j = x.a[S - 1].begin()->first;
    std::vector<double> d(S - 1, 0);
    double s = 0, e = 0, e2 = 0;
    for (int i = 0; i < S - 1; i++) { for (auto &q : x.a[i]) d[i] += q.first < S - 1; s += d[i]; }
    // expected degree of the target under preferential choice, given the network so far
    for (int i = 0; i < S - 1; i++) { e += d[i] / s * d[i]; e2 += d[i] / s * d[i] * d[i]; }
    hubs += d[j]; ex += e; var += e2 - e * e;
    RemoveGraph(net);
  }
  op("preferential attachment of %d nodes, %d times", S, N);
  nontrivial();
  CHECK(std::fabs(hubs - ex) <= 7 * std::sqrt(var) + 6, "distribution", "mean degree of the chosen nodes is %g, should be %g +- %g", hubs / N, ex / N, std::sqrt(var) / N);
  gsl_rng_free(gen);
}
SCENARIO(P17, bipartite, 3) {
  heapRandom();
  int nmod = range(1, 4), per = range(1, 6), S1 = 0, S2 = range(1, 8);
  bool own = choose(2), colp = choose(2);
  std::vector<int> size(nmod, per), grp;
  if (own) for (int &s : size) s = range(1, 6);
  for (int i = 0; i < nmod; i++) { S1 += size[i]; for (int k = 0; k < size[i]; k++) grp.push_back(i); }
  std::vector<double> col(nmod, 0);
  if (colp) {
    std::vector<int> w(nmod);
    int s = 0;
    for (int &x : w) s += x = range(0, 3);
    if (!s) s = w[0] = 1;
    for (int i = 0; i < nmod; i++) col[i] = (double)w[i] / s;
  }
  int teams = (int)choose(3), mmin = teams == 0 ? range(0, S1) : teams == 1 ? range(0, S1) : -1, mmax = teams == 0 ? mmin : teams == 1 ? range(mmin, S1) : -1;
  double gp = teams == 2 ? .97 : -1, p = choose(3) == 0 ? 0 : choose(2) ? 1 : range(0, 10) / 10.;
  if (teams == 2 && S1 < 14) gp = 1;  // teams cannot be larger than the population
  gsl_rng *gen = teams == 2 ? fairRng() : wideRng();
  op("modular bipartite network: %d modules, %d nodes, %d teams of %d..%d, homogeneity %g, colours %s", nmod, S1, S2, mmin, mmax, p, colp ? "given" : "free");
  budget(400000000ull);
  binet *b = BuildModularBipartiteNetwork(own ? size.data() : nullptr, per, nmod, colp ? col.data() : nullptr, S2, mmin, mmax, gp, p, gen);
  noBudget();
  auto x = store::nodes(b->net1), y = store::nodes(b->net2);
  CHECK((int)x.size() == S1 && (int)y.size() == S2, "model", "%zu nodes and %zu teams, should be %d and %d", x.size(), y.size(), S1, S2);
  store::Two m;
  m.a.resize(S1);
  for (int i = 0; i < S1; i++) {
    m.l1.push_back(x[i]->label);
    CHECK(m.l1[i] == "A" + std::to_string(i + 1), "model", "node %d is called %s", i, x[i]->label);
    CHECK(x[i]->inGroup == grp[i], "model", "node %d is in module %d, should be in %d", i, x[i]->inGroup, grp[i]);
    CHECK(x[i]->ivar1 == 0, "model", "node %d is marked as a team", i);
    for (node_lis *q = x[i]->neig->next; q; q = q->next) {
      auto it = std::find(y.begin(), y.end(), q->ref);
      CHECK(it != y.end(), "model", "a link does not lead to a team");
      CHECK(m.a[i].insert({it - y.begin(), q->weight}).second, "model", "a link exists twice");
    }
  }
  for (int j = 0; j < S2; j++) {
    m.l2.push_back(y[j]->label);
    CHECK(m.l2[j] == "B" + std::to_string(j + 1), "model", "team %d is called %s", j, y[j]->label);
    CHECK(y[j]->ivar1 == 1, "model", "team %d is not marked as a team", j);
  }
  store::checkTwo(b, m, "model", "modular bipartite network");
  for (int j = 0; j < S2; j++) {
    int d = 0, in = 0, c = y[j]->inGroup;
    CHECK(c >= 0 && c < nmod, "model", "team %d has color %d of %d", j, c, nmod);
    if (colp) CHECK(col[c] > 0, "model", "team %d has color %d, of probability 0", j, c);
    for (int i = 0; i < S1; i++) if (m.a[i].count(j)) { d++; in += grp[i] == c; }
    if (teams != 2) CHECK(d >= mmin && d <= mmax, "model", "team %d has %d members, should have %d to %d", j, d, mmin, mmax);
    if (teams == 2 && gp == 1) CHECK(d == 0, "model", "team %d has %d members, geometric sizes with probability 1 are all zero", j, d);
    if (p == 1) CHECK(in == std::min(d, size[c]), "model", "team %d of size %d has %d members of its color, there are %d", j, d, in, size[c]);
    state(mix(mix(c, d), in));
    if (d) nontrivial();
  }
  RemoveBipart(b);
  gsl_rng_free(gen);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
}
SCENARIO(P17, teams, 1) {
  heapRandom();
  // colours and memberships come up with their probabilities
  gsl_rng *gen = fairRng();
  int nmod = range(1, 3), per = range(2, 4), team = 1;
  bool colp = choose(2);
  std::vector<double> col(nmod, 1. / nmod);
  if (colp && nmod > 1) { col[0] = .5; for (int i = 1; i < nmod; i++) col[i] = .5 / (nmod - 1); }
  double p = range(0, 10) / 10.;
  const int S2 = 300;
  binet *b = BuildModularBipartiteNetwork(nullptr, per, nmod, colp ? col.data() : nullptr, S2, team, team, -1, p, gen);
  std::map<std::string, int> got;
  std::map<std::string, double> want;
  for (int c = 0; c < nmod; c++) for (int i = 0; i < nmod * per; i++)
    want["c" + std::to_string(c) + " n" + std::to_string(i)] = col[c] * ((i / per == c ? p / per : 0) + (1 - p) / (nmod * per));
  for (auto t : store::nodes(b->net2)) { CHECK(t->neig->next && !t->neig->next->next, "model", "a team has not one member"); got["c" + std::to_string(t->inGroup) + " n" + std::to_string(t->neig->next->ref->num)]++; }
  for (auto it = want.begin(); it != want.end();) if (it->second == 0) it = want.erase(it); else ++it;
  op("%d teams of one, %d modules, homogeneity %g", S2, nmod, p);
  nontrivial();
  frequencies(want, got, S2, "member of a team");
  RemoveBipart(b);
  gsl_rng_free(gen);
}
SCENARIO(P17, program, 1) {
  int nMod = range(1, 4), modSize = range(1, 6), nTeam = range(1, 6), teamSize = range(0, nMod * modSize);
  double hom = range(0, 4) / 4.;
  op("modularbipart %d %d %d %d %g", nMod, modSize, nTeam, teamSize, hom);
  Proc p = runProcess(prog_main_utils_modularbipart, {"modularbipart", std::to_string(nMod), std::to_string(modSize), std::to_string(nTeam), std::to_string(teamSize), num(hom), std::to_string(choose(1000))}, "", FaultPlan(), FAIR, seed64(), 2000000000ull);
  CHECK(!p.crashed && p.code == 0, "program", "modularbipart ended with code %d", p.code);
  CHECK(disk.count("binet.net"), "program", "no network was written");
  nontrivial();
  auto L = lines(disk["binet.net"].data);
  int n = nMod * modSize + nTeam, k = 0;
  CHECK(!L.empty() && words(L[0]).size() >= 2 && words(L[0])[0] == "*Vertices" && atoi(words(L[0])[1].c_str()) == n, "program", "first line of the Pajek file is '%s'", L.empty() ? "" : L[0].c_str());
  std::map<int, int> deg;
  bool links = false;
  std::set<std::pair<int, int>> seen;
  for (size_t i = 1; i < L.size(); i++) {
    auto w = words(L[i]);
    if (w.empty()) continue;
    if (w[0][0] == '*') { links = true; continue; }
    if (!links) { k++; continue; }
    int a = atoi(w[0].c_str()), b = atoi(w[1].c_str());
    if (a > b) std::swap(a, b);
    CHECK(a >= 1 && a <= nMod * modSize && b > nMod * modSize && b <= n, "program", "link '%s' does not join a node and a team", L[i].c_str());
    if (seen.insert({a, b}).second) deg[b]++;
  }
  CHECK(k == n, "program", "%d vertices listed, should be %d", k, n);
  for (int j = nMod * modSize + 1; j <= n; j++) CHECK(deg[j] == teamSize, "program", "team %d has %d members, should have %d", j, deg[j], teamSize);
}
