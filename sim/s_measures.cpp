// P30: structural measures of networks reached by histories of changes, in any order of evaluation.
#include "refs.h"
#include "matrix_decl.h"
using namespace sim;
using namespace model;
namespace {
using store::Net;
using namespace refs;
struct World { node_gra *net; Net m; bool sym; };
// the sub-network of one component, in any order of nodes; returns the set of its nodes
std::set<int> checkSub(node_gra *sub, const Net &m, bool renumbered, const char *what) {
  std::set<int> in;
  std::vector<int> id;
  auto v = store::nodes(sub);
  for (auto p : v) {
    int i = m.find(p->label);
    CHECK(i >= 0 && in.insert(i).second, "components", "%s: node %s is unknown or repeated", what, p->label);
    CHECK(p->num == (renumbered ? (int)id.size() : i), "components", "%s: node %s carries number %d", what, p->label, p->num);
    id.push_back(i);
  }
  for (size_t k = 0; k < v.size(); k++) {
    std::map<int, double> want, got;
    for (auto &x : m.a[id[k]]) if (in.count(x.first)) want[x.first] = x.second;
    for (node_lis *q = v[k]->neig->next; q; q = q->next) {
      int j = m.find(q->nodeLabel);
      CHECK(q->ref && std::find(v.begin(), v.end(), q->ref) != v.end() && !strcmp(q->ref->label, q->nodeLabel) && q->node == q->ref->num, "components", "%s: a link of node %s is not wired inside the component", what, v[k]->label);
      got[j] = q->weight;
    }
    CHECK(got == want, "components", "%s: node %s has %zu links, should have %zu (or their weights differ)", what, v[k]->label, got.size(), want.size());
    CHECK(NodeDegree(v[k]) == want.size(), "components", "%s: node %s has degree %u, should be %zu", what, v[k]->label, NodeDegree(v[k]), want.size());
  }
  return in;
}
void measure(World &w) {
  auto v = store::nodes(w.net);
  int n = w.m.n();
  auto d = distances(w.m);
  static const int SYM_ONLY = 100;
  int k = w.sym ? (int)choose(17) : (int)choose(8);
  std::string so, se;
  auto hush = [&] { captureBegin(); };
  auto done = [&] { captureEnd(&so, &se); };
  (void)SYM_ONLY;
  dirtyStack((int)choose(4));
  std::vector<uint64_t> live{heapLiveBlocks()};
  switch (k) {
    case 0: {  // distances
      op("average distances");
      bool conn = true;
      double s = 0, inv = 0;
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) { if (d[i][j] < 0) conn = false; else { s += d[i][j]; inv += 1. / d[i][j]; } }
      hush();
      double a = AveragePathLength(w.net), b = n > 1 ? AverageInverseDistance(w.net) : 0;
      done();
      if (!conn) CHECK(a == -1, "distances", "average path length of a disconnected network is %g, should be -1", a);
      else if (n > 1) CHECK(near(a, s / n / (n - 1)), "distances", "average path length %g, should be %g", a, s / n / (n - 1));
      if (n > 1) CHECK(near(b, inv / n / (n - 1)), "distances", "average inverse distance %g, should be %g", b, inv / n / (n - 1));
      break;
    }
    case 1: {  // distance histograms
      if (n < 2) break;
      op("distance histogram");
      FILE *f = openMem("hist", "w");
      hush();
      FPrintDistanceHistogram(f, w.net);
      int o = (int)choose(n);
      done();
      fclose(f);
      CHECK(so.empty() && se.empty(), "distances", "the histogram writes '%.60s' to the standard output", (so + se).c_str());
      std::map<int, double> h, got;
      double av = 0, nm = 0;
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (d[i][j] > 0) { h[d[i][j]] += 1. / n / (n - 1); av += (double)d[i][j] / n / (n - 1); nm += 1. / n / (n - 1); }
      double gav = -9, gnm = -9, gz = -9;
      for (auto &l : lines(disk["hist"].data)) {
        if (l[0] != '#') { auto x = words(l); CHECK(x.size() == 2, "distances", "strange histogram line '%s'", l.c_str()); got[atoi(x[0].c_str())] = atof(x[1].c_str()); }
        else { sscanf(l.c_str(), "#Average distance = %lf", &gav); sscanf(l.c_str(), "#Normalization = %lf", &gnm); sscanf(l.c_str(), "#z = %lf", &gz); }
      }
      CHECK(got.size() == h.size(), "distances", "histogram has %zu distances, should have %zu", got.size(), h.size());
      for (auto &x : h) CHECK(got.count(x.first) && std::fabs(got[x.first] - x.second) < 2e-6, "distances", "fraction of pairs at distance %d is %g, should be %g", x.first, got.count(x.first) ? got[x.first] : 0, x.second);
      CHECK(std::fabs(gav - av) < 2e-6 && std::fabs(gnm - nm) < 2e-6 && std::fabs(gz - h[1] * (n - 1)) < 2e-6, "distances", "average %g normalization %g z %g, should be %g %g %g", gav, gnm, gz, av, nm, h[1] * (n - 1));
      f = openMem("hist", "w");
      FPrintDistanceHistogramFromNode(f, w.net, o);
      fclose(f);
      av = 0;
      int k1 = 0;
      for (int j = 0; j < n; j++) if (d[o][j] > 0) { av += (double)d[o][j] / (n - 1); k1 += d[o][j] == 1; }
      gav = gz = -9;
      for (auto &l : lines(disk["hist"].data)) { sscanf(l.c_str(), "#Average distance = %lf", &gav); sscanf(l.c_str(), "#z = %lf", &gz); }
      CHECK(std::fabs(gav - av) < 2e-6 && std::fabs(gz - k1) < 2e-6, "distances", "from node %d: average %g z %g, should be %g %d", o, gav, gz, av, k1);
      disk.erase("hist");
      break;
    }
    case 2: {  // betweenness of the nodes
      op("node betweenness");
      auto b = betweenness(w.m);
      for (auto p : v) p->dvar1 = range(0, 3);
      double me = 0, sd = 0, lo = 1e99, hi = -1e99, gm, gs, gl, gh;
      if (choose(2)) {
        NodeBetweennessStatistics(w.net, &gm, &gs, &gl, &gh);
        for (double x : b) { me += x / n; lo = std::min(lo, x); hi = std::max(hi, x); }
        for (double x : b) sd += (x - me) * (x - me);
        sd = n > 1 ? std::sqrt(sd / (n - 1)) : 0;
        double sd0 = sd * std::sqrt((n - 1.) / n);
        CHECK(near(gm, me) && near(gl, lo) && near(gh, hi), "betweenness", "betweenness mean %g min %g max %g, should be %g %g %g", gm, gl, gh, me, lo, hi);
        if (n > 1) CHECK(std::fabs(gs - sd) < 1e-6 * (1 + sd) || std::fabs(gs - sd0) < 1e-6 * (1 + sd), "betweenness", "betweenness deviation %g, should be %g", gs, sd);
      } else CalculateNodeBetweenness(w.net);
      for (int i = 0; i < n; i++) CHECK(near(v[i]->dvar1, b[i]), "betweenness", "betweenness of node %d is %.9g, should be %.9g", i, v[i]->dvar1, b[i]);
      probe("betweenness");
      break;
    }
    case 3: {  // strongly connected sets
      op("strongly connected sets");
      auto c = strongComp(d);
      int nc = *std::max_element(c.begin(), c.end()) + 1;
      std::vector<int> sz(nc, 0);
      for (int x : c) sz[x]++;
      int mx = *std::max_element(sz.begin(), sz.end());
      int got = CountStronglyConnectedSets(w.net);
      CHECK(got == nc, "components", "%d strongly connected sets, should be %d", got, nc);
      int th = choose(3) ? 1000000 : range(0, n);
      node_gra *g = GetLargestStronglyConnectedSet(w.net, th);
      CHECK(g, "components", "no largest strongly connected set");
      auto in = checkSub(g, w.m, true, "largest strongly connected set");
      CHECK(!in.empty() && (int)in.size() == sz[c[*in.begin()]], "components", "largest strongly connected set is not a strongly connected set");
      for (int x : in) CHECK(c[x] == c[*in.begin()], "components", "largest strongly connected set is not strongly connected");
      CHECK((int)in.size() == mx || (int)in.size() > th, "components", "largest strongly connected set has %zu nodes, should have %d", in.size(), mx);
      RemoveGraph(g);
      if (nc > 1 && mx > 1) probe("strong-sets");
      break;
    }
    case 4: {  // weakly connected sets
      op("weakly connected sets");
      auto c = undirComp(w.m);
      int nc = *std::max_element(c.begin(), c.end()) + 1;
      std::vector<int> sz(nc, 0);
      for (int x : c) sz[x]++;
      int mx = *std::max_element(sz.begin(), sz.end());
      int th = choose(3) ? 1000000 : range(0, n);
      node_gra *g = GetLargestWeaklyConnectedSet(w.net, th);
      CHECK(g, "components", "no largest weakly connected set");
      auto in = checkSub(g, w.m, true, "largest weakly connected set");
      CHECK(!in.empty() && (int)in.size() == sz[c[*in.begin()]], "components", "largest weakly connected set has %zu nodes, the component of its first node has %d", in.size(), in.empty() ? 0 : sz[c[*in.begin()]]);
      for (int x : in) CHECK(c[x] == c[*in.begin()], "components", "largest weakly connected set is not connected");
      CHECK((int)in.size() == mx || (int)in.size() > th, "components", "largest weakly connected set has %zu nodes, should have %d", in.size(), mx);
      RemoveGraph(g);
      if (nc > 1 && mx > 1) probe("weak-sets");
      break;
    }
    case 5: {  // all components
      op("all components");
      auto c = strongComp(d);
      int nc = *std::max_element(c.begin(), c.end()) + 1;
      std::vector<node_gra *> l(n + 2, nullptr);
      int got = GetAllConnectedSets(w.net, l.data());
      CHECK(got == nc, "components", "%d components, should be %d", got, nc);
      std::vector<int> seen(n, 0);
      for (int i = 0; i < got; i++) {
        auto in = checkSub(l[i], w.m, false, "component");
        CHECK(!in.empty(), "components", "empty component");
        for (int x : in) { CHECK(c[x] == c[*in.begin()] && !seen[x], "components", "component %d is not connected, or overlaps another", i); seen[x] = 1; }
        RemoveGraph(l[i]);
      }
      for (int i = 0; i < n; i++) CHECK(seen[i], "components", "node %d is in no component", i);
      if (nc > 1) probe("all-components");
      break;
    }
    case 6: {  // reachability of a set
      std::vector<int> in(n, 0);
      int s = (int)choose(n);
      bool any = false;
      for (int i = 0; i < n; i++) { in[i] = choose(3) == 2; if (i != s && in[i] && d[s][i] > 0) any = true; }
      op("reach a set from %d", s);
      int got = AreConnectedList(w.net, v[s], in.data());
      if (!in[s]) CHECK((got != 0) == any, "components", "reaching the set from node %d: %d, should be %d", s, got, any);
      break;
    }
    case 7: {  // matrices
      op("adjacency matrix");
      int **A = AdjacencyMat(w.net);
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK(A[i][j] == (int)w.m.has(i, j), "matrices", "adjacency matrix element %d,%d is %d", i, j, A[i][j]);
      free_i_mat(A, n);
      break;
    }
    case 8: {
      op("connected");
      bool conn = true;
      for (int j = 0; j < n; j++) conn &= d[0][j] >= 0;
      CHECK((IsGraphConnected(w.net) != 0) == conn, "components", "connected: %d, should be %d", IsGraphConnected(w.net), conn);
      break;
    }
    case 9: case 10: {  // clustering
      op("clustering");
      double sum = 0, tri = 0, trip = 0;
      int cnt = 0;
      std::vector<double> c(n, -1);
      for (int i = 0; i < n; i++) {
        double t = 0, kk = w.m.a[i].size();
        for (auto &x : w.m.a[i]) for (auto &y : w.m.a[i]) if (x.first != y.first) t += w.m.has(x.first, y.first);
        tri += t;
        if (kk > 1) { c[i] = t / kk / (kk - 1); sum += c[i]; cnt++; trip += kk * (kk - 1); }
      }
      int i = (int)choose(n);
      double o = OneNodeClusteringCoefficient(v[i], w.net);
      CHECK(near(o, c[i]), "clustering", "clustering of node %d is %g, should be %g", i, o, c[i]);
      if (cnt) {
        double a = ClusteringCoefficient(w.net), b = ClusteringCoefficient2(w.net);
        CHECK(near(a, sum / cnt), "clustering", "average clustering %g, should be %g", a, sum / cnt);
        CHECK(near(b, tri / trip), "clustering", "fraction of closed triplets %g, should be %g", b, tri / trip);
        if (tri > 0) probe("triangles");
      }
      break;
    }
    case 11: {  // squares
      op("square clustering");
      double sum = 0;
      int cnt = 0;
      std::vector<double> c(n, 0);
      bool all = false;  // a node linked to every other node, alone
      for (int i = 0; i < n; i++) {
        int k1 = 0, k2 = 0;
        double q = 0;
        for (int j = 0; j < n; j++) {
          if (d[i][j] == 1) k1++;
          if (d[i][j] != 2) continue;
          k2++;
          int p = 0;
          for (int x = 0; x < n; x++) p += d[i][x] == 1 && w.m.has(x, j);
          q += (double)p * (p - 1);
        }
        if (!k1) c[i] = -1;
        else if (!k2) c[i] = -3;
        else if (k1 == 1) c[i] = -2;
        else { c[i] = q / k2 / k1 / (k1 - 1); sum += c[i]; cnt++; }
      }
      (void)all;
      int i = (int)choose(n);
      double o = OneNodeSquareClustering(v[i], w.net);
      CHECK(near(o, c[i]), "clustering", "square clustering of node %d is %g, should be %g", i, o, c[i]);
      hush();
      double a = SquareClustering(w.net);
      done();
      CHECK(so.empty() && se.empty(), "clustering", "square clustering writes '%.40s' to the standard output", (so + se).c_str());
      if (cnt) { CHECK(near(a, sum / cnt), "clustering", "square clustering %g, should be %g", a, sum / cnt); probe("squares"); }
      break;
    }
    case 12: case 13: {  // betweenness of the links
      op("link betweenness");
      auto s = paths(w.m, d);
      std::map<std::pair<int, int>, double> frac, even;
      for (int o = 0; o < n; o++) {
        std::vector<int> ord;
        for (int i = 0; i < n; i++) if (d[o][i] > 0) ord.push_back(i);
        std::sort(ord.begin(), ord.end(), [&](int a, int b) { return d[o][a] > d[o][b]; });
        std::vector<double> lf(n, 1), le(n, 1);
        for (int x : ord) {
          int np = 0;
          for (int u = 0; u < n; u++) np += d[o][u] == d[o][x] - 1 && w.m.has(u, x);
          for (int u = 0; u < n; u++) if (d[o][u] == d[o][x] - 1 && w.m.has(u, x)) {
            double f = lf[x] * s[o][u] / s[o][x], e = le[x] / np;
            auto key = std::minmax(u, x);
            frac[key] += f; even[key] += e;
            lf[u] += f; le[u] += e;
          }
        }
      }
      int n1 = -1, n2 = -1;
      bool big = choose(2);
      if (big) CalculateBiggestLinkBetweenness(w.net, &n1, &n2);
      else CalculateLinkBetweenness(w.net);
      bool okF = true, okE = true;
      double mx = 0, mine = -1;
      std::string bad;
      for (int i = 0; i < n; i++) for (node_lis *q = v[i]->neig->next; q; q = q->next) {
        auto key = std::minmax(i, q->ref->num);
        bool f = near(q->btw, frac[key]), e = near(q->btw, even[key]);
        if (!f && !e && bad.empty()) { char t[120]; snprintf(t, sizeof t, "%d-%d has %.9g, should be %.9g", i, q->ref->num, q->btw, frac[key]); bad = t; }
        okF &= f; okE &= e;
        mx = std::max(mx, q->btw);
        if (i == n1 && q->ref->num == n2) mine = q->btw;
      }
      // ties between shortest paths may be shared among the paths, or evenly among the last steps
      CHECK(okF || okE, "betweenness", "link betweenness: %s", bad.empty() ? "shared inconsistently" : bad.c_str());
      if (big && w.m.links()) CHECK(near(mine, mx), "betweenness", "link %d-%d is reported with the largest betweenness (%g), it is %g", n1, n2, mine, mx);
      if (w.m.links()) probe("link-betweenness");
      break;
    }
    case 14: {  // degree correlations
      op("degree correlations");
      double jk = 0, j = 0, j2 = 0, M = w.m.links();
      for (int i = 0; i < n; i++) for (auto &x : w.m.a[i]) { double a = w.m.a[i].size(), b = w.m.a[x.first].size(); jk += a * b; j += (a + b) / 2; j2 += (a * a + b * b) / 2; }
      if (M > 0 && j2 / M - j / M * j / M > 1e-9) {
        double r = (jk / M - j / M * j / M) / (j2 / M - j / M * j / M), g = Assortativity(w.net);
        CHECK(std::fabs(r - g) < 1e-7, "correlations", "assortativity %g, should be %g", g, r);
        probe("assortativity");
      }
      int i = (int)choose(n);
      if (!w.m.a[i].empty()) {
        double s = 0;
        for (auto &x : w.m.a[i]) s += w.m.a[x.first].size();
        double g = CalculateKnn(v[i]);
        CHECK(near(g, s / w.m.a[i].size()), "correlations", "average degree of the neighbours of node %d is %g, should be %g", i, g, s / w.m.a[i].size());
      }
      break;
    }
    case 15: {  // overlaps of two nodes
      int i = (int)choose(n), j = (int)choose(n);
      if (i == j) break;
      op("overlaps %d %d", i, j);
      int com = 0, ki = w.m.a[i].size(), kj = w.m.a[j].size(), lk = w.m.has(i, j);
      for (auto &x : w.m.a[i]) com += w.m.has(j, x.first);
      CHECK(CommonNeighbors(v[i], v[j]) == com, "overlaps", "nodes %d and %d have %d common neighbours, should be %d", i, j, CommonNeighbors(v[i], v[j]), com);
      int uni = ki + kj - 2 * lk - com;
      double jac = com ? (double)com / uni : 0, g = JaccardIndex(v[i], v[j]);
      CHECK(near(g, jac), "overlaps", "Jaccard index of %d and %d is %g, should be %g", i, j, g, jac);
      if (std::min(ki, kj) > 0) {
        double t = (double)(com + lk) / std::min(ki, kj), q = TopologicalOverlap(v[i], v[j]);
        CHECK(near(q, t), "overlaps", "topological overlap of %d and %d is %g, should be %g", i, j, q, t);
      }
      if (com) probe("common-neighbours");
      break;
    }
    default: {  // Laplacian
      op("laplacian");
      int **L = LaplacianMat(w.net);
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int x = i == j ? (int)w.m.a[i].size() : -(int)w.m.has(i, j); CHECK(L[i][j] == x, "matrices", "Laplacian element %d,%d is %d, should be %d", i, j, L[i][j], x); }
      free_i_mat(L, n);
      std::vector<double> ev = laplacianEigen(w.m);
      gsl_vector *sp = LaplacianSpectrum(w.net);
      for (int i = 0; i < n; i++) CHECK(std::fabs(gsl_vector_get(sp, i) - ev[i]) < 1e-8 * (1 + ev.back()), "matrices", "eigenvalue %d is %.9g, should be %.9g", i, gsl_vector_get(sp, i), ev[i]);
      gsl_vector_free(sp);
      auto c = undirComp(w.m);
      if (n > 1 && *std::max_element(c.begin(), c.end()) == 0) {
        double g = Synchronizability(w.net), x = ev.back() / ev[1];
        CHECK(std::fabs(g - x) < 1e-6 * x, "matrices", "synchronizability %g, should be %g", g, x);
        probe("synchronizability");
      }
    }
  }
  CHECK(heapLiveBlocks() == live[0], "leak", "%lld blocks left by a measure", (long long)(heapLiveBlocks() - live[0]));
}
}  // namespace
SCENARIO(P30, measures, 5) {
  heapRandom();
  World w;
  w.net = CreateHeaderGraph();
  w.sym = choose(3) != 2;
  int maxN = choose(12) == 11 ? genSize(12, 30, 90) : w.sym ? 9 : 7, steps = range(2, 24);
  for (int n0 = range(1, maxN - 1), i = 0; i < n0; i++) {
    std::string l = store::newLabel(w.m, "n");
    CreateNodeGraph(w.net, const_cast<char *>(l.c_str()));
    w.m.add(l);
  }
  int dens = range(0, 4);
  auto link = [&](int i, int j, double x) {
    auto v = store::nodes(w.net);
    AddAdjacency(v[i], v[j], 0, 0, x, 0);
    w.m.a[i].insert({j, x});
    if (w.sym) { AddAdjacency(v[j], v[i], 0, 0, x, 0); w.m.a[j].insert({i, x}); }
  };
  for (int i = 0; i < w.m.n(); i++) for (int j = 0; j < w.m.n(); j++) if (i != j && !w.m.has(i, j) && (int)choose(w.sym ? 8 : 12) < dens) link(i, j, choose(2) ? 1 : weightChoice());
  op("%s network %s", w.sym ? "undirected" : "directed", store::show(w.m).c_str());
  for (int s = 0; s < steps; s++) {
    int n = w.m.n(), k = (int)choose(8);
    auto v = store::nodes(w.net);
    if (k == 5) {
      int i = (int)choose(n), j = (int)choose(n);
      if (i == j || w.m.has(i, j)) continue;
      op("link %d-%d", i, j);
      link(i, j, weightChoice());
    } else if (k == 6) {
      std::vector<std::pair<int, int>> c;
      for (int i = 0; i < n; i++) for (auto &x : w.m.a[i]) c.push_back({i, x.first});
      if (c.empty()) continue;
      auto e = c[choose(c.size())];
      op("remove link %d-%d", e.first, e.second);
      RemoveLink(v[e.first], v[e.second], w.sym);
      w.m.a[e.first].erase(e.second);
      if (w.sym) w.m.a[e.second].erase(e.first);
    } else if (k == 7) {
      if (n >= maxN) continue;
      std::string l = store::newLabel(w.m, "n");
      op("add node %.30s", l.c_str());
      CreateNodeGraph(w.net, const_cast<char *>(l.c_str()));
      w.m.add(l);
    } else {
      for (auto p : v) p->state = choose(3) == 2;  // whatever a previous traversal left
      measure(w);
      store::check(w.net, w.m, "untouched", "after a measure");
      if (w.m.links()) nontrivial();
    }
    uint64_t h = w.m.n();
    for (int i = 0; i < w.m.n(); i++) for (auto &x : w.m.a[i]) h = mix(h, i * 100 + x.first);
    state(h);
  }
  RemoveGraph(w.net);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
}
