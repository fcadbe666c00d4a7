// P18: the network store (plain and bipartite) over histories of changes.
#include "store.h"
using namespace sim;
using namespace model;
namespace store {
void Net::erase(int v) {
  lab.erase(lab.begin() + v);
  a.erase(a.begin() + v);
  for (auto &m : a) {
    std::map<int, double> r;
    for (auto &x : m) if (x.first != v) r[x.first - (x.first > v)] = x.second;
    m = r;
  }
}
Net fromGraph(const Graph &g) {
  Net m;
  for (int i = 0; i < g.n; i++) m.add((int)g.label.size() > i ? g.label[i] : "n" + std::to_string(i));
  for (auto &e : g.e) m.a[e.a][e.b] = m.a[e.b][e.a] = e.w;
  return m;
}
std::vector<node_gra *> nodes(node_gra *net) {
  std::vector<node_gra *> v;
  for (node_gra *p = net->next; p; p = p->next) { if (v.size() > 5000) fail("store", "the list of nodes does not end"); v.push_back(p); }
  return v;
}
bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max({1.0, std::fabs(a), std::fabs(b)}); }
void check(node_gra *net, const Net &m, const char *cls, const char *when) {
  auto v = nodes(net);
  CHECK((int)v.size() == m.n(), cls, "%s: %zu nodes, should be %d", when, v.size(), m.n());
  CHECK(CountNodes(net) == m.n(), cls, "%s: %d nodes counted, there are %d", when, CountNodes(net), m.n());
  for (int i = 0; i < m.n(); i++) {
    CHECK(m.lab[i] == v[i]->label, cls, "%s: node %d is called %s, should be %s", when, i, v[i]->label, m.lab[i].c_str());
    CHECK(v[i]->num == i, cls, "%s: node %d (%s) carries number %d", when, i, v[i]->label, v[i]->num);
    std::map<int, double> got;
    double st = 0;
    for (node_lis *q = v[i]->neig->next; q; q = q->next) {
      CHECK(q->ref && q->ref->num >= 0 && q->ref->num < m.n() && v[q->ref->num] == q->ref, cls, "%s: a link of node %s leads out of the network", when, m.lab[i].c_str());
      CHECK(got.insert({q->ref->num, q->weight}).second, cls, "%s: link %d-%d is stored twice", when, i, q->ref->num);
      CHECK(q->node == q->ref->num && !strcmp(q->nodeLabel, q->ref->label), cls, "%s: link %d-%d carries number %d and label %s", when, i, q->ref->num, q->node, q->nodeLabel);
      st += q->weight;
    }
    for (auto &x : m.a[i]) CHECK(got.count(x.first), cls, "%s: link %d-%d is missing", when, i, x.first);
    for (auto &x : got) CHECK(m.has(i, x.first), cls, "%s: link %d-%d should not exist", when, i, x.first);
    for (auto &x : m.a[i]) CHECK(close(got[x.first], x.second), cls, "%s: link %d-%d weighs %g, should be %g", when, i, x.first, got[x.first], x.second);
    CHECK(NodeDegree(v[i]) == m.a[i].size(), cls, "%s: node %d has degree %u, has %zu links", when, i, NodeDegree(v[i]), m.a[i].size());
    CHECK(close(NodeStrength(v[i]), st), cls, "%s: node %d has strength %g, its links weigh %g", when, i, NodeStrength(v[i]), st);
  }
}
std::string show(const Net &m) {
  std::string s;
  for (int i = 0; i < m.n(); i++) for (auto &x : m.a[i]) if (!m.has(x.first, i) || i <= x.first) {
    char b[60];
    snprintf(b, sizeof b, " %d%s%d", i, m.has(x.first, i) ? "-" : ">", x.first);
    s += b;
    if (x.second != 1) { snprintf(b, sizeof b, "(%g)", x.second); s += b; }
  }
  return s;
}
std::string newLabel(const Net &m, const char *prefix) {
  for (int k = m.n();; k++) {
    std::string s = choose(4) == 3 ? std::string(prefix) + std::string(1 + choose(90), 'x') + std::to_string(k) : prefix + std::to_string(k);
    if (s.size() < 100 && m.find(s) < 0) return s;
  }
}
Two fromBip(const Bip &b) {
  Two m;
  for (int i = 0; i < b.n1; i++) m.l1.push_back((int)b.l1.size() > i ? b.l1[i] : "a" + std::to_string(i));
  for (int i = 0; i < b.n2; i++) m.l2.push_back((int)b.l2.size() > i ? b.l2[i] : "b" + std::to_string(i));
  m.a.resize(b.n1);
  for (auto &e : b.e) m.a[e.a][e.b] = e.w;
  return m;
}
binet *buildTwo(const Two &m) {
  binet *b = CreateBipart();
  b->net1 = CreateHeaderGraph();
  b->net2 = CreateHeaderGraph();
  std::vector<node_gra *> x, y;
  for (auto &s : m.l1) x.push_back(CreateNodeGraph(b->net1, const_cast<char *>(s.c_str())));
  for (auto &s : m.l2) y.push_back(CreateNodeGraph(b->net2, const_cast<char *>(s.c_str())));
  for (size_t i = 0; i < x.size(); i++) for (auto &l : m.a[i]) {
    AddAdjacency(x[i], y[l.first], 0, 0, l.second, 0);
    AddAdjacency(y[l.first], x[i], 0, 0, l.second, 0);
  }
  return b;
}
void checkTwo(binet *b, const Two &m, const char *cls, const char *when) {
  auto x = nodes(b->net1), y = nodes(b->net2);
  CHECK(x.size() == m.l1.size() && y.size() == m.l2.size(), cls, "%s: %zu+%zu nodes, should be %zu+%zu", when, x.size(), y.size(), m.l1.size(), m.l2.size());
  int tot = 0;
  for (int side = 0; side < 2; side++) {
    auto &p = side ? y : x, &o = side ? x : y;
    auto &l = side ? m.l2 : m.l1;
    for (int i = 0; i < (int)p.size(); i++) {
      CHECK(l[i] == p[i]->label && p[i]->num == i, cls, "%s: node %d of side %d is called %s and carries number %d", when, i, side + 1, p[i]->label, p[i]->num);
      std::map<int, double> want, got;
      if (side) { for (int j = 0; j < (int)x.size(); j++) if (m.a[j].count(i)) want[j] = m.a[j].at(i); }
      else want = m.a[i];
      double st = 0;
      for (node_lis *q = p[i]->neig->next; q; q = q->next) {
        CHECK(q->ref && q->ref->num >= 0 && q->ref->num < (int)o.size() && o[q->ref->num] == q->ref, cls, "%s: a link of node %s does not lead to the other side", when, l[i].c_str());
        CHECK(q->node == q->ref->num && !strcmp(q->nodeLabel, q->ref->label), cls, "%s: link %d-%d of side %d carries number %d and label %s", when, i, q->ref->num, side + 1, q->node, q->nodeLabel);
        CHECK(got.insert({q->ref->num, q->weight}).second, cls, "%s: link %d-%d is stored twice", when, i, q->ref->num);
        st += q->weight;
      }
      tot += want.size();
      CHECK(got.size() == want.size(), cls, "%s: node %d of side %d has %zu links, should have %zu", when, i, side + 1, got.size(), want.size());
      for (auto &w : want) CHECK(got.count(w.first) && close(got[w.first], w.second), cls, "%s: link %d-%d of side %d is missing or weighs %g instead of %g", when, i, w.first, side + 1, got.count(w.first) ? got[w.first] : 0, w.second);
      CHECK(NodeDegree(p[i]) == want.size(), cls, "%s: node %d of side %d has degree %u, has %zu links", when, i, side + 1, NodeDegree(p[i]), want.size());
      CHECK(close(NodeStrength(p[i]), st), cls, "%s: node %d of side %d has strength %g, its links weigh %g", when, i, side + 1, NodeStrength(p[i]), st);
    }
  }
  CHECK(NLinksBipart(b) == tot / 2, cls, "%s: %d links counted, there are %d", when, NLinksBipart(b), tot / 2);
}
}  // namespace store
namespace {
using store::Net;
int roleOf(double P, double z) { return z < 2.5 ? (P < .05 ? 0 : P < .62 ? 1 : P < .8 ? 2 : 3) : (P < .3 ? 4 : P < .75 ? 5 : 6); }
struct World { node_gra *net; Net m; };
std::vector<node_gra *> V(World &w) { return store::nodes(w.net); }
char *cs(const std::string &s) { return const_cast<char *>(s.c_str()); }
void attrs(node_gra *p) {
  p->coorX = range(-3, 3); p->coorY = range(-3, 3); p->coorZ = range(-3, 3);
  p->ivar1 = range(0, 5); p->dvar1 = range(0, 9) / 2.; p->inGroup = range(-1, 4); p->state = range(0, 1);
}
bool sameAttrs(node_gra *a, node_gra *b) {
  return a->coorX == b->coorX && a->coorY == b->coorY && a->coorZ == b->coorZ && a->ivar1 == b->ivar1 && a->dvar1 == b->dvar1 && a->inGroup == b->inGroup && a->state == b->state;
}
void queries(World &w) {
  auto v = V(w);
  int n = w.m.n();
  bool sym = w.m.symmetric();
  CHECK(TotalNLinks(w.net, 0) == w.m.links(), "queries", "%d links counted, there are %d", TotalNLinks(w.net, 0), w.m.links());
  if (n) {
    CHECK(store::close(AverageDegree(w.net, 0), (double)w.m.links() / n), "queries", "average degree %g, should be %g", AverageDegree(w.net, 0), (double)w.m.links() / n);
    double k2 = 0;
    for (auto &a : w.m.a) k2 += (double)a.size() * a.size();
    CHECK(store::close(AverageSquaredDegree(w.net), k2 / n), "queries", "average squared degree %g, should be %g", AverageSquaredDegree(w.net), k2 / n);
  }
  bool loops = false;
  for (int i = 0; i < n; i++) loops |= w.m.has(i, i);
  if (sym && !loops) {
    CHECK(TotalNLinks(w.net, 1) == w.m.links() / 2, "queries", "%d undirected links counted, there are %d", TotalNLinks(w.net, 1), w.m.links() / 2);
    if (n) CHECK(store::close(AverageDegree(w.net, 1), (double)w.m.links() / n), "queries", "average degree %g, should be %g", AverageDegree(w.net, 1), (double)w.m.links() / n);
  }
  void *dict = MakeLabelDict(w.net);
  for (int i = 0; i < n; i++) {
    CHECK(GetNode(i, w.net) == v[i], "queries", "node %d is not found by number", i);
    CHECK(GetNodeDict(cs(w.m.lab[i]), dict) == v[i], "queries", "node %s is not found in the dictionary", w.m.lab[i].c_str());
    CHECK(IsThereNode(cs(w.m.lab[i]), w.net) == 1, "queries", "node %s is not found", w.m.lab[i].c_str());
    for (int j = 0; j < n; j++) {
      CHECK(IsThereLink(v[i], v[j]) == (int)w.m.has(i, j), "queries", "link %d-%d: %d", i, j, IsThereLink(v[i], v[j]));
      CHECK(IsThereLinkSoft(v[i], j) == (int)w.m.has(i, j), "queries", "link %d-%d by number: %d", i, j, IsThereLinkSoft(v[i], j));
      if (w.m.has(i, j)) CHECK(GetLink(v[i], j)->ref == v[j], "queries", "link %d-%d is not found", i, j);
    }
  }
  CHECK(GetNodeDict(cs("no such node"), dict) == nullptr && IsThereNode(cs("no such node"), w.net) == 0, "queries", "a node that does not exist is found");
  FreeLabelDict(dict);
}
void put(World &w, int i, int j, double wt, bool aw, bool loop, bool sym) {
  auto v = V(w);
  for (int k = 0; k < (sym && i != j ? 2 : 1); k++) {
    int a = k ? j : i, b = k ? i : j;
    bool had = w.m.has(a, b);
    int r = AddAdjacency(v[a], v[b], loop, aw, wt, 0);
    bool refused = (a == b && !loop) || (had && !aw);
    CHECK(r == !refused, "store", "adding link %d-%d returned %d", a, b, r);
    if (refused) continue;
    if (had) w.m.a[a][b] += wt; else w.m.a[a][b] = wt;
  }
}
}  // namespace
SCENARIO(P18, history, 6) {
  heapRandom();
  World w;
  w.net = CreateHeaderGraph();
  bool directed = choose(3) == 2, weighted = choose(3) != 1;
  int steps = range(1, 25);
  std::string so, se;
  if (choose(40) == 39) {  // a larger network to begin with
    probe("large");
    int n0 = range(15, 120);
    Prng r(seed64());
    node_gra *p = w.net;
    for (int i = 0; i < n0; i++) {
      std::string l = store::newLabel(w.m, "n");
      p = CreateNodeGraph(p, cs(l));
      w.m.add(l);
      attrs(p);
    }
    int L = range(0, 3 * n0);
    op("start with %d nodes and up to %d links", n0, L);
    for (int k = 0; k < L; k++) { int i = (int)r.below(n0), j = (int)r.below(n0); if (i != j) put(w, i, j, weighted ? .5 * (1 + r.below(8)) : 1, false, false, !directed || r.below(2)); }
  }
  for (int s = 0; s < steps; s++) {
    auto v = V(w);
    int n = w.m.n(), k = n < 2 ? 0 : (int)choose(14);
    auto wt = [&] { return weighted ? weightChoice() : 1.0; };
    if (k == 0) {
      int c = n < 2 ? 2 : 1;
      for (int q = 0; q < c && n + q < 14; q++) {
        std::string l = store::newLabel(w.m, "n");
        op("add node %.30s", l.c_str());
        node_gra *p = CreateNodeGraph(choose(2) || !n ? w.net : v[choose(n)], cs(l));
        w.m.add(l);
        attrs(p);
      }
    } else if (k <= 4) {
      int i = (int)choose(n), j = (int)choose(n);
      bool aw = choose(3) == 2, loop = directed && choose(5) == 4, sym = !directed || choose(2);
      double x = wt();
      op("link %d-%d weight %g add=%d loops=%d both=%d", i, j, x, aw, loop, sym);
      put(w, i, j, x, aw, loop, sym);
    } else if (k == 5) {
      // several links at once, by name
      int c = range(1, 4);
      for (int q = 0; q < c; q++) {
        int i = (int)choose(n), j = (int)choose(n);
        if (i == j) continue;
        bool aw = choose(3) == 2;
        double x = wt();
        op("soft link %d-%d weight %g add=%d", i, j, x, aw);
        for (int z = 0; z < (directed ? 1 : 2); z++) {
          int a = z ? j : i, b = z ? i : j;
          bool had = w.m.has(a, b);
          int r = AddAdjacencySoft(v[a], cs(w.m.lab[b]), 0, aw, x, 0);
          CHECK(r == !(had && !aw), "store", "adding link %d-%d by name returned %d", a, b, r);
          if (!had) w.m.a[a][b] = x; else if (aw) w.m.a[a][b] += x;
        }
      }
      int i = (int)choose(n);
      CHECK(AddAdjacencySoft(v[i], cs(w.m.lab[i]), 0, 1, 1, 0) == 0, "store", "a self link was added although they are not allowed");
      if (choose(3) == 2) {
        op("and links to unknown nodes");
        for (int q = range(1, 2); q > 0; q--) AddAdjacencySoft(v[choose(n)], cs("unknown" + std::to_string(choose(2))), 0, 0, 2, 0);
        CleanAdjacencies(w.net);
        probe("clean");
      }
      RewireAdjacencyByLabel(w.net);
    } else if (k <= 7) {
      std::vector<std::pair<int, int>> c;
      for (int i = 0; i < n; i++) for (auto &x : w.m.a[i]) c.push_back({i, x.first});
      if (c.empty()) continue;
      auto e = c[choose(c.size())];
      bool sym = w.m.has(e.second, e.first) && (!directed || choose(2));
      op("remove link %d-%d both=%d", e.first, e.second, sym);
      RemoveLink(v[e.first], v[e.second], sym);
      w.m.a[e.first].erase(e.second);
      if (sym) w.m.a[e.second].erase(e.first);
    } else if (k == 8) {
      bool keep = choose(2);
      op("copy, go on with the %s", keep ? "original" : "copy");
      node_gra *c = CopyNetwork(w.net);
      store::check(c, w.m, "copy", "copy");
      auto x = store::nodes(c);
      for (int i = 0; i < n; i++) { CHECK(x[i] != v[i], "copy", "the copy shares node %d", i); CHECK(sameAttrs(x[i], v[i]), "copy", "attributes of node %d are not copied", i); }
      if (keep) RemoveGraph(c);
      else { RemoveGraph(w.net); w.net = c; }
      probe("copy");
    } else if (k == 9) {
      std::vector<int> iso;
      bool dangling = false;
      for (int i = n - 1; i >= 0; i--) if (w.m.a[i].empty()) { iso.push_back(i); for (auto &a : w.m.a) dangling |= a.count(i); }
      if (dangling) continue;
      op("remove isolated nodes (%zu)", iso.size());
      int r = RemoveIsolatedNodes(w.net);
      CHECK(r == (int)iso.size(), "store", "%d isolated nodes were removed, there were %zu", r, iso.size());
      for (int i : iso) w.m.erase(i);
      if (!iso.empty()) probe("isolated-removed");
    } else if (k == 10) {
      // the sum of two networks
      World o{CreateHeaderGraph(), {}};
      int c = range(1, 4);
      for (int q = 0; q < c; q++) {
        std::string l = choose(2) ? w.m.lab[choose(n)] : store::newLabel(w.m, "o");
        if (o.m.find(l) >= 0) continue;
        CreateNodeGraph(o.net, cs(l));
        o.m.add(l);
      }
      c = range(0, 5);
      for (int q = 0; q < c; q++) put(o, (int)choose(o.m.n()), (int)choose(o.m.n()), wt(), 0, 0, !directed);
      op("sum with%s", store::show(o.m).c_str());
      node_gra *sum = AddTwoNetworks(w.net, o.net);
      store::check(w.net, w.m, "sum", "first network after adding");
      store::check(o.net, o.m, "sum", "second network after adding");
      Net r = w.m;
      for (auto &l : o.m.lab) if (r.find(l) < 0) r.add(l);
      auto x = store::nodes(sum);
      for (int i = 0; i < o.m.n(); i++) for (auto &e : o.m.a[i]) {
        int a = r.find(o.m.lab[i]), b = r.find(o.m.lab[e.first]);
        if (r.has(a, b)) continue;
        CHECK(a < (int)x.size() && b < (int)x.size() && IsThereLink(x[a], x[b]), "sum", "the sum lacks link %s-%s", r.lab[a].c_str(), r.lab[b].c_str());
        double got = GetLink(x[a], b)->weight;
        CHECK(got == 1 || got == e.second, "sum", "weight %g of a link that weighs %g in the second network", got, e.second);
        r.a[a][b] = got;
      }
      store::check(sum, r, "sum", "sum");
      if (r.n() < 16 && choose(2)) { RemoveGraph(w.net); w.net = sum; w.m = r; for (auto p : V(w)) attrs(p); }
      else RemoveGraph(sum);
      RemoveGraph(o.net);
      probe("sum");
    } else if (k == 11) {
      if (!w.m.symmetric()) continue;
      // comparison with a changed copy
      World o{CopyNetwork(w.net), w.m};
      int c = range(0, 4);
      for (int q = 0; q < c; q++) {
        int t = (int)choose(3), i = (int)choose(o.m.n()), j = (int)choose(o.m.n());
        if (t == 0) { std::string l = store::newLabel(o.m, "z"); CreateNodeGraph(o.net, cs(l)); o.m.add(l); }
        else if (t == 1 || !o.m.has(i, j)) { if (i != j) put(o, i, j, 1, 0, 0, true); }
        else { auto x = V(o); RemoveLink(x[i], x[j], 1); o.m.a[i].erase(j); o.m.a[j].erase(i); }
      }
      bool loops = false;
      for (int i = 0; i < n; i++) loops |= w.m.has(i, i);
      if (choose(2)) std::swap(w, o);
      op("compare with%s", store::show(o.m).c_str());
      int na, nb, nc, la, lb, lc, ca = 0, cb = 0, cc = 0, ncom = 0;
      double pab, pba, qab, qba;
      captureBegin();
      CompareTwoNetworks(w.net, o.net, &na, &nb, &nc, &pab, &pba, &la, &lb, &lc, &qab, &qba);
      captureEnd(&so, &se);
      for (auto &l : w.m.lab) ncom += o.m.find(l) >= 0;
      for (int i = 0; i < w.m.n(); i++) for (auto &e : w.m.a[i]) { int a = o.m.find(w.m.lab[i]), b = o.m.find(w.m.lab[e.first]); if (a >= 0 && b >= 0) { ca++; cc += o.m.has(a, b); } }
      for (int i = 0; i < o.m.n(); i++) for (auto &e : o.m.a[i]) { int a = w.m.find(o.m.lab[i]), b = w.m.find(o.m.lab[e.first]); if (a >= 0 && b >= 0) cb++; }
      CHECK(na == w.m.n() && nb == o.m.n() && nc == ncom, "comparison", "nodes %d %d common %d, should be %d %d common %d", na, nb, nc, w.m.n(), o.m.n(), ncom);
      CHECK(store::close(pab, (double)ncom / nb) && store::close(pba, (double)ncom / na), "comparison", "node overlaps %g %g", pab, pba);
      if (!loops) {
        CHECK(la == ca / 2 && lb == cb / 2 && lc == cc / 2, "comparison", "links %d %d common %d, should be %d %d common %d", la, lb, lc, ca / 2, cb / 2, cc / 2);
        if (lb) CHECK(store::close(qab, (double)cc / cb), "comparison", "link overlap %g, should be %g", qab, (double)cc / cb);
        if (la) CHECK(store::close(qba, (double)cc / ca), "comparison", "link overlap %g, should be %g", qba, (double)cc / ca);
      }
      store::check(o.net, o.m, "store", "other network after the comparison");
      RemoveGraph(o.net);
      probe("comparison");
    } else if (k == 12) {
      op("renumber");
      RenumberNodes(w.net);
      if (choose(2)) RewireAdjacencyByNum(w.net);
    } else {
      queries(w);
      continue;
    }
    store::check(w.net, w.m, "store", "after the operation");
    if (w.m.links()) nontrivial();
    uint64_t h = w.m.n();
    for (int i = 0; i < w.m.n(); i++) for (auto &x : w.m.a[i]) h = mix(h, i * 100 + x.first);
    state(h);
  }
  queries(w);
  RemoveGraph(w.net);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
}
SCENARIO(P18, bipartite, 3) {
  heapRandom();
  bool weighted = choose(3) != 1;
  Bip bp = genBip(1, 6, 1, 6, weighted, true);
  store::Two m = store::fromBip(bp);
  if (choose(4) == 3) for (size_t i = 0; i < m.l2.size() && i < m.l1.size(); i++) m.l2[i] = m.l1[i];  // names may repeat across sides
  { std::set<std::string> a(m.l1.begin(), m.l1.end()), b(m.l2.begin(), m.l2.end()); if (a.size() < m.l1.size() || b.size() < m.l2.size()) skip("names"); }
  binet *b = store::buildTwo(m);
  store::checkTwo(b, m, "bipartite", "after building");
  int steps = range(1, 12);
  std::string so, se;
  for (int s = 0; s < steps; s++) {
    auto x = store::nodes(b->net1), y = store::nodes(b->net2);
    int n1 = x.size(), n2 = y.size(), k = (int)choose(9);
    if (k == 0) {
      bool keep = choose(2);
      op("copy, go on with the %s", keep ? "original" : "copy");
      for (auto p : x) attrs(p);
      for (auto p : y) attrs(p);
      binet *c = CopyBipart(b);
      store::checkTwo(c, m, "copy", "copy");
      auto cx = store::nodes(c->net1), cy = store::nodes(c->net2);
      for (int i = 0; i < n1; i++) CHECK(cx[i] != x[i] && sameAttrs(cx[i], x[i]), "copy", "attributes of node %d of side 1 are not copied", i);
      for (int i = 0; i < n2; i++) CHECK(cy[i] != y[i] && sameAttrs(cy[i], y[i]), "copy", "attributes of node %d of side 2 are not copied", i);
      if (keep) RemoveBipart(c);
      else { RemoveBipart(b); b = c; }
    } else if (k == 1) {
      op("invert");
      CHECK(InvertBipart(b) == b, "bipartite", "another network is returned");
      store::Two t;
      t.l1 = m.l2; t.l2 = m.l1; t.a.resize(n2);
      for (int i = 0; i < n1; i++) for (auto &e : m.a[i]) t.a[e.first][i] = e.second;
      m = t;
    } else if (k == 2) {
      int set = 1 + choose(2), c = set == 1 ? n1 : n2;
      if (c < 2) continue;
      int i = (int)choose(c);
      op("remove node %d of side %d", i, set);
      captureBegin();
      RemoveNodeBipart(b, cs(set == 1 ? m.l1[i] : m.l2[i]), set);
      captureEnd(&so, &se);
      if (set == 1) { m.l1.erase(m.l1.begin() + i); m.a.erase(m.a.begin() + i); }
      else {
        m.l2.erase(m.l2.begin() + i);
        for (auto &a : m.a) { std::map<int, double> r; for (auto &e : a) if (e.first != i) r[e.first - (e.first > i)] = e.second; a = r; }
      }
      probe("node-removed");
    } else if (k == 3) {
      int i = (int)choose(n1), j = (int)choose(n2);
      double wt = weighted ? weightChoice() : 1;
      op("link %d-%d weight %g", i, j, wt);
      AddAdjacency(x[i], y[j], 0, 0, wt, 0);
      AddAdjacency(y[j], x[i], 0, 0, wt, 0);
      m.a[i].insert({j, wt});
    } else if (k == 4) {
      std::vector<std::pair<int, int>> c;
      for (int i = 0; i < n1; i++) for (auto &e : m.a[i]) c.push_back({i, e.first});
      if (c.empty()) continue;
      auto e = c[choose(c.size())];
      op("remove link %d-%d", e.first, e.second);
      if (choose(2)) RemoveLink(x[e.first], y[e.second], 1);
      else RemoveLink(y[e.second], x[e.first], 1);
      m.a[e.first].erase(e.second);
    } else if (k == 5 || k == 6) {
      bool byWeight = k == 6;
      op("project %s", byWeight ? "with weights" : "");
      node_gra *p = byWeight ? ProjectBipartWeighted(b) : ProjectBipart(b);
      Net r;
      for (auto &l : m.l1) r.add(l);
      for (int i = 0; i < n1; i++) for (int j = i + 1; j < n1; j++) {
        int c = 0;
        double sw = 0;
        for (auto &e : m.a[i]) if (m.a[j].count(e.first)) { c++; sw += e.second * m.a[j][e.first]; }
        if (c) r.a[i][j] = r.a[j][i] = byWeight ? sw : c;
        CHECK(NCommonLinksBipart(x[i], x[j]) == c, "projection", "nodes %d and %d have %d common links, should be %d", i, j, NCommonLinksBipart(x[i], x[j]), c);
        CHECK(store::close(SumProductsOfCommonWeightsBipart(x[i], x[j]), sw), "projection", "nodes %d and %d: sum of products %g, should be %g", i, j, SumProductsOfCommonWeightsBipart(x[i], x[j]), sw);
      }
      store::check(p, r, "projection", byWeight ? "weighted projection" : "projection");
      RemoveGraph(p);
      probe("projection");
    } else if (k == 7) {
      // modularity and participation of a grouping of the first side
      std::vector<int> lab(n1);
      int ng = range(1, n1);
      group *part = CreateHeaderGroup();
      std::vector<group *> gs;
      for (int i = 0; i < ng; i++) gs.push_back(CreateGroup(gs.empty() ? part : gs.back(), i));
      for (int i = 0; i < n1; i++) { lab[i] = (int)choose(ng); AddNodeToGroup(gs[lab[i]], x[i]); }
      op("grouping %s", model::show(lab).c_str());
      double sms = 0, sms2 = 0, sW = 0, sW2 = 0, q = 0, qw = 0;
      for (int j = 0; j < n2; j++) { double d = 0, st = 0; for (auto &a : m.a) if (a.count(j)) d++, st += a[j]; sms += d; sms2 += d * d; sW += st; sW2 += st * st; }
      double **mat = (double **)calloc(n1, sizeof(double *));
      for (int i = 0; i < n1; i++) mat[i] = (double *)calloc(n1, sizeof(double));
      double qf = 0;
      for (int i = 0; i < n1; i++) for (int j = i + 1; j < n1; j++) {
        mat[i][j] = mat[j][i] = range(-2, 5) / 4.;
        if (lab[i] != lab[j]) continue;
        int c = 0;
        double sw = 0, si = 0, sj = 0;
        for (auto &e : m.a[i]) { si += e.second; if (m.a[j].count(e.first)) { c++; sw += e.second * m.a[j][e.first]; } }
        for (auto &e : m.a[j]) sj += e.second;
        q += 2 * (c / (sms2 - sms) - (double)m.a[i].size() * m.a[j].size() / (sms * sms));
        qw += 2 * (sw / (sW2 - sW) - si * sj / (sW * sW));
        qf += mat[i][j];
      }
      if (sms2 > sms) CHECK(store::close(ModularityBipart(b, part), q), "modularity", "bipartite modularity %g, should be %g", ModularityBipart(b, part), q);
      if (std::fabs(sW2 - sW) > 1e-6 * sW2) CHECK(std::fabs(ModularityBipartWeighted(b, part) - qw) <= 1e-6 * std::max(1., std::fabs(qw)), "modularity", "weighted bipartite modularity %g, should be %g", ModularityBipartWeighted(b, part), qw);
      CHECK(store::close(ModularityBipartWeightedFast(b, part, mat), qf), "modularity", "bipartite modularity from a table %g, should be %g", ModularityBipartWeightedFast(b, part, mat), qf);
      for (int i = 0; i < n1; i++) free(mat[i]);
      free(mat);
      double mn = 1e9, mx = -1e9, s1 = 0, s2 = 0;
      for (int i = 0; i < n1; i++) {
        std::map<int, int> c;
        double tot = 0, P = 1;
        for (auto &e : m.a[i]) for (int j = 0; j < n1; j++) if (j != i && m.a[j].count(e.first)) { c[lab[j]]++; tot++; }
        if (!tot) P = 0;
        else for (auto &z : c) P -= z.second * z.second / (tot * tot);
        double got = ParticipationCoefficientBipart(x[i]);
        // groups may carry any label up to the number of the last node
        CHECK(std::fabs(got - P) < 1e-9, "participation", "participation of node %d is %g, should be %g", i, got, P);
        mn = std::min(mn, P); mx = std::max(mx, P); s1 += P; s2 += P * P;
      }
      {
        double a, sd, lo, hi, v = std::max(0., s2 / n1 - s1 / n1 * s1 / n1);
        StatisticsParticipationCoefficientBipart(b->net1, &a, &sd, &lo, &hi);
        CHECK(std::fabs(a - s1 / n1) < 1e-9 && std::fabs(sd * sd - v) < 1e-9 && std::fabs(lo - mn) < 1e-9 && std::fabs(hi - mx) < 1e-9, "participation", "participation statistics %g %g %g %g, should be %g %g %g %g", a, sd, lo, hi, s1 / n1, std::sqrt(v), mn, mx);
      }
      if (choose(2)) {
        // the table of roles on the projection
        int byDegree = (int)choose(2), byWeight = (int)choose(2);
        FILE *f = openMem("roles", "w");
        captureBegin();
        FPrintTabNodesBipart(f, b, part, byDegree, byWeight);
        captureEnd(&so, &se);
        fclose(f);
        std::vector<std::vector<double>> pr(n1, std::vector<double>(n1, 0));
        for (int i = 0; i < n1; i++) for (int j = 0; j < n1; j++) if (i != j) for (auto &e : m.a[i]) if (m.a[j].count(e.first)) pr[i][j] += byDegree || !byWeight ? 1 : e.second * m.a[j][e.first];
        auto val = [&](int i, int j) { return byDegree ? (pr[i][j] > 0) : pr[i][j]; };
        auto within = [&](int i) { double d = 0; for (int j = 0; j < n1; j++) if (lab[j] == lab[i]) d += val(i, j); return d; };
        std::map<std::string, std::vector<std::string>> rows;
        for (auto &l : model::lines(disk["roles"].data)) { auto x = model::words(l); CHECK(x.size() == 5 && rows.insert({x[0], x}).second, "roles", "strange row '%s'", l.c_str()); }
        disk.erase("roles");
        CHECK((int)rows.size() == n1, "roles", "%zu rows for %d nodes", rows.size(), n1);
        for (int i = 0; i < n1; i++) {
          CHECK(rows.count(m.l1[i]), "roles", "no row for node %s", m.l1[i].c_str());
          auto &r = rows[m.l1[i]];
          double tot = 0, P = 1, mean = 0, var = 0, z = 0;
          int size = 0;
          std::map<int, double> to;
          for (int j = 0; j < n1; j++) { tot += val(i, j); to[lab[j]] += val(i, j); if (lab[j] == lab[i]) { size++; mean += within(j); } }
          if (tot == 0) P = 0; else for (auto &t : to) P -= t.second * t.second / tot / tot;
          mean /= size;
          for (int j = 0; j < n1; j++) if (lab[j] == lab[i]) var += (within(j) - mean) * (within(j) - mean);
          double sd = std::sqrt(var / size);
          if (sd > 1e-9 * mean) { if (sd < 1e-6 * mean) continue; z = (within(i) - mean) / sd; }
          CHECK(atoi(r[1].c_str()) == lab[i] + 1, "roles", "node %d is listed in module %s, is in module %d", i, r[1].c_str(), lab[i] + 1);
          CHECK(std::fabs(atof(r[3].c_str()) - P) < 2e-6 && std::fabs(atof(r[4].c_str()) - z) < 2e-6 * std::max(1., std::fabs(z)), "roles", "node %d: P %s z %s, should be %g %g", i, r[3].c_str(), r[4].c_str(), P, z);
          if (roleOf(P - 1e-7, z - 1e-7) == roleOf(P + 1e-7, z + 1e-7)) CHECK(r[2] == "R" + std::to_string(roleOf(P, z) + 1), "roles", "node %d has role %s", i, r[2].c_str());
        }
        probe("roles");
      }
      RemovePartition(part);
      probe("modularity");
    } else {
      CHECK(NLinksBipart(b) == [&] { int c = 0; for (auto &a : m.a) c += a.size(); return c; }(), "bipartite", "%d links counted", NLinksBipart(b));
      continue;
    }
    store::checkTwo(b, m, "bipartite", "after the operation");
    if (NLinksBipart(b)) nontrivial();
    uint64_t h = m.l1.size() * 31 + m.l2.size();
    for (size_t i = 0; i < m.a.size(); i++) for (auto &e : m.a[i]) h = mix(h, i * 100 + e.first);
    state(h);
  }
  RemoveBipart(b);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
}
