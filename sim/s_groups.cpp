// P09: bookkeeping of the linked-list groups over histories of changes.
#include "legacy.h"
#include <sstream>
using namespace sim;
using namespace model;
namespace {
struct World {
  Graph g;
  node_gra *net = nullptr;
  group *part = nullptr;
  std::vector<int> lab;           // node -> group label
  std::vector<node_gra *> nodes;  // by number
  std::string how;
};
std::vector<node_gra *> byNum(node_gra *net, int n) {
  std::vector<node_gra *> v(n, nullptr);
  for (node_gra *p = net->next; p; p = p->next) v.at(p->num) = p;
  return v;
}
std::vector<group *> groupsOf(group *part) {
  std::vector<group *> v;
  for (group *q = part->next; q; q = q->next) v.push_back(q);
  return v;
}
group *byLabel(group *part, int l) {
  for (group *q = part->next; q; q = q->next) if (q->label == l) return q;
  return nullptr;
}
std::vector<int> members(group *q) {
  std::vector<int> v;
  for (node_lis *x = q->nodeList->next; x; x = x->next) v.push_back(x->node);
  return v;
}
// the members, by name, of an unmapped group
std::set<std::string> names(group *q) {
  std::set<std::string> v;
  for (node_lis *x = q->nodeList->next; x; x = x->next) v.insert(x->nodeLabel);
  return v;
}
void full(World &w, const char *when) {
  legacy::recountGroups(w.part, w.net, w.g, &w.lab, "bookkeeping", when);
  uint64_t h = 7;
  for (int x : w.lab) h = mix(h, x);
  state(h);
}
void queries(World &w) {
  auto gs = groupsOf(w.part);
  auto A = w.g.matrix();
  int n = w.g.n;
  int ne = 0, total = 0;
  group *firstEmpty = nullptr;
  for (auto q : gs) { if (q->size) ne++; else if (!firstEmpty) firstEmpty = q; total += q->size; }
  CHECK(NGroups(w.part) == (int)gs.size(), "queries", "number of groups %d, there are %zu", NGroups(w.part), gs.size());
  CHECK(NNonEmptyGroups(w.part) == ne, "queries", "number of non-empty groups %d, there are %d", NNonEmptyGroups(w.part), ne);
  CHECK(PartitionSize(w.part) == n && total == n, "queries", "partition size %d, the network has %d nodes", PartitionSize(w.part), n);
  CHECK(GetEmptyGroup(w.part) == firstEmpty, "queries", "the first empty group is not found");
  group *a = gs[choose(gs.size())], *b = gs[choose(gs.size())];
  CHECK(GetGroup(w.part, a->label) == a, "queries", "group labelled %d is not found", a->label);
  CHECK(GetGroup(w.part, 100000) == nullptr, "queries", "a group that does not exist is found");
  int v = (int)choose(n);
  double W = 0;
  for (auto &e : w.g.e) W += e.w;
  double tol = 1e-9 * std::max(1.0, W);
  double wt = w.g.e.empty() ? 1 : w.g.e[choose(w.g.e.size())].w;
  int k = 0, kw = 0;
  double s = 0;
  for (int j = 0; j < n; j++) if (A[v][j] != 0 && w.lab[j] == a->label) { k++; s += A[v][j]; if (A[v][j] == wt) kw++; }
  CHECK(NLinksToGroup(w.nodes[v], a) == k && NLinksToGroupByNum(w.nodes[v], a->label) == k, "queries", "links of node %d to group %d: %d and %d, should be %d", v, a->label, NLinksToGroup(w.nodes[v], a), NLinksToGroupByNum(w.nodes[v], a->label), k);
  CHECK(std::fabs(StrengthToGroup(w.nodes[v], a) - s) <= tol && std::fabs(StrengthToGroupByNum(w.nodes[v], a->label) - s) <= tol, "queries", "weight of the links of node %d to group %d: %g, should be %g", v, a->label, StrengthToGroup(w.nodes[v], a), s);
  CHECK(NWeightLinksToGroup(w.nodes[v], a, wt) == kw, "queries", "links of weight %g of node %d to group %d: %d, should be %d", wt, v, a->label, NWeightLinksToGroup(w.nodes[v], a, wt), kw);
  int L = 0, Lw = 0;
  double S = 0;
  for (auto &e : w.g.e) {
    bool x = (w.lab[e.a] == a->label && w.lab[e.b] == b->label) || (w.lab[e.a] == b->label && w.lab[e.b] == a->label);
    if (x) { L++; S += e.w; if (e.w == wt) Lw++; }
  }
  CHECK(NG2GLinks(a, b) == L, "queries", "links between groups %d and %d: %d, should be %d", a->label, b->label, NG2GLinks(a, b), L);
  CHECK(NWeightG2GLinks(a, b, wt) == Lw, "queries", "links of weight %g between groups %d and %d: %d, should be %d", wt, a->label, b->label, NWeightG2GLinks(a, b, wt), Lw);
  CHECK(std::fabs(NG2GLinksWeight(a, b) - S) <= tol, "queries", "weight between groups %d and %d: %g, should be %g", a->label, b->label, NG2GLinksWeight(a, b), S);
  double mn, sd, lo, hi, m2 = 0, m1 = 0;
  int l2 = 1 << 30, h2 = 0;
  GroupSizeStatistics(w.part, &mn, &sd, &lo, &hi);
  for (auto q : gs) if (q->size) { m1 += q->size; m2 += (double)q->size * q->size; l2 = std::min(l2, q->size); h2 = std::max(h2, q->size); }
  m1 /= ne;
  CHECK(std::fabs(mn - m1) < 1e-9 && lo == l2 && hi == h2, "queries", "group sizes: mean %g min %g max %g, should be %g %d %d", mn, lo, hi, m1, l2, h2);
  // modularity
  if (!w.g.e.empty()) {
    double M = w.g.e.size(), q1 = 0, q2 = 0;
    for (auto q : gs) {
      double in = 0, inW = 0, d = 0, dW = 0;
      for (auto &e : w.g.e) {
        bool x = w.lab[e.a] == q->label, y = w.lab[e.b] == q->label;
        if (x && y) in++, inW += e.w;
        d += x + y, dW += (x + y) * e.w;
      }
      q1 += in / M - d * d / (4 * M * M);
      q2 += inW / W - dW * dW / (4 * W * W);
    }
    CHECK(std::fabs(Modularity(w.part) - q1) < 1e-9, "modularity", "modularity %.12g, should be %.12g", Modularity(w.part), q1);
    CHECK(std::fabs(ModularityWeight(w.part) - q2) < 1e-9, "modularity", "weighted modularity %.12g, should be %.12g", ModularityWeight(w.part), q2);
  }
}
int roleOf(double P, double z) { return z < 2.5 ? (P < .05 ? 0 : P < .62 ? 1 : P < .8 ? 2 : 3) : (P < .3 ? 4 : P < .75 ? 5 : 6); }
void roles(World &w) {
  // reference participation and relative degree / strength of every node
  auto A = w.g.matrix();
  int n = w.g.n;
  bool strength = choose(2);
  std::vector<double> P(n, 0), z(n, 0);
  std::vector<char> sure(n, 1);
  auto val = [&](int i, int j) { return A[i][j] == 0 ? 0. : strength ? A[i][j] : 1.; };
  for (int i = 0; i < n; i++) {
    std::map<int, double> to;
    double t = 0;
    for (int j = 0; j < n; j++) { to[w.lab[j]] += val(i, j); t += val(i, j); }
    if (t > 0) { double s = 0; for (auto &x : to) s += (x.second / t) * (x.second / t); P[i] = 1 - s; }
    double m = 0, v = 0;
    int c = 0;
    std::vector<double> in;
    double mine = 0;
    for (int k = 0; k < n; k++) if (w.lab[k] == w.lab[i]) {
      double s = 0;
      for (int j = 0; j < n; j++) if (w.lab[j] == w.lab[i]) s += val(k, j);
      in.push_back(s); m += s; c++;
      if (k == i) mine = s;
    }
    m /= c;
    for (double x : in) v += (x - m) * (x - m);
    double sd = std::sqrt(v / c);
    if (sd > 1e-7 * std::max(1e-300, m)) z[i] = (mine - m) / sd; else z[i] = 0;
    if (sd > 0 && sd <= 1e-5 * m && sd > 1e-11 * m) sure[i] = 0;
  }
  for (int i = 0; i < n; i++) {
    double p = strength ? WeightedParticipationCoefficient(w.nodes[i], w.part) : ParticipationCoefficient(w.nodes[i]);
    double r = strength ? WithinModuleRelativeStrength(w.nodes[i], w.part) : WithinModuleRelativeDegree(w.nodes[i], w.part);
    CHECK(std::fabs(p - P[i]) < 1e-9, "roles", "%sparticipation of node %d is %.12g, should be %.12g", strength ? "weighted " : "", i, p, P[i]);
    if (sure[i]) CHECK(std::fabs(r - z[i]) < 1e-6 * std::max(1.0, std::fabs(z[i])), "roles", "within-module relative %s of node %d is %.12g, should be %.12g", strength ? "strength" : "degree", i, r, z[i]);
  }
  group *ro = strength ? CatalogRoleIdentStrength(w.net, w.part) : CatalogRoleIdent(w.net, w.part);
  op("roles strength=%d", strength);
  CHECK(NGroups(ro) == 7, "roles", "%d role groups", NGroups(ro));
  std::vector<int> rl(n, -1);
  for (group *q = ro->next; q; q = q->next) for (int v : members(q)) rl[v] = q->label;
  for (int i = 0; i < n; i++) {
    bool ok = false;
    for (double d : {0., 1e-9, -1e-9}) ok = ok || rl[i] == roleOf(P[i] + d, z[i]) || rl[i] == roleOf(P[i], z[i] + d) || rl[i] == roleOf(P[i] + d, z[i] + d);
    if (sure[i]) CHECK(ok, "roles", "role of node %d (participation %.9g, relative %g) is %d, should be %d", i, P[i], z[i], rl[i], roleOf(P[i], z[i]));
    if (rl[i] >= 4) probe("hub-role");
  }
  legacy::recountGroups(ro, w.net, w.g, &rl, "roles", "role partition");  // the network is mapped onto it
  RemovePartition(ro);
  MapPartToNet(w.part, w.net);
}
// induced network of a set of nodes
void checkInduced(World &w, node_gra *sub, const std::vector<int> &want, bool inOrder, const char *what) {
  auto A = w.g.matrix();
  std::map<std::string, int> id;
  for (int i = 0; i < w.g.n; i++) id[w.g.label[i]] = i;
  std::vector<int> got;
  std::set<int> ws(want.begin(), want.end()), gotS;
  int num = 0;
  for (node_gra *p = sub->next; p; p = p->next) {
    CHECK(id.count(p->label), "induced", "%s: unknown node %s", what, p->label);
    CHECK(p->num == num, "induced", "%s: node %d carries number %d", what, num, p->num);
    num++;
    got.push_back(id[p->label]);
    CHECK(gotS.insert(got.back()).second, "induced", "%s: node %s appears twice", what, p->label);
  }
  CHECK(gotS == ws, "induced", "%s: has nodes {%s}, should have {%s}", what, show(got).c_str(), show(want).c_str());
  if (inOrder) CHECK(got == want, "induced", "%s: order %s, should be %s", what, show(got).c_str(), show(want).c_str());
  auto local = byNum(sub, num);
  for (node_gra *p = sub->next; p; p = p->next) {
    int i = id[p->label], deg = 0;
    double st = 0;
    std::set<int> seen;
    for (node_lis *x = p->neig->next; x; x = x->next) {
      CHECK(x->node >= 0 && x->node < num && x->ref == local[x->node] && !strcmp(x->ref->label, x->nodeLabel), "induced", "%s: a link of %s is not wired to a node of the network (%s, number %d)", what, p->label, x->nodeLabel, x->node);
      int j = id[x->nodeLabel];
      CHECK(seen.insert(j).second, "induced", "%s: link %s-%s twice", what, p->label, x->nodeLabel);
      CHECK(x->weight == A[i][j], "induced", "%s: weight of %s-%s is %g, should be %g", what, p->label, x->nodeLabel, x->weight, A[i][j]);
      deg++;
      st += x->weight;
    }
    int exp = 0;
    for (int j : ws) exp += A[i][j] != 0;
    CHECK(deg == exp && (int)NodeDegree(p) == deg, "induced", "%s: node %s has %d links (degree %d), should have %d", what, p->label, deg, (int)NodeDegree(p), exp);
    CHECK(std::fabs(NodeStrength(p) - st) <= 1e-9 * std::max(1.0, st), "induced", "%s: strength of %s", what, p->label);
  }
}
group *fromLabels(World &w, const std::vector<int> &lab, int ng) {
  group *part = CreateHeaderGroup(), *last = part;
  std::vector<group *> gs;
  for (int i = 0; i < ng; i++) gs.push_back(last = CreateGroup(choose(2) ? part : last, i));
  for (int i = 0; i < w.g.n; i++) AddNodeToGroupSoft(gs[lab[i]], const_cast<char *>(w.g.label[i].c_str()));
  return part;
}
void compare(World &w) {
  int ng = range(1, w.g.n);
  std::vector<int> other(w.g.n);
  for (int &x : other) x = (int)choose(ng);
  if (choose(4) == 1) for (int i = 0; i < w.g.n; i++) other[i] = w.lab[i];
  for (int x : other) ng = std::max(ng, x + 1);
  group *p2 = fromLabels(w, other, ng);
  int n = w.g.n;
  auto H = [&](const std::vector<int> &l) { std::map<int, int> c; for (int x : l) c[x]++; double h = 0; for (auto &x : c) h -= x.second / (double)n * std::log(x.second / (double)n); return h; };
  double h1 = H(w.lab), h2 = H(other), I = 0;
  std::map<std::pair<int, int>, int> j;
  std::map<int, int> c1, c2;
  for (int i = 0; i < n; i++) { j[{w.lab[i], other[i]}]++; c1[w.lab[i]]++; c2[other[i]]++; }
  for (auto &x : j) I += x.second / (double)n * std::log(x.second * (double)n / ((double)c1[x.first.first] * c2[x.first.second]));
  op("compare with %s", show(other).c_str());
  if (h1 + h2 > 1e-9) {
    double want = 2 * I / (h1 + h2);
    double byName = MutualInformation(w.part, p2, 1);
    CHECK(std::fabs(byName - want) < 1e-9, "comparison", "mutual information by name %.12g, should be %.12g", byName, want);
    MapPartToNet(p2, w.net);
    double byNumber = MutualInformation(p2, w.part, 0);
    CHECK(std::fabs(byNumber - want) < 1e-9, "comparison", "mutual information by number %.12g, should be %.12g", byNumber, want);
  } else MapPartToNet(p2, w.net);
  legacy::recountGroups(p2, w.net, w.g, &other, "bookkeeping", "mapped from names");
  // fraction classified correctly (w.part as the reference), only when no tie decides
  bool small = ng <= n;  // documented: labels must be smaller than the number of nodes
  for (auto q : groupsOf(w.part)) small = small && q->label < n;
  if (small) {
    bool tie = false;
    std::map<int, std::pair<int, int>> pick;  // group of p2 -> (reference group, score)
    for (auto &c : c2) {
      int best = 0, bl = -1, cnt = 0;
      for (auto &x : j) if (x.first.second == c.first) { if (x.second > best) best = x.second, bl = x.first.first, cnt = 1; else if (x.second == best) cnt++; }
      if (cnt > 1) tie = true;
      pick[c.first] = {bl, best};
    }
    std::map<int, int> win;
    for (auto &p : pick) win[p.second.first] = std::max(win[p.second.first], p.second.second);
    int correct = 0;
    for (auto &x : win) correct += x.second;
    double got = CorrectlyClassified(w.part, p2);
    CHECK(got >= 0 && got <= 1, "comparison", "fraction classified correctly is %g", got);
    if (!tie) CHECK(std::fabs(got - correct / (double)n) < 1e-9, "comparison", "fraction of nodes classified correctly %.9g, should be %d/%d", got, correct, n);
  }
  RemovePartition(p2);
  MapPartToNet(w.part, w.net);
}
World genWorld(int maxN) {
  World w;
  heapRandom();
  bool weighted = choose(2);
  w.g = choose(8) == 7 ? genBigGraph(13, 40, weighted) : genGraph(1, maxN, weighted, true, 300);
  w.net = legacy::buildNet(w.g);
  w.nodes = byNum(w.net, w.g.n);
  return w;
}
void start(World &w) {
  int n = w.g.n, kind = (int)choose(5);
  w.lab.assign(n, 0);
  ResetNetGroup(w.net);
  switch (kind) {
    case 0: {  // one by one, node order from the decisions
      int ng = range(1, n + 2);
      w.part = CreateHeaderGroup();
      std::vector<group *> gs;
      group *last = w.part;
      for (int i = 0; i < ng; i++) gs.push_back(last = CreateGroup(last, i));
      std::vector<int> ord(n);
      for (int i = 0; i < n; i++) ord[i] = i;
      for (int i = n - 1; i > 0; i--) std::swap(ord[i], ord[choose(i + 1)]);
      for (int i : ord) { w.lab[i] = (int)choose(ng); AddNodeToGroup(gs[w.lab[i]], w.nodes[i]); }
      w.how = "one by one";
      break;
    }
    case 1: {  // by name, then mapped
      int ng = range(1, n + 2);
      for (int &x : w.lab) x = (int)choose(ng);
      w.part = fromLabels(w, w.lab, ng);
      MapPartToNet(w.part, w.net);
      w.how = "by name";
      break;
    }
    case 2: {
      int sz = range(1, n);
      w.part = CreateEquiNPartition(w.net, sz);
      for (int i = 0; i < n; i++) w.lab[i] = i / sz;
      for (auto q : groupsOf(w.part)) CHECK(q->size > 0 && q->size <= sz, "equal-sized", "group %d of an equal-sized partition (%d) has size %d", q->label, sz, q->size);
      w.how = "equal sizes";
      break;
    }
    case 3: {
      int ng = range(1, 2 * n);
      for (int i = 0; i < n; i++) { w.lab[i] = (int)choose(ng); w.nodes[i]->inGroup = w.lab[i]; }
      w.part = CreatePartitionFromInGroup(w.net);
      for (auto q : groupsOf(w.part)) CHECK(q->size > 0, "from-marks", "an empty group was created");
      w.how = "from marks";
      break;
    }
    default: {
      w.part = ClustersPartition(w.net);
      std::vector<int> all(n);
      for (int i = 0; i < n; i++) all[i] = i;
      auto c = components(w.g, all);
      w.lab = legacy::labelsOf(w.net, n);
      CHECK(sameSetPartition(c, w.lab), "components", "clusters %s, the components are %s", show(w.lab).c_str(), show(c).c_str());
      w.how = "components";
    }
  }
  op("start %s: %s", w.how.c_str(), show(w.lab).c_str());
  full(w, w.how.c_str());
}
// marks set from a partition that is only known by names, with strangers in it and nodes missing
void softMap(World &w) {
  int n = w.g.n, ng = range(1, n + 1), left = 0, strangers = 0;
  std::vector<int> to(n, -1);
  group *p = CreateHeaderGroup();
  std::vector<group *> gs;
  std::vector<std::vector<std::string>> want(ng);
  for (int i = 0; i < ng; i++) gs.push_back(CreateGroup(p, i + 3));
  std::vector<int> ord(n);
  for (int i = 0; i < n; i++) ord[i] = i;
  for (int i = n - 1; i > 0; i--) std::swap(ord[i], ord[choose(i + 1)]);
  for (int i : ord) {
    if (choose(6) == 5) { left++; continue; }
    int q = (int)choose(ng);
    if (choose(8) == 7) { std::string s = "stranger" + std::to_string(strangers++); AddNodeToGroupSoft(gs[q], const_cast<char *>(s.c_str())); want[q].push_back(s); }
    AddNodeToGroupSoft(gs[q], const_cast<char *>(w.g.label[i].c_str()));
    want[q].push_back(w.g.label[i]);
    to[i] = q + 3;
  }
  op("soft mapping, %d nodes left out, %d strangers", left, strangers);
  uint64_t blocks = heapLiveBlocks();
  MapPartToNetSoft(p, w.net);
  CHECK(heapLiveBlocks() == blocks, "leak", "soft mapping keeps memory");
  for (int i = 0; i < n; i++) CHECK(w.nodes[i]->inGroup == to[i], "soft-mapping", "node %d is marked as member of group %d, should be %d", i, w.nodes[i]->inGroup, to[i]);
  for (int q = 0; q < ng; q++) {
    std::vector<std::string> got;
    for (node_lis *x = gs[q]->nodeList->next; x; x = x->next) { got.push_back(x->nodeLabel); CHECK(x->ref == nullptr && x->node == -1, "soft-mapping", "a soft mapping tied a node of the partition to the network"); }
    std::sort(got.begin(), got.end());
    std::sort(want[q].begin(), want[q].end());
    CHECK(got == want[q] && gs[q]->size == (int)want[q].size(), "soft-mapping", "soft mapping changed a group: %zu names and size %d, should be %zu", got.size(), gs[q]->size, want[q].size());
  }
  legacy::checkNet(w.net, w.g, "soft-mapping", "network after a soft mapping");
  RemovePartition(p);
  MapPartToNet(w.part, w.net);
}
void equalSoft() {
  int ng = range(0, 6), sz = range(1, 6);
  op("%d groups of %d by name", ng, sz);
  group *p = CreateEquiNPartitionSoft(ng, sz);
  CHECK(NGroups(p) == ng && PartitionSize(p) == ng * sz, "equal-sized", "%d groups and %d nodes, should be %d and %d", NGroups(p), PartitionSize(p), ng, ng * sz);
  std::set<std::string> all;
  std::set<int> labels;
  for (auto q : groupsOf(p)) {
    auto s = names(q);
    CHECK(q->size == sz && (int)s.size() == sz, "equal-sized", "a group of %d nodes with %zu names", q->size, s.size());
    int lo = 1 << 30, hi = 0;
    for (auto &x : s) { lo = std::min(lo, atoi(x.c_str())); hi = std::max(hi, atoi(x.c_str())); }
    CHECK(hi - lo == sz - 1 && (lo - 1) % sz == 0, "equal-sized", "names %d to %d in a group of %d", lo, hi, sz);
    all.insert(s.begin(), s.end());
    labels.insert(q->label);
  }
  CHECK((int)all.size() == ng * sz && (int)labels.size() == ng, "equal-sized", "names or groups come up twice");
  RemovePartition(p);
}
// the pattern of connections between groups, as printed
void blocks(World &w) {
  if (w.g.e.empty()) return;
  static const char kinds[] = "nfpez";
  char kind = kinds[choose(5)];
  int n = w.g.n;
  std::map<int, int> size;
  for (int x : w.lab) size[x]++;
  std::map<std::pair<int, int>, double> L;
  std::map<int, double> deg;
  double M = w.g.e.size();
  for (auto &e : w.g.e) {
    int a = w.lab[e.a], b = w.lab[e.b];
    L[{a, b}]++;
    if (a != b) L[{b, a}]++;
    deg[a]++; deg[b]++;
  }
  op("block model %c", kind);
  captureBegin();
  BlockModel(w.part, kind, 0);
  std::string out, err;
  captureEnd(&out, &err);
  std::istringstream in(out);
  std::map<std::pair<int, int>, std::string> got;
  int a, b;
  std::string v;
  while (in >> a >> b >> v) CHECK(got.emplace(std::make_pair(a - 1, b - 1), v).second, "block-model", "groups %d and %d are listed twice", a, b);
  CHECK(got.size() == size.size() * size.size(), "block-model", "%zu pairs of groups, should be %zu", got.size(), size.size() * size.size());
  double p = 2 * M / ((double)n * (n - 1));
  for (auto &x : size) for (auto &y : size) {
    auto it = got.find({x.first, y.first});
    CHECK(it != got.end(), "block-model", "groups %d and %d are not listed", x.first, y.first);
    bool same = x.first == y.first;
    double pairs = same ? x.second * (x.second - 1) / 2. : (double)x.second * y.second, l = L.count({x.first, y.first}) ? L[{x.first, y.first}] : 0, want;
    switch (kind) {
      case 'n': want = l; break;
      case 'f': want = l / M; break;
      case 'p': want = l / pairs; break;
      case 'e': want = l / M - deg[x.first] * deg[y.first] / (4 * M * M); break;
      default: want = (l - p * pairs) / std::sqrt(pairs * p * (1 - p));
    }
    if (!std::isfinite(want)) continue;
    double g = strtod(it->second.c_str(), nullptr);
    CHECK(std::fabs(g - want) < 1.1e-6 * std::max(1., std::fabs(want)), "block-model", "'%c' between groups %d and %d is %s, should be %.9g", kind, x.first, y.first, it->second.c_str(), want);
  }
}
// changes the links between two groups' nodes; the groups are mapped again afterwards
void step(World &w) {
  auto gs = groupsOf(w.part);
  int n = w.g.n;
  switch (choose(18)) {
    case 15: softMap(w); full(w, "soft mapping"); break;
    case 16: equalSoft(); full(w, "equal sizes by name"); break;
    case 17: blocks(w); full(w, "block model"); break;
    case 0: case 1: case 2: case 3: {
      int v = (int)choose(n);
      group *to = gs[choose(gs.size())], *from = byLabel(w.part, w.lab[v]);
      op("move %d %d->%d", v, w.lab[v], to->label);
      CHECK(MoveNode(w.nodes[v], from, to) == 1, "bookkeeping", "moving node %d out of its group %d failed", v, w.lab[v]);
      w.lab[v] = to->label;
      full(w, "move");
      break;
    }
    case 4: {
      int v = (int)choose(n);
      group *q = gs[choose(gs.size())], *to = gs[choose(gs.size())];
      if (q->label == w.lab[v]) break;
      op("move %d from %d, where it is not", v, q->label);
      CHECK(MoveNode(w.nodes[v], q, to) == 0, "bookkeeping", "moving node %d out of a group it is not in succeeded", v);
      full(w, "refused move");
      break;
    }
    case 5: {
      if (gs.size() < 2) break;
      group *a = gs[choose(gs.size())], *b = gs[choose(gs.size())];
      if (a == b) break;
      op("merge %d into %d", a->label, b->label);
      if (choose(2)) MergeGroups(a, b);
      else { MergeGroupsFast(a, b); CHECK(a->size == 0, "bookkeeping", "merged group keeps size %d", a->size); MapPartToNet(w.part, w.net); probe("fast-merge"); }
      for (int &x : w.lab) if (x == a->label) x = b->label;
      full(w, "merge");
      break;
    }
    case 6: {
      int k = range(1, 4);
      for (int i = 0; i < k; i++) {
        int v = (int)choose(n);
        group *to = gs[choose(gs.size())];
        op("fast move %d ->%d", v, to->label);
        CHECK(MoveNodeFast(w.nodes[v], byLabel(w.part, w.lab[v]), to) == 1, "bookkeeping", "fast move of node %d failed", v);
        w.lab[v] = to->label;
      }
      if (choose(2)) MapPartToNet(w.part, w.net);
      else { MapPartToNetFast(w.part, w.net); MapPartToNet(w.part, w.net); }
      full(w, "fast moves");
      break;
    }
    case 7: {
      group *c = CopyPartition(w.part);
      op("copy");
      auto cs = groupsOf(c);
      CHECK(cs.size() == gs.size(), "copy", "copy has %zu groups, original %zu", cs.size(), gs.size());
      for (size_t i = 0; i < gs.size(); i++) CHECK(cs[i]->label == gs[i]->label && names(cs[i]) == names(gs[i]) && cs[i]->size == gs[i]->size, "copy", "group %zu of the copy differs", i);
      bool keepCopy = choose(2);
      MapPartToNet(keepCopy ? c : w.part, w.net);
      RemovePartition(keepCopy ? w.part : c);
      if (keepCopy) w.part = c;
      full(w, "copy");
      break;
    }
    case 8: {
      op("compress");
      CHECK(CompressPart(w.part) == w.part, "compress", "another partition was returned");
      for (auto q : groupsOf(w.part)) CHECK(q->size > 0, "compress", "empty group %d is left", q->label);
      full(w, "compress");
      break;
    }
    case 9: {  // add an empty group
      int l = 0;
      for (auto q : gs) l = std::max(l, q->label + 1);
      CreateGroup(w.part, l);
      op("new group %d", l);
      full(w, "new group");
      break;
    }
    case 10: {  // induced networks
      group *q = gs[choose(gs.size())];
      auto mem = members(q);
      op("network of group %d", q->label);
      node_gra *sub = BuildNetFromGroup(q);
      checkInduced(w, sub, mem, true, "network of a group");
      RemoveGraph(sub);
      std::set<int> s(mem.begin(), mem.end());
      for (auto &e : w.g.e) { if (w.lab[e.a] == q->label) s.insert(e.b); if (w.lab[e.b] == q->label) s.insert(e.a); }
      sub = BuildNetFromGroupNeig(q);
      checkInduced(w, sub, std::vector<int>(s.begin(), s.end()), false, "network of a group and its neighbours");
      RemoveGraph(sub);
      full(w, "induced networks");
      break;
    }
    case 11: {  // links removed
      int k = (int)choose(3);
      op("remove links kind %d", k);
      std::vector<Edge> keep;
      if (k == 0) {
        group *q = gs[choose(gs.size())];
        RemoveWithinGroupLinks(q, 1);
        for (auto &e : w.g.e) if (w.lab[e.a] != q->label && w.lab[e.b] != q->label) keep.push_back(e);
      } else {
        if (k == 1) RemoveBetweenGroupLinks(w.part, 1); else RemoveInterGroupLinks(w.net);
        for (auto &e : w.g.e) if (w.lab[e.a] == w.lab[e.b]) keep.push_back(e);
      }
      w.g.e = keep;
      legacy::checkNet(w.net, w.g, "removed-links", k == 0 ? "links of a group removed" : "links between groups removed");
      MapPartToNet(w.part, w.net);
      full(w, "links removed");
      break;
    }
    case 12: roles(w); full(w, "roles"); break;
    case 13: {  // taken out one by one, put back later
      int k = range(1, std::min(n, 5));
      std::vector<int> out;
      for (int i = 0; i < k; i++) {
        int v = (int)choose(n);
        if (w.lab[v] < 0) continue;
        group *q = byLabel(w.part, w.lab[v]), *o = gs[choose(gs.size())];
        op("take %d out of %d", v, q->label);
        if (o != q) CHECK(RemoveNodeFromGroup(o, w.nodes[v]) == 0, "bookkeeping", "node %d was taken out of a group it is not in", v);
        CHECK(RemoveNodeFromGroup(q, w.nodes[v]) == 1, "bookkeeping", "node %d could not be taken out of its group", v);
        w.lab[v] = -1;
        out.push_back(v);
        full(w, "taken out");
      }
      while (!out.empty()) {
        int i = (int)choose(out.size());
        int v = out[i];
        out.erase(out.begin() + i);
        group *q = gs[choose(gs.size())];
        op("put %d in %d", v, q->label);
        AddNodeToGroup(q, w.nodes[v]);
        w.lab[v] = q->label;
        full(w, "put back");
      }
      break;
    }
    default: compare(w); full(w, "comparison");
  }
}
}  // namespace
SCENARIO(P09, history, 10) {
  uint64_t base = heapLiveBlocks();
  World w = genWorld(12);
  start(w);
  int k = range(1, w.g.n > 12 ? 8 : 25);
  for (int i = 0; i < k; i++) {
    step(w);
    if (choose(3) == 0) queries(w);
  }
  queries(w);
  nontrivial();
  RemovePartition(w.part);
  RemoveGraph(w.net);
  CHECK(heapLiveBlocks() == base, "leak", "%llu blocks left", (unsigned long long)(heapLiveBlocks() - base));
}
