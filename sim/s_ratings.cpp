// P11-P14, P22, P23 for the samplers of ratings (recommenders, conflicts, links with several states).
#include "ratings.h"
using namespace sim;
using namespace model;
using sampler::setPartitions;
using sampler::canonical;
extern "C" void sim_free(void *);
namespace ratings {
const char *kindName[NKIND] = {"ratings-2", "ratings-k", "gibbs-ratings-k", "link-k"};
Data genData(bool bip, int max1, int max2, int K, bool isolated, int big) {
  Data d;
  d.bip = bip;
  d.K = K;
  if (bip) {
    bool large = big && choose(40) == 39;
    if (large) probe("large");
    Bip b = large ? genBigBip(range(1, big), range(1, big), false) : genBip(1, max1, 1, max2, false, isolated);
    d.n1 = b.n1;
    d.n2 = b.n2;
    d.l1 = b.l1;
    d.l2 = b.l2;
    if (choose(3) == 1) for (int j = 0; j < d.n2 && j < d.n1; j++) d.l2[j] = d.l1[j];  // same names on both sides
    std::set<std::string> u(d.l2.begin(), d.l2.end());
    if ((int)u.size() != d.n2) d.l2 = b.l2;
    for (auto &e : b.e) d.e.push_back({e.a, e.b, (int)choose(K)});
  } else {
    Graph g = genGraph(2, max1, false, isolated, big);
    d.n1 = g.n;
    d.l1 = g.label;
    for (auto &e : g.e) d.e.push_back({e.a, e.b, (int)choose(K)});
  }
  std::string t;
  for (auto &e : d.e) t += " " + std::to_string(e.a) + "-" + std::to_string(e.b) + "=" + std::to_string(e.r);
  op("%s K=%d %dx%d:%s", bip ? "ratings" : "states", K, d.n1, d.n2, t.c_str());
  return d;
}
static node_gra *nodes(node_gra *net, const std::vector<std::string> &l, std::vector<node_gra *> &v) {
  node_gra *last = net;
  for (auto &s : l) { last = CreateNodeGraph(last, const_cast<char *>(s.c_str())); v.push_back(last); }
  return net;
}
binet *buildBinet(const Data &d) {
  binet *b = CreateBipart();
  std::vector<node_gra *> x, y;
  b->net1 = nodes(CreateHeaderGraph(), d.l1, x);
  b->net2 = nodes(CreateHeaderGraph(), d.l2, y);
  for (auto &e : d.e) {
    AddAdjacency(x[e.a], y[e.b], 0, 0, e.r, 0);
    AddAdjacency(y[e.b], x[e.a], 0, 0, e.r, 0);
  }
  return b;
}
node_gra *buildNet(const Data &d) {
  std::vector<node_gra *> x;
  node_gra *net = nodes(CreateHeaderGraph(), d.l1, x);
  for (auto &e : d.e) {
    AddAdjacency(x[e.a], x[e.b], 0, 0, e.r, 0);
    AddAdjacency(x[e.b], x[e.a], 0, 0, e.r, 0);
  }
  return net;
}
static void checkSide(node_gra *net, node_gra *other, const std::vector<std::string> &l, const std::vector<std::vector<int>> &R, bool tr, const char *cls, const char *when) {
  std::map<node_gra *, int> idx;
  int k = 0;
  for (node_gra *p = other->next; p; p = p->next) idx[p] = k++;
  int i = 0;
  for (node_gra *p = net->next; p; p = p->next, i++) {
    CHECK(i < (int)l.size(), cls, "%s: more nodes than the %zu there were", when, l.size());
    CHECK(!strcmp(p->label, l[i].c_str()) && p->num == i, cls, "%s: node %d is called %s and numbered %d, should be %s", when, i, p->label, p->num, l[i].c_str());
    std::set<int> seen;
    int n = 0, want = 0;
    for (node_lis *q = p->neig->next; q; q = q->next, n++) {
      CHECK(q->ref && idx.count(q->ref), cls, "%s: node %d is linked to a node of another network", when, i);
      int j = idx[q->ref];
      CHECK(seen.insert(j).second, cls, "%s: link %d-%d appears twice", when, i, j);
      int r = tr ? R[j][i] : R[i][j];
      CHECK(r >= 0 && q->weight == r, cls, "%s: link %d-%d has value %g, should be %d (-1: absent)", when, i, j, q->weight, r);
    }
    for (size_t j = 0; j < (tr ? R.size() : R[i].size()); j++) want += (tr ? R[j][i] : R[i][j]) >= 0;
    CHECK(n == want, cls, "%s: node %d has %d links, should have %d", when, i, n, want);
  }
  CHECK(i == (int)l.size(), cls, "%s: %d nodes, should be %zu", when, i, l.size());
}
static std::vector<std::vector<int>> table(const Data &d) {
  std::vector<std::vector<int>> R(d.n1, std::vector<int>(d.bip ? d.n2 : d.n1, -1));
  for (auto &e : d.e) { R[e.a][e.b] = e.r; if (!d.bip) R[e.b][e.a] = e.r; }
  return R;
}
void checkBinet(binet *b, const Data &d, const char *cls, const char *when) {
  auto R = table(d);
  checkSide(b->net1, b->net2, d.l1, R, false, cls, when);
  checkSide(b->net2, b->net1, d.l2, R, true, cls, when);
}
void checkKNet(node_gra *net, const Data &d, const char *cls, const char *when) { checkSide(net, net, d.l1, table(d), false, cls, when); }

double Model::pair(const std::vector<int> &nk) const {
  int n = 0;
  double h = 0;
  for (int x : nk) { n += x; h -= lgamma(x + 1); }
  if (two) return log(n + 1.0) + lgamma(n + 1) + h;
  return lgamma(n + d->K) + h;
}
typedef std::vector<std::vector<std::vector<int>>> Counts;
static Counts counts(const Data &d, const std::vector<int> &a, const std::vector<int> &b) {
  int m = d.bip ? d.n2 : d.n1;
  Counts c(d.n1, std::vector<std::vector<int>>(m, std::vector<int>(d.K, 0)));
  for (auto &e : d.e) {
    int x = a[e.a], y = d.bip ? b[e.b] : a[e.b];
    c[x][y][e.r]++;
    if (!d.bip && x != y) c[y][x][e.r]++;
  }
  return c;
}
static int nonEmpty(const std::vector<int> &v) { return (int)std::set<int>(v.begin(), v.end()).size(); }
double Model::H(const std::vector<int> &a, const std::vector<int> &b, bool labelled) const {
  Counts c = counts(*d, a, b);
  double h = 0;
  if (d->bip) for (int i = 0; i < d->n1; i++) for (int j = 0; j < d->n2; j++) h += pair(c[i][j]);
  else for (int i = 0; i < d->n1; i++) for (int j = i; j < d->n1; j++) h += pair(c[i][j]);
  if (labelled) {
    h -= lgamma(d->n1 - nonEmpty(a) + 1);
    if (d->bip) h -= lgamma(d->n2 - nonEmpty(b) + 1);
  }
  return h;
}
std::vector<double> Model::score(const std::vector<int> &a, const std::vector<int> &b, int i, int j) const {
  Counts c = counts(*d, a, b);
  auto &k = c[a[i]][d->bip ? b[j] : a[j]];
  int n = 0;
  for (int x : k) n += x;
  std::vector<double> s;
  for (int x : k) s.push_back((x + 1.0) / (n + d->K));
  return s;
}
// One chain on the real code. N1G2[k][i][j] and the like; for LSK the first array of each kind is used.
struct Chain {
  Data d;
  int kind;
  Model m;
  binet *b = nullptr;
  node_gra *net = nullptr;
  group *p1 = nullptr, *p2 = nullptr;
  std::vector<node_gra *> nl1, nl2;
  std::vector<group *> gl1, gl2;
  std::vector<int **> N1G2, N2G1, G1G2, G2G1;
  double *L = nullptr, **LC = nullptr, *LF = nullptr, H = 0;
  int ll, ng1 = 0, ng2 = 0, m2;
  void side(node_gra *n, group *&part, std::vector<node_gra *> &nl, std::vector<group *> &gl, const std::vector<int> &lab) {
    group *last = part = CreateHeaderGroup();
    for (node_gra *p = n->next; p; p = p->next) { nl.push_back(p); gl.push_back(last = CreateGroup(last, p->num)); }
    ResetNetGroup(n);
    for (size_t i = 0; i < nl.size(); i++) AddNodeToGroup(gl[lab[i]], nl[i]);
  }
  void init(const Data &dd, int kd, int tables, const std::vector<int> &a, const std::vector<int> &bb) {
    d = dd;
    kind = kd;
    m.d = &d;
    m.two = kind == MC2;
    if (d.bip) {
      b = buildBinet(d);
      side(b->net1, p1, nl1, gl1, a);
      side(b->net2, p2, nl2, gl2, bb);
    } else {
      net = buildNet(d);
      side(net, p1, nl1, gl1, a);
    }
    m2 = d.bip ? d.n2 : d.n1;
    for (int k = 0; k < d.K; k++) {
      N1G2.push_back(allocate_i_mat(d.n1, m2));
      G1G2.push_back(allocate_i_mat(d.n1, m2));
      N2G1.push_back(allocate_i_mat(m2, d.n1));
      G2G1.push_back(allocate_i_mat(m2, d.n1));
    }
    ll = tables;
    L = InitializeFastLog(ll);
    LC = InitializeFastLogChoose(ll);
    LF = InitializeFastLogFact(ll);
    cache();
  }
  void cache() {
    std::vector<group *> &h2 = d.bip ? gl2 : gl1;
    std::vector<node_gra *> &q2 = d.bip ? nl2 : nl1;
    for (int k = 0; k < d.K; k++) for (int i = 0; i < d.n1; i++) for (int j = 0; j < m2; j++) {
      G1G2[k][i][j] = G2G1[k][j][i] = NWeightG2GLinks(gl1[i], h2[j], k);
      N1G2[k][i][j] = NWeightLinksToGroup(nl1[i], h2[j], k);
      N2G1[k][j][i] = NWeightLinksToGroup(q2[j], gl1[i], k);
    }
    ng1 = NNonEmptyGroups(p1);
    ng2 = d.bip ? NNonEmptyGroups(p2) : 0;
    H = energy();
  }
  double energy() { return kind == LSK ? LSHKState(d.K, p1) : kind == MC2 ? H2State(p1, p2) : HKState(d.K, p1, p2); }
  static std::vector<int> lab(const std::vector<node_gra *> &v) {
    std::vector<int> r;
    for (auto *p : v) r.push_back(p->inGroup);
    return r;
  }
  void place(const std::vector<int> &a, const std::vector<int> &bb) {
    for (int i = 0; i < d.n1; i++) if (nl1[i]->inGroup != a[i]) MoveNode(nl1[i], gl1[nl1[i]->inGroup], gl1[a[i]]);
    if (d.bip) for (int i = 0; i < d.n2; i++) if (nl2[i]->inGroup != bb[i]) MoveNode(nl2[i], gl2[nl2[i]->inGroup], gl2[bb[i]]);
    cache();
  }
  void step(gsl_rng *gen) {
    switch (kind) {
      case MC2:
        MCStep2State(1, &H, nl1.data(), nl2.data(), gl1.data(), gl2.data(), p1, p2, d.n1, d.n2, &ng1, &ng2, N1G2[0], N2G1[0], N1G2[1], N2G1[1], G1G2[0], G2G1[0], G1G2[1], G2G1[1], L, ll, LC, ll, LF, ll, gen);
        break;
      case MCK: MCStepKState(d.K, 1, &H, nl1.data(), nl2.data(), gl1.data(), gl2.data(), p1, p2, d.n1, d.n2, &ng1, &ng2, N1G2.data(), N2G1.data(), G1G2.data(), G2G1.data(), L, ll, LF, ll, gen); break;
      case GIBBSK: GibbsStepKState(d.K, &H, nl1.data(), nl2.data(), gl1.data(), gl2.data(), p1, p2, d.n1, d.n2, &ng1, &ng2, N1G2.data(), N2G1.data(), G1G2.data(), G2G1.data(), L, ll, LF, ll, gen); break;
      default: {
        int ***n = N1G2.data(), ***g = G1G2.data();
        LSMCStepKState(d.K, 1, &H, nl1.data(), gl1.data(), p1, d.n1, &ng1, &n, &g, L, ll, LF, ll, gen);
      }
    }
  }
  void checkGroups(group *part, const std::vector<node_gra *> &nl, const std::vector<group *> &gl, int ng, bool trackNg, const char *when) {
    int n = (int)nl.size(), ne = 0;
    std::vector<int> seen(n, -1);
    for (auto *g : gl) {
      int cnt = 0;
      for (node_lis *x = g->nodeList->next; x; x = x->next, cnt++) {
        CHECK(cnt < n && x->ref && x->ref->num >= 0 && x->ref->num < n && nl[x->ref->num] == x->ref, "sampler-groups", "%s (%s): foreign member in group %d", when, kindName[kind], g->label);
        CHECK(seen[x->ref->num] < 0 && x->ref->inGroup == g->label, "sampler-groups", "%s (%s): node %d is listed in group %d, marked %d", when, kindName[kind], x->ref->num, g->label, x->ref->inGroup);
        seen[x->ref->num] = g->label;
      }
      CHECK(cnt == g->size, "sampler-groups", "%s (%s): group %d says size %d, has %d", when, kindName[kind], g->label, g->size, cnt);
      ne += cnt > 0;
    }
    for (int i = 0; i < n; i++) CHECK(seen[i] >= 0, "sampler-groups", "%s (%s): node %d is in no group", when, kindName[kind], i);
    CHECK(!trackNg || ng == ne, "sampler-cache", "%s (%s): %d non-empty groups recorded, there are %d", when, kindName[kind], ng, ne);
  }
  void verify(const char *when) {
    checkGroups(p1, nl1, gl1, ng1, true, when);
    if (d.bip) checkGroups(p2, nl2, gl2, ng2, true, when);
    auto a = lab(nl1), bb = lab(nl2);
    Counts c = counts(d, a, bb);
    for (int k = 0; k < d.K; k++) for (int i = 0; i < d.n1; i++) for (int j = 0; j < m2; j++) {
      int w = c[i][j][k];
      CHECK(G1G2[k][i][j] == w, "sampler-cache", "%s (%s): %d links of value %d recorded between groups %d and %d, there are %d", when, kindName[kind], G1G2[k][i][j], k, i, j, w);
      CHECK(!d.bip || G2G1[k][j][i] == w, "sampler-cache", "%s (%s): %d links of value %d recorded between item group %d and user group %d, there are %d", when, kindName[kind], G2G1[k][j][i], k, j, i, w);
    }
    for (int k = 0; k < d.K; k++) {
      std::vector<std::vector<int>> x(d.n1, std::vector<int>(m2, 0)), y(m2, std::vector<int>(d.n1, 0));
      for (auto &e : d.e) if (e.r == k) {
        x[e.a][d.bip ? bb[e.b] : a[e.b]]++;
        if (d.bip) y[e.b][a[e.a]]++; else x[e.b][a[e.a]]++;
      }
      for (int i = 0; i < d.n1; i++) for (int j = 0; j < m2; j++) {
        CHECK(N1G2[k][i][j] == x[i][j], "sampler-cache", "%s (%s): %d links of value %d recorded from node %d to group %d, there are %d", when, kindName[kind], N1G2[k][i][j], k, i, j, x[i][j]);
        CHECK(!d.bip || N2G1[k][j][i] == y[j][i], "sampler-cache", "%s (%s): %d links of value %d recorded from item %d to group %d, there are %d", when, kindName[kind], N2G1[k][j][i], k, j, i, y[j][i]);
      }
    }
    double h = m.H(a, bb, true), lib = energy(), tol = 1e-6 * std::max(1.0, std::fabs(h));
    CHECK(std::fabs(lib - h) <= tol, "sampler-energy", "%s (%s): the library computes energy %.10g, the definition gives %.10g", when, kindName[kind], lib, h);
    CHECK(std::fabs(H - h) <= tol, "sampler-energy", "%s (%s): tracked energy %.10g, the grouping has %.10g; groupings %s | %s", when, kindName[kind], H, h, show(a).c_str(), show(bb).c_str());
  }
  void done() {
    RemovePartition(p1);
    if (p2) RemovePartition(p2);
    if (b) RemoveBipart(b); else RemoveGraph(net);
    for (int k = 0; k < d.K; k++) {
      free_i_mat(N1G2[k], d.n1);
      free_i_mat(G1G2[k], d.n1);
      free_i_mat(N2G1[k], m2);
      free_i_mat(G2G1[k], m2);
    }
    FreeFastLog(L);
    FreeFastLogChoose(LC, ll);
    FreeFastLogFact(LF);
  }
};
static int pickK(int kind) { return kind == MC2 ? 2 : 1 + (int)choose(choose(3) ? 4 : 7); }
static std::vector<int> starts(int n) { return n == 1 ? std::vector<int>(1, 0) : sampler::startLabels(n); }
static void history(int kind) {
  heapRandom();
  int K = pickK(kind);
  bool big = choose(6) == 1;
  Data d = genData(kind != LSK, big ? 14 : 7, big ? 14 : 7, K, choose(2), 40);
  auto a = starts(d.n1), b = d.bip ? starts(d.n2) : std::vector<int>();
  static const int tables[] = {200, 3, 8, 40};
  int t = tables[choose(4)];
  gsl_rng *gen = anyRng();
  op("%s tables=%d start %s | %s", kindName[kind], t, show(a).c_str(), show(b).c_str());
  dirtyStack((int)choose(4));
  Chain c;
  c.init(d, kind, t, a, b);
  c.verify("at the start");
  int nsteps = range(1, 10), changes = 0;
  for (int s = 0; s < nsteps; s++) {
    auto x = Chain::lab(c.nl1), y = Chain::lab(c.nl2);
    if (choose(3) == 1) dirtyStack((int)choose(4));
    budget(4000000 + 60000ull * (d.n1 + d.n2) * (d.n1 + d.n2) * (d.n1 + d.n2));
    c.step(gen);
    noBudget();
    auto x2 = Chain::lab(c.nl1), y2 = Chain::lab(c.nl2);
    if (x != x2 || y != y2) changes++;
    op("step %d: %s | %s", s, show(x2).c_str(), show(y2).c_str());
    c.verify("after a step");
    uint64_t h = 12 + kind;
    for (int v : x2) h = mix(h, v);
    for (int v : y2) h = mix(h, v + 100);
    state(h);
  }
  probe(kindName[kind]);
  if (changes) nontrivial();
  c.done();
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks are still allocated after everything was freed", (unsigned long long)heapLiveBlocks());
}
SCENARIO(P11, ratings_history, 2) { static const int k[] = {MC2, MCK, LSK}; history(k[choose(3)]); }
SCENARIO(P12, ratings_history, 1) { history(GIBBSK); }

static void shuffled(std::vector<int> &v, Prng &p) {  // a random relabelling
  int n = (int)v.size();
  std::vector<int> perm(n);
  for (int i = 0; i < n; i++) perm[i] = i;
  for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[p.below(i + 1)]);
  for (auto &x : v) x = perm[x];
}
SCENARIO(P13, ratings_invariance, 2) {
  int kind = (int)choose(NKIND);
  Data d = genData(kind != LSK, kind == LSK ? 4 : 3, 3, pickK(kind), true);
  int steps = range(1, 3), R = 1500;
  gsl_rng *gen = fairRng();
  Prng pick(seed64());
  op("invariance %s steps=%d chains=%d", kindName[kind], steps, R);
  Space sp(d);
  Chain c;
  std::vector<int> a(d.n1, 0), b(d.bip ? d.n2 : 0, 0);
  c.init(d, kind, 60, a, b);
  std::vector<double> p;
  double Z = 0;
  for (size_t i = 0; i < sp.size(); i++) { p.push_back(exp(-c.m.H(sp.a(i), sp.b(i), false))); Z += p.back(); }
  for (auto &x : p) x /= Z;
  auto sample = [&](int R) {
  std::vector<double> obs(sp.size(), 0);
  for (int rep = 0; rep < R; rep++) {
    double u = pick.u();
    size_t s = 0;
    while (s + 1 < p.size() && u >= p[s]) u -= p[s++];
    a = sp.a(s);
    b = sp.b(s);
    shuffled(a, pick);
    shuffled(b, pick);
    c.place(a, b);
    for (int t = 0; t < steps; t++) c.step(gen);
    obs[canonical(Chain::lab(c.nl1), sp.A) * sp.B.size() + (d.bip ? canonical(Chain::lab(c.nl2), sp.B) : 0)]++;
  }
  return obs; };
  probe(kindName[kind]);
  sampler::chiCheck(p, sample, R, "sampler-bias", kindName[kind]);
  nontrivial();
  c.done();
}
// ---- whole predictions -------------------------------------------------------------------------
enum { D_MC2, D_MCK, D_GIBBSK, D_LSK, D_CONFLICT, ND };
static const char *driverName[ND] = {"two-state prediction", "k-state prediction", "gibbs k-state prediction", "k-state link reliability", "two-state conflict"};
Data without(const Data &d, const std::vector<std::pair<int, int>> &q) {
  Data r = d;
  r.e.clear();
  for (auto &e : d.e) {
    bool hit = false;
    for (auto &x : q) if (x.first == e.a && x.second == e.b) hit = true;
    if (!hit) r.e.push_back(e);
  }
  return r;
}
typedef std::vector<std::vector<double>> Scores;  // per query, per state
// `q` gives the queries of the recommenders; the other drivers fill it with all pairs.
static Scores predict(int drv, const Data &d, std::vector<std::pair<int, int>> &q, int nIter, int decor, gsl_rng *gen, char v, bool live) {
  Scores S;
  binet *b = nullptr;
  node_gra *net = nullptr;
  query **qs = nullptr;
  std::vector<query *> own(q.size() + 1);
  int nq = (int)q.size();
  std::vector<node_gra *> x, y;
  if (d.bip) {
    b = buildBinet(d);
    for (node_gra *p = b->net1->next; p; p = p->next) x.push_back(p);
    for (node_gra *p = b->net2->next; p; p = p->next) y.push_back(p);
  } else {
    net = buildNet(d);
    for (node_gra *p = net->next; p; p = p->next) x.push_back(p);
    y = x;
  }
  if (drv <= D_GIBBSK) {
    qs = own.data();
    for (int i = 0; i < nq; i++) qs[i] = CreateQuery(x[q[i].first], y[q[i].second]);
  } else {
    q.clear();
    for (size_t i = 0; i < x.size(); i++) for (size_t j = drv == D_LSK ? i + 1 : 0; j < y.size(); j++) q.push_back({(int)i, (int)j});
  }
  double *s1 = nullptr, **sk = nullptr;
  captureBegin();
  budget(live && d.n1 + d.n2 < 100 ? 600000000ull : 4000000000ull);
  switch (drv) {
    case D_MC2: s1 = MultiLinkScore2State(b, qs, nq, nIter, gen, v, decor); break;
    case D_MCK: sk = MultiLinkScoreKState(d.K, b, qs, nq, nIter, gen, v, decor); break;
    case D_GIBBSK: sk = GibbsMultiLinkScoreKState(d.K, b, qs, nq, nIter, gen, v); break;
    case D_LSK: sk = LSMultiLinkScoreKState(d.K, net, nIter, gen, v, decor, &qs, &nq); break;
    default: qs = AllLinkScore2State(b, nIter, gen, v, decor); nq = d.n1 * d.n2;
  }
  noBudget();
  std::string said;
  captureEnd(nullptr, &said);
  if (said.find("starting over") != std::string::npos) probe((std::string("averaging-restarted: ")+driverName[drv]).c_str());
  const char *name = driverName[drv];
  CHECK(nq == (int)q.size(), "score-queries", "%s: %d scores for %zu pairs", name, nq, q.size());
  std::map<std::pair<int, int>, std::vector<double>> got;
  for (int i = 0; i < nq; i++) {
    int a = -1, c = -1;
    for (size_t k = 0; k < x.size(); k++) if (x[k] == qs[i]->n1) a = (int)k;
    for (size_t k = 0; k < y.size(); k++) if (y[k] == qs[i]->n2) c = (int)k;
    if (drv <= D_GIBBSK) CHECK(a == q[i].first && c == q[i].second, "score-queries", "%s: query %d asked for %d-%d, points to %d-%d afterwards", name, i, q[i].first, q[i].second, a, c);
    CHECK(a >= 0 && c >= 0, "score-queries", "%s: query %d points to a node outside the network", name, i);
    std::vector<double> s;
    if (sk) for (int k = 0; k < d.K; k++) s.push_back(sk[k][i]);
    else { double one = s1 ? s1[i] : qs[i]->score; s = {1 - one, one}; }
    double sum = 0;
    for (double p : s) { CHECK(p > 0 && (p < 1 || (d.K == 1 && p < 1 + 1e-6)), "score-range", "%s: a probability of pair %d-%d is %g", name, a, c, p); sum += p; }
    CHECK(std::fabs(sum - 1) < 1e-5, "score-sum", "%s: the probabilities of pair %d-%d sum to %.9g", name, a, c, sum);
    if (drv > D_GIBBSK) {
      if (drv == D_LSK && a > c) std::swap(a, c);
      CHECK(got.insert({{a, c}, s}).second, "score-queries", "%s: pair %d-%d is scored twice", name, a, c);
    } else S.push_back(s);
  }
  if (drv > D_GIBBSK) for (auto &p : q) { CHECK(got.count(p), "score-queries", "%s: pair %d-%d is not scored", name, p.first, p.second); S.push_back(got[p]); }
  if (b) checkBinet(b, d, "score-input", "after scoring"); else checkKNet(net, d, "score-input", "after scoring");
  for (int i = 0; i < nq; i++) FreeQuery(qs[i]);
  if (qs != own.data()) sim_free(qs);
  if (s1) free_d_vec(s1);
  if (sk) free_d_mat(sk, d.K);
  if (b) RemoveBipart(b); else RemoveGraph(net);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks are still allocated after %s", (unsigned long long)heapLiveBlocks(), name);
  return S;
}
static Data genFor(int drv, int m1, int m2, int big = 0) {
  int K = drv == D_MC2 || drv == D_CONFLICT ? 2 : 1 + (int)choose(choose(4) ? 4 : 7);
  return genData(drv != D_LSK, m1, m2, K, choose(2), big);
}
static std::vector<std::pair<int, int>> genQueries(const Data &d, int maxQ) {
  std::vector<std::pair<int, int>> q;
  int n = range(1, maxQ);
  for (int i = 0; i < n; i++) {
    std::pair<int, int> p((int)choose(d.n1), (int)choose(d.n2));
    if (!d.e.empty() && choose(2)) { auto &e = d.e[choose((uint32_t)d.e.size())]; p = {e.a, e.b}; }
    q.push_back(p);
  }
  std::string t;
  for (auto &p : q) t += " " + std::to_string(p.first) + "-" + std::to_string(p.second);
  op("queries%s", t.c_str());
  return q;
}
static Model modelOf(const Data &d, int drv) {
  Model m;
  m.d = &d;
  m.two = drv == D_MC2 || drv == D_CONFLICT;
  return m;
}
SCENARIO(P14, ratings_samples, 2) {
  heapRandom();
  int drv = (int)choose(ND);
  Data d = genFor(drv, drv == D_LSK ? 5 : 4, 4);
  std::vector<std::pair<int, int>> q;
  if (drv <= D_GIBBSK) q = genQueries(d, choose(20) == 1 ? 60 : 4);
  int nIter = 1 + (int)choose(2), decor = (int)choose(3);
  gsl_rng *gen = choose(4) == 1 ? newRng(GRID, seed64()) : fairRng();
  op("%s, %d sample(s), decorrelation %d", driverName[drv], nIter, decor);
  Scores S = predict(drv, d, q, nIter, decor, gen, "qqv"[choose(3)], false);
  Data clean = drv <= D_GIBBSK ? without(d, q) : d;
  Model m = modelOf(clean, drv);
  Space sp(d);
  std::vector<std::vector<double>> cand(sp.size());
  std::set<std::vector<long>> known;
  std::vector<std::vector<double>> uniq;
  for (size_t i = 0; i < sp.size(); i++) {
    std::vector<double> v;
    std::vector<long> key;
    for (auto &p : q) for (double s : m.score(sp.a(i), sp.b(i), p.first, p.second)) { v.push_back(s); key.push_back(lround(s * 1e9)); }
    if (known.insert(key).second) uniq.push_back(v);
  }
  std::vector<double> flat;
  for (auto &s : S) for (double v : s) flat.push_back(v);
  double best = 1e9;
  for (size_t a = 0; a < uniq.size() && best > 2e-6; a++) for (size_t b = a; b < uniq.size(); b++) {
    if (nIter == 1 && b > a) break;
    double dd = 0;
    for (size_t i = 0; i < flat.size() && dd < best; i++) dd = std::max(dd, std::fabs(flat[i] - (uniq[a][i] + uniq[b][i]) / 2));
    best = std::min(best, dd);
  }
  CHECK(best <= 2e-6, "score-value", "%s: no choice of %d grouping(s) of the observed ratings gives these probabilities (nearest differs by %g)", driverName[drv], nIter, best);
  probe(driverName[drv]);
  nontrivial();
  uint64_t h = drv;
  for (double x : flat) h = mix(h, (uint64_t)(x * 1e6));
  state(h);
}
SCENARIO(P14, ratings_average, 1) {
  int drv = (int)choose(ND);
  Data d = genFor(drv, drv == D_LSK ? 4 : 3, 3);
  std::vector<std::pair<int, int>> q;
  if (drv <= D_GIBBSK) q = genQueries(d, 2);
  gsl_rng *gen = fairRng();
  int R = 60, decor = 1 + (int)choose(3);
  op("%s average over %d predictions, decorrelation %d", driverName[drv], R, decor);
  if (drv > D_GIBBSK) {
    for (int i = 0; i < d.n1; i++) for (int j = drv == D_LSK ? i + 1 : 0; j < (d.bip ? d.n2 : d.n1); j++) q.push_back({i, j});
  }
  Data clean = drv <= D_GIBBSK ? without(d, q) : d;
  Model m = modelOf(clean, drv);
  Space sp(d);
  Scores ex(q.size(), std::vector<double>(d.K, 0)), ex2 = ex;
  double Z = 0;
  // With at most two nodes per side and equal energies no move is ever rejected: the chain alternates.
  bool alternates = drv != D_GIBBSK && d.n1 <= 2 && d.n2 <= 2;
  for (size_t i = 0; i < sp.size(); i++) if (std::fabs(m.H(sp.a(i), sp.b(i), true) - m.H(sp.a(0), sp.b(0), true)) > 1e-9) alternates = false;
  if (alternates) probe("alternating-chain");
  for (size_t i = 0; i < sp.size(); i++) {
    double w = exp(-m.H(sp.a(i), sp.b(i), false));
    Z += w;
    for (size_t j = 0; j < q.size(); j++) {
      auto s = m.score(sp.a(i), sp.b(i), q[j].first, q[j].second);
      for (int k = 0; k < d.K; k++) { ex[j][k] += w * s[k]; ex2[j][k] += w * s[k] * s[k]; }
    }
  }
  std::vector<double> mu, sd;
  for (size_t j = 0; j < q.size(); j++) for (int k = 0; k < d.K; k++) {
    mu.push_back(ex[j][k] / Z);
    sd.push_back(sqrt(std::max(0.0, ex2[j][k] / Z - mu.back() * mu.back())));
  }
  sampler::meanCheck(mu, sd, [&](int R) {
    std::vector<double> got(mu.size(), 0);
    for (int t = 0; t < R; t++) {
      Scores s = predict(drv, d, q, 1, decor, gen, 'q', false);
      size_t x = 0;
      for (auto &v : s) for (double y : v) got[x++] += y / R;
    }
    return got;
  }, R, alternates ? "score-average-alternating" : "score-average", driverName[drv]);
  probe(driverName[drv]);
  nontrivial();
}
// Hundreds of nodes and hardly a rating: the energy falls so far that the averaging starts over. Every sample gives
// (n_k + 1) / (n + K) with counts that cannot exceed those of all ratings.
SCENARIO(P14, ratings_large, 1) {
  if (choose(10)) skip("rarely");
  static const int kinds[] = {D_MC2, D_MCK, D_CONFLICT, D_MC2, D_MCK, D_GIBBSK};
  int drv = kinds[choose(6)];
  Data d;
  d.bip = drv != D_LSK;
  d.K = drv == D_MC2 || drv == D_CONFLICT ? 2 : 1 + (int)choose(2);
  d.n1 = range(260, 330);
  if (d.bip) { d.n2 = range(1, 4); if (choose(2)) std::swap(d.n1, d.n2); }
  int few = (int)choose(4);
  std::set<std::pair<int, int>> used;
  std::vector<int> cnt(d.K, 0);
  for (int i = 0; i < few; i++) {
    int a = (int)choose(d.n1), b = (int)choose(d.bip ? d.n2 : d.n1);
    if (!d.bip && a == b) continue;
    if (!used.insert({d.bip ? a : std::min(a, b), d.bip ? b : std::max(a, b)}).second) continue;
    d.e.push_back({a, b, (int)choose(d.K)});
  }
  for (int i = 0; i < d.n1; i++) d.l1.push_back("u" + std::to_string(i));
  for (int i = 0; i < d.n2; i++) d.l2.push_back("v" + std::to_string(i));
  std::vector<std::pair<int, int>> q;
  if (drv <= D_GIBBSK) q = genQueries(d, 6);
  int nIter = 1 + (int)choose(4);
  op("%s of %d and %d nodes with %zu ratings in %d states, %d sample(s)", driverName[drv], d.n1, d.n2, d.e.size(), d.K, nIter);
  Scores S = predict(drv, d, q, nIter, 1, fairRng(), "qvv"[choose(3)], false);
  Data clean = drv <= D_GIBBSK ? without(d, q) : d;
  for (auto &e : clean.e) cnt[e.r]++;
  int all = (int)clean.e.size();
  for (size_t i = 0; i < S.size(); i++)
    for (int k = 0; k < d.K; k++) {
      double lo = 1.0 / (all - cnt[k] + d.K), hi = (cnt[k] + 1.0) / (cnt[k] + d.K);
      CHECK(S[i][k] >= lo - 1e-5 && S[i][k] <= hi + 1e-5, "score-value", "%s: probability %g of state %d for pair %d-%d, %d of %d ratings have it: should be between %g and %g",
            driverName[drv], S[i][k], k, q[i].first, q[i].second, cnt[k], all, lo, hi);
    }
  probe(driverName[drv]);
  nontrivial();
}
// An inference that takes a poor state for equilibrium, because the draws of its first steps explore little,
// starts averaging over when the energy falls far below: what it reports still averages probabilities.
SCENARIO(P14, ratings_bad_start, 1) {
  if (choose(4)) skip("rarely");
  static const int kinds[] = {D_MC2, D_MCK, D_CONFLICT, D_LSK, D_CONFLICT};
  int drv = kinds[choose(5)];
  Data d;
  d.bip = drv != D_LSK;
  d.K = 2;
  d.n1 = d.bip ? range(28, 32) : range(40, 44);
  d.n2 = d.bip ? range(28, 32) : 0;
  int blocks = range(1, 3);
  std::vector<int> cnt(2, 0);
  for (int i = 0; i < d.n1; i++) for (int j = d.bip ? 0 : i + 1; j < (d.bip ? d.n2 : d.n1); j++) d.e.push_back({i, j, i % blocks == j % blocks});
  for (int i = 0; i < d.n1; i++) d.l1.push_back("u" + std::to_string(i));
  for (int i = 0; i < d.n2; i++) d.l2.push_back("v" + std::to_string(i));
  std::vector<std::pair<int, int>> q;
  if (drv <= D_GIBBSK) q = genQueries(d, 6);
  int nIter = range(30, 120);
  op("%s of %d and %d nodes rated in %d blocks, %d samples", driverName[drv], d.n1, d.n2, blocks, nIter);
  uint64_t quiet = (uint64_t)(d.n1 + d.n2) * range(400, 1600);
  Scores S = predict(drv, d, q, nIter, 1, confinedRng(quiet), "vv"[choose(2)], false);
  Data clean = drv <= D_GIBBSK ? without(d, q) : d;
  for (auto &e : clean.e) cnt[e.r]++;
  int all = (int)clean.e.size();
  for (size_t i = 0; i < S.size(); i++) {
    double sum = 0;
    for (int k = 0; k < 2; k++) {
      double lo = 1.0 / (all - cnt[k] + 2), hi = (cnt[k] + 1.0) / (cnt[k] + 2);
      CHECK(S[i][k] >= lo - 1e-5 && S[i][k] <= hi + 1e-5, "score-value", "%s: probability %g of state %d for pair %d-%d, %d of %d ratings have it: should be between %g and %g",
            driverName[drv], S[i][k], k, q[i].first, q[i].second, cnt[k], all, lo, hi);
      sum += S[i][k];
    }
    CHECK(std::fabs(sum - 1) < 1e-4, "score-value", "%s: the probabilities of pair %d-%d sum to %g", driverName[drv], q[i].first, q[i].second, sum);
  }
  probe(driverName[drv]);
  nontrivial();
}
// The held-out rating: present with one value, with another, or absent.
SCENARIO(P22, held_out, 3) {
  heapRandom();
  int drv = (int)choose(3);
  Data d = genFor(drv, 7, 7);
  auto q = genQueries(d, choose(10) == 1 ? 60 : 4);
  int nIter = range(1, 4), decor = 1 + (int)choose(2);
  uint64_t seed = seed64();
  Scores first;
  int variants = 2 + (int)choose(2);
  bool differ = false;
  for (int v = 0; v < variants; v++) {
    // keep every link in place except that the queried ones change value or disappear
    Data x = d;
    x.e.clear();
    for (auto e : d.e) {
      bool held = false;
      for (auto &p : q) if (p.first == e.a && p.second == e.b) held = true;
      if (held && v) {
        differ = true;
        int c = (int)choose(d.K + 1);
        if (c == 0) continue;
        e.r = c - 1;
      }
      x.e.push_back(e);
    }
    if (v && choose(2)) dirtyStack((int)choose(4));
    Scores s = predict(drv, x, q, nIter, decor, newRng(FAIR, seed), 'q', false);
    if (!v) { first = s; continue; }
    for (size_t i = 0; i < s.size(); i++) for (int k = 0; k < d.K; k++)
      CHECK(std::fabs(s[i][k] - first[i][k]) < 1e-9, "held-out-influence", "%s: probability of value %d for the held-out pair %d-%d is %.9g or %.9g depending on held-out ratings", driverName[drv], k, q[i].first, q[i].second, first[i][k], s[i][k]);
  }
  probe(driverName[drv]);
  if (differ) nontrivial();
}
// The set of unobserved pairs, removal of one rating value, and queries read from a file.
SCENARIO(P22, unobserved, 1) {
  heapRandom();
  Data d = genFor(D_MCK, 6, 6, 60);
  if (d.e.empty()) skip("no ratings");
  binet *b = buildBinet(d);
  int removed = -1;
  if (choose(2)) {
    removed = (int)choose(d.K);
    op("remove ratings %d", removed);
    RemoveRatings(b, removed);
    Data x = d;
    x.e.clear();
    for (auto &e : d.e) if (e.r != removed) x.e.push_back(e);
    d = x;
    checkBinet(b, d, "ratings-removed", "after removing one rating value");
  }
  int n = CountUnobserved(b);
  CHECK(n == d.n1 * d.n2 - (int)d.e.size(), "unobserved-set", "%d unobserved pairs counted, there are %d", n, d.n1 * d.n2 - (int)d.e.size());
  query **u = BuildUnobservedSet(b);
  auto R = table(d);
  std::set<std::pair<int, int>> seen;
  for (int i = 0; i < n; i++) {
    int x = u[i]->n1->num, y = u[i]->n2->num;
    CHECK(x >= 0 && x < d.n1 && y >= 0 && y < d.n2 && R[x][y] < 0 && seen.insert({x, y}).second, "unobserved-set", "pair %d-%d is listed as unobserved", x, y);
    FreeQuery(u[i]);
  }
  sim_free(u);
  // queries from a file, with names not seen before
  std::string txt;
  std::vector<std::pair<std::string, std::string>> want;
  int nq = range(1, 5), fresh = 0;
  Data e = d;
  for (int i = 0; i < nq; i++) {
    std::string a = d.l1[choose(d.n1)], c = d.l2[choose(d.n2)];
    if (choose(3) == 1) { a = "new" + std::to_string(choose(2)); fresh++; }
    if (choose(3) == 1) { c = "new" + std::to_string(choose(2)); fresh++; }
    want.push_back({a, c});
    txt += a + " " + c + "\n";
    if (std::find(e.l1.begin(), e.l1.end(), a) == e.l1.end()) { e.l1.push_back(a); e.n1++; }
    if (std::find(e.l2.begin(), e.l2.end(), c) == e.l2.end()) { e.l2.push_back(c); e.n2++; }
  }
  op("query file %s", txt.c_str());
  disk["q.txt"].data = txt;
  FaultPlan p;
  static const int chunks[] = {0, 1, 3, 7};
  p.readChunk = chunks[choose(4)];
  setPlan(p);
  captureBegin();
  FILE *f = openMem("q.txt", "r");
  query **qs = ReadQueries(f, nq, b);
  fclose(f);
  captureEnd(nullptr, nullptr);
  for (int i = 0; i < nq; i++) {
    CHECK(want[i].first == qs[i]->n1->label && want[i].second == qs[i]->n2->label, "query-file", "query %d reads %s %s, should be %s %s", i, qs[i]->n1->label, qs[i]->n2->label, want[i].first.c_str(), want[i].second.c_str());
    bool in1 = false, in2 = false;
    for (node_gra *x = b->net1->next; x; x = x->next) in1 |= x == qs[i]->n1;
    for (node_gra *x = b->net2->next; x; x = x->next) in2 |= x == qs[i]->n2;
    CHECK(in1 && in2, "query-file", "query %d refers to a node that is not on its side of the network", i);
    FreeQuery(qs[i]);
  }
  sim_free(qs);
  checkBinet(b, e, "query-file", "after reading queries");
  RemoveBipart(b);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks are still allocated", (unsigned long long)heapLiveBlocks());
  if (fresh) probe("unseen-name-in-query");
  nontrivial();
}
SCENARIO(P23, ratings_ends, 2) {
  heapRandom();
  int drv = (int)choose(ND);
  bool big = choose(5) == 1;
  Data d = genFor(drv, big ? 14 : 6, big ? 14 : 6);
  std::vector<std::pair<int, int>> q;
  if (drv <= D_GIBBSK) q = genQueries(d, 3);
  int nIter = range(1, 4), decor = choose(2) ? -1 : (int)choose(3);
  op("%s, %d samples, decorrelation %d", driverName[drv], nIter, decor);
  predict(drv, d, q, nIter, decor, fairRng(), "qvd"[choose(3)], true);
  probe(driverName[drv]);
  nontrivial();
}
}  // namespace ratings
