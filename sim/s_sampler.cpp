// P11/P12/P13: the block-model samplers. Steps are driven one by one; after each the tracked energy,
// the caches and the groups are compared with a computation from scratch.
#include "sampler.h"
using namespace sim;
using namespace model;
namespace sampler {
const Kind kinds[NKIND] = {
  {"link", STD, false}, {"and", AND, false}, {"or", OR, false}, {"degeneracy", OD, false},
  {"gibbs-link", STD, true}, {"gibbs-and", AND, true}, {"gibbs-or", OR, true}, {"gibbs-degeneracy", OD, true}, {"gibbs-sparse", SPARSE, true}};
static double lnchoose(double r, double l) { return lgamma(r + 1) - lgamma(l + 1) - lgamma(r - l + 1); }
static double harm(int n) { double h = 0; for (int i = 1; i <= n; i++) h += 1.0 / i; return h; }
// log of the number of group orderings of the multi-block models (1, 1, 3, 15, 113, ...)
static const double DEG[] = {0.0, 0.0, 1.09861228866811, 2.7080502011, 4.7273878187, 7.0501225203, 9.6241042829, 12.4123914513, 15.3873302965, 18.5278179713, 21.8171996489, 25.2419286042, 28.7907695492, 32.454252335, 36.2242817678, 40.0938550791, 44.0568528741, 48.1078805122, 52.242145427, 56.4553607847, 60.7436687672, 65.1035787022, 69.5319165992, 74.0257835705, 78.5825212602, 83.199682859, 87.8750086171, 92.6064050134, 97.3919269199, 102.229762241, 107.118218613, 112.055711822, 117.040755682, 122.07195314, 127.147988427, 132.267620118, 137.429674949, 142.633042317, 147.876669353, 153.1595565, 158.480753534, 163.839355975, 169.234501835, 174.665368673, 180.131170913, 185.631157403, 191.164609186, 196.730837457, 202.329181691, 207.959007927, 213.619707184, 219.310694002, 225.0314051, 230.781298124, 236.559850499, 242.366558357, 248.200935543, 254.062512691, 259.950836364, 265.865468252, 271.805984418, 277.771974602, 283.763041565, 289.77880047, 295.818878313, 301.882913378, 307.970554727, 314.081461726, 320.215303595, 326.371758979};
double Model::pair(int r, int l) const {
  switch (kind) {
    case SPARSE: return lgamma(r + a + b) - lgamma(l + a) - lgamma(r - l + b);
    case AND: return log(r + 1.0) + lnchoose(r, l) - log(harm(r + 1) - harm(l));
    case OR: return log(r + 1.0) + lnchoose(r, l) - log(harm(r + 1) - harm(r - l));
    default: return log(r + 1.0) + lnchoose(r, l);
  }
}
double Model::score(int r, int l) const {
  switch (kind) {
    case SPARSE: return (l + a) / (r + a + b);
    case AND: return (l + 1) * (harm(r + 2) - harm(l + 1)) / ((r + 2) * (harm(r + 1) - harm(l)));
    case OR: return 1 - (r - l + 1) * (harm(r + 2) - harm(r - l + 1)) / ((r + 2) * (harm(r + 1) - harm(r - l)));
    default: return (l + 1.0) / (r + 2.0);
  }
}
double Model::H(const std::vector<int> &lab, bool labelled) const {
  int n = g->n;
  std::vector<int> size(n, 0);
  std::vector<std::vector<int>> L(n, std::vector<int>(n, 0));
  for (int i = 0; i < n; i++) size[lab[i]]++;
  for (auto &e : g->e) { int x = lab[e.a], y = lab[e.b]; L[x][y]++; if (x != y) L[y][x]++; }
  double h = 0;
  int ng = 0;
  for (int i = 0; i < n; i++) {
    if (size[i]) ng++;
    for (int j = i; j < n; j++) {
      if (kind != SPARSE && !(size[i] && size[j])) continue;
      int r = i == j ? size[i] * (size[i] - 1) / 2 : size[i] * size[j];
      h += pair(r, L[i][j]);
    }
  }
  if (kind != SPARSE) h += linC * ng;
  if (kind == AND || kind == OR || kind == OD) h -= DEG[ng];
  if (labelled) h -= lgamma(n - ng + 1);
  return h;
}
void Chain::init(const Graph &gr, const Kind &k, double linC, double a, double b, const std::vector<int> &lab, int lists) {
  g = gr;
  kind = k;
  m.g = &g;
  m.kind = k.kind;
  m.linC = linC;
  m.a = a;
  m.b = b;
  int n = g.n;
  net = legacy::buildNet(g);
  nlist.assign(n, nullptr);
  glist.assign(n, nullptr);
  group *last = part = CreateHeaderGroup();
  for (node_gra *p = net->next; p; p = p->next) {
    nlist[p->num] = p;
    last = glist[p->num] = CreateGroup(last, p->num);
  }
  lc = lists;
  LC = InitializeFastLogChoose(lc);
  lf = std::max(2, lists);
  LF = InitializeFastLogFact(lf);
  harmN = n * (n - 1) / 2 + 3;
  HL = InitializeHarmonicList(harmN);
  lg = lists;
  GA = InitializeFastLogGamma(lg, a);
  GB = InitializeFastLogGamma(lg, b);
  GAB = InitializeFastLogGamma(lg, a + b);
  G2G = allocate_i_mat(n, n);
  n2g = allocate_i_vec(n);
  ResetNetGroup(net);
  for (int i = 0; i < n; i++) AddNodeToGroup(glist[lab[i]], nlist[i]);
  cache();
}
void Chain::cache() {
  int n = g.n;
  for (int i = 0; i < n; i++) {
    G2G[i][i] = glist[i]->inlinks;
    for (int j = i + 1; j < n; j++) G2G[i][j] = G2G[j][i] = NG2GLinks(glist[i], glist[j]);
    n2g[i] = 0;
  }
  H = energy();
}
// Puts every node where `lab` says (for restarts from another state).
void Chain::place(const std::vector<int> &lab) {
  for (int i = 0; i < g.n; i++) if (nlist[i]->inGroup != lab[i]) MoveNode(nlist[i], glist[nlist[i]->inGroup], glist[lab[i]]);
  cache();
}
double Chain::energy() {
  switch (kind.kind) {
    case STD: return PartitionH(part, m.linC);
    case AND: return PartitionHMB(part, m.linC, HL);
    case OR: return ORPartitionHMB(part, m.linC, HL);
    case OD: return PartitionHMB_OD(part, m.linC, HL);
    default: return SparsePartitionH(part, m.a, m.b);
  }
}
void Chain::step(gsl_rng *gen) {
  int n = g.n;
  node_gra **nl = nlist.data();
  group **gl = glist.data();
  if (!kind.gibbs) switch (kind.kind) {
    case STD: LinkScoreMCStep(1, &H, m.linC, nl, gl, part, n, G2G, n2g, LC, lc, LF, lf, gen); break;
    case AND: LSMCStepMB(1, &H, m.linC, nl, gl, part, n, G2G, n2g, LC, lc, LF, lf, HL, gen); break;
    case OR: ORLSMCStepMB(1, &H, m.linC, nl, gl, part, n, G2G, n2g, LC, lc, LF, lf, HL, gen); break;
    default: LSMCStepMB_OD(1, &H, m.linC, nl, gl, part, n, G2G, n2g, LC, lc, LF, lf, HL, gen); break;
  } else switch (kind.kind) {
    case STD: GibbsLinkScoreStep(&H, m.linC, nl, gl, part, n, G2G, n2g, LC, lc, LF, lf, gen); break;
    case AND: GibbsLinkScoreStepMB(&H, m.linC, nl, gl, part, n, G2G, n2g, LC, lc, LF, lf, HL, gen); break;
    case OR: ORGibbsLinkScoreStepMB(&H, m.linC, nl, gl, part, n, G2G, n2g, LC, lc, LF, lf, HL, gen); break;
    case OD: GibbsLinkScoreStepMB_OD(&H, m.linC, nl, gl, part, n, G2G, n2g, LC, lc, LF, lf, HL, gen); break;
    default: SparseGibbsLinkScoreStep(&H, nl, gl, part, n, G2G, n2g, GA, GB, GAB, lg, LF, lf, m.a, m.b, gen); break;
  }
}
std::vector<int> Chain::labels() { return legacy::labelsOf(net, g.n); }
void Chain::verify(const char *when) {
  std::vector<int> lab = labels();
  for (int i = 0; i < g.n; i++) CHECK(lab[i] >= 0 && lab[i] < g.n, "sampler-groups", "%s (%s): node %d is in group %d", when, kind.name, i, lab[i]);
  legacy::recountGroups(part, net, g, &lab, "sampler-groups", when);
  std::vector<std::vector<int>> L(g.n, std::vector<int>(g.n, 0));
  for (auto &e : g.e) { int x = lab[e.a], y = lab[e.b]; L[x][y]++; if (x != y) L[y][x]++; }
  for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++)
    CHECK(G2G[i][j] == L[i][j], "sampler-cache", "%s (%s): %d links recorded between groups %d and %d, there are %d; grouping %s", when, kind.name, G2G[i][j], i, j, L[i][j], show(lab).c_str());
  double h = m.H(lab), lib = energy(), tol = 1e-6 * std::max(1.0, std::fabs(h));
  CHECK(std::fabs(lib - h) <= tol, "sampler-energy", "%s (%s): the library computes energy %.10g, the definition gives %.10g; grouping %s", when, kind.name, lib, h, show(lab).c_str());
  CHECK(std::fabs(H - h) <= tol, "sampler-energy", "%s (%s): tracked energy %.10g, the grouping has %.10g; grouping %s", when, kind.name, H, h, show(lab).c_str());
}
void Chain::done() {
  int n = g.n;
  RemovePartition(part);
  RemoveGraph(net);
  free_i_mat(G2G, n);
  free_i_vec(n2g);
  FreeFastLogChoose(LC, lc);
  FreeFastLogFact(LF);
  FreeHarmonicList(HL);
  FreeFastLogGamma(GA);
  FreeFastLogGamma(GB);
  FreeFastLogGamma(GAB);
}
static double pickLinC() { static const double v[] = {0, 0, 0, 0.7, -0.4, 2.5}; return v[choose(6)]; }
std::vector<int> startLabels(int n) {
  std::vector<int> v(n);
  switch (choose(4)) {
    case 0: for (int i = 0; i < n; i++) v[i] = i; break;
    case 1: { int k = (int)choose(n); for (int i = 0; i < n; i++) v[i] = k; break; }
    case 2: { int a = (int)choose(n), b = (int)choose(n); for (int i = 0; i < n; i++) v[i] = choose(2) ? a : b; break; }
    default: for (int i = 0; i < n; i++) v[i] = (int)choose(n);
  }
  return v;
}
static void history(bool gibbs) {
  heapRandom();
  const Kind &k = gibbs ? kinds[4 + choose(5)] : kinds[choose(4)];
  Graph g = genGraph(2, choose(6) == 1 ? 24 : 10, false, true, 50);
  double a = k.kind == SPARSE ? (1 + choose(6)) * 0.15 : 0.5, b = 0.5, linC = k.kind == SPARSE ? 0 : pickLinC();
  std::vector<int> start = startLabels(g.n);
  static const int lists[] = {200, 2, 5, 40};
  int ls = lists[choose(4)];
  gsl_rng *gen = anyRng(g.n);
  op("sampler %s linC=%g a=%g tables=%d start %s", k.name, linC, a, ls, show(start).c_str());
  dirtyStack((int)choose(4));
  Chain c;
  c.init(g, k, linC, a, b, start, ls);
  c.verify("at the start");
  int nsteps = range(1, 12), changes = 0;
  bool one = false;
  for (int t = 0; t < nsteps; t++) {
    std::vector<int> before = c.labels();
    std::set<int> u(before.begin(), before.end());
    if (u.size() == 1) one = true;
    if (choose(3) == 1) dirtyStack((int)choose(4));
    budget(4000000 + 60000ull * g.n * g.n * g.n);
    c.step(gen);
    noBudget();
    std::vector<int> after = c.labels();
    if (before != after) changes++;
    op("step %d: %s", t, show(after).c_str());
    c.verify("after a step");
    uint64_t h = 11;
    for (int x : after) h = mix(h, x);
    state(h);
  }
  if (one) probe("step-from-a-single-group");
  probe(k.name);
  if (changes) nontrivial();
  c.done();
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks are still allocated after everything was freed", (unsigned long long)heapLiveBlocks());
}
SCENARIO(P11, sbm_history, 3) { history(false); }
SCENARIO(P12, sbm_history, 3) { history(true); }

// All set partitions of n nodes, as restricted growth strings.
std::vector<std::vector<int>> setPartitions(int n) {
  std::vector<std::vector<int>> out;
  std::vector<int> v(n, 0);
  std::function<void(int, int)> rec = [&](int i, int mx) {
    if (i == n) { out.push_back(v); return; }
    for (int k = 0; k <= mx + 1; k++) { v[i] = k; rec(i + 1, std::max(mx, k)); }
  };
  rec(0, -1);
  return out;
}
int canonical(const std::vector<int> &lab, const std::vector<std::vector<int>> &all) {
  std::vector<int> m(lab.size() + 1, -1), v(lab.size());
  int nx = 0;
  for (size_t i = 0; i < lab.size(); i++) { if (m[lab[i]] < 0) m[lab[i]] = nx++; v[i] = m[lab[i]]; }
  return (int)(std::lower_bound(all.begin(), all.end(), v) - all.begin());
}
// Upper tail of chi-square by the regularised incomplete gamma function (continued fraction / series).
double chi2tail(double x, int df) {
  double a = df / 2.0, z = x / 2;
  if (z <= 0) return 1;
  if (z < a + 1) {
    double sum = 1 / a, del = sum, ap = a;
    for (int i = 0; i < 2000; i++) { ap++; del *= z / ap; sum += del; if (del < sum * 1e-15) break; }
    return std::max(0.0, 1 - sum * exp(-z + a * log(z) - lgamma(a)));
  }
  double bb = z + 1 - a, c = 1e300, d = 1 / bb, h = d;
  for (int i = 1; i < 2000; i++) {
    double an = -i * (i - a);
    bb += 2;
    d = an * d + bb; if (std::fabs(d) < 1e-300) d = 1e-300;
    c = bb + an / c; if (std::fabs(c) < 1e-300) c = 1e-300;
    d = 1 / d;
    double del = d * c;
    h *= del;
    if (std::fabs(del - 1) < 1e-15) break;
  }
  return exp(-z + a * log(z) - lgamma(a)) * h;
}
// Chi-square tail probability of observed counts against probabilities, pooling rare cells.
static double chiP(const std::vector<double> &p, const std::vector<double> &obs, int R) {
  double x = 0, pe = 0, po = 0;
  int cells = 0;
  for (size_t i = 0; i < p.size(); i++) {
    double e = p[i] * R;
    if (e < 10) { pe += e; po += obs[i]; continue; }
    x += (obs[i] - e) * (obs[i] - e) / e;
    cells++;
  }
  if (pe >= 10) { x += (po - pe) * (po - pe) / pe; cells++; }
  else if (cells && po > pe + 12 * sqrt(pe + 1) + 20) return 0;
  return cells < 2 ? 1 : chi2tail(x, cells - 1);
}
// `sample(R)` gives the state counts of R fresh chains. A suspicion has to be confirmed by a
// larger independent sample before it counts.
void chiCheck(const std::vector<double> &p, const std::function<std::vector<double>(int)> &sample, int R, const char *cls, const char *what) {
  double t = chiP(p, sample(R), R);
  eval();
  if (t > 1e-4) return;
  probe("confirmation-sample");
  double t2 = chiP(p, sample(10 * R), 10 * R);
  CHECK(t2 > 1e-10, cls, "%s: %d chains started in the posterior do not end in it (p=%.2g, confirmed on %d chains with p=%.2g)", what, R, t, 10 * R, t2);
}
SCENARIO(P13, sbm_invariance, 3) {
  const Kind &k = kinds[choose(NKIND)];
  Graph g = genGraph(2, 4, false, true);
  double a = k.kind == SPARSE ? (1 + choose(6)) * 0.15 : 0.5, b = 0.5, linC = k.kind == SPARSE ? 0 : pickLinC();
  int steps = range(1, 3), R = 1500, n = g.n;
  gsl_rng *gen = fairRng();
  Prng pick(seed64());
  op("invariance %s linC=%g a=%g steps=%d chains=%d", k.name, linC, a, steps, R);
  auto all = setPartitions(n);
  Chain c;
  std::vector<int> lab(n, 0);
  c.init(g, k, linC, a, b, lab, 60);
  std::vector<double> p;
  double Z = 0;
  for (auto &v : all) { p.push_back(exp(-c.m.H(v, false))); Z += p.back(); }
  for (auto &x : p) x /= Z;
  auto sample = [&](int R) {
  std::vector<double> obs(all.size(), 0);
  for (int rep = 0; rep < R; rep++) {
    double u = pick.u();
    size_t s = 0;
    while (s + 1 < p.size() && u >= p[s]) u -= p[s++];
    std::vector<int> perm(n);
    for (int i = 0; i < n; i++) perm[i] = i;
    for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[pick.below(i + 1)]);
    for (int i = 0; i < n; i++) lab[i] = perm[all[s][i]];
    c.place(lab);
    for (int t = 0; t < steps; t++) c.step(gen);
    obs[canonical(c.labels(), all)]++;
  }
  return obs; };
  probe(k.name);
  chiCheck(p, sample, R, "sampler-bias", k.name);
  nontrivial();
  c.done();
}
}  // namespace sampler
