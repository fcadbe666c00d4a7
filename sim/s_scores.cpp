// P14/P23: whole inferences (thermalisation, sampling, averaging).
#include "sampler.h"
using namespace sim;
using namespace model;
namespace sampler {
typedef std::vector<std::vector<double>> Mat;
static double **runDriver(const Kind &k, node_gra *net, double linC, int nIter, gsl_rng *gen, char v) {
  if (!k.gibbs) switch (k.kind) {
    case STD: return LinkScore(net, linC, nIter, gen, v);
    case AND: return LinkScoreMB(net, linC, nIter, gen, v);
    case OR: return ORLinkScoreMB(net, linC, nIter, gen, v);
    default: return LinkScoreMB_OD(net, linC, nIter, gen, v);
  }
  switch (k.kind) {
    case STD: return GibbsLinkScore(net, linC, nIter, gen, v);
    case AND: return GibbsLinkScoreMB(net, linC, nIter, gen, v);
    case OR: return ORGibbsLinkScoreMB(net, linC, nIter, gen, v);
    case OD: return GibbsLinkScoreMB_OD(net, linC, nIter, gen, v);
    default: return SparseGibbsLinkScore(net, nIter, gen, v);
  }
}
static Mat scoresOf(const Model &m, const std::vector<int> &lab) {
  int n = m.g->n;
  std::vector<int> size(n, 0);
  Mat L(n, std::vector<double>(n, 0)), S(n, std::vector<double>(n, 0));
  for (int x : lab) size[x]++;
  for (auto &e : m.g->e) { int x = lab[e.a], y = lab[e.b]; L[x][y]++; if (x != y) L[y][x]++; }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) {
    int a = lab[i], b = lab[j];
    int r = a == b ? size[a] * (size[a] - 1) / 2 : size[a] * size[b];
    S[i][j] = m.score(r, (int)L[a][b]);
  }
  return S;
}
// One inference; the score matrix comes back as plain numbers after the common checks.
static Mat infer(const Kind &k, const Graph &g, const Model &m, int nIter, gsl_rng *gen, char v, bool live) {
  node_gra *net = legacy::buildNet(g);
  captureBegin();
  if (live) budget(400000000ull);
  double **s = runDriver(k, net, m.linC, nIter, gen, v);
  noBudget();
  captureEnd(nullptr, nullptr);
  Mat S(g.n, std::vector<double>(g.n, 0));
  for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) if (i != j) {
    S[i][j] = s[i][j];
    CHECK(s[i][j] > 0 && s[i][j] < 1, "score-range", "%s: reliability of %d-%d is %g", k.name, i, j, s[i][j]);
    CHECK(std::fabs(s[i][j] - s[j][i]) < 1e-9, "score-symmetry", "%s: reliability of %d-%d is %.12g one way, %.12g the other", k.name, i, j, s[i][j], s[j][i]);
  }
  free_d_mat(s, g.n);
  legacy::checkNet(net, g, "score-input", "after scoring");
  RemoveGraph(net);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks are still allocated after an inference", (unsigned long long)heapLiveBlocks());
  return S;
}
static void setup(Kind &k, Graph &g, Model &m, int maxN) {
  k = kinds[choose(NKIND)];
  g = genGraph(2, maxN, false, true);
  if (k.kind == SPARSE && (g.e.empty() || (int)g.e.size() == g.n * (g.n - 1) / 2)) k = kinds[0];
  m.g = &g;
  m.kind = k.kind;
  if (k.kind == SPARSE) {
    double d = 2.0 * g.e.size() / (g.n * (g.n - 1.0));
    m.b = .5;
    m.a = d * m.b / (1 - d);
  } else { static const double v[] = {0, 0, 0, 0.7, -0.4}; m.linC = v[choose(5)]; }
}
static double dist(const Mat &a, const Mat &b) {
  double d = 0;
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) if (i != j) d = std::max(d, std::fabs(a[i][j] - b[i][j]));
  return d;
}
// The scores after one or two samples must be the (average of the) scores of one or two groupings.
SCENARIO(P14, sbm_samples, 3) {
  heapRandom();
  Kind k; Graph g; Model m;
  setup(k, g, m, 5);
  int nIter = 1 + (int)choose(2);
  gsl_rng *gen = choose(4) == 1 ? newRng(GRID, seed64()) : fairRng();
  op("%s scores, %d sample(s), linC=%g", k.name, nIter, m.linC);
  Mat S = infer(k, g, m, nIter, gen, 'q', false);
  auto all = setPartitions(g.n);
  std::vector<Mat> cand;
  for (auto &v : all) cand.push_back(scoresOf(m, v));
  double best = 1e9;
  for (size_t a = 0; a < cand.size() && best > 2e-6; a++) {
    if (nIter == 1) { best = std::min(best, dist(S, cand[a])); continue; }
    for (size_t b = a; b < cand.size(); b++) {
      double d = 0;
      for (int i = 0; i < g.n && d < best; i++) for (int j = i + 1; j < g.n; j++) d = std::max(d, std::fabs(S[i][j] - (cand[a][i][j] + cand[b][i][j]) / 2));
      best = std::min(best, d);
    }
  }
  CHECK(best <= 2e-6, "score-value", "%s: no choice of %d grouping(s) gives these scores (nearest differs by %g)", k.name, nIter, best);
  probe(k.name);
  nontrivial();
  uint64_t h = 5;
  for (auto &r : S) for (double x : r) h = mix(h, (uint64_t)(x * 1e6));
  state(h);
}
// Larger networks of clear-cut blocks: nodes of one group have the same scores with everybody else, so the scores of a
// single sample show the grouping they come from, and have to be the scores of that grouping.
SCENARIO(P14, sbm_blocks, 1) {
  if (choose(2)) skip("rarely");
  heapRandom();
  Kind k; Graph g; Model m;
  setup(k, g, m, 4);
  int blocks = range(2, 4), kindOf = (int)choose(3);
  std::vector<int> lab;
  for (int b = 0; b < blocks; b++) for (int s = range(4, 7); s > 0; s--) lab.push_back(b);
  g = Graph();
  g.n = (int)lab.size();
  for (int i = g.n - 1; i > 0; i--) std::swap(lab[i], lab[choose(i + 1)]);
  for (int i = 0; i < g.n; i++) for (int j = 0; j < i; j++) {
    bool same = lab[i] == lab[j];
    if (kindOf == 0 ? same : kindOf == 1 ? !same : same ? lab[i] % 2 : (lab[i] + lab[j]) % 2) g.e.push_back({i, j, 1});
  }
  if (g.e.empty() || (int)g.e.size() == g.n * (g.n - 1) / 2) skip("complete or empty");
  g.label = genLabels(g.n, "n");
  if (k.kind == SPARSE) { double d = 2.0 * g.e.size() / (g.n * (g.n - 1.0)); m.a = d * m.b / (1 - d); }
  op("%s scores of %d nodes in %d blocks of kind %d, linC=%g", k.name, g.n, blocks, kindOf, m.linC);
  // the grouping to expect: nodes with the same neighbours together. Only where it outweighs everything one move or one
  // merge away by far is a sample bound to show it
  std::vector<std::vector<char>> A(g.n, std::vector<char>(g.n, 0));
  for (auto &e : g.e) A[e.a][e.b] = A[e.b][e.a] = 1;
  std::vector<int> mode(g.n, -1);
  int ng = 0;
  for (int i = 0; i < g.n; i++) {
    for (int j = 0; j < i && mode[i] < 0; j++) {
      bool same = true;
      for (int x = 0; x < g.n && same; x++) if (x != i && x != j) same = A[i][x] == A[j][x];
      if (same) mode[i] = mode[j];
    }
    if (mode[i] < 0) mode[i] = ng++;
  }
  double H0 = m.H(mode, false), near = 0;
  for (int i = 0; i < g.n; i++) for (int to = 0; to <= ng && ng < g.n; to++) if (to != mode[i]) { auto v = mode; v[i] = to; near += exp(H0 - m.H(v, false)); }
  for (int a = 0; a < ng; a++) for (int b = 0; b < a; b++) { auto v = mode; for (int &x : v) if (x == a) x = b; for (int &x : v) if (x == ng - 1) x = a; near += exp(H0 - m.H(v, false)); }
  if (!(near < .5)) skip("no clear grouping");
  double best = 1e9;
  int tries = 0;
  for (; tries < 12 && best > 2e-6; tries++) {
    budget(5000000000ull);
    Mat S = infer(k, g, m, 1, fairRng(), 'q', false);
    std::vector<int> c(g.n, -1);
    for (int i = 0; i < g.n; i++) {
      for (int j = 0; j < i && c[i] < 0; j++) {
        bool same = true;
        for (int x = 0; x < g.n && same; x++) if (x != i && x != j) same = std::fabs(S[i][x] - S[j][x]) < 1e-6;
        if (same) c[i] = c[j];
      }
      if (c[i] < 0) c[i] = i;
    }
    best = std::min({best, dist(S, scoresOf(m, c)), dist(S, scoresOf(m, mode))});
  }
  CHECK(best <= 2e-6, "score-value", "%s: the scores of none of %d samples are those of the grouping they show (the nearest differs by %g)", k.name, tries, best);
  probe(("blocks-shown-by-sample-" + std::to_string(tries)).c_str());
  nontrivial();
  state(mix(g.n, g.e.size()));
}
void meanCheck(const std::vector<double> &mu, const std::vector<double> &sd, const std::function<std::vector<double>(int)> &run, int R, const char *cls, const char *what) {
  auto worst = [&](int R, double sig, size_t &at, double &val) {
    std::vector<double> got = run(R);
    bool bad = false;
    for (size_t i = 0; i < mu.size(); i++) {
      eval();
      if (std::fabs(got[i] - mu[i]) > sig * sd[i] / sqrt(R) + 1e-5) { bad = true; at = i; val = got[i]; }
    }
    return bad;
  };
  size_t at = 0;
  double val = 0;
  if (!worst(R, 4.5, at, val)) return;
  probe("confirmation-sample");
  bool bad = worst(10 * R, 8, at, val);
  CHECK(!bad, cls, "%s: score %zu averages %.6f over %d independent runs, the posterior gives %.6f +- %.6f", what, at, val, 10 * R, mu[at], sd[at] / sqrt(10 * R));
}
// Independent inferences reproduce the exact posterior average.
SCENARIO(P14, sbm_average, 1) {
  Kind k; Graph g; Model m;
  setup(k, g, m, 4);
  gsl_rng *gen = fairRng();
  int R = 60;
  op("%s average over %d inferences, linC=%g", k.name, R, m.linC);
  auto all = setPartitions(g.n);
  Mat ex(g.n, std::vector<double>(g.n, 0)), ex2 = ex;
  double Z = 0;
  for (auto &v : all) {
    double w = exp(-m.H(v, false));
    Z += w;
    Mat s = scoresOf(m, v);
    for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) { ex[i][j] += w * s[i][j]; ex2[i][j] += w * s[i][j] * s[i][j]; }
  }
  std::vector<double> mu, sd;
  for (int i = 0; i < g.n; i++) for (int j = i + 1; j < g.n; j++) {
    mu.push_back(ex[i][j] / Z);
    sd.push_back(sqrt(std::max(0.0, ex2[i][j] / Z - mu.back() * mu.back())));
  }
  meanCheck(mu, sd, [&](int R) {
    std::vector<double> got(mu.size(), 0);
    for (int t = 0; t < R; t++) {
      Mat s = infer(k, g, m, 1, gen, 'q', false);
      size_t x = 0;
      for (int i = 0; i < g.n; i++) for (int j = i + 1; j < g.n; j++) got[x++] += s[i][j] / R;
    }
    return got;
  }, R, "score-average", k.name);
  probe(k.name);
  nontrivial();
}
SCENARIO(P23, sbm_ends, 2) {
  heapRandom();
  Kind k; Graph g; Model m;
  setup(k, g, m, choose(4) == 1 ? 24 : 8);
  int nIter = (int)choose(4) + 1;
  op("%s inference, %d samples, linC=%g", k.name, nIter, m.linC);
  infer(k, g, m, nIter, fairRng(), "qvd"[choose(3)], true);
  probe(k.name);
  nontrivial();
}
}  // namespace sampler
