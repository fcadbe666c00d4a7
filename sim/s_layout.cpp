// P20: layouts.
#include "store.h"
#include "progs.h"
#include <array>
using namespace sim;
using namespace model;
namespace {
using store::Net;
typedef std::vector<std::array<double, 3>> Pos;
struct Sheet { Graph g; node_gra *net; std::vector<node_gra *> v; };
node_gra *build(const Graph &g, bool otherOrder) {
  node_gra *net = CreateHeaderGraph();
  std::vector<node_gra *> v;
  for (int i = 0; i < g.n; i++) v.push_back(CreateNodeGraph(net, const_cast<char *>(g.label[i].c_str())));
  for (size_t k = 0; k < g.e.size(); k++) {
    auto &e = g.e[otherOrder ? g.e.size() - 1 - k : k];
    AddAdjacency(v[e.a], v[e.b], 0, 0, e.w, 0);
    AddAdjacency(v[e.b], v[e.a], 0, 0, e.w, 0);
  }
  return net;
}
// draws with enough different values for all points to differ
gsl_rng *wideRng(uint64_t seed, int m) { static const RngMode ms[] = {FAIR, LOWISH, HIGHISH}; return newRng(ms[m % 3], seed); }
bool near(double a, double b, double scale) { return std::fabs(a - b) <= 1e-9 * std::max(1., scale); }
// pair sums over everything the method counts
void reference(const Graph &g, const Pos &x, int D, int nb, const std::vector<std::array<int, 3>> &cell, std::vector<std::array<double, 3>> &F, double &E, double &mag) {
  int n = g.n;
  F.assign(n, {0, 0, 0});
  E = 0; mag = 0;
  double lo[3], hi[3], ext = 0;
  for (int d = 0; d < D; d++) {
    lo[d] = 1e5; hi[d] = -1e5;
    for (auto &p : x) { lo[d] = std::min(lo[d], p[d]); hi[d] = std::max(hi[d], p[d]); }
    ext += hi[d] - lo[d];
  }
  double cut = ext / D / nb, eps = std::sqrt((double)n) / 1e4;
  for (auto &e : g.e) {
    double r2 = 0;
    for (int d = 0; d < D; d++) {
      double f = e.w * (x[e.b][d] - x[e.a][d]);
      r2 += (x[e.b][d] - x[e.a][d]) * (x[e.b][d] - x[e.a][d]);
      F[e.a][d] += f; F[e.b][d] -= f; mag += std::fabs(f);
    }
    E += e.w * r2 / 2;
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) {
    double r2 = 0;
    bool adj = true;
    for (int d = 0; d < D; d++) { r2 += (x[i][d] - x[j][d]) * (x[i][d] - x[j][d]); adj &= std::abs(cell[i][d] - cell[j][d]) <= 1; }
    double r = std::sqrt(r2);
    if (!adj || (nb > 2 && !(r < cut))) continue;
    E += 1. / n / std::sqrt(r2 + eps);
    for (int d = 0; d < D; d++) { double f = 1. / n / (r2 + eps) * (x[i][d] - x[j][d]) / r; F[i][d] += f; F[j][d] -= f; mag += std::fabs(f); }
  }
}
SCENARIO(P20, forces, 4) {
  heapRandom();
  Graph g = genGraph(1, choose(3) == 1 ? 30 : 9, choose(2), true);
  int D = 2 + (int)choose(2), nb = choose(12) == 1 ? range(6, 9) : range(1, 5), n = g.n;
  op("forces in %dD with %d boxes per side", D, nb);
  node_gra *net = build(g, false);
  auto v = store::nodes(net);
  Prng r(seed64());
  Pos x(n);
  double sx[3];
  for (auto &s : sx) s = choose(3) == 1 ? range(1, 30) / 4. : 1;
  int shape = (int)choose(3);
  for (int i = 0; i < n; i++) {
    for (int d = 0; d < 3; d++) x[i][d] = sx[d] * (shape == 1 ? r.u() * r.u() * r.u() : r.u()) - (shape == 2 ? .7 : 0);
    v[i]->coorX = x[i][0]; v[i]->coorY = x[i][1]; v[i]->coorZ = x[i][2];
  }
  std::vector<int> perm(n);
  for (int i = 0; i < n; i++) perm[i] = i;
  if (choose(2)) for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[choose(i + 1)]);
  for (int i = 0; i < n; i++) v[i]->trans = perm[i];
  double lo[3], hi[3];
  for (int d = 0; d < 3; d++) { lo[d] = 1e50; hi[d] = -1e50; for (auto &p : x) { lo[d] = std::min(lo[d], p[d]); hi[d] = std::max(hi[d], p[d]); } }
  std::vector<std::array<int, 3>> cell(n);
  std::vector<int> home(n);
  for (int i = 0; i < n; i++) {
    for (int d = 0; d < 3; d++) cell[i][d] = hi[d] > lo[d] ? std::min(nb - 1, (int)((x[i][d] - lo[d]) / (hi[d] - lo[d]) * nb)) : 0;
    home[i] = cell[i][0] + nb * cell[i][1] + (D == 3 ? nb * nb * cell[i][2] : 0);
    int b = AssignBox3D(v[i], nb, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]);
    CHECK(b >= 0 && b < nb * nb * nb, "boxes", "node %d is put into box %d of %d", i, b, nb * nb * nb);
    bool edge = false;  // a point this close to a wall may be on either side
    for (int d = 0; d < 3; d++) { double q = hi[d] > lo[d] ? (x[i][d] - lo[d]) / (hi[d] - lo[d]) * nb : .5; edge |= std::fabs(q - std::floor(q + .5)) < 1e-3 && q > .5 && q < nb - .5; }
    if (!edge) CHECK(b == cell[i][0] + nb * cell[i][1] + nb * nb * cell[i][2], "boxes", "node %d at %g,%g,%g is put into box %d, not into %d,%d,%d", i, x[i][0], x[i][1], x[i][2], b, cell[i][0], cell[i][1], cell[i][2]);
  }
  int nbox = D == 3 ? nb * nb * nb : nb * nb;
  std::vector<node_box *> box;
  for (int i = 0; i < nbox; i++) box.push_back(CreateNodeBox(nullptr));
  std::vector<int> at(n);
  for (int i = 0; i < n; i++) { at[i] = choose(2) ? home[i] : (int)choose(nbox); AddNodeToBox(v[i], box[at[i]]); }
  int moves = (int)choose(8);
  for (int k = 0; k < moves; k++) { int i = (int)choose(n); RemoveNodeFromBox(v[i], box[at[i]]); at[i] = (int)choose(nbox); AddNodeToBox(v[i], box[at[i]]); }
  for (int i = 0; i < n; i++) if (at[i] != home[i]) { RemoveNodeFromBox(v[i], box[at[i]]); AddNodeToBox(v[i], box[home[i]]); }
  std::set<node_gra *> seen;
  for (int b = 0; b < nbox; b++) for (node_box *q = box[b]->next; q; q = q->next) {
    CHECK(seen.insert(q->ref).second, "boxes", "a node is in two boxes");
    CHECK(home[q->ref->num] == b, "boxes", "node %d is in box %d, should be in %d", q->ref->num, b, home[q->ref->num]);
  }
  CHECK((int)seen.size() == n, "boxes", "%zu nodes in boxes, there are %d", seen.size(), n);
  std::vector<std::array<double, 3>> F;
  double E, mag;
  reference(g, x, D, nb, cell, F, E, mag);
  std::vector<double> f[3];
  for (auto &q : f) { q.resize(n); for (auto &z : q) z = 77; }
  double e;
  if (D == 2) { CalculateNodeForces(net, f[0].data(), f[1].data(), box.data(), nb); e = PotentialEnergy(net, box.data(), nb); }
  else { CalculateNodeForces3D(net, f[0].data(), f[1].data(), f[2].data(), box.data(), nb); e = PotentialEnergy3D(net, box.data(), nb); }
  for (int i = 0; i < n; i++) for (int d = 0; d < D; d++) CHECK(near(f[d][perm[i]], F[i][d], mag), "forces", "force %d on node %d is %.10g, should be %.10g", d, i, f[d][perm[i]], F[i][d]);
  CHECK(near(e, E, E), "energy", "energy is %.10g, should be %.10g", e, E);
  for (int i = 0; i < n; i++) CHECK(v[i]->coorX == x[i][0] && v[i]->coorY == x[i][1] && v[i]->coorZ == x[i][2], "forces", "computing forces moved node %d", i);
  for (int b = 0; b < nbox; b++) FreeBox(box[b]);
  store::check(net, store::fromGraph(g), "forces", "after computing forces");
  RemoveGraph(net);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
  if (n > 1) nontrivial();
  state(mix(n * 64 + nb * 4 + D, g.e.size()));
}
struct Frozen { int state, inGroup, ivar1; double dvar1, z; };
void scramble(std::vector<node_gra *> &v, std::vector<Frozen> &f) {
  for (auto *p : v) {
    p->state = range(0, 3); p->inGroup = range(-1, 4); p->ivar1 = range(0, 5); p->dvar1 = range(0, 9) / 2.;
    p->coorX = range(-9, 9); p->coorY = range(-9, 9); p->coorZ = range(-9, 9);
    f.push_back({p->state, p->inGroup, p->ivar1, p->dvar1, p->coorZ});
  }
}
void inUnitBox(std::vector<node_gra *> &v, int D) {
  for (int d = 0; d < D; d++) {
    double lo = 1e9, hi = -1e9;
    for (size_t i = 0; i < v.size(); i++) {
      double c = d == 0 ? v[i]->coorX : d == 1 ? v[i]->coorY : v[i]->coorZ;
      CHECK(c >= 0 && c <= 1, "range", "coordinate %d of node %zu is %g", d, i, c);
      lo = std::min(lo, c); hi = std::max(hi, c);
    }
    CHECK(v.empty() || lo == 0, "range", "the smallest coordinate %d is %g", d, lo);
    CHECK(v.size() < 2 || hi > 1 - 1e-9 || hi == 0, "range", "the largest coordinate %d is %g", d, hi);
  }
}
void run(int method, node_gra *net, double drag, double dt, int steps, gsl_rng *r, int nb, std::string *so = nullptr) {
  captureBegin();
  if (method == 0) MDGraphLayout(net, drag, dt, steps, r, nb);
  else if (method == 1) MDGraphLayout2Dp(net, drag, dt, steps, r, nb);
  else MDGraphLayout3D(net, drag, dt, steps, r, nb);
  captureEnd(so, nullptr);
}
const char *mname[] = {"2D", "2D after 3D", "3D"};
SCENARIO(P20, layout, 4) {
  heapRandom();
  Graph g = genGraph(1, choose(4) == 1 ? 24 : 9, choose(2), true);
  bool conn = true;
  { std::vector<int> all; for (int i = 0; i < g.n; i++) all.push_back(i); auto c = components(g, all); for (int x : c) conn &= x == 0; }
  int method = (int)choose(3), steps = range(0, 60), m = (int)choose(3), nb = (int)choose(4);
  uint64_t seed = seed64();
  double drag = range(1, 20) / 20., dt = range(1, 10) / 100.;
  op("%s layout, %d steps of %g, drag %g, boxes %d", mname[method], steps, dt, drag, nb);
  node_gra *net = build(g, false);
  auto v = store::nodes(net);
  std::vector<Frozen> fr;
  scramble(v, fr);
  int runs = range(1, 2);
  for (int k = 0; k < runs; k++) {
    gsl_rng *r = wideRng(seed, m);
    std::string so;
    budget(400000000);
    run(method, net, drag, dt, steps, r, nb, &so);
    noBudget();
    CHECK(so.empty(), "stdout", "the layout printed on stdout: %s", so.substr(0, 60).c_str());
    gsl_rng_free(r);
  }
  store::check(net, store::fromGraph(g), "network", "after the layout");
  for (size_t i = 0; i < v.size(); i++) CHECK(v[i]->inGroup == fr[i].inGroup && v[i]->ivar1 == fr[i].ivar1 && v[i]->dvar1 == fr[i].dvar1, "network", "the layout changed other attributes of node %zu", i);
  inUnitBox(v, method == 2 ? 3 : 2);
  nontrivial();
  state(mix(g.n * 8 + method, steps * 8 + nb));
  if (conn) probe("connected"); else probe("components");
  // the list of coordinates
  FILE *f = openMem("xy", "w");
  PrintNodeCoordinates(f, net);
  fclose(f);
  auto ls = lines(disk["xy"].data);
  CHECK(ls.size() == v.size(), "coordinates", "%zu lines for %zu nodes", ls.size(), v.size());
  for (size_t i = 0; i < v.size(); i++) {
    auto w = words(ls[i]);
    CHECK(w.size() == 3 && w[0] == v[i]->label && std::fabs(atof(w[1].c_str()) - v[i]->coorX) < 1e-5 && std::fabs(atof(w[2].c_str()) - v[i]->coorY) < 1e-5, "coordinates", "line '%s' for node %s at %g %g", ls[i].c_str(), v[i]->label, v[i]->coorX, v[i]->coorY);
  }
  Pos a;
  for (auto *p : v) { a.push_back({p->coorX, p->coorY, p->coorZ}); foldDouble(p->coorX); foldDouble(p->coorY); if (method == 2) foldDouble(p->coorZ); }
  RemoveGraph(net);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
}
// One or two boxes per side both count every pair: same draws, same layout, whatever the order of the links.
SCENARIO(P20, boxes, 2) {
  heapRandom();
  Graph g = genGraph(2, choose(4) == 1 ? 20 : 9, choose(2), true);
  bool conn = true;
  { std::vector<int> all; for (int i = 0; i < g.n; i++) all.push_back(i); auto c = components(g, all); for (int x : c) conn &= x == 0; }
  int method = (int)choose(3), steps = range(0, 20), m = (int)choose(3);
  if (!conn && method < 2) method = 2;  // arranging components amplifies rounding
  uint64_t seed = seed64();
  double drag = range(1, 20) / 20., dt = range(1, 5) / 100.;
  op("%s layout, %d steps of %g, drag %g", mname[method], steps, dt, drag);
  Pos a;
  for (int k = 1; k <= 2; k++) {
    node_gra *net = build(g, k == 2 && choose(2));
    auto v = store::nodes(net);
    gsl_rng *r = wideRng(seed, m);
    run(method, net, drag, dt, steps, r, k);
    gsl_rng_free(r);
    double worst = 0;
    for (size_t i = 0; i < v.size(); i++) {
      if (k == 1) a.push_back({v[i]->coorX, v[i]->coorY, v[i]->coorZ});
      else worst = std::max({worst, std::fabs(v[i]->coorX - a[i][0]), std::fabs(v[i]->coorY - a[i][1]), method == 2 ? std::fabs(v[i]->coorZ - a[i][2]) : 0.});
    }
    CHECK(worst < 1e-5, "boxes", "the layout depends on how the plane is divided into boxes (by %g)", worst);
    RemoveGraph(net);
  }
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
  nontrivial();
  state(mix(g.n * 8 + method, steps));
}
SCENARIO(P20, arrange, 3) {
  heapRandom();
  Graph g = genGraph(1, 14, choose(2), true);
  std::vector<int> all;
  for (int i = 0; i < g.n; i++) all.push_back(i);
  auto comp = components(g, all);
  int nc = 0;
  for (int c : comp) nc = std::max(nc, c + 1);
  node_gra *net = build(g, false);
  auto v = store::nodes(net);
  std::vector<Frozen> fr;
  scramble(v, fr);
  Prng pr(seed64());
  double spread = range(1, 12) / 4.;
  for (int i = 0; i < g.n; i++) { v[i]->coorX = spread * pr.u(); v[i]->coorY = spread * pr.u(); }
  Pos a;
  for (auto *p : v) a.push_back({p->coorX, p->coorY, p->coorZ});
  op("arranging %d components over %g", nc, spread);
  bool fair = choose(3) != 1;
  gsl_rng *r = fair ? fairRng() : anyRng();
  if (choose(4) == 0) dirtyStack((int)choose(256));
  budget(400000000);
  ArrangeComponents(net, r);
  noBudget();
  gsl_rng_free(r);
  store::check(net, store::fromGraph(g), "network", "after arranging");
  std::vector<int> sz(nc, 0), first(nc, -1);
  for (int i = 0; i < g.n; i++) { if (first[comp[i]] < 0) first[comp[i]] = i; sz[comp[i]]++; }
  std::vector<std::array<double, 2>> sh(nc), ce(nc, {0, 0});
  std::vector<double> rad(nc, 0);
  for (int c = 0; c < nc; c++) sh[c] = {v[first[c]]->coorX - a[first[c]][0], v[first[c]]->coorY - a[first[c]][1]};
  for (int i = 0; i < g.n; i++) {
    int c = comp[i];
    CHECK(std::isfinite(v[i]->coorX) && std::isfinite(v[i]->coorY), "arrange", "node %d is moved to %g %g", i, v[i]->coorX, v[i]->coorY);
    CHECK(near(v[i]->coorX - a[i][0], sh[c][0], 100) && near(v[i]->coorY - a[i][1], sh[c][1], 100), "arrange", "node %d does not move with its component", i);
    CHECK(v[i]->coorZ == a[i][2] && v[i]->inGroup == fr[i].inGroup && v[i]->ivar1 == fr[i].ivar1, "arrange", "arranging changed other attributes of node %d", i);
    ce[c][0] += a[i][0] / sz[c]; ce[c][1] += a[i][1] / sz[c];
  }
  for (int i = 0; i < g.n; i++) rad[comp[i]] = std::max(rad[comp[i]], 1.02 * std::hypot(a[i][0] - ce[comp[i]][0], a[i][1] - ce[comp[i]][1]));
  if (nc == 1) for (int i = 0; i < g.n; i++) CHECK(v[i]->coorX == a[i][0] && v[i]->coorY == a[i][1], "arrange", "a connected network was moved");
  else {
    auto ov = [&](bool after) {
      double s = 0;
      for (int c = 0; c < nc; c++) for (int d = 0; d < c; d++) {
        double x = ce[c][0] - ce[d][0] + (after ? sh[c][0] - sh[d][0] : 0), y = ce[c][1] - ce[d][1] + (after ? sh[c][1] - sh[d][1] : 0);
        s += std::max(0., rad[c] + rad[d] - std::hypot(x, y));
      }
      return s;
    };
    int big = *std::max_element(sz.begin(), sz.end());
    bool better = false;
    double o0 = ov(false), o1 = ov(true), d0 = 0, d1 = 0;
    for (int t = 0; t < nc; t++) if (sz[t] == big) {
      double s0 = 0, s1 = 0;
      for (int c = 0; c < nc; c++) { s0 += std::hypot(ce[c][0] - ce[t][0], ce[c][1] - ce[t][1]); s1 += std::hypot(ce[c][0] + sh[c][0] - ce[t][0], ce[c][1] + sh[c][1] - ce[t][1]); }
      d0 = s0; d1 = s1;
      better |= s1 + 1e5 * o1 <= s0 + 1e5 * o0 + 1e-6 * (1 + s0 + 1e5 * o0);
    }
    CHECK(better, "arrange", "components overlap by %g and are %g away from the center, before by %g and %g", o1, d1, o0, d0);
    // small steps that are undone when they make it worse: the components end up apart
    if (fair) CHECK(o1 < .05, "arrange", "components still overlap by %g, before by %g", o1, o0);
    if (fair && o0 > .05) probe("components-taken-apart");
    // the distance function itself
    std::vector<double> xc, yc;
    for (auto &c : ce) { xc.push_back(c[0]); yc.push_back(c[1]); }
    for (int c = 0; c < nc; c++) {
      double w = std::hypot(xc[c] - .25, yc[c] - .5);
      for (int d = 0; d < nc; d++) if (d != c) w += 1e5 * std::max(0., rad[c] + rad[d] - std::hypot(xc[c] - xc[d], yc[c] - yc[d]));
      double got = CircleDistance(c, .25, .5, xc.data(), yc.data(), rad.data(), nc);
      CHECK(near(got, w, w), "arrange", "distance of component %d is %.10g, should be %.10g", c, got, w);
    }
    nontrivial();
  }
  state(mix(nc, g.n));
  for (auto *p : store::nodes(net)) { foldDouble(p->coorX); foldDouble(p->coorY); }
  RemoveGraph(net);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
}
// Every step moves every node by the forces and the drag, and by nothing else. The start is known: without any step a
// layout shows it, and the first two nodes are drawn into opposite corners, so that scaling changes nothing.
SCENARIO(P20, equations, 3) {
  heapRandom();
  int n = range(2, choose(4) == 1 ? 28 : 12), method = (int)choose(3), D = method ? 3 : 2, nb = choose(8) == 1 ? range(6, 9) : range(1, 5), steps = range(1, 10);
  Graph g = genGraph(n, n, choose(2), true);
  n = g.n;
  { std::set<std::pair<int, int>> have; for (auto &e : g.e) have.insert({std::min(e.a, e.b), std::max(e.a, e.b)});
    std::vector<int> all; for (int i = 0; i < n; i++) all.push_back(i);
    auto c = components(g, all);
    for (int i = 1; i < n; i++) if (c[i] != c[0] && c[i] != c[i - 1] ) g.e.push_back({i, 0, 1});
    c = components(g, all);
    for (int i = 1; i < n; i++) if (c[i] != c[0]) skip("several components"); }
  if (n < 2) skip("one node");
  double drag = range(0, 20) / 20., dt = range(1, 10) / 50.;
  if (method == 1 && choose(2)) { drag = 1; nb = range(1, 2); steps = range(20, 60); }   // long enough for the pull towards the plane
  uint64_t seed = seed64();
  op("%s layout, %d steps of %g, drag %g, boxes %d", mname[method], steps, dt, drag, nb);
  node_gra *net = build(g, false);
  auto v = store::nodes(net);
  gsl_rng *r = cornersRng(D, seed);
  run(method, net, drag, dt, 0, r, nb);
  gsl_rng_free(r);
  Pos x(n), prev;
  bool lo = false, hi = false;
  for (int i = 0; i < n; i++) {
    x[i] = {v[i]->coorX, v[i]->coorY, D == 3 ? v[i]->coorZ : 0};
    lo |= x[i][0] == 0 && x[i][1] == 0 && (D == 2 || x[i][2] == 0);
    hi |= x[i][0] > 1 - 1e-9 && x[i][1] > 1 - 1e-9 && (D == 2 || x[i][2] > 1 - 1e-9);
  }
  if (!lo || !hi) skip("unknown start");
  const Pos start = x;
  Pos other;
  int done = 0;
  for (int pass = 0; pass < 2; pass++) {  // the second one starts a little off: where that matters nothing can be said
    other = x;
    x = start;
    if (pass) for (int i = 0; i < n; i++) for (int d = 0; d < D; d++) x[i][d] += 1e-9 * ((i * 7 + d * 3) % 5 - 2);
    prev = x;
    done = 0;
    double kz = 0;
    bool pull = false;
    for (int t = 0; t < steps; t++) {
      double l[3], h[3], ext = 0;
      for (int d = 0; d < D; d++) { l[d] = 1e50; h[d] = -1e50; for (auto &p : x) { l[d] = std::min(l[d], p[d]); h[d] = std::max(h[d], p[d]); } ext += h[d] - l[d]; }
      std::vector<std::array<int, 3>> cell(n, {0, 0, 0});
      for (int i = 0; i < n; i++) for (int d = 0; d < D; d++) {
        double q = (x[i][d] - l[d]) / (h[d] - l[d]) * nb;
        if (nb > 2 && q > .5 && q < nb - .5 && std::fabs(q - std::floor(q + .5)) < 2e-4) skip("a node on the wall of a box");
        cell[i][d] = std::max(0, std::min(nb - 1, (int)q));
      }
      if (nb > 2) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) {
        double r2 = 0;
        for (int d = 0; d < D; d++) r2 += (x[i][d] - x[j][d]) * (x[i][d] - x[j][d]);
        if (std::fabs(std::sqrt(r2) - ext / D / nb) < 1e-6) skip("a pair at the cutoff");
      }
      std::vector<std::array<double, 3>> F;
      double E, mag, T = 0;
      reference(g, x, D, nb, cell, F, E, mag);
      Pos now(n, {0, 0, 0});
      for (int i = 0; i < n; i++) for (int d = 0; d < D; d++) {
        double f = F[i][d] - (method == 1 && d == 2 ? kz * (x[i][d] - .5) : 0);
        now[i][d] = (2 * x[i][d] - prev[i][d] * (1 - drag * dt / 2) + f * dt * dt) / (1 + drag * dt / 2);
        double u = (now[i][d] - prev[i][d]) / (2 * dt);
        T += u * u / 2;
      }
      prev = x; x = now;
      done++;
      if (std::fabs(T / n - 1e-5) < 1e-8 || std::fabs(T / n - 1e-3) < 1e-6) skip("about to stop");
      if (pull && kz * dt * dt < 1) kz += dt;
      if (T / n < 1e-3) pull = true;
      if (T / n < 1e-5) { probe("came to rest"); break; }
    }
    if (pull && method == 1) probe("pulled towards the plane");
    for (int d = 0; d < (method == 2 ? 3 : 2); d++) {
      double l = 1e50, h = -1e50;
      for (auto &p : x) { l = std::min(l, p[d]); h = std::max(h, p[d]); }
      if (h - l < 1e-3) skip("hardly any extent");
      for (auto &p : x) p[d] = (p[d] - l) / (h - l);
    }
  }
  for (int i = 0; i < n; i++) for (int d = 0; d < (method == 2 ? 3 : 2); d++) if (std::fabs(x[i][d] - other[i][d]) > 1e-6) skip("sensitive to the start");
  r = cornersRng(D, seed);
  run(method, net, drag, dt, steps, r, nb);
  gsl_rng_free(r);
  for (int i = 0; i < n; i++) {
    double c[3] = {v[i]->coorX, v[i]->coorY, v[i]->coorZ};
    for (int d = 0; d < (method == 2 ? 3 : 2); d++)
      CHECK(std::fabs(c[d] - x[i][d]) < 1e-5, "motion", "after %d steps coordinate %d of node %d is %g, the forces lead to %g", done, d, i, c[d], x[i][d]);
  }
  RemoveGraph(net);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
  nontrivial();
  state(mix(n * 64 + nb * 4 + method, steps));
}
// Fair draws, enough time: components do not overlap, and linked nodes sit closer than others.
SCENARIO(P20, settled, 1) {
  heapRandom();
  int h = range(4, 9), method = (int)choose(2);
  Graph g;
  g.n = 2 * h;
  bool bridge = choose(2);
  for (int i = 0; i < g.n; i++) for (int j = 0; j < i; j++) if ((i < h) == (j < h)) g.e.push_back({i, j, 1});
  if (bridge) g.e.push_back({0, h, 1});
  g.label = genLabels(g.n, "n");
  int nb = range(0, 2);
  op("%s layout of two cliques of %d%s, boxes %d", mname[method], h, bridge ? " and a bridge" : "", nb);
  node_gra *net = build(g, false);
  auto v = store::nodes(net);
  gsl_rng *r = fairRng();
  budget(900000000);
  run(method, net, 1., .05, 1500, r, nb);
  noBudget();
  gsl_rng_free(r);
  double in = 0, out = 0;
  for (int i = 0; i < g.n; i++) for (int j = 0; j < i; j++) ((i < h) == (j < h) ? in : out) += std::hypot(v[i]->coorX - v[j]->coorX, v[i]->coorY - v[j]->coorY) / ((i < h) == (j < h) ? h * (h - 1) : h * h);
  note("inside %g across %g", in, out);
  CHECK(in < out, "settled", "nodes of a clique are %g apart, nodes of different cliques %g", in, out);
  nontrivial();
  state(mix(h, method * 2 + bridge));
  RemoveGraph(net);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
}
// Pieces that push each other away for a long time.
SCENARIO(P20, slow, 1) {
  heapRandom();
  Graph g;
  int k = range(2, 12), size = range(1, 3), method = (int)choose(3);
  g.n = k * size;
  for (int c = 0; c < k; c++) for (int i = 1; i < size; i++) g.e.push_back({c * size + i - 1, c * size + i, 1});
  if (g.e.empty()) g.e.push_back({0, 1, 1});
  g.label = genLabels(g.n, "n");
  double dt = range(4, 10) / 40., drag = range(1, 10) / 20.;
  int steps = range(1, 3000);
  int nb = choose(6) == 1 ? range(4, 9) : range(0, 3);
  op("%s layout of %d pieces of %d, %d steps of %g, drag %g, boxes %d", mname[method], k, size, steps, dt, drag, nb);
  node_gra *net = build(g, false);
  auto v = store::nodes(net);
  gsl_rng *r = wideRng(seed64(), (int)choose(3));
  budget(3000000000ull);
  run(method, net, drag, dt, steps, r, nb);
  noBudget();
  gsl_rng_free(r);
  inUnitBox(v, method == 2 ? 3 : 2);
  store::check(net, store::fromGraph(g), "network", "after the layout");
  nontrivial();
  state(mix(k * 3 + size, steps));
  RemoveGraph(net);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
}
SCENARIO(P20, program, 1) {
  bool multi = choose(2);
  int nf = multi ? range(2, 4) : 1;
  std::vector<std::string> args{multi ? "multinetlayout" : "netlayout"}, order;
  std::set<std::string> all;
  for (int k = 0; k < nf; k++) {
    Graph g = genGraph(2, multi ? 5 : 9, false, false);
    if (multi) for (int i = 0; i < g.n; i++) g.label[i] = "n" + std::to_string(i + (int)choose(2) * 3 * (i > 1));
    std::vector<Edge> e;
    for (auto &x : g.e) if (g.label[x.a] != g.label[x.b]) e.push_back(x);
    g.e = e;
    std::string name = "net" + std::to_string(k);
    disk[name].data = edgeText(g, false, true);
    for (auto &x : g.e) { all.insert(g.label[x.a]); all.insert(g.label[x.b]); }
    args.push_back(name);
  }
  if (all.size() < 2) skip("no links");
  int method = range(1, 3);
  if (!multi) {
    args.push_back(std::to_string(range(0, 999)));
    args.push_back(choose(2) ? "-1" : num(range(1, 10) / 100.));
    args.push_back(std::to_string(range(0, 200)));
    args.push_back(choose(2) ? "-1" : num(range(1, 20) / 20.));
    args.push_back(std::to_string(method));
  }
  std::string t;
  for (auto &a : args) t += " " + a;
  op("run%s", t.c_str());
  FaultPlan p;
  static const int chunks[] = {0, 1, 7, -9};
  p.readChunk = chunks[choose(4)];
  p.chunkSeed = seed64();
  heapRandom();
  Proc r = runProcess(multi ? prog_main_utils_multinetlayout : prog_main_utils_netlayout, args, "", p, FAIR, seed64(), 3000000000ull);
  CHECK(!r.crashed && r.code == 0, "program", "ended with %d: %s", r.code, r.err.substr(0, 80).c_str());
  auto ls = lines(r.out);
  CHECK(ls.size() == all.size(), "program", "%zu lines for %zu nodes", ls.size(), all.size());
  double lo[2] = {9, 9}, hi[2] = {-9, -9};
  for (auto &l : ls) {
    auto w = words(l);
    CHECK(w.size() == 3 && all.erase(w[0]), "program", "line '%s' is about no node, or again", l.c_str());
    for (int d = 0; d < 2; d++) {
      double c = atof(w[1 + d].c_str());
      CHECK(c >= 0 && c <= 1, "program", "coordinate %s of %s", w[1 + d].c_str(), w[0].c_str());
      lo[d] = std::min(lo[d], c); hi[d] = std::max(hi[d], c);
    }
  }
  for (int d = 0; d < 2; d++) CHECK(lo[d] == 0 && hi[d] == 1, "program", "coordinates span %g to %g", lo[d], hi[d]);
  nontrivial();
  state(hashBytes(t.data(), t.size()));
}
}  // namespace
