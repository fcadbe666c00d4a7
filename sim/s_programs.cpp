// P25-P27: whole programs against references; bad input and failing devices.
#include "refs.h"
#include "ratings.h"
#include "progs.h"
#include "jobs.h"
#include <cerrno>
using namespace sim;
using namespace model;
using namespace refs;
namespace programs {
namespace {
typedef std::vector<std::vector<std::string>> Groups;
Text netText(const char *prefix, int maxN, int maxRec, bool weighted = false) {
  auto lab = genLabels(maxN >= 12 ? genSize(2, maxN, 90) : range(2, maxN), prefix);
  if ((int)lab.size() > maxN) maxRec = 4 * (int)lab.size();
  Text t = genText(lab, lab, weighted, maxRec);
  bool link = false;
  for (auto &r : t.r) link |= r.a != r.b;
  if (!link) { t.r.push_back({lab[0], lab[1], 1}); t.line.push_back(lab[0] + " " + lab[1] + (weighted ? " 1" : "")); }
  return t;
}
void show(const char *name, const std::string &text) { op("file %s:", name); for (auto &l : lines(text)) op("  %s", l.c_str()); }
// "name value" lines in order
void value(const std::string &line, const std::string &name, double want, double tol) {
  CHECK(line.compare(0, name.size(), name) == 0, "output", "line '%.60s' should give %s", line.c_str(), name.c_str());
  char *end;
  std::string v = line.substr(name.size());
  double x = strtod(v.c_str(), &end);
  CHECK(end != v.c_str() && !*end, "output", "line '%.60s' holds no number", line.c_str());
  CHECK(std::fabs(x - want) <= tol, "output", "'%.60s', should be %.9g", line.c_str(), want);
}
double sig6(double v) { return 6e-6 * std::fabs(v) + 1e-300; }
Groups grouping(const std::vector<std::string> &names, std::vector<int> &lab) {
  int k = range(1, (int)names.size());
  lab.resize(names.size());
  for (auto &x : lab) x = (int)choose(k);
  Groups g(k), r;
  for (size_t i = 0; i < names.size(); i++) g[lab[i]].push_back(names[i]);
  for (auto &x : g) if (!x.empty()) r.push_back(x);
  return r;
}
std::string partText(const Groups &g) {
  std::string t;
  for (auto &x : g) { for (auto &s : x) t += s + "\n"; t += "///\n"; }
  return t;
}
Job countlinks() {
  Job j;
  Text t = netText("n", 12, 30);
  Net m = meaning(t.r, false, false, true);
  j.name = "countlinks"; j.fn = prog_main_utils_countlinks; j.files["net"] = t.all(); j.args = {"net"};
  j.verify = [m](const Proc &p) {
    auto l = lines(p.out);
    CHECK(l.size() == 1, "output", "%zu lines", l.size());
    auto f = fields(l[0], '\t');
    CHECK(f.size() == 3, "output", "'%.60s'", l[0].c_str());
    value(f[0], "Nodes: ", m.n(), 0); value(f[1], "Links: ", m.links() / 2, 0);
    value(f[2], "<k> = ", (double)m.links() / m.n(), sig6((double)m.links() / m.n()));
  };
  return j;
}
Job nodeprop() {
  Job j;
  Text t = netText("n", 12, 30);
  Net m = meaning(t.r, false, false, true);
  j.name = "nodeprop"; j.fn = prog_main_utils_nodeprop; j.files["net"] = t.all(); j.args = {"net"};
  j.verify = [m](const Proc &p) {
    auto l = lines(p.out);
    CHECK((int)l.size() == m.n(), "output", "%zu lines for %d nodes", l.size(), m.n());
    auto b = betweenness(m);
    std::set<int> seen;
    for (auto &x : l) {
      auto w = words(x);
      int i = w.size() == 3 ? m.find(w[0]) : -1;
      CHECK(i >= 0 && seen.insert(i).second, "output", "line '%.60s' is about no node, or again", x.c_str());
      CHECK(w[1] == std::to_string(m.a[i].size()), "output", "degree of %.40s is %s, should be %zu", w[0].c_str(), w[1].c_str(), m.a[i].size());
      CHECK(std::fabs(atof(w[2].c_str()) - b[i]) <= sig6(b[i]) + 1e-9, "output", "betweenness of %.40s is %s, should be %.9g", w[0].c_str(), w[2].c_str(), b[i]);
    }
  };
  return j;
}
Job netcompare() {
  Job j;
  auto la = genLabels(range(2, 12), "n"), lb = la;
  while (lb.size() > 1 && choose(3) == 1) lb.erase(lb.begin() + choose(lb.size()));
  for (int i = range(0, 4); i > 0; i--) lb.push_back("other" + std::to_string(i));
  Text ta = genText(la, la, false, 30), tb = genText(lb, lb, false, 30);
  if (choose(2)) for (size_t i = 0; i < ta.r.size(); i++) if (choose(2)) { tb.r.push_back(ta.r[i]); tb.line.push_back(ta.line[i]); }
  if (ta.r.empty()) { ta.r.push_back({la[0], la[1], 1}); ta.line.push_back(la[0] + " " + la[1]); }
  if (tb.r.empty()) { tb.r.push_back({lb[0], la[0], 1}); tb.line.push_back(lb[0] + " " + la[0]); }
  Net a = meaning(ta.r, false, false, true), b = meaning(tb.r, false, false, true);
  j.name = "netcompare"; j.fn = prog_main_utils_netcompare; j.files["net"] = ta.all(); j.files["net2"] = tb.all(); j.args = {"net", "net2"};
  j.verify = [a, b](const Proc &p) {
    int com = 0, ca = 0, cb = 0, cc = 0;
    for (auto &l : a.lab) com += b.find(l) >= 0;
    for (int i = 0; i < a.n(); i++) for (auto &e : a.a[i]) { int x = b.find(a.lab[i]), y = b.find(a.lab[e.first]); if (x >= 0 && y >= 0) { ca++; cc += b.has(x, y); } }
    for (int i = 0; i < b.n(); i++) for (auto &e : b.a[i]) cb += a.find(b.lab[i]) >= 0 && a.find(b.lab[e.first]) >= 0;
    std::vector<std::string> l;
    for (auto &x : lines(p.out)) if (!x.empty()) l.push_back(x);
    CHECK(l.size() == 10, "output", "%zu lines", l.size());
    value(l[0], "S_A = ", a.n(), 0); value(l[1], "S_B = ", b.n(), 0); value(l[2], "S_(A&B) = ", com, 0);
    value(l[3], "p_n(A|B) = ", (double)com / b.n(), 1e-6); value(l[4], "p_n(B|A) = ", (double)com / a.n(), 1e-6);
    value(l[5], "L_A = ", ca / 2, 0); value(l[6], "L_B = ", cb / 2, 0); value(l[7], "L_(A&B) = ", cc / 2, 0);
    if (cb) value(l[8], "p_l(A|B) = ", (double)cc / cb, 1e-6);
    if (ca) value(l[9], "p_l(B|A) = ", (double)cc / ca, 1e-6);
  };
  return j;
}
Job getgiant() {
  Job j;
  Text t = netText("n", 14, 16);
  Net m = meaning(t.r, false, false, true);
  j.name = "getgiant"; j.fn = prog_main_utils_getgiant; j.files["net"] = t.all(); j.args = {"net"};
  j.verify = [m](const Proc &p) {
    auto c = undirComp(m);
    std::map<int, int> size, links;
    for (int x : c) size[x]++;
    for (int i = 0; i < m.n(); i++) links[c[i]] += m.a[i].size();
    int mx = 0;
    for (auto &x : size) mx = std::max(mx, x.second);
    std::set<std::pair<int, int>> got;
    for (auto &l : lines(p.out)) {
      auto w = words(l);
      int a = w.size() == 2 ? m.find(w[0]) : -1, b = w.size() == 2 ? m.find(w[1]) : -1;
      CHECK(a >= 0 && b >= 0 && m.has(a, b) && got.insert(std::minmax(a, b)).second, "output", "line '%.60s' is no link, or again", l.c_str());
    }
    CHECK(!got.empty(), "output", "no links in the largest component");
    int k = c[got.begin()->first];
    for (auto &e : got) CHECK(c[e.first] == k, "output", "links of two components are listed");
    CHECK(size[k] == mx, "output", "the component listed has %d nodes, the largest %d", size[k], mx);
    CHECK((int)got.size() == links[k] / 2, "output", "%zu links listed, the component has %d", got.size(), links[k] / 2);
  };
  return j;
}
Job netprop() {
  Job j;
  Text t = netText("n", 12, 30);
  Net m = meaning(t.r, false, false, true);
  j.name = "netprop"; j.fn = prog_main_utils_netprop; j.files["net"] = t.all(); j.args = {"net"};
  j.verify = [m](const Proc &p) {
    auto l = lines(p.out);
    CHECK(l.size() == 15, "output", "%zu lines", l.size());
    int n = m.n();
    auto c = undirComp(m);
    std::map<int, int> size;
    for (int x : c) size[x]++;
    int mx = 0, nc = (int)size.size();
    for (auto &x : size) mx = std::max(mx, x.second);
    value(l[0], "Num_components ", nc, 0); value(l[1], "Size_GC ", mx, 0);
    double o = nc > 1 ? (n - mx) / (nc - 1.) : 0, k1 = (double)m.links() / n, k2 = 0;
    value(l[2], "Av_size_other ", o, sig6(o)); value(l[3], "Nodes ", n, 0); value(l[4], "Links ", m.links() / 2, 0);
    value(l[5], "Av_degree ", k1, sig6(k1));
    auto d = distances(m);
    double inv = 0, tri = 0;
    int cnt = 0;
    for (int i = 0; i < n; i++) for (int q = 0; q < n; q++) if (d[i][q] > 0) inv += 1. / d[i][q] / n / (n - 1);
    value(l[6], "Inverse_path_length ", inv, 1e-6);
    double jk = 0, j1 = 0, j2 = 0, M = m.links();
    for (int i = 0; i < n; i++) {
      double kk = m.a[i].size(), s = 0;
      k2 += kk * kk / n;
      for (auto &x : m.a[i]) { double b = m.a[x.first].size(); jk += kk * b; j1 += (kk + b) / 2; j2 += (kk * kk + b * b) / 2; for (auto &y : m.a[i]) if (x.first != y.first) s += m.has(x.first, y.first); }
      if (kk > 1) { tri += s / kk / (kk - 1); cnt++; }
    }
    if (cnt) value(l[7], "Clustering ", tri / cnt, 1e-6);
    double var = j2 / M - j1 / M * j1 / M;
    if (var > 1e-9) value(l[8], "Assortativity ", (jk / M - j1 / M * j1 / M) / var, 1e-6);
    auto b = betweenness(m);
    double me = 0, sd = 0, lo = 1e99, hi = -1e99;
    for (double x : b) { me += x / n; lo = std::min(lo, x); hi = std::max(hi, x); }
    for (double x : b) sd += (x - me) * (x - me);
    value(l[9], "Betweenness_mean ", me, 1e-6 + 1e-9 * me);
    double s0 = std::sqrt(sd / n), s1 = std::sqrt(sd / (n - 1)), got = atof(l[10].c_str() + std::min<size_t>(l[10].size(), 16));
    value(l[10], "Betweenness_std ", std::fabs(got - s0) < std::fabs(got - s1) ? s0 : s1, 2e-6);
    value(l[11], "Betweenness_min ", lo, 1e-6); value(l[12], "Betweenness_max ", hi, 1e-6);
    if (nc == 1) { auto ev = laplacianEigen(m); value(l[13], "Synchronizability ", ev.back() / ev[1], 1e-6 * (1 + ev.back() / ev[1])); }
    value(l[14], "K_K2 ", k1 / k2, 2e-10);
  };
  return j;
}
Job lapspec() {
  Job j;
  Text t = netText("n", 12, 30);
  Net m = meaning(t.r, false, false, true);
  j.name = "lapspec"; j.fn = prog_main_utils_lapspec; j.files["net"] = t.all(); j.args = {"net"};
  j.verify = [m](const Proc &p) {
    auto l = lines(p.out);
    CHECK((int)l.size() == m.n(), "output", "%zu eigenvalues for %d nodes", l.size(), m.n());
    auto ev = laplacianEigen(m);
    for (int i = 0; i < m.n(); i++) value(l[i], std::to_string(i + 1) + " ", ev[i], 1e-6);
  };
  return j;
}
Job mutualinfo() {
  Job j;
  auto names = genLabels(genSize(1, 16, 120), "n");
  std::vector<int> a, b;
  Groups ga = grouping(names, a), gb = choose(5) == 1 ? (b = a, ga) : grouping(names, b);
  if (choose(2)) std::reverse(gb.begin(), gb.end());
  j.name = "mutualinfo"; j.fn = prog_main_utils_mutualinfo; j.files["p1"] = partText(ga); j.files["p2"] = partText(gb); j.args = {"p1", "p2"};
  int n = (int)names.size();
  j.verify = [a, b, n](const Proc &p) {
    std::map<int, double> ca, cb;
    std::map<std::pair<int, int>, double> cab;
    for (int i = 0; i < n; i++) { ca[a[i]] += 1. / n; cb[b[i]] += 1. / n; cab[{a[i], b[i]}] += 1. / n; }
    double h = 0, I = 0;
    for (auto &x : ca) h -= x.second * std::log(x.second);
    for (auto &x : cb) h -= x.second * std::log(x.second);
    for (auto &x : cab) I += x.second * std::log(x.second / ca[x.first.first] / cb[x.first.second]);
    auto l = lines(p.out);
    CHECK(l.size() == 1, "output", "%zu lines", l.size());
    if (h > 1e-9) value(l[0], "MI = ", 2 * I / h, 1e-6);
  };
  return j;
}
Job bipmod() {
  Job j;
  bool w = choose(2), inv = choose(2);
  auto la = genLabels(genSize(1, 10, 100), "p"), lb = genLabels(genSize(1, 10, 100), "m");
  Text t = genText(la, lb, w, la.size() + lb.size() > 20 ? 300 : 24);
  while (t.r.size() < 2) { t.r.push_back({la[t.r.size() % la.size()], lb[0], 1}); t.line.push_back(t.r.back().a + " " + t.r.back().b + (w ? " 1" : "")); }
  Two m = meaning2(t.r, false);
  if (inv) {
    Two q;
    q.l1 = m.l2; q.l2 = m.l1; q.a.resize(m.l2.size());
    for (size_t i = 0; i < m.a.size(); i++) for (auto &x : m.a[i]) q.a[x.first][(int)i] = x.second;
    m = q;
  }
  std::vector<int> lab;
  Groups g = grouping(m.l1, lab);
  j.name = w ? "bipartitemodularity_w" : "bipartitemodularity";
  j.fn = w ? prog_main_utils_bipartitemodularity_w : prog_main_utils_bipartitemodularity;
  j.files["net"] = t.all(); j.files["part"] = partText(g); j.args = {"net", "part", inv ? "1" : "0"};
  j.verify = [m, lab, w](const Proc &p) {
    double s1 = 0, s2 = 0, Q = 0;
    int n = (int)m.l1.size();
    for (size_t t = 0; t < m.l2.size(); t++) { double s = 0; for (auto &a : m.a) { auto it = a.find((int)t); if (it != a.end()) s += w ? it->second : 1; } s1 += s; s2 += s * s; }
    auto str = [&](int i) { double s = 0; for (auto &x : m.a[i]) s += w ? x.second : 1; return s; };
    double den = s2 - s1;
    for (int i = 0; i < n; i++) for (int k = i + 1; k < n; k++) if (lab[i] == lab[k]) {
      double c = 0;
      for (auto &x : m.a[i]) { auto it = m.a[k].find(x.first); if (it != m.a[k].end()) c += w ? x.second * it->second : 1; }
      Q += 2 * (c / den - str(i) * str(k) / s1 / s1);
    }
    auto l = lines(p.out);
    CHECK(l.size() == 1, "output", "%zu lines", l.size());
    if (std::fabs(den) > 1e-6 * s2 && (w || den > 0)) value(l[0], "M = ", Q, 1e-6 * (1 + std::fabs(Q)));
  };
  return j;
}
Job utility(int k) {
  switch (k) {
    case 0: return countlinks();
    case 1: return nodeprop();
    case 2: return netcompare();
    case 3: return getgiant();
    case 4: return netprop();
    case 5: return lapspec();
    case 6: return mutualinfo();
    default: return bipmod();
  }
}
// ---- inference programs: 10000 samples, so the answer is close to the exact posterior average ----
typedef std::map<std::pair<std::string, std::string>, std::vector<double>> Table;
struct Exact { Table t; bool loose = false; };
const double TOL = .05;
void compare(const Table &got, const Exact &e, bool ordered, const char *what) {
  CHECK(got.size() == e.t.size(), "scores", "%s: %zu pairs are listed, should be %zu", what, got.size(), e.t.size());
  double worst = 0;
  for (auto &x : e.t) {
    auto it = got.find(x.first);
    if (it == got.end() && !ordered) it = got.find({x.first.second, x.first.first});
    CHECK(it != got.end(), "scores", "%s: pair %.40s %.40s is not listed", what, x.first.first.c_str(), x.first.second.c_str());
    double sum = 0;
    for (size_t k = 0; k < x.second.size(); k++) {
      double v = it->second[k];
      CHECK(v > 0 && (v < 1 || x.second.size() == 1 || it->second.size() == 1), "scores", "%s: score %g of %.40s %.40s", what, v, x.first.first.c_str(), x.first.second.c_str());
      if (!e.loose) worst = std::max(worst, std::fabs(v - x.second[k]));
      if (!e.loose) CHECK(std::fabs(v - x.second[k]) < TOL, "scores", "%s: score %zu of %.40s %.40s is %.5f, the exact average is %.5f", what, k, x.first.first.c_str(), x.first.second.c_str(), v, x.second[k]);
      sum += v;
    }
    if (x.second.size() > 1) CHECK(std::fabs(sum - 1) < 1e-5 * x.second.size(), "scores", "%s: scores of %.40s %.40s add up to %.7f", what, x.first.first.c_str(), x.first.second.c_str(), sum);
  }
  note("largest deviation %.4f", worst);
  if (worst > TOL / 2) probe("deviation-over-half");
}
Table scoreLines(const std::string &text, bool scoreFirst, size_t k, const char *what) {
  Table t;
  for (auto &l : lines(text)) {
    auto w = words(l);
    CHECK(w.size() == k + 2, "scores", "%s: line '%.60s'", what, l.c_str());
    std::pair<std::string, std::string> key = scoreFirst ? std::make_pair(w[1], w[2]) : std::make_pair(w[0], w[1]);
    std::vector<double> v;
    for (size_t i = 0; i < k; i++) v.push_back(atof(w[scoreFirst ? i : i + 2].c_str()));
    CHECK(t.insert({key, v}).second, "scores", "%s: pair %.40s %.40s is listed twice", what, key.first.c_str(), key.second.c_str());
  }
  return t;
}
Graph plain(const Net &m) {
  Graph g;
  g.n = m.n();
  g.label = m.lab;
  for (int i = 0; i < g.n; i++) for (auto &x : m.a[i]) if (x.first > i) g.e.push_back({i, x.first, 1});
  return g;
}
Exact exactLinks(const Graph &g, int kind, bool gibbs) {
  sampler::Model m;
  m.g = &g;
  m.kind = kind;
  if (kind == sampler::SPARSE) { double d = 2. * g.e.size() / (g.n * (g.n - 1.)); m.b = .5; m.a = d * m.b / (1 - d); }
  Exact e;
  double Z = 0, h0 = NAN;
  std::vector<std::vector<double>> s(g.n, std::vector<double>(g.n, 0));
  bool flat = true;
  for (auto &lab : sampler::setPartitions(g.n)) {
    std::map<int, int> size;
    std::map<std::pair<int, int>, int> L;
    for (int x : lab) size[x]++;
    for (auto &x : g.e) L[std::minmax(lab[x.a], lab[x.b])]++;
    double w = std::exp(-m.H(lab, false)), hl = m.H(lab, true);
    if (std::isnan(h0)) h0 = hl;
    flat &= std::fabs(hl - h0) < 1e-9;
    Z += w;
    for (int i = 0; i < g.n; i++) for (int j = i + 1; j < g.n; j++) {
      auto a = std::minmax(lab[i], lab[j]);
      int r = a.first == a.second ? size[a.first] * (size[a.first] - 1) / 2 : size[a.first] * size[a.second];
      s[i][j] += w * m.score(r, L[a]);
    }
  }
  for (int i = 0; i < g.n; i++) for (int j = i + 1; j < g.n; j++) e.t[{g.label[i], g.label[j]}] = {s[i][j] / Z};
  e.loose = g.n == 2 || (flat && !gibbs);  // a chain that rejects nothing may alternate between groupings
  return e;
}
Exact exactRatings(const ratings::Data &d, const std::vector<std::pair<int, int>> &q, bool two, bool gibbs) {
  ratings::Model m;
  m.d = &d;
  m.two = two;
  ratings::Space sp(d);
  Exact e;
  double Z = 0;
  bool flat = true;
  std::vector<std::vector<double>> ex(q.size(), std::vector<double>(d.K, 0));
  for (size_t i = 0; i < sp.size(); i++) {
    double w = std::exp(-m.H(sp.a(i), sp.b(i), false));
    flat &= std::fabs(m.H(sp.a(i), sp.b(i), true) - m.H(sp.a(0), sp.b(0), true)) < 1e-9;
    Z += w;
    for (size_t j = 0; j < q.size(); j++) { auto s = m.score(sp.a(i), sp.b(i), q[j].first, q[j].second); for (int k = 0; k < d.K; k++) ex[j][k] += w * s[k]; }
  }
  for (size_t j = 0; j < q.size(); j++) {
    for (double &x : ex[j]) x /= Z;
    if (two) ex[j] = {ex[j][1]};
    e.t[{d.l1[q[j].first], d.bip ? d.l2[q[j].second] : d.l1[q[j].second]}] = ex[j];
  }
  e.loose = !gibbs && (flat || (d.n1 <= 2 && (!d.bip || d.n2 <= 2)));
  return e;
}
std::string longPath() {
  static const char *dirs[] = {"net", "./net.dat", "data/some where.txt", "net.scores"};
  if (choose(3)) return dirs[choose(4)];
  std::string s;
  for (int n = range(20, 400), i = 0; i < n; i++) s += i % 30 == 29 ? '/' : (char)('a' + i % 26);
  return s;
}
struct LinkProg { const char *name; MainFn fn; int kind; bool gibbs; const char *ext; };
const LinkProg linkProgs[] = {
  {"reliability_links", prog_main_reliability_reliability_links, sampler::STD, false, nullptr},
  {"reliability_links_gibbs", prog_main_reliability_reliability_links_gibbs, sampler::STD, true, nullptr},
  {"reliability_links_gibbs_sparse", prog_main_reliability_reliability_links_gibbs_sparse, sampler::SPARSE, true, nullptr},
  {"reliability_links_mb", prog_main_multiblock_reliability_links_mb, sampler::AND, false, ".AND_scores"},
  {"reliability_links_mb_OR", prog_main_multiblock_reliability_links_mb_OR, sampler::OR, false, ".OR_scores"},
  {"reliability_links_mb_gibbs", prog_main_multiblock_reliability_links_mb_gibbs, sampler::AND, true, ".AND_scores"},
  {"reliability_links_mb_gibbs_OR", prog_main_multiblock_reliability_links_mb_gibbs_OR, sampler::OR, true, ".OR_scores"},
  {"only_degeneration_mb", prog_main_only_deg_only_degeneration_mb, sampler::OD, false, ".scores"},
  {"only_degeneration_mb_gibbs", prog_main_only_deg_only_degeneration_mb_gibbs, sampler::OD, true, ".scores"}};
Job links(int k) {
  const LinkProg &lp = linkProgs[k];
  Job j;
  Text t;
  if (choose(6) == 5) {   // larger, and of a shape
    Graph s = genGraph(4, 7, false, false);
    if (s.e.empty()) skip("no links");
    t.nl = choose(2);
    for (auto &x : s.e) { t.r.push_back({s.label[x.a], s.label[x.b], 1}); t.line.push_back(s.label[x.a] + " " + s.label[x.b]); }
    probe("larger-inference");
  } else t = netText("n", 4, 8);
  Net m = meaning(t.r, false, false, true);
  if (m.n() < 2) skip("one node");
  Graph g = plain(m);
  if (lp.kind == sampler::SPARSE && (int)g.e.size() == g.n * (g.n - 1) / 2) skip("complete network");
  j.name = lp.name; j.fn = lp.fn;
  std::string path = longPath();
  j.files[path] = t.all();
  j.args = {path, std::to_string(range(1, 30000))};
  j.budget = 60000000000ull;
  std::string file = lp.ext ? path + lp.ext : "";
  if (lp.ext) j.out = {file}; else if (!k) j.out = {"missing.dat", "spurious.dat"}; else j.out = {""};
  Exact e = exactLinks(g, lp.kind, lp.gibbs);
  j.verify = [e, m, file, k, &lp](const Proc &p) {
    Table got;
    if (k == 0) {
      CHECK(disk.count("missing.dat") && disk.count("spurious.dat"), "scores", "an output file is missing");
      got = scoreLines(disk["missing.dat"].data, true, 1, lp.name);
      for (auto &x : got) CHECK(m.find(x.first.first) >= 0 && m.find(x.first.second) >= 0 && !m.has(m.find(x.first.first), m.find(x.first.second)), "scores", "%.40s %.40s is a link, or no pair, but is listed as missing", x.first.first.c_str(), x.first.second.c_str());
      Table s = scoreLines(disk["spurious.dat"].data, true, 1, lp.name);
      for (auto &x : s) CHECK(m.find(x.first.first) >= 0 && m.find(x.first.second) >= 0 && m.has(m.find(x.first.first), m.find(x.first.second)), "scores", "%.40s %.40s is no link, but is listed as spurious", x.first.first.c_str(), x.first.second.c_str());
      got.insert(s.begin(), s.end());
    } else {
      if (!file.empty()) CHECK(disk.count(file), "scores", "%s: no output file", lp.name);
      got = scoreLines(file.empty() ? p.out : disk[file].data, true, 1, lp.name);
    }
    compare(got, e, false, lp.name);
  };
  return j;
}
Job stateLinks() {
  Job j;
  bool big = choose(6) == 5;
  ratings::Data d = ratings::genData(false, big ? 6 : 4, 0, range(1, big ? 6 : 3), false);
  std::string text;
  for (auto &e : d.e) text += d.l1[e.a] + " " + d.l1[e.b] + " " + std::to_string(e.r) + "\n";
  if (d.e.empty()) skip("no links");
  j.name = "reliability_links_k"; j.fn = prog_main_reliability_reliability_links_k;
  j.files["net"] = text;
  j.args = {std::to_string(d.K), "net", std::to_string(range(1, 30000))};
  j.out = {"unobserved_k.dat", "observed_k.dat"};
  j.budget = 60000000000ull;
  std::vector<std::pair<int, int>> q;
  for (int i = 0; i < d.n1; i++) for (int k = i + 1; k < d.n1; k++) q.push_back({i, k});
  Exact e = exactRatings(d, q, false, false);
  std::set<std::pair<std::string, std::string>> seen;
  for (auto &x : d.e) { seen.insert({d.l1[x.a], d.l1[x.b]}); seen.insert({d.l1[x.b], d.l1[x.a]}); }
  int K = d.K;
  j.verify = [e, seen, K](const Proc &) {
    CHECK(disk.count("unobserved_k.dat") && disk.count("observed_k.dat"), "scores", "an output file is missing");
    Table got = scoreLines(disk["unobserved_k.dat"].data, false, K, "reliability_links_k"), o = scoreLines(disk["observed_k.dat"].data, false, K, "reliability_links_k");
    for (auto &x : got) CHECK(!seen.count(x.first), "scores", "%.40s %.40s is observed, but listed as unobserved", x.first.first.c_str(), x.first.second.c_str());
    for (auto &x : o) CHECK(seen.count(x.first), "scores", "%.40s %.40s is unobserved, but listed as observed", x.first.first.c_str(), x.first.second.c_str());
    got.insert(o.begin(), o.end());
    compare(got, e, false, "reliability_links_k");
  };
  return j;
}
Job recommend(int k) {  // two states, k states, gibbs
  Job j;
  bool big = choose(6) == 5;
  const int top = big ? 4 : 3;
  ratings::Data d = ratings::genData(true, top, top, k ? range(1, big ? 6 : 3) : 2, false);
  if (d.e.empty()) skip("no ratings");
  std::string text, que;
  for (auto &e : d.e) text += d.l1[e.a] + "\t" + d.l2[e.b] + " " + std::to_string(e.r) + "\n";
  std::vector<std::pair<std::string, std::string>> names;
  std::vector<std::pair<int, int>> q;
  ratings::Data all = d;
  int nq = range(1, 3), extra1 = 0, extra2 = 0;
  for (int i = 0; i < nq; i++) {
    int a = (int)choose(d.n1), b = (int)choose(d.n2);
    std::string na = d.l1[a], nb = d.l2[b];
    if (!extra1 && d.n1 < top && choose(4) == 1) { na = "stranger"; extra1 = 1; a = d.n1; all.l1.push_back(na); all.n1++; }
    if (!extra2 && d.n2 < top && choose(4) == 1) { nb = "novelty"; extra2 = 1; b = d.n2; all.l2.push_back(nb); all.n2++; }
    names.push_back({na, nb});
    q.push_back({a, b});
    que += na + " " + nb + "\n";
  }
  ratings::Data clean = ratings::without(all, q);
  Exact e = exactRatings(clean, q, k == 0, k == 2);
  static const char *nm[] = {"multi_recommend_2", "multi_recommend_k", "multi_recommend_k_gibbs"};
  static const MainFn fns[] = {prog_main_recommender_multi_recommend_2, prog_main_recommender_multi_recommend_k, prog_main_recommender_multi_recommend_k_gibbs};
  j.name = nm[k]; j.fn = fns[k];
  j.files["obs"] = text; j.files["que"] = que;
  if (k) j.args.push_back(std::to_string(d.K));
  j.args.push_back("obs"); j.args.push_back("que"); j.args.push_back(std::to_string(range(1, 30000)));
  j.out = {""};
  j.budget = 60000000000ull;
  int K = k ? d.K : 1;
  std::string name = nm[k];
  j.verify = [e, names, K, name](const Proc &p) {
    size_t at = p.out.find(">>> RESULTS");
    CHECK(at != std::string::npos, "scores", "%s: no results", name.c_str());
    auto w = words(p.out.substr(at + 11));
    CHECK(w.size() == names.size() * (2 + K), "scores", "%s: %zu words for %zu queries", name.c_str(), w.size(), names.size());
    Table got;
    for (size_t i = 0; i < names.size(); i++) {
      size_t o = i * (2 + K);
      CHECK(w[o] == names[i].first && w[o + 1] == names[i].second, "scores", "%s: answer %zu is about %.40s %.40s, the query about %.40s %.40s", name.c_str(), i, w[o].c_str(), w[o + 1].c_str(), names[i].first.c_str(), names[i].second.c_str());
      std::vector<double> v;
      for (int s = 0; s < K; s++) v.push_back(atof(w[o + 2 + s].c_str()));
      auto r = got.insert({names[i], v});
      if (!r.second) for (int s = 0; s < K; s++) CHECK(r.first->second[s] == v[s], "scores", "%s: the same query is answered with %g and %g", name.c_str(), r.first->second[s], v[s]);
    }
    compare(got, e, true, name.c_str());
  };
  return j;
}
Job conflict() {
  Job j;
  const int top = choose(6) == 5 ? 4 : 3;
  ratings::Data d = ratings::genData(true, top, top, 2, false);
  if (d.e.empty()) skip("no ratings");
  std::string text;
  for (auto &e : d.e) text += d.l1[e.a] + " " + d.l2[e.b] + " " + std::to_string(e.r) + "\n";
  std::vector<std::pair<int, int>> q;
  for (int a = 0; a < d.n1; a++) for (int b = 0; b < d.n2; b++) if (d.l1[a] != d.l2[b]) q.push_back({a, b});
  if (q.empty()) skip("no pairs");
  Exact e = exactRatings(d, q, true, false);
  j.name = "conflict"; j.fn = prog_main_conflict_conflict;
  j.files["obs"] = text;
  j.args = {"obs", std::to_string(range(1, 30000))};
  j.out = {"link_scores.dat"};
  j.budget = 60000000000ull;
  j.verify = [e](const Proc &) {
    CHECK(disk.count("link_scores.dat"), "scores", "conflict: no output file");
    compare(scoreLines(disk["link_scores.dat"].data, false, 1, "conflict"), e, true, "conflict");
  };
  return j;
}
Job reconstruct() {
  Job j;
  Text t = netText("n", 3, 5);
  Net m = meaning(t.r, false, false, true);
  j.name = "reliability_reconstruct"; j.fn = prog_main_reliability_reliability_reconstruct;
  j.files["net"] = t.all();
  j.args = {"net", std::to_string(range(1, 30000))};
  j.out = {"net_reconstructed.dat"};
  j.budget = 90000000000ull;
  j.verify = [m](const Proc &) {
    CHECK(disk.count("net_reconstructed.dat"), "reconstruction", "no output file");
    std::set<std::pair<int, int>> got;
    for (auto &l : lines(disk["net_reconstructed.dat"].data)) {
      auto w = words(l);
      int a = w.size() == 2 ? m.find(w[0]) : -1, b = w.size() == 2 ? m.find(w[1]) : -1;
      CHECK(a >= 0 && b >= 0 && a != b && got.insert(std::minmax(a, b)).second, "reconstruction", "line '%.60s' is no link of two known nodes, or again", l.c_str());
    }
    CHECK((int)got.size() == m.links() / 2, "reconstruction", "%zu links, the observation has %d", got.size(), m.links() / 2);
  };
  return j;
}
Job inference(int k) {
  if (k < 9) return links(k);
  if (k == 9) return stateLinks();
  if (k < 13) return recommend(k - 10);
  if (k == 13) return conflict();
  return reconstruct();
}
void prepare(Job &j) {
  j.args.insert(j.args.begin(), j.name);
  disk.clear();
  for (auto &f : j.files) { show(f.first.c_str(), f.second); disk[f.first].data = f.second; }
  std::string a;
  for (auto &x : j.args) a += " " + (x.size() > 60 ? x.substr(0, 60) + "..." : x);
  op("run%s", a.c_str());
}
void untouched(const Job &j) { for (auto &f : j.files) CHECK(disk.count(f.first) && disk[f.first].data == f.second, "input-changed", "%s changed its input file %s", j.name.c_str(), f.first.c_str()); }
Job layout(bool multi) {
  Job j;
  std::set<std::string> all;
  j.name = multi ? "multinetlayout" : "netlayout";
  j.fn = multi ? prog_main_utils_multinetlayout : prog_main_utils_netlayout;
  for (int i = 0, k = multi ? range(2, 3) : 1; i < k; i++) {
    Text t = netText("n", 6, 10);
    std::string f = i ? "net" + std::to_string(i + 1) : "net";
    j.files[f] = t.all(); j.args.push_back(f);
    Net m = meaning(t.r, false, false, true);
    all.insert(m.lab.begin(), m.lab.end());
  }
  if (!multi) for (std::string a : {std::to_string(range(0, 999)), std::string("-1"), std::to_string(range(0, 60)), std::string("-1"), std::to_string(range(1, 3))}) j.args.push_back(a);
  j.verify = [all](const Proc &p) {
    auto left = all;
    for (auto &l : lines(p.out)) { auto w = words(l); CHECK(w.size() == 3 && left.erase(w[0]), "output", "line '%.60s' is about no node, or again", l.c_str()); }
    CHECK(left.empty(), "output", "%zu nodes have no line", left.size());
  };
  return j;
}
Job randomize() {
  Job j;
  Text t = netText("n", 10, 20);
  Net m = meaning(t.r, false, false, true);
  j.name = "netrandomize"; j.fn = prog_main_utils_netrandomize; j.files["net"] = t.all(); j.args = {"net", std::to_string(range(0, 999))};
  j.verify = [m](const Proc &p) {
    std::map<std::string, size_t> want, got;
    for (int i = 0; i < m.n(); i++) if (!m.a[i].empty()) want[m.lab[i]] = m.a[i].size();
    for (auto &l : lines(p.out)) { auto w = words(l); CHECK(w.size() == 2 && w[0] != w[1], "output", "line '%.60s' is no link", l.c_str()); got[w[0]]++; got[w[1]]++; }
    CHECK(want == got, "output", "the degrees of the nodes changed");
  };
  return j;
}
Job teams() {
  Job j;
  int nMod = range(1, 3), modSize = range(1, 4), nTeam = range(1, 5), size = range(1, nMod * modSize);
  j.name = "modularbipart"; j.fn = prog_main_utils_modularbipart; j.out = {"binet.net"};
  for (int x : {nMod, modSize, nTeam, size}) j.args.push_back(std::to_string(x));
  j.args.push_back(choose(2) ? "0.5" : "1");
  j.args.push_back(std::to_string(range(0, 999)));
  j.verify = [=](const Proc &) {
    CHECK(disk.count("binet.net"), "output", "no network was written");
    auto l = lines(disk["binet.net"].data);
    int n = nMod * modSize + nTeam;
    size_t want = 2 + n + nTeam * size, back = want + nTeam * size;
    CHECK(l.size() == want || l.size() == back, "output", "%zu lines, %zu are enough", l.size(), want);
    CHECK(l[0] == "*Vertices " + std::to_string(n) || words(l[0])[0] == "*Vertices", "output", "first line '%.60s'", l[0].c_str());
  };
  return j;
}
Job legacy() {
  LegacyJob l = legacyJob();
  Job j;
  j.name = l.args[0]; j.fn = prog_main_netcarto_netcarto_legacy; j.files["net.dat"] = l.text;
  j.args.assign(l.args.begin() + 1, l.args.end());
  j.out = {"modules.dat", "modules.clu", "roles.dat", "roles.clu", "node_prop.dat", "network.net", "randomized_mod.dat"};
  j.budget = 3000000000ull;
  j.verify = [l](const Proc &) { legacyCheck(l); };
  return j;
}
Job anyJob() {
  switch (choose(16)) {
    case 0: case 1: return layout(choose(3) == 1);
    case 2: return randomize();
    case 3: return teams();
    case 4: case 5: return legacy();
    case 6: case 7: case 8: return inference((int)choose(15));
    default: return utility((int)choose(8));
  }
}
}  // namespace
// Any program twice, the second time in a disturbed environment or after a crashed run.
SCENARIO(P06, programs_repeat, 1) {
  Job j = anyJob();
  prepare(j);
  heapRandom();
  dirtyStack((int)choose(4));
  uint64_t stream = seed64();
  auto results = [&](const Proc &p) {
    std::map<std::string, std::string> m;
    m[""] = p.out;
    for (auto &f : disk) if (!j.files.count(f.first)) m[f.first] = f.second.data;
    return m;
  };
  Proc a = runProcess(j.fn, j.args, "", slicing(), FAIR, stream, j.budget);
  CHECK(!a.crashed && a.code == 0, "exit-status", "%s ended with %d: %s", j.name.c_str(), a.code, a.err.substr(0, 80).c_str());
  auto ra = results(a);
  for (int i = 0, n = range(1, 2); i < n; i++) {
    disk.clear();
    for (auto &f : j.files) disk[f.first].data = f.second;
    if (choose(3) == 1) {
      FaultPlan c;
      c.crashStep = 1 + choose((uint32_t)std::min<uint64_t>(a.steps, 0x7ffffff0));
      c.bufSize = range(0, 64);
      runProcess(j.fn, j.args, "", c, FAIR, stream, j.budget);
    }
    heapRandom();
    dirtyStack((int)choose(4));
    Proc b = runProcess(j.fn, j.args, "", slicing(), FAIR, stream, j.budget);
    CHECK(!b.crashed && b.code == a.code, "not-reproducible", "%s ended with %d, then with %d", j.name.c_str(), a.code, b.code);
    auto rb = results(b);
    CHECK(ra.size() == rb.size(), "not-reproducible", "%s wrote %zu files, then %zu", j.name.c_str(), ra.size() - 1, rb.size() - 1);
    for (auto &f : ra) {
      CHECK(rb.count(f.first), "not-reproducible", "%s did not write %s again", j.name.c_str(), f.first.c_str());
      if (f.second == rb[f.first]) continue;
      auto x = lines(f.second), y = lines(rb[f.first]);
      size_t k = 0;
      while (k < x.size() && k < y.size() && x[k] == y[k]) k++;
      CHECK(false, "not-reproducible", "%s: %s differs between two runs with the same input and seed in line %zu: '%.60s' and '%.60s'", j.name.c_str(), f.first.empty() ? "standard output" : f.first.c_str(), k + 1, k < x.size() ? x[k].c_str() : "", k < y.size() ? y[k].c_str() : "");
    }
  }
  for (auto &f : ra) fold(hashBytes(f.second.data(), f.second.size()));
  probe(j.name.c_str());
  nontrivial();
  state(mix(hashBytes(j.name.data(), j.name.size()), hashBytes(a.out.data(), a.out.size())));
}
SCENARIO(P25, utilities, 1) {
  Job j = utility((int)choose(8));
  prepare(j);
  FaultPlan p = slicing();
  heapRandom();
  dirtyStack((int)choose(4));
  Proc r = runProcess(j.fn, j.args, "", p, FAIR, seed64(), j.budget);
  CHECK(!r.crashed && r.code == 0, "exit-status", "%s ended with %d: %s", j.name.c_str(), r.code, r.err.substr(0, 80).c_str());
  j.verify(r);
  untouched(j);
  probe(j.name.c_str());
  nontrivial();
  state(hashBytes(r.out.data(), r.out.size(), hashBytes(j.name.data(), j.name.size())));
}
SCENARIO(P26, inferences, 1) {
  Job j = inference((int)choose(44) / 3);
  prepare(j);
  FaultPlan p = slicing();
  heapRandom();
  dirtyStack((int)choose(4));
  Proc r = runProcess(j.fn, j.args, "", p, FAIR, seed64(), j.budget);
  CHECK(!r.crashed && r.code == 0, "exit-status", "%s ended with %d: %s", j.name.c_str(), r.code, r.err.substr(0, 80).c_str());
  j.verify(r);
  untouched(j);
  probe(j.name.c_str());
  nontrivial();
  uint64_t h = hashBytes(r.out.data(), r.out.size(), hashBytes(j.name.data(), j.name.size()));
  for (auto &f : j.out) if (!f.empty()) h = hashBytes(disk[f].data.data(), disk[f].data.size(), h);
  state(h);
}
SCENARIO(P27, failures, 1) {
  Job j = anyJob();
  FaultPlan p = slicing();
  size_t in = 0;
  for (auto &f : j.files) in += f.second.size();
  int kind = (int)choose(10);
  bool bad = false;
  std::string net;
  for (auto &f : j.files) if (f.first != "part" && f.first != "p1" && f.first != "p2" && f.first != "que") net = f.first;
  static const char *kinds[] = {"no fault", "missing argument", "missing input file", "malformed network file", "read error", "open failure", "full disk", "write error", "close error", "allocation failure"};
  bool legacy = j.name == "netcarto_legacy";
  std::string lost;
  switch (kind) {
    case 1:
      if (legacy) j.args[1] = "nofile";
      else if (j.name == "multinetlayout") j.args.resize(choose(2));
      else j.args.resize(choose(j.args.size()));
      bad = true;
      break;
    case 2:
      if (j.files.empty()) skip("no input file");
      { auto it = j.files.begin(); std::advance(it, choose(j.files.size())); lost = it->first; j.files.erase(it); }
      bad = true;
      break;
    case 3: {
      if (net.empty()) skip("no network file");
      bool w = j.name == "bipartitemodularity_w" || j.name == "reliability_links_k" || j.name == "conflict" || j.name.compare(0, 6, "multi_") == 0;
      auto l = lines(j.files[net]);
      l.insert(l.begin() + choose(l.size() + 1), broken(w, {"n1", "n2", "odd"}));
      std::string t;
      for (auto &x : l) t += x + "\n";
      j.files[net] = t;
      bad = true;
      break;
    }
    case 4: if (!in) skip("no input file"); p.readErrAt = choose(in + 1); break;
    case 5: p.openFailAt = (int)choose(j.files.size() + j.out.size() + 1); p.openErrno = choose(2) ? EMFILE : EACCES; break;
    case 6: p.diskCapacity = choose(choose(2) ? 20 : 400); break;
    case 7: p.writeErrAt = choose(choose(2) ? 20 : 400); break;
    case 8: p.closeErr = true; break;
    case 9: p.allocFailAt = 1 + choose(choose(2) ? 40 : choose(2) ? 400 : 4000); break;
    default: break;
  }
  if (kind >= 6 && kind <= 8 && !j.out.empty() && choose(2)) {  // one output file only
    p.faultFile = j.out[choose(j.out.size())];
    if (p.faultFile.empty()) p.faultFile = "<stdout>";
    if (p.diskCapacity > 0) p.diskCapacity = choose(60);
    if (p.writeErrAt > 0) p.writeErrAt = choose(60);
  }
  if ((kind == 6 || kind == 7) && choose(3) == 1) p.errOnce = true;
  op("%s%s%s%s", kinds[kind], p.faultFile.empty() ? "" : " on ", p.faultFile.c_str(), p.errOnce ? " that goes away" : "");
  prepare(j);
  heapRandom();
  dirtyStack((int)choose(4));
  Proc r = runProcess(j.fn, j.args, "", p, FAIR, seed64(), j.budget);
  // without memory a program may die, but not claim a success
  if (r.allocErrHit && r.crashed) probe("died-of-allocation-failure");
  else CHECK(!r.crashed, "crash", "%s crashed", j.name.c_str());
  if (r.allocErrHit && !r.crashed) probe(r.code ? "reported-allocation-failure" : "survived-allocation-failure");
  op("%s ended with %d%s", j.name.c_str(), r.code, r.faulted() ? ", the fault hit" : "");
  if (r.readErrHit) fault("read-error");
  if (r.openErrHit) fault("open-failure");
  if (r.writeErrHit) fault(kind == 6 ? "disk-full" : "write-error");
  if (r.closeErrHit) fault("close-error");
  if (bad) fault(kind == 1 ? "missing-argument" : kind == 2 ? "missing-file" : "malformed-file");
  if (bad) CHECK(r.code != 0, "failure-unreported", "%s reported success (%s)", j.name.c_str(), kinds[kind]);
  else if (r.code == 0) j.verify(r);
  else CHECK(r.faulted(), "success-unreported", "%s ended with %d, but nothing went wrong: %s", j.name.c_str(), r.code, r.err.substr(0, 80).c_str());
  untouched(j);
  if (!lost.empty()) CHECK(!disk.count(lost), "input-changed", "%s created the input file %s", j.name.c_str(), lost.c_str());
  probe(j.name.c_str());
  if (bad || r.faulted()) nontrivial();
  state(mix(hashBytes(j.name.data(), j.name.size()), mix(kind, mix(r.code, r.bytesRead * 1000 + r.bytesWritten))));
}
}  // namespace programs
