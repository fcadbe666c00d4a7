// Reference computations on networks, and texts of network files with their meaning.
#pragma once
#include "store.h"
namespace refs {
using namespace sim;
using namespace model;
using store::Net;
using store::Two;
inline bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max({1.0, std::fabs(a), std::fabs(b)}); }
inline std::vector<std::vector<int>> distances(const Net &m) {
  int n = m.n();
  std::vector<std::vector<int>> d(n, std::vector<int>(n, -1));
  for (int s = 0; s < n; s++) {
    std::vector<int> q{s};
    d[s][s] = 0;
    for (size_t i = 0; i < q.size(); i++) for (auto &x : m.a[q[i]]) if (d[s][x.first] < 0) { d[s][x.first] = d[s][q[i]] + 1; q.push_back(x.first); }
  }
  return d;
}
inline std::vector<std::vector<double>> paths(const Net &m, const std::vector<std::vector<int>> &d) {
  int n = m.n();
  std::vector<std::vector<double>> s(n, std::vector<double>(n, 0));
  for (int o = 0; o < n; o++) {
    s[o][o] = 1;
    for (int k = 1; k < n; k++) for (int v = 0; v < n; v++) if (d[o][v] == k) for (int u = 0; u < n; u++) if (d[o][u] == k - 1 && m.has(u, v)) s[o][v] += s[o][u];
  }
  return s;
}
// shortest-path betweenness of every node (ordered pairs)
inline std::vector<double> betweenness(const Net &m) {
  int n = m.n();
  auto d = distances(m);
  auto s = paths(m, d);
  std::vector<double> b(n, 0);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && d[i][j] > 0) for (int x = 0; x < n; x++)
    if (x != i && x != j && d[i][x] > 0 && d[x][j] > 0 && d[i][x] + d[x][j] == d[i][j]) b[x] += s[i][x] * s[x][j] / s[i][j];
  return b;
}
inline std::vector<int> undirComp(const Net &m) {
  std::vector<int> c(m.n(), -1);
  int k = 0;
  for (int s = 0; s < m.n(); s++) if (c[s] < 0) {
    std::vector<int> q{s};
    c[s] = k;
    for (size_t i = 0; i < q.size(); i++) for (int v = 0; v < m.n(); v++) if (c[v] < 0 && (m.has(q[i], v) || m.has(v, q[i]))) { c[v] = k; q.push_back(v); }
    k++;
  }
  return c;
}
inline std::vector<int> strongComp(const std::vector<std::vector<int>> &d) {
  int n = d.size(), k = 0;
  std::vector<int> c(n, -1);
  for (int i = 0; i < n; i++) if (c[i] < 0) { for (int j = i; j < n; j++) if (d[i][j] >= 0 && d[j][i] >= 0) c[j] = k; k++; }
  return c;
}
// eigenvalues of the Laplacian by Jacobi rotations, sorted
inline std::vector<double> laplacianEigen(const Net &m) {
  int n = m.n();
  std::vector<std::vector<double>> a(n, std::vector<double>(n));
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = i == j ? (double)m.a[i].size() : -(double)m.has(i, j);
  for (int sweep = 0; sweep < 60; sweep++) {
    double off = 0;
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
      off += a[p][q] * a[p][q];
      if (std::fabs(a[p][q]) < 1e-300) continue;
      double th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
      for (int i = 0; i < n; i++) { double x = a[i][p], y = a[i][q]; a[i][p] = c * x - s * y; a[i][q] = s * x + c * y; }
      for (int i = 0; i < n; i++) { double x = a[p][i], y = a[q][i]; a[p][i] = c * x - s * y; a[q][i] = s * x + c * y; }
    }
    if (off < 1e-26) break;
  }
  std::vector<double> ev;
  for (int i = 0; i < n; i++) ev.push_back(a[i][i]);
  std::sort(ev.begin(), ev.end());
  return ev;
}
inline char *cs(const std::string &s) { return const_cast<char *>(s.c_str()); }
struct Rec { std::string a, b; double w; };
inline FaultPlan slicing() {
  FaultPlan p;
  static const int chunks[] = {0, 1, 2, 7, -5, -40};
  static const int bufs[] = {0, 1, 3, 16, 200};
  p.readChunk = chunks[choose(6)];
  p.bufSize = bufs[choose(5)];
  p.chunkSeed = seed64();
  return p;
}
inline std::string weightText(double &w) {
  char b[40];
  switch (choose(5)) {
    case 0: w = range(1, 9); snprintf(b, sizeof b, "%d", (int)w); break;
    case 1: w = range(1, 40) / 8.; snprintf(b, sizeof b, "%g", w); break;
    case 2: w = range(1, 99) / 100.; snprintf(b, sizeof b, "%.2f", w); break;
    case 3: w = range(1, 9) * 1000; snprintf(b, sizeof b, "%de3", (int)w / 1000); break;
    default: w = range(1, 9) / 10.; snprintf(b, sizeof b, "+.%d", (int)(w * 10 + .5));
  }
  return b;
}
inline std::string blank(bool fancy) { static const char *s[] = {" ", "\t", "  ", " \t ", "\t\t"}; return fancy ? s[choose(5)] : " "; }
// records and the text that says them
struct Text { std::vector<Rec> r; std::vector<std::string> line; bool nl; std::string all() const { std::string t; for (auto &l : line) t += l + "\n"; if (!nl && !t.empty()) t.pop_back(); return t; } };
inline Text genText(const std::vector<std::string> &la, const std::vector<std::string> &lb, bool weighted, int maxRec) {
  Text t;
  int m = range(0, maxRec);
  bool fancy = choose(2), again = choose(2);
  for (int i = 0; i < m; i++) {
    Rec r{la[choose(la.size())], lb[choose(lb.size())], 1};
    if (again && i && choose(3) == 1) { auto &o = t.r[choose(i)]; r.a = o.a; r.b = o.b; if (choose(2) && &la == &lb) std::swap(r.a, r.b); }
    std::string wt = weightText(r.w), l;
    if (fancy && choose(4) == 1) l += blank(true);
    l += r.a + blank(fancy) + r.b;
    if (weighted) l += blank(fancy) + wt; else r.w = 1;
    if (fancy && choose(4) == 1) l += blank(true) + (choose(2) ? "more" : weighted ? "7 8" : "2.5");  // fields that are not asked for
    if (fancy && choose(4) == 1) l += choose(2) ? " " : "\r";
    t.r.push_back(r);
    t.line.push_back(l);
  }
  t.nl = choose(3) != 1;
  return t;
}
inline void addLink(std::map<int, double> &m, int j, double w, bool aw) { auto r = m.insert({j, w}); if (!r.second && aw) r.first->second += w; }
inline Net meaning(const std::vector<Rec> &v, bool aw, bool loops, bool sym) {
  Net m;
  auto id = [&](const std::string &s) { int i = m.find(s); if (i < 0) { m.add(s); i = m.n() - 1; } return i; };
  for (auto &r : v) {
    int i = id(r.a), j = id(r.b);
    if (i == j && !loops) continue;
    addLink(m.a[i], j, r.w, aw);
    if (sym && i != j) addLink(m.a[j], i, r.w, aw);
  }
  return m;
}
inline Two meaning2(const std::vector<Rec> &v, bool aw) {
  Two m;
  auto id = [&](std::vector<std::string> &l, const std::string &s) { for (int i = 0; i < (int)l.size(); i++) if (l[i] == s) return i; l.push_back(s); return (int)l.size() - 1; };
  for (auto &r : v) {
    int i = id(m.l1, r.a), j = id(m.l2, r.b);
    m.a.resize(m.l1.size());
    addLink(m.a[i], j, r.w, aw);
  }
  return m;
}
// a line that is not a record
inline std::string broken(bool weighted, const std::vector<std::string> &la) {
  switch (choose(weighted ? 5 : 3)) {
    case 0: return la[choose(la.size())];
    case 1: return "";
    case 2: return " \t";
    case 3: return la[choose(la.size())] + " " + la[choose(la.size())];
    default: return la[choose(la.size())] + " " + la[choose(la.size())] + " heavy";
  }
}
}  // namespace refs
