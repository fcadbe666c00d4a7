#include "model.h"
using namespace sim;
namespace model {
std::string num(double v) {
  char b[40];
  snprintf(b, sizeof b, "%.10g", v);
  return b;
}
std::vector<std::string> genLabels(int n, const char *prefix) {
  int style = (int)choose(6);
  std::vector<std::string> v;
  for (int i = 0; i < n; i++) {
    char b[128];
    switch (style) {
      case 0: snprintf(b, sizeof b, "%s%d", prefix, i); break;
      case 1: snprintf(b, sizeof b, "%d", i * 7 + 3); break;
      case 2: snprintf(b, sizeof b, "%s%c%d_%s", prefix, "+-.,;:#%&*"[i % 10], i, "x"); break;
      case 3: { static const int len[] = {0, 3, 17, 29, 30, 31, 48, 63, 64, 77, 90, 95}; std::string p(len[choose(12)], 'z'); snprintf(b, sizeof b, "%s%s%d", prefix, p.c_str(), i); break; }
      case 4: {  // a mark in front, or what looks like a number or a format
        static const char *f[] = {"#%s%d", "##%s%d", "-%s%d", "%%d%s%d", "/%s%d", "\"%s%d", "'%s%d\"", "0x%s%d", "1e%s%d", "+%s%d", "(%s%d)", "\xc3\xa9%s%d", "=%s%d"};
        snprintf(b, sizeof b, f[i % 13], i % 3 ? prefix : "", i);
        break;
      }
      default: snprintf(b, sizeof b, "%d%s", i, prefix); break;
    }
    v.push_back(b);
  }
  if (choose(2)) {  // any order
    for (int i = n - 1; i > 0; i--) std::swap(v[i], v[choose(i + 1)]);
  }
  return v;
}
int genSize(int lo, int hi, int big) {
  if (choose(40) != 39) return range(lo, hi);
  probe("large");
  return range(hi + 1, big);
}
Graph genGraph(int minN, int maxN, bool weighted, bool isolated, int big) {
  if (big && choose(40) == 39) { probe("large"); return genBigGraph(maxN + 1, big, weighted, isolated); }
  Graph g;
  g.n = range(minN, maxN);
  int n = g.n, kind = (int)choose(9);
  std::set<std::pair<int, int>> s;
  std::vector<std::pair<int, int>> order;
  auto add = [&](int a, int b) {
    if (a == b || a < 0 || b < 0 || a >= n || b >= n) return;
    auto p = std::make_pair(std::min(a, b), std::max(a, b));
    if (s.insert(p).second) order.push_back({a, b});
  };
  switch (kind) {
    case 0: for (int i = 1; i < n; i++) add(i - 1, i); break;                       // path
    case 1: for (int i = 0; i < n; i++) add(i, (i + 1) % n); break;                  // ring
    case 2: for (int i = 1; i < n; i++) add(0, i); break;                            // star
    case 3: { int h = std::max(1, n / 2); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if ((i < h) == (j < h)) add(i, j); if (n > 1) add(h - 1, h); break; }
    case 4: { int c = 2 + (int)choose(3); for (int i = 0; i < n; i++) if (i % c) add(i, i - 1); break; }  // clumps
    case 5: for (int i = 1; i < n; i++) add(i, (int)choose(i)); break;               // tree
    case 6: for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (choose(100) < 50) add(i, j); break;
    case 8: {                                                                          // nearly complete
      std::set<std::pair<int, int>> out;
      for (int i = range(0, 3); i > 0; i--) { int a = (int)choose(n), b = (int)choose(n); out.insert({std::min(a, b), std::max(a, b)}); }
      for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (!out.count({i, j})) add(i, j);
      break;
    }
    default: { int m = range(0, 2 * n); for (int i = 0; i < m; i++) add((int)choose(n), (int)choose(n)); }
  }
  int extra = (int)choose(4);
  for (int i = 0; i < extra; i++) add((int)choose(n), (int)choose(n));
  if (!isolated) {
    std::vector<int> d(n, 0);
    for (auto &p : s) { d[p.first]++; d[p.second]++; }
    for (int i = 0; i < n && n > 1; i++) if (!d[i]) { int j = (i + 1) % n; add(i, j); d[i]++; d[j]++; }
  }
  if (choose(2)) for (int i = (int)order.size() - 1; i > 0; i--) std::swap(order[i], order[choose(i + 1)]);
  if (choose(3) == 2) {   // the special nodes of the shape anywhere
    std::vector<int> id(n);
    for (int i = 0; i < n; i++) { id[i] = i; std::swap(id[i], id[choose(i + 1)]); }
    for (auto &p : order) p = {id[p.first], id[p.second]};
  }
  for (auto &p : order) {
    double w = weighted ? weightChoice() : 1;
    if (choose(3) == 1) g.e.push_back({p.second, p.first, w}); else g.e.push_back({p.first, p.second, w});
  }
  g.label = genLabels(n, "n");
  std::string t;
  for (auto &x : g.e) { t += " " + std::to_string(x.a) + "-" + std::to_string(x.b); if (weighted) t += ":" + num(x.w); }
  op("graph n=%d links=%zu kind=%d:%s", n, g.e.size(), kind, t.c_str());
  return g;
}
// Larger networks: shape from a few decisions, links from a local generator.
Graph genBigGraph(int minN, int maxN, bool weighted, bool isolated) {
  Graph g;
  g.n = range(minN, maxN);
  Prng r(seed64());
  bool stars = choose(3) == 2;   // a few stars with links among and between their leaves: nodes with the roles of hubs
  int blocks = stars ? range(2, 4) : range(1, 5);
  double pin = stars ? .02 * choose(6) : .2 + .1 * choose(9), pout = stars ? .01 * choose(6) : .02 * choose(10);
  if (g.n > 50) { pin *= 50. / g.n; pout *= 50. / g.n; }
  std::set<std::pair<int, int>> s;
  if (stars) {
    double reach = .1 * choose(8);   // of a centre into the leaves of the others
    for (int i = 0; i < g.n; i++)
      for (int c = 0; c < blocks; c++)
        if (i != c && (i % blocks == c || r.u() < reach)) s.insert({std::min(i, c), std::max(i, c)});
    probe("stars");
  }
  for (int i = 0; i < g.n; i++)
    for (int j = 0; j < i; j++)
      if (r.u() < (i % blocks == j % blocks ? pin : pout)) s.insert({j, i});
  std::vector<char> used(g.n, 0);
  for (auto &p : s) used[p.first] = used[p.second] = 1;
  if (!isolated || s.empty() || choose(2)) for (int i = 0; i < g.n; i++) if (!used[i]) { int j = (i + 1) % g.n; s.insert({std::min(i, j), std::max(i, j)}); used[j] = 1; }
  std::vector<std::pair<int, int>> order(s.begin(), s.end());
  for (int i = (int)order.size() - 1; i > 0; i--) std::swap(order[i], order[r.below(i + 1)]);
  for (auto &p : order) {
    double w = weighted ? .25 * (1 + r.below(24)) : 1;
    if (r.below(2)) g.e.push_back({p.second, p.first, w}); else g.e.push_back({p.first, p.second, w});
  }
  g.label = genLabels(g.n, "n");
  op("larger graph n=%d links=%zu blocks=%d pin=%g pout=%g", g.n, g.e.size(), blocks, pin, pout);
  return g;
}
Bip genBigBip(int n1, int n2, bool weighted, bool full) {
  Bip b;
  b.n1 = n1;
  b.n2 = n2;
  Prng r(seed64());
  double p = .05 + .1 * choose(5);
  for (int j = 0; j < n2; j++) {
    bool any = false;
    double q = full && j == 0 ? .9 : p;
    for (int i = 0; i < n1; i++) if (r.u() < q) { b.e.push_back({i, j, weighted ? .5 * (1 + r.below(8)) : 1}); any = true; }
    if (!any) b.e.push_back({(int)r.below(n1), j, 1});
  }
  std::vector<char> used(n1, 0);
  for (auto &x : b.e) used[x.a] = 1;
  for (int i = 0; i < n1; i++) if (!used[i]) b.e.push_back({i, (int)r.below(n2), 1});
  for (auto &x : b.e) if (!weighted) x.w = 1;
  // no pair twice
  std::set<std::pair<int, int>> seen;
  std::vector<Edge> u;
  for (auto &x : b.e) if (seen.insert({x.a, x.b}).second) u.push_back(x);
  b.e = u;
  for (int i = (int)b.e.size() - 1; i > 0; i--) std::swap(b.e[i], b.e[r.below(i + 1)]);
  b.l1 = genLabels(n1, "r");
  b.l2 = genLabels(n2, "c");
  op("larger bipartite n1=%d n2=%d links=%zu", n1, n2, b.e.size());
  return b;
}
Bip genBip(int min1, int max1, int min2, int max2, bool weighted, bool isolated) {
  Bip b;
  b.n1 = range(min1, max1);
  b.n2 = range(min2, max2);
  std::set<std::pair<int, int>> s;
  std::vector<std::pair<int, int>> order;
  auto add = [&](int x, int y) { if (s.insert({x, y}).second) order.push_back({x, y}); };
  int kind = (int)choose(4);
  if (kind == 0) { for (int i = 0; i < b.n1; i++) add(i, i % b.n2); }
  else if (kind == 1) { for (int i = 0; i < b.n1; i++) for (int j = 0; j < b.n2; j++) if ((i < b.n1 / 2) == (j < b.n2 / 2)) add(i, j); }
  else if (kind == 2) { for (int i = 0; i < b.n1; i++) for (int j = 0; j < b.n2; j++) if (choose(100) < 45) add(i, j); }
  else { int m = range(1, b.n1 + b.n2); for (int i = 0; i < m; i++) add((int)choose(b.n1), (int)choose(b.n2)); }
  if (!isolated) {
    std::vector<int> d1(b.n1, 0), d2(b.n2, 0);
    for (auto &p : s) { d1[p.first]++; d2[p.second]++; }
    for (int i = 0; i < b.n1; i++) if (!d1[i]) { int j = (int)choose(b.n2); add(i, j); d2[j]++; }
    for (int j = 0; j < b.n2; j++) if (!d2[j]) add((int)choose(b.n1), j);
  }
  if (choose(2)) for (int i = (int)order.size() - 1; i > 0; i--) std::swap(order[i], order[choose(i + 1)]);
  for (auto &p : order) b.e.push_back({p.first, p.second, weighted ? weightChoice() : 1});
  b.l1 = genLabels(b.n1, "r");
  b.l2 = genLabels(b.n2, "c");
  std::string t;
  for (auto &x : b.e) { t += " " + std::to_string(x.a) + "-" + std::to_string(x.b); if (weighted) t += ":" + num(x.w); }
  op("bipartite n1=%d n2=%d kind=%d:%s", b.n1, b.n2, kind, t.c_str());
  return b;
}
std::string edgeText(const Graph &g, bool weighted, bool fancy) {
  std::string t;
  for (auto &x : g.e) {
    const char *sep = fancy ? (choose(3) == 1 ? "\t" : choose(2) ? "  " : " ") : " ";
    t += g.label[x.a] + sep + g.label[x.b];
    if (weighted) t += sep + num(x.w);
    t += "\n";
  }
  return t;
}
std::vector<int> components(const Graph &g, const std::vector<int> &in) {
  std::vector<int> c(g.n, -1);
  std::vector<char> is(g.n, 0);
  for (int i : in) is[i] = 1;
  int nc = 0;
  for (int s : in) {
    if (c[s] >= 0) continue;
    std::vector<int> st{s};
    c[s] = nc;
    while (!st.empty()) {
      int u = st.back();
      st.pop_back();
      for (auto &x : g.e) {
        int v = x.a == u ? x.b : x.b == u ? x.a : -1;
        if (v >= 0 && is[v] && c[v] < 0) { c[v] = nc; st.push_back(v); }
      }
    }
    nc++;
  }
  return c;
}
double Mod::energy(const std::vector<int> &m) const {
  double s = 0;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (i != j && m[i] == m[j]) s += A[i][j] - k[i] * k[j];
  return s;
}
Mod plainMod(const Graph &g, bool normalize) {
  Mod m;
  m.n = g.n;
  m.A = g.matrix();
  m.k.assign(g.n, 0);
  double W = 0;
  for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) { m.k[i] += m.A[i][j]; W += m.A[i][j]; }
  if (normalize) {
    for (auto &r : m.A) for (auto &x : r) x /= W;
    for (auto &x : m.k) x /= W;
  } else m.scale = std::max(1.0, W * W);
  return m;
}
Mod bipMod(const Bip &b) {
  Mod m;
  m.n = b.n1;
  m.A.assign(b.n1, std::vector<double>(b.n1, 0));
  m.k.assign(b.n1, 0);
  double f1 = 0, f2 = 0;
  for (int t = 0; t < b.n2; t++) {
    double s = 0;
    int d = 0;
    for (auto &x : b.e) if (x.b == t) { s += x.w; d++; }
    if (!d) continue;
    f2 += s;
    f1 += s * (s - s / d);
    for (auto &x : b.e) if (x.b == t) for (auto &y : b.e) if (y.b == t && y.a != x.a) m.A[x.a][y.a] += x.w * y.w;
  }
  for (auto &x : b.e) m.k[x.a] += x.w / f2;
  for (auto &r : m.A) for (auto &x : r) if (x) x /= f1;
  return m;
}
bool sameSetPartition(const std::vector<int> &a, const std::vector<int> &b) {
  if (a.size() != b.size()) return false;
  std::map<int, int> f, r;
  for (size_t i = 0; i < a.size(); i++) {
    if (f.count(a[i]) && f[a[i]] != b[i]) return false;
    if (r.count(b[i]) && r[b[i]] != a[i]) return false;
    f[a[i]] = b[i];
    r[b[i]] = a[i];
  }
  return true;
}
std::string show(const std::vector<int> &v) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s;
}
std::vector<std::string> fields(const std::string &s, char sep) {
  std::vector<std::string> v(1);
  for (char c : s) { if (c == sep) v.emplace_back(); else v.back() += c; }
  return v;
}
std::vector<std::string> lines(const std::string &s) {
  std::vector<std::string> v = fields(s, '\n');
  if (!v.empty() && v.back().empty()) v.pop_back();
  return v;
}
std::vector<std::string> words(const std::string &s) {
  std::vector<std::string> v;
  std::string c;
  for (char ch : s + " ") {
    if (ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r') { if (!c.empty()) v.push_back(c); c.clear(); }
    else c += ch;
  }
  return v;
}
}  // namespace model
