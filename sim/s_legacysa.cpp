// P10: the legacy annealing and the netcarto_legacy program.
#include "legacy.h"
#include "progs.h"
#include "jobs.h"
using namespace sim;
using namespace model;
extern "C" group *SAGroupSplit(group *targ, double Ti, double Tf, double Ts, int cluster_sw, gsl_rng *gen);
extern "C" group *SACommunityIdent(node_gra *, double Ti, double Tf, double Ts, double fac, int ngroup, char initial_sw, int collective_sw, char output_sw, gsl_rng *);
namespace {
std::vector<node_gra *> byNum(node_gra *net, int n) {
  std::vector<node_gra *> v(n, nullptr);
  for (node_gra *p = net->next; p; p = p->next) v.at(p->num) = p;
  return v;
}
double modularity(const Graph &g, const std::vector<int> &m) {
  double M = g.e.size(), q = 0;
  std::set<int> ls(m.begin(), m.end());
  for (int l : ls) {
    double in = 0, d = 0;
    for (auto &e : g.e) { in += m[e.a] == l && m[e.b] == l; d += (m[e.a] == l) + (m[e.b] == l); }
    q += in / M - d * d / (4 * M * M);
  }
  return q;
}
}  // namespace
SCENARIO(P10, anneal, 8) {
  heapRandom();
  Graph g = genGraph(1, 10, false, true, 25);
  node_gra *net = legacy::buildNet(g);
  RngMode mode = (RngMode)(choose(4) == 3 ? choose(NMODES) : FAIR);
  if (mode == GRID && g.n > 16) mode = FAIR;
  static const double tss[] = {0.8, 0.5, 0.93, 0.3};
  static const double tfs[] = {1e-3, 1e-2, 1e-6, 1e-12};
  static const double facs[] = {0.1, 0.3, 0.01, 0.6, 1.0};
  double Ti = choose(2) ? 2.0 / g.n : 0.5, Tf = tfs[choose(4)], Ts = tss[choose(4)], fac = facs[choose(5)];
  int kind = (int)choose(5);
  bool byLimit = false, links = !g.e.empty();
  if (kind == 1 && links) { Tf = 0; byLimit = true; mode = FAIR; if (Ts > .8) Ts = .8; if (fac > .3) fac = .3; }
  else if (kind == 2 && links) { Ti = 0; Tf = -1; Ts = 0; byLimit = true; mode = FAIR; probe("zero-temperature"); }
  else if (kind == 3) { Ti = Tf / 2; probe("no-temperature-step"); }
  char init = choose(2) ? 'r' : 'o';
  int ng = choose(6) == 5 ? 0 : range(1, g.n + 2), coll = choose(3) != 1;
  static const char sws[] = "vnmdsb";
  char sw = sws[choose(6)];
  gsl_rng *gen = newRng(mode, seed64());
  fault((std::string("draws:") + modeName(mode)).c_str());
  op("anneal Ti=%g Tf=%g Ts=%g fac=%g init=%c groups=%d collective=%d output=%c", Ti, Tf, Ts, fac, init, ng, coll, sw);
  double low = Tf > 0 ? Tf : 1e-300, temps = Ti > low && Ts > 0 ? std::log(low / Ti) / std::log(Ts) + 2 : 200;
  if (Ti == 0) temps = 60 * (25 + 5 * g.n * g.n);
  double split = Ti > low ? std::log(low / Ti) / std::log(.95) + 50 : 5, n = g.n;
  double per = std::max(10., fac * n * n) * (400 + 100 * n) + std::max(2., fac * n) * ((split * n + n * n + 10) * (400 + 100 * n) + 20000);
  budget((uint64_t)(20 * temps * per) + 5000000);
  std::string err;
  disk.clear();
  captureBegin();
  group *part = SACommunityIdent(net, Ti, Tf, Ts, fac, ng, init, coll, sw, gen);
  captureEnd(nullptr, &err);
  noBudget();
  CHECK(part != nullptr, "result", "no partition is returned");
  std::vector<int> lab = legacy::labelsOf(net, g.n);
  legacy::recountGroups(part, net, g, &lab, "result", "annealed partition");
  for (group *q = part->next; q; q = q->next) CHECK(q->size > 0, "result", "an empty group is returned");
  int top = init == 'o' || ng == 0 ? g.n : ng;
  CHECK(NGroups(part) <= top, "result", "%d groups, %d were allowed", NGroups(part), top);
  legacy::checkNet(net, g, "network-changed", "after annealing");
  // the progress report
  double best = -1e300;
  int seen = 0, dbg = 0;
  std::vector<int> cur;
  if (links)
  for (auto &l : lines(err)) {
    if (l.find(" ---") != std::string::npos) { dbg++; continue; }
    double a, b, c, d;
    if (l[0] == '#') { probe("restart-from-best"); continue; }
    bool two = sw == 'v' || sw == 'd';
    CHECK((two ? sscanf(l.c_str(), "%lf %lf %lf %lf", &a, &b, &c, &d) == 4 : sscanf(l.c_str(), "%lf %lf %lf", &a, &b, &d) == 3), "report", "unexpected progress line: %.80s", l.c_str());
    if (two) CHECK(std::fabs(b - c) <= 2e-6, "running-energy", "the running modularity is %.6f, the partition has %.6f (line %d)", b, c, seen + 1);
    if (seen++) best = std::max(best, b);
  }
  if (links) {
    double q = modularity(g, lab);
    CHECK(std::fabs(Modularity(part) - q) < 1e-9, "result", "modularity %.9g, should be %.9g", Modularity(part), q);
    if (seen > 1) CHECK(q >= best - 3e-6, "worse-than-reported", "the returned partition has modularity %.6f, %.6f was reported", q, best);
    if (byLimit) probe("ended-by-no-change");
  }
  if (sw == 's' || sw == 'b') {
    // the backup is the best partition so far: complete, one name per line
    std::string t = disk.count("part.tmp") ? disk["part.tmp"].data : "";
    std::vector<int> bl(g.n, -1);
    int m = 0;
    for (auto &s : lines(t)) {
      if (s == "///") { m++; continue; }
      int v = -1;
      for (int i = 0; i < g.n; i++) if (g.label[i] == s) v = i;
      CHECK(v >= 0 && bl[v] < 0, "backup", "unexpected or repeated node '%s' in the backup", s.c_str());
      bl[v] = m;
    }
    if (seen && links) for (int i = 0; i < g.n; i++) CHECK(bl[i] >= 0, "backup", "node %d is missing from the backup", i);
    if (seen && links) CHECK(modularity(g, bl) >= best - 3e-6, "backup", "the backup has modularity %.6f, %.6f was reported", modularity(g, bl), best);
  }
  if (seen > 2 || (links && sw == 'n')) nontrivial();
  uint64_t h = 5;
  for (int x : lab) h = mix(h, x);
  state(h);
  RemovePartition(part);
  RemoveGraph(net);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
}
SCENARIO(P10, split, 4) {
  heapRandom();
  bool weighted = choose(3) == 1;
  Graph g = genGraph(1, 12, weighted, true, 60);
  node_gra *net = legacy::buildNet(g);
  auto nodes = byNum(net, g.n);
  int ng = range(1, 3);
  std::vector<int> lab(g.n);
  group *part = CreateHeaderGroup(), *last = part;
  std::vector<group *> gs;
  for (int i = 0; i < ng; i++) gs.push_back(last = CreateGroup(last, i));
  ResetNetGroup(net);
  for (int i = 0; i < g.n; i++) AddNodeToGroup(gs[lab[i] = (int)choose(ng)], nodes[i]);
  gsl_rng *gen = anyRng(g.n);
  int k = range(1, 3);
  for (int r = 0; r < k; r++) {
    group *t = gs[choose(ng)];
    if (!t->size) continue;
    std::vector<int> in;
    for (node_lis *x = t->nodeList->next; x; x = x->next) in.push_back(x->node);
    int sw = choose(2);
    double Ti = choose(2) ? .5 : 2. / g.n, Tf = choose(2) ? Ti / 1000 : Ti * 2, Ts = choose(2) ? .8 : .95;
    op("split group %d of %zu clusters=%d Ti=%g Tf=%g Ts=%g", t->label, in.size(), sw, Ti, Tf, Ts);
    budget(20000000 + (uint64_t)(in.size() * in.size()) * 4000000);
    group *s = SAGroupSplit(t, Ti, Tf, Ts, sw, gen);
    noBudget();
    CHECK(NGroups(s) == 2 || (NGroups(s) == 1 && in.size() == 1), "split", "split into %d groups", NGroups(s));
    std::map<std::string, int> where;
    int tot = 0;
    for (group *q = s->next; q; q = q->next) {
      int c = 0;
      for (node_lis *x = q->nodeList->next; x; x = x->next) { CHECK(where.insert({x->nodeLabel, q == s->next}).second, "split", "node %s is on both sides", x->nodeLabel); c++; }
      CHECK(c == q->size, "split", "side says size %d, has %d", q->size, c);
      tot += c;
    }
    CHECK(tot == (int)in.size(), "split", "%d nodes after the split, the group has %zu", tot, in.size());
    for (int i : in) CHECK(where.count(g.label[i]), "split", "node %d is missing after the split", i);
    RemovePartition(s);
    legacy::recountGroups(part, net, g, &lab, "split-changed-original", "after a split");
    legacy::checkNet(net, g, "network-changed", "after a split");
    nontrivial();
  }
  RemovePartition(part);
  RemoveGraph(net);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
}
namespace programs {
LegacyJob legacyJob() {
  LegacyJob j;
  Graph &g = j.g;
  g = genGraph(2, 9, false, false);
  if (g.e.empty()) skip("no-links");
  for (auto &l : g.label) if (l.size() > 60) l = l.substr(l.size() - 60);
  std::set<std::string> dis(g.label.begin(), g.label.end());
  if ((int)dis.size() < g.n) skip("labels");
  std::vector<int> &order = j.order;
  for (auto &e : g.e) for (int v : {e.a, e.b}) if (std::find(order.begin(), order.end(), v) == order.end()) order.push_back(v);
  j.text = edgeText(g, false, true);
  static const char *its[] = {"1.0", "0.1", "0.4"}, *cs[] = {"0.9", "0.6", "0.97"};
  j.args = {"netcarto_legacy", "-f", "net.dat", "-s", std::to_string(1 + choose(5000)), "-i", its[choose(3)], "-c", cs[choose(3)]};
  // randomisations need a legal swap of two links
  auto A = g.matrix();
  bool swap = false;
  for (auto &x : g.e) for (auto &y : g.e) {
    std::set<int> s{x.a, x.b, y.a, y.b};
    if (s.size() == 4 && ((!A[x.a][y.b] && !A[x.b][y.a]) || (!A[x.a][y.a] && !A[x.b][y.b]))) swap = true;
  }
  int &rep = j.rep;
  rep = swap && choose(3) == 1 ? range(1, 2) : 0;
  if (rep) { j.args.push_back("-r"); j.args.push_back(std::to_string(rep)); probe("randomisations"); }
  return j;
}
std::vector<int> legacyCheck(const LegacyJob &j) {
  const Graph &g = j.g;
  const std::vector<int> &order = j.order;
  int rep = j.rep;
  auto A = g.matrix();
  std::map<std::string, int> id;
  for (int i = 0; i < g.n; i++) id[g.label[i]] = i;
  auto groupsOf = [&](const std::string &name, bool roles) {
    std::vector<int> m(g.n, -1);
    for (auto &l : lines(disk[name].data)) {
      if (l[0] == '#') continue;
      auto w = words(l);
      size_t k = std::find(w.begin(), w.end(), "---") - w.begin();
      CHECK(k == 8, "program", "%s: unexpected line %.80s", name.c_str(), l.c_str());
      int lb = atoi(w[0].c_str());
      CHECK((int)(w.size() - k - 1) == atoi(w[1].c_str()), "program", "%s: group %d says %s nodes, lists %zu", name.c_str(), lb, w[1].c_str(), w.size() - k - 1);
      for (size_t i = k + 1; i < w.size(); i++) { CHECK(id.count(w[i]) && m[id[w[i]]] < 0, "program", "%s: unknown or repeated node %s", name.c_str(), w[i].c_str()); m[id[w[i]]] = lb; }
      int in = 0, out = 0;
      for (auto &e : g.e) { int c = (m[e.a] == lb) + (m[e.b] == lb); if (c == 2) in++; else if (c) out++; }
      CHECK(atoi(w[2].c_str()) == in + out && atoi(w[3].c_str()) == in && atoi(w[4].c_str()) == out, "program", "%s: group %d has %d links inside and %d leaving: %.80s", name.c_str(), lb, in, out, l.c_str());
      CHECK(std::fabs(atof(w[5].c_str()) - in - out) < 1e-5 && std::fabs(atof(w[6].c_str()) - in) < 1e-5, "program", "%s: weights of group %d: %.80s", name.c_str(), lb, l.c_str());
    }
    for (int i = 0; i < g.n; i++) CHECK(m[i] >= 0, "program", "%s: node %s is missing", name.c_str(), g.label[i].c_str());
    return m;
  };
  auto mod = groupsOf("modules.dat", false), rol = groupsOf("roles.dat", true);
  double q = modularity(g, mod), got = NAN;
  size_t at = disk["modules.dat"].data.find("# Modularity = ");
  CHECK(at != std::string::npos && sscanf(disk["modules.dat"].data.c_str() + at, "# Modularity = %lf", &got) == 1 && std::fabs(got - q) <= 2e-5, "program", "modularity %g is reported, should be %g", got, q);
  for (auto &f : {std::make_pair("modules.clu", &mod), std::make_pair("roles.clu", &rol)}) {
    auto l = lines(disk[f.first].data);
    CHECK((int)l.size() == g.n + 1 && l[0] == "*Vertices " + std::to_string(g.n), "program", "%s has %zu lines", f.first, l.size());
    for (int i = 0; i < g.n; i++) CHECK(atoi(l[i + 1].c_str()) == (*f.second)[order[i]], "program", "%s: node %d is in %s, the partition says %d", f.first, i, l[i + 1].c_str(), (*f.second)[order[i]]);
  }
  auto np = lines(disk["node_prop.dat"].data);
  CHECK((int)np.size() == g.n, "program", "node_prop.dat has %zu lines", np.size());
  for (int i = 0; i < g.n; i++) {
    int v = order[i];
    auto w = words(np[i]);
    CHECK(w.size() == 4 && w[0] == g.label[v], "program", "node_prop.dat line %d: %.80s", i + 1, np[i].c_str());
    int k = 0;
    std::map<int, int> to;
    for (int j = 0; j < g.n; j++) if (A[v][j]) { k++; to[mod[j]]++; }
    double P = 1, m1 = 0, m2 = 0;
    for (auto &x : to) P -= (double)x.second * x.second / ((double)k * k);
    int c = 0, mine = 0;
    for (int a = 0; a < g.n; a++) if (mod[a] == mod[v]) { int s = 0; for (int b = 0; b < g.n; b++) if (mod[b] == mod[v] && A[a][b]) s++; m1 += s; m2 += s * s; c++; if (a == v) mine = s; }
    m1 /= c; m2 /= c;
    double sd = std::sqrt(std::max(0., m2 - m1 * m1)), z = sd > 1e-6 ? (mine - m1) / sd : 0;
    CHECK(atoi(w[1].c_str()) == k && std::fabs(atof(w[2].c_str()) - P) < 2e-6 && std::fabs(atof(w[3].c_str()) - z) < 2e-6, "program", "node %s: degree %s participation %s relative degree %s, should be %d %.6f %.6f", w[0].c_str(), w[1].c_str(), w[2].c_str(), w[3].c_str(), k, P, z);
    auto role = [](double P, double z) { return z < 2.5 ? (P < .05 ? 1 : P < .62 ? 2 : P < .8 ? 3 : 4) : (P < .3 ? 5 : P < .75 ? 6 : 7); };
    CHECK(rol[v] == role(P, z) || rol[v] == role(P + 1e-9, z) || rol[v] == role(P - 1e-9, z), "program", "role of node %s is %d, should be %d", w[0].c_str(), rol[v], role(P, z));
  }
  // the network file
  auto nl = lines(disk["network.net"].data);
  CHECK(nl.size() == 2 + g.n + g.e.size() && nl[0] == "*Vertices " + std::to_string(g.n) && nl[g.n + 1] == "*Edges", "program", "network.net has %zu lines", nl.size());
  std::set<std::pair<int, int>> es;
  for (size_t i = g.n + 2; i < nl.size(); i++) { int a, b; CHECK(sscanf(nl[i].c_str(), "%d %d", &a, &b) == 2 && a >= 1 && b >= 1 && a <= g.n && b <= g.n, "program", "network.net: %.60s", nl[i].c_str()); a = order[a - 1]; b = order[b - 1]; es.insert({std::min(a, b), std::max(a, b)}); }
  for (auto &e : g.e) CHECK(es.count({std::min(e.a, e.b), std::max(e.a, e.b)}), "program", "network.net lacks a link");
  double r1, r2, r3;
  auto rl = lines(disk["randomized_mod.dat"].data);
  CHECK(rl.size() == 2 && sscanf(rl[1].c_str(), "%lf %lf %lf", &r1, &r2, &r3) == 3 && std::fabs(r1 - q) < 2e-6, "program", "randomized_mod.dat: %.80s", rl.empty() ? "" : rl.back().c_str());
  if (rep) CHECK(r2 > -1 && r2 < 1 && r3 >= 0 && r3 <= 1, "program", "randomised modularity %g +- %g", r2, r3);
  op("modules %s q=%.6f", show(mod).c_str(), q);
  return mod;
}
}  // namespace programs
// The whole program.
SCENARIO(P10, program, 1) {
  programs::LegacyJob j = programs::legacyJob();
  disk.clear();
  disk["net.dat"].data = j.text;
  FaultPlan fp;
  if (choose(2)) { fp.readChunk = -range(1, 40); fp.bufSize = range(1, 64); fault("read-chunking"); }
  heapRandom();
  std::string in;
  switch (choose(4)) {
    case 1:  // from the standard input
      in = j.text;
      j.args.erase(j.args.begin() + 1, j.args.begin() + 3);
      disk.clear();
      probe("network-on-stdin");
      break;
    case 2:  // asks for everything
      in = j.args[4] + "\nnet.dat\n" + j.args[6] + "\n" + j.args[8] + "\n" + std::to_string(j.rep) + "\n";
      j.args.resize(1);
      probe("prompts");
      break;
    default: break;
  }
  Proc p = runProcess(prog_main_netcarto_netcarto_legacy, j.args, in, fp, FAIR, seed64(), 3000000000ULL);
  CHECK(p.code == 0, "program", "exit status %d", p.code);
  std::vector<int> mod = programs::legacyCheck(j);
  nontrivial();
  uint64_t h = 6;
  for (int x : mod) h = mix(h, x);
  state(h);
}
