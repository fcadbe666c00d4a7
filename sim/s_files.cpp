// P19: what is read from a file is what the file says; what is written can be read back.
#include "refs.h"
using namespace sim;
using namespace model;
namespace {
using store::Net;
using store::Two;
using namespace refs;
template <class F> void reading(const std::string &text, const FaultPlan &p, F f) {
  disk["in"].data = text;
  setPlan(p);
  captureBegin();
  FILE *in = openMem("in", "r");
  budget(20000000);
  f(in);
  noBudget();
  fclose(in);
  captureEnd(nullptr, nullptr);
  setPlan(FaultPlan());
}
void noLeak(uint64_t before, const char *cls, const char *what) { CHECK(heapLiveBlocks() == before, cls, "%llu blocks left %s", (unsigned long long)(heapLiveBlocks() - before), what); }
SCENARIO(P19, network_file, 4) {
  heapRandom();
  auto lab = genLabels(genSize(1, 14, 300), "n");
  bool w = choose(2), aw = choose(2), loops = choose(2), sym = choose(3) != 1;
  Text t = genText(lab, lab, w, lab.size() > 14 ? 600 : choose(3) == 1 ? 60 : 14);
  op("network file, %zu records over %zu names, weights %d add %d loops %d symmetric %d", t.r.size(), lab.size(), w, aw, loops, sym);
  for (auto &l : t.line) op("  %s", l.c_str());
  FaultPlan p = slicing();
  int what = (int)choose(4);
  node_gra *net = nullptr;
  if (what == 0) {  // a line that is not a record: no network, and nothing kept
    size_t at = choose(t.line.size() + 1);
    t.line.insert(t.line.begin() + at, broken(w, lab));
    bool last = at + 1 == t.line.size();
    if (last) t.nl = true;  // an empty end of file is no line
    fault("broken-line");
    op("line %zu is broken: '%s'", at, t.line[at].c_str());
    reading(t.all(), p, [&](FILE *f) { net = FBuildNetwork(f, w, loops, aw, sym); });
    CHECK(!net, "broken-line", "a network came out of a file with a broken line");
    noLeak(0, "leak", "after a broken line");
    nontrivial();
    return;
  }
  if (what == 1 && !t.all().empty()) {  // the disk fails half way
    p.readErrAt = (long)choose((uint32_t)t.all().size());
    op("reading fails after %ld bytes", p.readErrAt);
    reading(t.all(), p, [&](FILE *f) { net = FBuildNetwork(f, w, loops, aw, sym); });
    CHECK(!net, "read-error", "a network came out of a file that could not be read to its end");
    noLeak(0, "leak", "after a read error");
    nontrivial();
    return;
  }
  reading(t.all(), p, [&](FILE *f) { net = FBuildNetwork(f, w, loops, aw, sym); });
  CHECK(net, "network-file", "no network came out of a good file");
  Net m = meaning(t.r, aw, loops, sym);
  store::check(net, m, "network-file", "after reading");
  for (node_gra *q = net->next; q; q = q->next) for (node_lis *l = q->neig->next; l; l = l->next) CHECK(l->status == 0, "network-file", "link %d-%d carries status %d", q->num, l->node, l->status);
  if (m.links()) nontrivial();
  state(mix(m.links(), m.n() * 16 + w * 8 + aw * 4 + loops * 2 + sym));
  // write it and look at the text, then read it back
  bool pw = choose(2), ps = choose(2);
  FILE *f = openMem("out", "w");
  FPrintNetAdjacencyList(f, net, pw, ps);
  fclose(f);
  std::map<std::pair<std::string, std::string>, double> got;
  for (auto &l : lines(disk["out"].data)) {
    auto x = words(l);
    CHECK(x.size() == 2u + pw && got.insert({{x[0], x[1]}, pw ? atof(x[2].c_str()) : 1}).second, "adjacency-list", "strange or repeated line '%s'", l.c_str());
  }
  size_t want = 0;
  for (int i = 0; i < m.n(); i++) for (auto &x : m.a[i]) {
    if (ps && m.has(x.first, i)) { if (m.lab[i] > m.lab[x.first]) continue; }
    else if (ps && m.lab[i] > m.lab[x.first]) continue;  // one-way links have one end only
    want++;
    auto it = got.find({m.lab[i], m.lab[x.first]});
    CHECK(it != got.end(), "adjacency-list", "link %s - %s is not listed", m.lab[i].c_str(), m.lab[x.first].c_str());
    if (pw) CHECK(std::fabs(it->second - x.second) <= 1e-5 * x.second, "adjacency-list", "link %s - %s is listed with weight %g, weighs %g", m.lab[i].c_str(), m.lab[x.first].c_str(), it->second, x.second);
  }
  CHECK(got.size() == want, "adjacency-list", "%zu links listed, there are %zu", got.size(), want);
  if (!ps || m.symmetric()) {
    node_gra *back = nullptr;
    reading(disk["out"].data, slicing(), [&](FILE *g) { back = FBuildNetwork(g, pw, 1, 0, ps); });
    CHECK(back, "round-trip", "the list of links cannot be read back");
    int c = 0;
    for (node_gra *q = back->next; q; q = q->next) {
      int i = m.find(q->label);
      CHECK(i >= 0, "round-trip", "node %s appears from nowhere", q->label);
      for (node_lis *l = q->neig->next; l; l = l->next, c++) CHECK(m.find(l->ref->label) >= 0 && m.has(i, m.find(l->ref->label)), "round-trip", "link %s - %s appears from nowhere", q->label, l->ref->label);
    }
    CHECK(c == m.links(), "round-trip", "%d links read back, %d were there", c, m.links());
    RemoveGraph(back);
    probe("round-trip");
  }
  f = openMem("out", "w");
  FPrintDegrees(f, net);
  fclose(f);
  auto dl = lines(disk["out"].data);
  CHECK((int)dl.size() == m.n(), "degrees", "%zu degrees listed for %d nodes", dl.size(), m.n());
  for (int i = 0; i < m.n(); i++) CHECK(dl[i] == m.lab[i] + " " + std::to_string(m.a[i].size()), "degrees", "degree line '%s', node %s has %zu links", dl[i].c_str(), m.lab[i].c_str(), m.a[i].size());
  RemoveGraph(net);
  noLeak(0, "leak", "after reading and writing");
}
SCENARIO(P19, bipartite_file, 3) {
  heapRandom();
  bool w = choose(2), aw = choose(2), rec = w && !aw && choose(2), shared = choose(4) == 1;
  auto la = genLabels(genSize(1, 10, 300), "p"), lb = shared ? la : genLabels(genSize(1, 10, 300), "m");
  Text t = genText(la, lb, w, la.size() + lb.size() > 20 ? 600 : choose(3) == 1 ? 50 : 14);
  op("bipartite file, %zu records over %zu+%zu names, weights %d add %d", t.r.size(), la.size(), lb.size(), w, aw);
  for (auto &l : t.line) op("  %s", l.c_str());
  FaultPlan p = slicing();
  int what = (int)choose(4);
  binet *net = nullptr;
  auto read = [&](const FaultPlan &fp) { reading(t.all(), fp, [&](FILE *f) { net = rec ? ReadRecommenderObservations(f) : FBuildNetworkBipart(f, w, aw); }); };
  if (what == 0) {
    size_t at = choose(t.line.size() + 1);
    t.line.insert(t.line.begin() + at, broken(w, la));
    if (at + 1 == t.line.size()) t.nl = true;
    fault("broken-line");
    op("line %zu is broken: '%s'", at, t.line[at].c_str());
    read(p);
    CHECK(!net, "broken-line", "a network came out of a file with a broken line");
    noLeak(0, "leak", "after a broken line");
    nontrivial();
    return;
  }
  if (what == 1 && !t.all().empty()) {
    p.readErrAt = (long)choose((uint32_t)t.all().size());
    op("reading fails after %ld bytes", p.readErrAt);
    read(p);
    CHECK(!net, "read-error", "a network came out of a file that could not be read to its end");
    noLeak(0, "leak", "after a read error");
    nontrivial();
    return;
  }
  read(p);
  CHECK(net, "bipartite-file", "no network came out of a good file");
  Two m = meaning2(t.r, aw);
  store::checkTwo(net, m, "bipartite-file", "after reading");
  int links = 0;
  for (auto &x : m.a) links += x.size();
  if (links) nontrivial();
  state(mix(links, m.l1.size() * 100 + m.l2.size()));
  bool pw = choose(2);
  FILE *f = openMem("out", "w");
  FPrintBipart(f, net, pw);
  fclose(f);
  std::map<std::pair<std::string, std::string>, double> got;
  for (auto &l : lines(disk["out"].data)) {
    auto x = words(l);
    CHECK(x.size() == 2u + pw && got.insert({{x[0], x[1]}, pw ? atof(x[2].c_str()) : 1}).second, "bipartite-list", "strange or repeated line '%s'", l.c_str());
  }
  CHECK((int)got.size() == links, "bipartite-list", "%zu links listed, there are %d", got.size(), links);
  for (size_t i = 0; i < m.a.size(); i++) for (auto &x : m.a[i]) {
    auto it = got.find({m.l1[i], m.l2[x.first]});
    CHECK(it != got.end() && (!pw || std::fabs(it->second - x.second) <= 1e-5 * x.second), "bipartite-list", "link %s - %s is not listed or weighs %g instead of %g", m.l1[i].c_str(), m.l2[x.first].c_str(), it == got.end() ? 0 : it->second, x.second);
  }
  binet *back = nullptr;
  reading(disk["out"].data, slicing(), [&](FILE *g) { back = FBuildNetworkBipart(g, pw, 0); });
  CHECK(back, "round-trip", "the list of links cannot be read back");
  CHECK(NLinksBipart(back) == links && CountNodes(back->net1) == (int)m.l1.size() && CountNodes(back->net2) == (int)m.l2.size(), "round-trip", "read back: %d+%d nodes, %d links; there were %zu+%zu, %d", CountNodes(back->net1), CountNodes(back->net2), NLinksBipart(back), m.l1.size(), m.l2.size(), links);
  RemoveBipart(back);
  // Pajek
  bool co = choose(2);
  std::vector<node_gra *> all;
  for (node_gra *q = net->net1->next; q; q = q->next) all.push_back(q);
  for (node_gra *q = net->net2->next; q; q = q->next) all.push_back(q);
  for (auto *q : all) { q->coorX = range(-8, 8) / 4.; q->coorY = range(-8, 8) / 4.; q->coorZ = range(-8, 8) / 4.; }
  FPrintPajekFileBipart(cs("paj"), net, co, pw);
  auto pl = lines(disk["paj"].data);
  size_t N = all.size(), n1 = m.l1.size();
  CHECK(pl.size() == N + 2 + links && pl[0] == "*Vertices " + std::to_string(N) + " " + std::to_string(n1) && pl[N + 1] == "*Edges", "pajek", "the file has %zu lines and begins with '%s'", pl.size(), pl.empty() ? "" : pl[0].c_str());
  for (size_t i = 0; i < N; i++) {
    auto x = words(pl[i + 1]);
    CHECK(x.size() == (co ? 5u : 2u) && atoi(x[0].c_str()) == (int)i + 1 && x[1] == "\"" + std::string(all[i]->label) + "\"", "pajek", "node line '%s' for %s", pl[i + 1].c_str(), all[i]->label);
    if (co) CHECK(atof(x[2].c_str()) == all[i]->coorX && atof(x[3].c_str()) == all[i]->coorY && atof(x[4].c_str()) == all[i]->coorZ, "pajek", "coordinates '%s'", pl[i + 1].c_str());
  }
  std::set<std::pair<int, int>> seen;
  for (size_t i = N + 2; i < pl.size(); i++) {
    auto x = words(pl[i]);
    CHECK(x.size() == 2u + pw, "pajek", "link line '%s'", pl[i].c_str());
    int a = atoi(x[0].c_str()) - 1, b = atoi(x[1].c_str()) - 1 - (int)n1;
    CHECK(a >= 0 && a < (int)n1 && b >= 0 && m.a[a].count(b) && seen.insert({a, b}).second, "pajek", "link line '%s' is no link, or again", pl[i].c_str());
    if (pw) CHECK(std::fabs(atof(x[2].c_str()) - m.a[a][b]) <= 1e-5 * m.a[a][b], "pajek", "link line '%s' should weigh %g", pl[i].c_str(), m.a[a][b]);
  }
  RemoveBipart(net);
  noLeak(0, "leak", "after reading and writing");
}
SCENARIO(P19, pajek_file, 2) {
  heapRandom();
  auto lab = genLabels(genSize(1, 14, 300), "n");
  bool w = choose(2), loops = choose(2), sym = choose(3) != 1;
  Text t = genText(lab, lab, w, 30);
  op("Pajek file of %zu records, weights %d loops %d symmetric %d", t.r.size(), w, loops, sym);
  for (auto &l : t.line) op("  %s", l.c_str());
  node_gra *net = nullptr;
  reading(t.all(), slicing(), [&](FILE *f) { net = FBuildNetwork(f, w, loops, 1, sym); });
  CHECK(net, "network-file", "no network came out of a good file");
  Net m = meaning(t.r, true, loops, sym);
  auto v = store::nodes(net);
  for (auto *q : v) { q->coorX = range(-8, 8) / 4.; q->coorY = range(-8, 8) / 4.; q->coorZ = range(-8, 8) / 4.; q->inGroup = range(0, 5); }
  bool co = choose(2), pw = choose(2), ps = choose(2);
  if (ps && !m.symmetric()) ps = false;
  FPrintPajekFile(cs("paj"), net, co, pw, ps);
  auto pl = lines(disk["paj"].data);
  size_t N = v.size();
  CHECK(pl.size() >= N + 2 && pl[0] == "*Vertices " + std::to_string(N) && pl[N + 1] == (ps ? "*Edges" : "*Arcs"), "pajek", "the file has %zu lines and begins with '%s'", pl.size(), pl.empty() ? "" : pl[0].c_str());
  for (size_t i = 0; i < N; i++) {
    auto x = words(pl[i + 1]);
    CHECK(x.size() == (co ? 5u : 2u) && atoi(x[0].c_str()) == (int)i + 1 && x[1] == "\"" + m.lab[i] + "\"", "pajek", "node line '%s' for %s", pl[i + 1].c_str(), m.lab[i].c_str());
    if (co) CHECK(atof(x[2].c_str()) == v[i]->coorX && atof(x[3].c_str()) == v[i]->coorY && atof(x[4].c_str()) == v[i]->coorZ, "pajek", "coordinates '%s'", pl[i + 1].c_str());
  }
  Net back;
  for (auto &s : m.lab) back.add(s);
  for (size_t i = N + 2; i < pl.size(); i++) {
    auto x = words(pl[i]);
    CHECK(x.size() == 2u + pw, "pajek", "link line '%s'", pl[i].c_str());
    int a = atoi(x[0].c_str()) - 1, b = atoi(x[1].c_str()) - 1;
    CHECK(a >= 0 && a < m.n() && b >= 0 && b < m.n() && m.has(a, b), "pajek", "link line '%s' is no link", pl[i].c_str());
    CHECK(back.a[a].insert({b, 1}).second, "pajek", "link line '%s' comes twice", pl[i].c_str());
    if (ps && a != b) CHECK(back.a[b].insert({a, 1}).second, "pajek", "link line '%s' comes twice", pl[i].c_str());
    if (pw) CHECK(std::fabs(atof(x[2].c_str()) - m.a[a][b]) <= 1e-5 * m.a[a][b], "pajek", "link line '%s' should weigh %g", pl[i].c_str(), m.a[a][b]);
  }
  CHECK(back.links() == m.links(), "pajek", "%d links in the file, %d in the network", back.links(), m.links());
  FPrintPajekPartitionFile(cs("clu"), net);
  auto cl = lines(disk["clu"].data);
  CHECK(cl.size() == N + 1 && cl[0] == "*Vertices " + std::to_string(N), "pajek", "the partition file has %zu lines", cl.size());
  for (size_t i = 0; i < N; i++) CHECK(atoi(cl[i + 1].c_str()) == v[i]->inGroup + 1, "pajek", "node %zu is in group %d, the file says '%s'", i, v[i]->inGroup, cl[i + 1].c_str());
  if (m.links()) nontrivial();
  state(mix(m.links(), m.n() * 16 + w * 8 + co * 4 + pw * 2 + ps));
  RemoveGraph(net);
  noLeak(0, "leak", "after writing");
}
typedef std::vector<std::vector<std::string>> Groups;
void checkSoft(group *part, const Groups &want, const char *cls) {
  int i = 0;
  for (group *g = part->next; g; g = g->next, i++) {
    CHECK(i < (int)want.size(), cls, "more groups than the file holds (%zu)", want.size());
    CHECK(g->label == i, cls, "group %d carries label %d", i, g->label);
    CHECK(g->size == (int)want[i].size(), cls, "group %d has %d nodes, should have %zu", i, g->size, want[i].size());
    std::multiset<std::string> have, w(want[i].begin(), want[i].end());
    for (node_lis *p = g->nodeList->next; p; p = p->next) have.insert(p->nodeLabel);
    CHECK(have == w, cls, "group %d does not hold the names the file lists", i);
  }
  CHECK(i == (int)want.size(), cls, "%d groups, the file holds %zu", i, want.size());
}
Groups genGroups(bool tabs) {
  int n = range(0, 24), k = range(1, 6);
  auto lab = genLabels(std::max(n, 1), "n");
  lab.resize(n);
  if (tabs && choose(2)) for (auto &l : lab) if (choose(3) == 1 && l.size() < 90) l.insert(choose(l.size() + 1), " ");
  Groups g(k);
  for (auto &l : lab) g[choose(k)].push_back(l);
  Groups r;
  for (auto &x : g) if (!x.empty()) r.push_back(x);
  return r;
}
SCENARIO(P19, partition_file, 3) {
  heapRandom();
  Groups g = genGroups(false);
  group *part = CreateHeaderGroup();
  int skipped = 0;
  std::vector<int> label;
  for (size_t i = 0; i < g.size(); i++) {
    if (choose(4) == 1) { CreateGroup(part, (int)i + skipped++); }  // empty groups are not written
    label.push_back((int)i + skipped);
    group *x = CreateGroup(part, (int)i + skipped);
    for (auto &l : g[i]) AddNodeToGroupSoft(x, cs(l));
    x->totlinks = range(0, 99); x->inlinks = range(0, 99); x->outlinks = range(0, 99);
    x->totlinksW = range(0, 99) / 4.; x->inlinksW = range(0, 99) / 4.; x->outlinksW = range(0, 99) / 4.;
  }
  op("partition of %zu groups and %d empty ones", g.size(), skipped);
  for (auto &x : g) { std::string s; for (auto &l : x) s += " " + l; op(" %s", s.c_str()); }
  FILE *f = openMem("part", "w");
  FPrintPartition(f, part, 0);
  fclose(f);
  auto pl = lines(disk["part"].data);
  CHECK(pl.size() == g.size(), "partition-table", "%zu lines for %zu groups", pl.size(), g.size());
  group *q = part->next;
  for (size_t i = 0; i < g.size(); i++, q = q->next) {
    while (q->size == 0) q = q->next;
    auto x = words(pl[i]);
    CHECK(x.size() == 9 + g[i].size() && x[8] == "---", "partition-table", "strange line '%s'", pl[i].c_str());
    CHECK(atoi(x[0].c_str()) == label[i] + 1 && atoi(x[1].c_str()) == (int)g[i].size() && atoi(x[2].c_str()) == q->totlinks && atoi(x[3].c_str()) == q->inlinks && atoi(x[4].c_str()) == q->outlinks
          && atof(x[5].c_str()) == q->totlinksW && atof(x[6].c_str()) == q->inlinksW && atof(x[7].c_str()) == q->outlinksW, "partition-table", "line '%s' does not describe group %zu", pl[i].c_str(), i);
    CHECK(std::multiset<std::string>(x.begin() + 9, x.end()) == std::multiset<std::string>(g[i].begin(), g[i].end()), "partition-table", "line '%s' does not list the nodes of group %zu", pl[i].c_str(), i);
  }
  f = openMem("part", "w");
  FPrintPartition(f, part, 1);
  fclose(f);
  RemovePartition(part);
  noLeak(0, "leak", "after writing a partition");
  std::string text = disk["part"].data;
  FaultPlan p = slicing();
  bool cut = false;
  switch (choose(5)) {
    case 0: text.resize(choose(text.size() + 1)); cut = true; fault("file-cut-short"); op("cut to %zu bytes", text.size()); break;
    case 1: if (!text.empty()) { p.readErrAt = (long)choose(text.size()); cut = true; op("reading fails after %ld bytes", p.readErrAt); } break;
    case 2: if (!text.empty()) { text.pop_back(); op("no newline at the end"); } break;
    default: {  // blank space between the names
      std::string s;
      for (char c : text) { s += c; if (c == '\n' && choose(6) == 1) s += choose(2) ? "\n" : " \t"; }
      text = s;
    }
  }
  Groups want;
  {
    bool open = false;
    for (auto &x : words(p.readErrAt >= 0 ? text.substr(0, p.readErrAt) : text)) {
      if (!open) want.emplace_back();
      open = x != "///";
      if (open) want.back().push_back(x);
    }
  }
  if (!cut) CHECK(want == g || (want.size() == g.size()), "partition-file", "the written file does not list the groups");
  group *back = nullptr;
  reading(text, p, [&](FILE *in) { back = FCreatePartition(in); });
  checkSoft(back, want, "partition-file");
  if (!cut) {
    Groups s = g;
    for (size_t i = 0; i < s.size(); i++) CHECK(std::multiset<std::string>(s[i].begin(), s[i].end()) == std::multiset<std::string>(want[i].begin(), want[i].end()), "partition-file", "group %zu changed on its way through the file", i);
    probe("round-trip");
  }
  RemovePartition(back);
  noLeak(0, "leak", "after reading a partition");
  nontrivial();
  state(mix(text.size(), want.size()));
}
SCENARIO(P19, partition_rows, 2) {
  heapRandom();
  Groups g = genGroups(true);
  std::string text;
  bool messy = choose(2);
  for (auto &x : g) {
    if (messy && choose(3) == 1) text += choose(2) ? "\n" : "\t\n";
    if (messy && choose(3) == 1) text += "\t";
    for (size_t i = 0; i < x.size(); i++) text += (i ? messy && choose(4) == 1 ? "\t\t" : "\t" : "") + x[i];
    if (messy && choose(3) == 1) text += "\t";
    text += "\n";
  }
  if (messy && choose(3) == 1) text += "\n\n";
  if (!text.empty() && choose(3) == 1) text.pop_back();
  op("partition rows of %zu groups, %zu bytes", g.size(), text.size());
  for (auto &l : lines(text)) op("  %s", l.c_str());
  group *back = nullptr;
  reading(text, slicing(), [&](FILE *in) { back = FReadPartition(in); });
  checkSoft(back, g, "partition-rows");
  RemovePartition(back);
  noLeak(0, "leak", "after reading a partition");
  nontrivial();
  state(mix(text.size(), g.size()));
}
}  // namespace
