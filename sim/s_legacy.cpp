#include "legacy.h"
using namespace sim;
using namespace model;
namespace legacy {
node_gra *buildNet(const Graph &g) {
  node_gra *net = CreateHeaderGraph(), *last = net;
  std::vector<node_gra *> v;
  for (int i = 0; i < g.n; i++) {
    std::string l = (int)g.label.size() > i ? g.label[i] : "n" + std::to_string(i);
    last = CreateNodeGraph(last, const_cast<char *>(l.c_str()));
    v.push_back(last);
  }
  for (auto &x : g.e) {
    AddAdjacency(v[x.a], v[x.b], 0, 0, x.w, 0);
    AddAdjacency(v[x.b], v[x.a], 0, 0, x.w, 0);
  }
  return net;
}
std::vector<int> labelsOf(node_gra *net, int n) {
  std::vector<int> v(n, -1);
  for (node_gra *p = net->next; p; p = p->next) if (p->num >= 0 && p->num < n) v[p->num] = p->inGroup;
  return v;
}
void checkNet(node_gra *net, const Graph &g, const char *cls, const char *when) {
  auto A = g.matrix();
  int cnt = 0;
  for (node_gra *p = net->next; p; p = p->next) {
    CHECK(cnt < g.n, cls, "%s: more than the %d nodes expected", when, g.n);
    CHECK(p->num == cnt, cls, "%s: node %d carries number %d", when, cnt, p->num);
    std::vector<double> row(g.n, 0);
    int deg = 0;
    double st = 0;
    for (node_lis *q = p->neig->next; q; q = q->next) {
      CHECK(q->ref && q->ref->num >= 0 && q->ref->num < g.n, cls, "%s: link of node %d to a foreign node", when, cnt);
      CHECK(row[q->ref->num] == 0, cls, "%s: link %d-%d stored twice", when, cnt, q->ref->num);
      CHECK(q->node == q->ref->num && !strcmp(q->nodeLabel, q->ref->label), cls, "%s: link %d-%d carries number %d, label %s", when, cnt, q->ref->num, q->node, q->nodeLabel);
      row[q->ref->num] = q->weight;
      deg++;
      st += q->weight;
    }
    for (int j = 0; j < g.n; j++) CHECK(std::fabs(row[j] - A[cnt][j]) <= 1e-9 * std::max(1.0, std::fabs(A[cnt][j])), cls, "%s: weight of %d-%d is %g, should be %g", when, cnt, j, row[j], A[cnt][j]);
    CHECK((int)NodeDegree(p) == deg, cls, "%s: node %d has degree %d, has %d links", when, cnt, (int)NodeDegree(p), deg);
    CHECK(std::fabs(NodeStrength(p) - st) <= 1e-9 * std::max(1.0, st), cls, "%s: node %d has strength %g, links sum to %g", when, cnt, NodeStrength(p), st);
    cnt++;
  }
  CHECK(cnt == g.n, cls, "%s: %d nodes, should be %d", when, cnt, g.n);
}
void recountGroups(group *part, node_gra *net, const Graph &g, const std::vector<int> *labels, const char *cls, const char *when) {
  std::vector<node_gra *> nodes(g.n, nullptr);
  for (node_gra *p = net->next; p; p = p->next) nodes[p->num] = p;
  std::vector<int> seen(g.n, -1);
  std::set<int> ids;
  for (group *q = part->next; q; q = q->next) {
    CHECK(ids.insert(q->label).second, cls, "%s: two groups are labelled %d", when, q->label);
    int cnt = 0;
    for (node_lis *x = q->nodeList->next; x; x = x->next) {
      CHECK(cnt <= g.n, cls, "%s: list of group %d does not end", when, q->label);
      CHECK(x->node >= 0 && x->node < g.n && x->ref == nodes[x->node], cls, "%s: foreign node %d in group %d", when, x->node, q->label);
      CHECK(!strcmp(x->nodeLabel, nodes[x->node]->label), cls, "%s: member %d of group %d is called %s", when, x->node, q->label, x->nodeLabel);
      CHECK(seen[x->node] < 0, cls, "%s: node %d is in groups %d and %d", when, x->node, seen[x->node], q->label);
      CHECK(x->ref->inGroup == q->label, cls, "%s: node %d is listed in group %d but marked %d", when, x->node, q->label, x->ref->inGroup);
      seen[x->node] = q->label;
      cnt++;
    }
    CHECK(q->size == cnt, cls, "%s: group %d says size %d, has %d", when, q->label, q->size, cnt);
  }
  for (int i = 0; i < g.n; i++) {
    if (labels && (*labels)[i] < 0) { CHECK(seen[i] < 0, cls, "%s: node %d was taken out but is listed in group %d", when, i, seen[i]); continue; }
    CHECK(seen[i] >= 0, cls, "%s: node %d is in no group", when, i);
    if (labels) CHECK(seen[i] == (*labels)[i], cls, "%s: node %d should be in group %d, is in %d", when, i, (*labels)[i], seen[i]);
  }
  double W = 0;
  for (auto &e : g.e) W += std::fabs(e.w);
  double tol = 1e-9 * std::max(1.0, W);
  for (group *q = part->next; q; q = q->next) {
    int in = 0, out = 0;
    double inW = 0, outW = 0;
    for (auto &e : g.e) {
      bool a = seen[e.a] == q->label, b = seen[e.b] == q->label;
      if (a && b) in++, inW += e.w;
      else if (a || b) out++, outW += e.w;
    }
    CHECK(q->inlinks == in && q->outlinks == out && q->totlinks == in + out, cls, "%s: group %d records %d links (%d inside, %d leaving), its members have %d (%d, %d)", when, q->label, q->totlinks, q->inlinks, q->outlinks, in + out, in, out);
    CHECK(std::fabs(q->inlinksW - inW) <= tol && std::fabs(q->outlinksW - outW) <= tol && std::fabs(q->totlinksW - inW - outW) <= tol, cls, "%s: group %d records weight %g (%g inside, %g leaving), its members have %g (%g, %g)", when, q->label, q->totlinksW, q->inlinksW, q->outlinksW, inW + outW, inW, outW);
  }
}
}  // namespace legacy
