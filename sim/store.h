// Reference for the linked-list network: nodes in order, directed adjacencies with weights.
#pragma once
#include "model.h"
#include "lib.h"
namespace store {
struct Net {
  std::vector<std::string> lab;
  std::vector<std::map<int, double>> a;
  int n() const { return (int)lab.size(); }
  int find(const std::string &s) const { for (int i = 0; i < n(); i++) if (lab[i] == s) return i; return -1; }
  int links() const { int c = 0; for (auto &m : a) c += m.size(); return c; }
  bool has(int i, int j) const { return a[i].count(j) > 0; }
  void add(const std::string &s) { lab.push_back(s); a.emplace_back(); }
  void erase(int v);
  bool symmetric() const { for (int i = 0; i < n(); i++) for (auto &x : a[i]) if (!a[x.first].count(i)) return false; return true; }
};
Net fromGraph(const model::Graph &g);
std::vector<node_gra *> nodes(node_gra *net);
// Everything the network holds, its numbering, its wiring and its cached counts.
void check(node_gra *net, const Net &m, const char *cls, const char *when);
bool close(double a, double b);
std::string show(const Net &m);
std::string newLabel(const Net &m, const char *prefix);
// both sides of a bipartite network: m.a[i] maps to nodes of the second side
struct Two { std::vector<std::string> l1, l2; std::vector<std::map<int, double>> a; };
void checkTwo(binet *b, const Two &m, const char *cls, const char *when);
binet *buildTwo(const Two &m);
Two fromBip(const model::Bip &b);
}  // namespace store
