// Reference models shared by the scenarios: tiny graphs and from-scratch computations.
#pragma once
#include "sim.h"
#include <cmath>
#include <set>
#include <algorithm>
namespace model {
struct Edge { int a, b; double w; };
struct Graph {
  int n = 0;
  std::vector<Edge> e;
  std::vector<std::string> label;
  std::vector<std::vector<double>> matrix() const {
    std::vector<std::vector<double>> A(n, std::vector<double>(n, 0));
    for (auto &x : e) { A[x.a][x.b] += x.w; A[x.b][x.a] += x.w; }
    return A;
  }
};
// Simple graph; every shape the decisions allow. isolated=false: every node has a link.
// One run in forty takes a network of up to `big` nodes, when given.
Graph genGraph(int minN, int maxN, bool weighted, bool isolated, int big = 0);
Graph genBigGraph(int minN, int maxN, bool weighted, bool isolated = false);
// A size between lo and hi; one run in forty one up to `big`.
int genSize(int lo, int hi, int big);
// Labels of many shapes (short, long, numeric, punctuation), distinct, without blanks.
std::vector<std::string> genLabels(int n, const char *prefix);
std::string edgeText(const Graph &g, bool weighted, bool fancy);
std::string num(double v);
// node -> component id in the subgraph induced by `in`
std::vector<int> components(const Graph &g, const std::vector<int> &in);

struct Bip {
  int n1 = 0, n2 = 0;
  std::vector<Edge> e;  // a in 0..n1-1, b in 0..n2-1
  std::vector<std::string> l1, l2;
};
Bip genBip(int min1, int max1, int min2, int max2, bool weighted, bool isolated);

Bip genBigBip(int n1, int n2, bool weighted, bool full = false);

// (A, k) of the modularity being optimised
struct Mod {
  int n;
  std::vector<std::vector<double>> A;
  std::vector<double> k;
  double scale = 1;  // magnitude for tolerances
  double energy(const std::vector<int> &m) const;   // sum over ordered pairs i != j in the same module of A_ij - k_i k_j
  double diag() const { double d = 0; for (double x : k) d += x * x; return d; }
};
Mod plainMod(const Graph &g, bool normalize);
Mod bipMod(const Bip &b);  // projection on the first side
bool sameSetPartition(const std::vector<int> &a, const std::vector<int> &b);
std::string show(const std::vector<int> &v);
// text helpers
std::vector<std::string> lines(const std::string &s);
std::vector<std::string> fields(const std::string &s, char sep);
std::vector<std::string> words(const std::string &s);
}  // namespace model
