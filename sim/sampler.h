// Reference model of the block-model posteriors and a driver for the real sampler steps.
#pragma once
#include "legacy.h"
namespace sampler {
enum { STD, AND, OR, OD, SPARSE, NKIND = 9 };
struct Kind { const char *name; int kind; bool gibbs; };
extern const Kind kinds[NKIND];
struct Model {
  const model::Graph *g = nullptr;
  int kind = STD;
  double linC = 0, a = .5, b = .5;
  double pair(int r, int l) const;   // energy of a pair of groups with r possible and l actual links
  double score(int r, int l) const;  // predicted reliability of a link in such a pair
  double H(const std::vector<int> &lab, bool labelled = true) const;
};
struct Chain {
  model::Graph g;
  Kind kind;
  Model m;
  node_gra *net = nullptr;
  group *part = nullptr;
  std::vector<node_gra *> nlist;
  std::vector<group *> glist;
  int **G2G = nullptr, *n2g = nullptr;
  double **LC = nullptr, *LF = nullptr, *HL = nullptr, *GA = nullptr, *GB = nullptr, *GAB = nullptr;
  int lc = 0, lf = 0, lg = 0, harmN = 0;
  double H = 0;
  void init(const model::Graph &g, const Kind &k, double linC, double a, double b, const std::vector<int> &lab, int lists);
  void place(const std::vector<int> &lab);
  void cache();
  double energy();
  void step(gsl_rng *gen);
  std::vector<int> labels();
  void verify(const char *when);
  void done();
};
std::vector<int> startLabels(int n);
std::vector<std::vector<int>> setPartitions(int n);
int canonical(const std::vector<int> &lab, const std::vector<std::vector<int>> &all);
double chi2tail(double x, int df);
void chiCheck(const std::vector<double> &p, const std::function<std::vector<double>(int)> &sample, int R, const char *cls, const char *what);
// `run(t, R)` adds R independent inferences to a running mean; compares with the exact mean and deviation.
void meanCheck(const std::vector<double> &mu, const std::vector<double> &sd, const std::function<std::vector<double>(int)> &run, int R, const char *cls, const char *what);
}  // namespace sampler
