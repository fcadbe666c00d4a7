// Reference model of the K-state ratings posteriors and a driver for the real sampler steps.
#pragma once
#include "sampler.h"
namespace ratings {
struct Rating { int a, b, r; };
// Ratings between two sets (bip) or links with states within one set (!bip, n2 unused).
struct Data {
  bool bip = true;
  int n1 = 0, n2 = 0, K = 2;
  std::vector<Rating> e;
  std::vector<std::string> l1, l2;
};
Data genData(bool bip, int max1, int max2, int K, bool isolated, int big = 0);
binet *buildBinet(const Data &d);
node_gra *buildNet(const Data &d);
void checkBinet(binet *b, const Data &d, const char *cls, const char *when);
void checkKNet(node_gra *net, const Data &d, const char *cls, const char *when);
struct Model {
  const Data *d = nullptr;
  bool two = false;  // two-state energy
  double pair(const std::vector<int> &nk) const;
  double H(const std::vector<int> &a, const std::vector<int> &b, bool labelled) const;
  std::vector<double> score(const std::vector<int> &a, const std::vector<int> &b, int i, int j) const;  // per state
};
struct Space {  // every pair of groupings
  std::vector<std::vector<int>> A, B;
  size_t size() const { return A.size() * B.size(); }
  const std::vector<int> &a(size_t i) const { return A[i / B.size()]; }
  const std::vector<int> &b(size_t i) const { return B[i % B.size()]; }
  explicit Space(const Data &d) {
    A = sampler::setPartitions(d.n1);
    B = d.bip ? sampler::setPartitions(d.n2) : std::vector<std::vector<int>>(1);
  }
};
Data without(const Data &d, const std::vector<std::pair<int, int>> &q);
enum { MC2, MCK, GIBBSK, LSK, NKIND };
extern const char *kindName[NKIND];
}  // namespace ratings
