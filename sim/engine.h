// Shared helpers for the adjacency-array annealing engine.
#pragma once
#include "model.h"
#include "lib_sa.h"
namespace engine {
struct Eng {
  model::Graph g;
  model::Bip b;
  bool bip = false;
  model::Mod mod;
  Partition *part = nullptr;
  AdjaArray *adj = nullptr;
  int n = 0;
};
// Builds the engine's structures from a generated network through its own construction code.
Eng build(int minN, int maxN, bool allowBip, int big = 0);
// Full recount of the partition against `expect` (module per node, by module id).
void recount(const Partition *p, const model::Mod &mod, const std::vector<int> *expect, const char *when);
std::vector<int> modulesOf(const Partition *p);
void checkAdj(const Eng &e, const char *when);
}  // namespace engine
