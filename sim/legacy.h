// Shared helpers for the linked-list network and group structures.
#pragma once
#include "model.h"
#include "lib.h"
namespace legacy {
// Built node by node and link by link through the library's own construction calls.
node_gra *buildNet(const model::Graph &g);
// Every node of the graph in exactly one group of `part`; every recorded number equals a recount.
void recountGroups(group *part, node_gra *net, const model::Graph &g, const std::vector<int> *labels, const char *cls, const char *when);
std::vector<int> labelsOf(node_gra *net, int n);
void checkNet(node_gra *net, const model::Graph &g, const char *cls, const char *when);
}  // namespace legacy
