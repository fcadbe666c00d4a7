// P06: a library call depends on its arguments and the random source only. Any scenario of the
// library runs, then another one, then the first again with the same decisions in the same
// process: what it observed must be the same.
#include "core.h"
#include <algorithm>
using namespace sim;

static const std::vector<Scenario> &library() {
  static std::vector<Scenario> v;
  if (!v.empty()) return v;
  static const char *not_here[] = {"P05", "P06", "P07", "P08", "P25", "P26", "P27"};
  static const char *too_long[] = {"program", "one_switch", "one_switch_bipartite", "choice", "frequencies", "attachment", "teams", "sampling_posterior",
                                   "network_score_average", "ratings_average", "sbm_average", "ratings_large", "engine_cliques", "legacy_cliques",
                                   "settled", "slow"};
  for (auto &s : scenarios()) {
    bool out = false;
    for (auto p : not_here) out |= !strcmp(s.prop, p) && strcmp(s.name, "library");
    for (auto n : too_long) out |= !strcmp(s.name, n);
    if (!out) v.push_back(s);
  }
  std::sort(v.begin(), v.end(), [](const Scenario &a, const Scenario &b) { int c = strcmp(a.prop, b.prop); return c ? c < 0 : strcmp(a.name, b.name) < 0; });
  return v;
}
SCENARIO(P06, library_repeat, 3) {
  auto &L = library();
  const Scenario &a = L[choose((uint32_t)L.size())];
  op("first %s/%s", a.prop, a.name);
  Rehearsal r1 = rehearse(a.fn);
  if (r1.steps > 40000000) skip("long");
  int n = range(0, 2);
  for (int i = 0; i < n; i++) {
    const Scenario &b = flip(1, 3) ? a : L[choose((uint32_t)L.size())];
    op("then %s/%s", b.prop, b.name);
    if (rehearse(b.fn).steps > 40000000) skip("long");
  }
  int fill = (int)choose(5);
  uint64_t fs = 1 + choose(1000);
  op("again %s/%s", a.prop, a.name);
  Rehearsal r2 = rehearse(a.fn, &r1, fill, fs);
  nontrivial();
  probe((std::string("repeated ") + a.prop + "/" + a.name).c_str());
  size_t i = 0;
  while (i < r1.log.size() && i < r2.log.size() && r1.log[i] == r2.log[i]) i++;
  eval(i + 1);
  if (i == r1.log.size() && i == r2.log.size()) return;
  std::string last;
  for (size_t k = 0; k < i; k++) if (r1.log[k].compare(0, 6, "value ")) last = r1.log[k];
  fail("library-not-repeatable", "%s/%s repeated with the same arguments and random source: observation %zu is '%.300s', it was '%.300s' (after '%.200s')", a.prop, a.name, i,
       i < r2.log.size() ? r2.log[i].c_str() : "missing", i < r1.log.size() ? r1.log[i].c_str() : "missing", last.c_str());
}
