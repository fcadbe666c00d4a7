// P24: containers and numeric tables over histories of uses.
#include "store.h"
#include <deque>
#include <search.h>
using namespace sim;
SCENARIO(P24, containers, 3) {
  heapRandom();
  int ns = range(1, 3), nq = range(1, 3), steps = range(1, 80);
  std::vector<stack *> S; std::vector<queue *> Q;
  std::vector<std::vector<void *>> ms(ns);
  std::vector<std::deque<void *>> mq(nq);
  for (int i = 0; i < ns; i++) S.push_back(stack_create());
  for (int i = 0; i < nq; i++) Q.push_back(queue_create());
  static char things[64];
  for (int k = 0; k < steps; k++) {
    void *x = things + choose(64);
    if (choose(2)) {
      int i = (int)choose(ns), o = (int)choose(8);
      auto &m = ms[i];
      if (o < 4) { op("push %d", (int)((char *)x - things)); stack_push(S[i], x); m.push_back(x); nontrivial(); }
      else if (o < 7) {
        void *p = stack_pop(S[i]), *w = m.empty() ? nullptr : m.back();
        op("pop");
        if (!m.empty()) m.pop_back();
        CHECK(p == w, "stack", "popped something else than the last element pushed");
      } else { op("clear stack"); stack_clear(S[i]); m.clear(); }
      CHECK(stack_top(S[i]) == (m.empty() ? nullptr : m.back()), "stack", "top is not the last element pushed");
      CHECK(stack_empty(S[i]) == m.empty(), "stack", "empty: %d with %zu elements", (int)stack_empty(S[i]), m.size());
      CHECK(S[i]->length == (int)m.size(), "stack", "length %d with %zu elements", S[i]->length, m.size());
      state(mix(1, m.size()));
    } else {
      int i = (int)choose(nq), o = (int)choose(8);
      auto &m = mq[i];
      if (o < 4) { op("enqueue %d", (int)((char *)x - things)); queue_enqueue(Q[i], x); m.push_back(x); nontrivial(); }
      else if (o < 7) {
        void *p = queue_dequeue(Q[i]), *w = m.empty() ? nullptr : m.front();
        op("dequeue");
        if (!m.empty()) m.pop_front();
        CHECK(p == w, "queue", "dequeued something else than the first element enqueued");
      } else { op("clear queue"); queue_clear(Q[i]); m.clear(); }
      CHECK(queue_first(Q[i]) == (m.empty() ? nullptr : m.front()), "queue", "first is not the first element enqueued");
      CHECK(queue_empty(Q[i]) == m.empty(), "queue", "empty: %d with %zu elements", (int)queue_empty(Q[i]), m.size());
      CHECK(Q[i]->length == (int)m.size(), "queue", "length %d with %zu elements", Q[i]->length, m.size());
      state(mix(2, m.size()));
    }
  }
  for (int i = 0; i < ns; i++) stack_free(S[i]);
  for (int i = 0; i < nq; i++) queue_free(Q[i]);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
}
static bool near(double a, double b, double t = 1e-9) { return a == b || std::fabs(a - b) <= t * std::max({1.0, std::fabs(a), std::fabs(b)}); }
SCENARIO(P24, tables, 3) {
  heapRandom();
  int size = range(2, 60);
  double x = choose(2) ? range(1, 40) / 8. : 1;
  double **lc = InitializeFastLogChoose(size);
  double *fl = InitializeFastLog(size), *ff = InitializeFastLogFact(size), *fg = InitializeFastLogGamma(size, x), *ha = InitializeHarmonicList(size);
  op("tables of %d entries, shift %g", size, x);
  double h = 0;
  for (int i = 0; i < size; i++) { if (i) h += 1. / i; CHECK(near(ha[i], h), "tables", "harmonic number %d is %g, should be %g", i, ha[i], h); }
  int steps = range(1, 60);
  nontrivial();
  for (int k = 0; k < steps; k++) {
    int a = choose(3) == 2 ? size - 2 + (int)choose(5) : (int)choose(2 * size + 4), b = (int)choose(a + 1);
    op("at %d %d", a, b);
    double want = std::lgamma(a + 1.) - std::lgamma(b + 1.) - std::lgamma(a - b + 1.);
    CHECK(near(FastLogChoose(a, b, lc, size), want, 1e-8), "tables", "log of %d over %d is %.10g, should be %.10g (table of %d)", a, b, FastLogChoose(a, b, lc, size), want, size);
    CHECK(near(LogChoose(a, b), want, 1e-8), "tables", "log of %d over %d is %.10g, should be %.10g", a, b, LogChoose(a, b), want);
    if (a > 0) CHECK(near(FastLog(a, fl, size), std::log(a)), "tables", "log of %d is %g (table of %d)", a, FastLog(a, fl, size), size);
    else CHECK(FastLog(0, fl, size) == -INFINITY, "tables", "log of 0 is %g", FastLog(0, fl, size));
    CHECK(near(FastLogFact(a, ff, size), std::lgamma(a + 1.)), "tables", "log of %d! is %g (table of %d)", a, FastLogFact(a, ff, size), size);
    CHECK(near(FastLogGamma(a, fg, size, x), std::lgamma(a + x), 1e-8), "tables", "log gamma of %d+%g is %g, should be %g (table of %d)", a, x, FastLogGamma(a, fg, size, x), std::lgamma(a + x), size);
    int c = (int)choose(45), e = (int)choose(c + 3);
    double ch = 1;
    if (e > c) ch = 0;
    else { std::vector<double> row(c + 1, 0); row[0] = 1; for (int i = 0; i < c; i++) for (int j = i + 1; j > 0; j--) row[j] += row[j - 1]; ch = row[e]; }
    CHECK((double)Choose(c, e) == ch, "tables", "%d over %d is %.0f, should be %.0f", c, e, (double)Choose(c, e), ch);
    int f = (int)choose(18);
    double fa = 1;
    for (int i = 2; i <= f; i++) fa *= i;
    CHECK((double)fact(f) == fa, "tables", "%d! is %ld", f, fact(f));
    state(mix(mix(a, b), size));
  }
  FreeFastLogChoose(lc, size); FreeFastLog(fl); FreeFastLogFact(ff); FreeFastLogGamma(fg); FreeHarmonicList(ha);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
}
SCENARIO(P24, statistics, 2) {
  heapRandom();
  int n = range(1, 30);
  std::vector<double> v;
  for (int i = 0; i < n; i++) v.push_back(choose(3) ? range(-20, 20) / 4. : choose(2) ? 3.5 : range(-1000, 1000) / 7.);
  op("%d values", n);
  nontrivial();
  double m = 0, s = 0, lo = v[0], hi = v[0];
  for (double x : v) { m += x / n; lo = std::min(lo, x); hi = std::max(hi, x); fold((uint64_t)(int64_t)(x * 28)); }
  for (double x : v) s += (x - m) * (x - m) / n;
  CHECK(near(mean(v.data(), n), m), "statistics", "mean %g, should be %g", mean(v.data(), n), m);
  CHECK(std::fabs(stddev(v.data(), n) * stddev(v.data(), n) - s) < 1e-9 * (1 + hi * hi + lo * lo), "statistics", "deviation %g, should be %g", stddev(v.data(), n), std::sqrt(s));
  CHECK(max(v.data(), n) == hi && min(v.data(), n) == lo, "statistics", "range %g..%g, should be %g..%g", min(v.data(), n), max(v.data(), n), lo, hi);
  // geometric numbers: mean (1-p)/p, variance (1-p)/p^2, P(0)=p
  double p = range(1, 10) / 10.;
  gsl_rng *g = fairRng();
  const int N = 600;
  double sum = 0, zero = 0;
  for (int i = 0; i < N; i++) {
    int x = geometric_dist_val(p, g);
    CHECK(x >= 0, "geometric", "negative number %d", x);
    sum += x; zero += x == 0;
  }
  double em = (1 - p) / p;
  CHECK(std::fabs(sum / N - em) <= 7.5 * std::sqrt((1 - p) / p / p / N) + 1e-12 + (p < 1 ? 10. / N : 0), "geometric", "mean of geometric numbers with p=%g is %g, should be %g", p, sum / N, em);
  CHECK(std::fabs(zero / N - p) <= 7.5 * std::sqrt(p * (1 - p) / N) + 1e-12, "geometric", "fraction of zeros with p=%g is %g", p, zero / N);
  gsl_rng_free(g);
  // lines of a file
  std::string t;
  int nl = range(0, 6);
  for (int i = 0; i < nl; i++) t += std::string(choose(6) == 5 ? range(900, 3100) : range(0, 60), 'q') + "\n";
  if (choose(4) == 3) { t += "no end"; nl++; }
  disk["lines"] = {t};
  FaultPlan fp;
  fp.readChunk = range(0, 3) == 3 ? -range(1, 50) : 0;
  fp.chunkSeed = seed64();
  Proc pr = runBody([&] {
    int c = CountLinesInFile(const_cast<char *>("lines"));
    CHECK(c == nl, "lines", "%d lines counted, there are %d", c, nl);
  }, fp, 50000000);
  CHECK(!pr.crashed, "lines", "crashed");
  state(mix(n, nl));
}
SCENARIO(P24, matrices, 1) {
  heapRandom();
  int r = range(1, 8), c = range(1, 8);
  op("%dx%d", r, c);
  nontrivial();
  double **d = allocate_d_mat(r, c);
  int **i = allocate_i_mat(r, c);
  int *iv = allocate_i_vec(r);
  double *dv = allocate_d_vec(c);
  for (int a = 0; a < r; a++) for (int b = 0; b < c; b++) { CHECK(d[a][b] == 0, "matrices", "a new matrix is not zero"); i[a][b] = a * 100 + b; d[a][b] = a + b / 16.; }
  for (int a = 0; a < r; a++) iv[a] = a;
  for (int b = 0; b < c; b++) dv[b] = b;
  FILE *f = openMem("mat", "w");
  fprintf_i_mat(f, i, r, c);
  fclose(f);
  auto L = model::lines(disk["mat"].data);
  CHECK((int)L.size() == r * c, "matrices", "%zu lines printed for a %dx%d matrix", L.size(), r, c);
  for (int a = 0; a < r; a++) for (int b = 0; b < c; b++) {
    CHECK(d[a][b] == a + b / 16. && i[a][b] == a * 100 + b, "matrices", "elements overlap");
    CHECK(L[a * c + b] == std::to_string(a + 1) + " " + std::to_string(b + 1) + " " + std::to_string(a * 100 + b), "matrices", "element %d,%d printed as '%s'", a, b, L[a * c + b].c_str());
  }
  for (int a = 0; a < r; a++) CHECK(iv[a] == a, "matrices", "elements overlap");
  free_d_mat(d, r); free_i_mat(i, r); free_i_vec(iv); free_d_vec(dv);
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks left", (unsigned long long)heapLiveBlocks());
}
// The search tree under any history of insertions, searches, removals and walks; it stays balanced, reports every
// key once and in order, and gives everything back.
namespace tree {
struct Key { int v; };
static int calls;
static std::vector<int> walked;
static int deepest, badDepth;
static std::vector<int> path;
static std::map<int, int> released;
static int compare(const void *a, const void *b) { calls++; int x = ((const Key *)a)->v, y = ((const Key *)b)->v; return (x > y) - (x < y); }
static void visit(const void *node, VISIT w, int depth) {
  deepest = std::max(deepest, depth);
  if (w == preorder || w == leaf) { if (depth != (int)path.size()) badDepth++; if (w == preorder) path.push_back(1); }
  if (w == postorder || w == leaf) walked.push_back((*(Key *const *)node)->v);
  if (w == endorder) path.pop_back();
}
static void release(void *k) { released[((Key *)k)->v]++; }
SCENARIO(P24, search_tree, 2) {
  heapRandom();
  static Key keys[512];
  for (int i = 0; i < 512; i++) keys[i].v = i;
  bool big = choose(8) == 7;
  int span = big ? 512 : range(1, 60), steps = big ? range(200, 700) : range(1, 120), order = (int)choose(4), remove = (int)choose(6), next = 0;
  Prng r(seed64());
  void *root = nullptr;
  std::set<int> m;
  op("tree of keys below %d, %d steps, order %d, removals %d", span, steps, order, remove);
  auto look = [&](const char *when) {
    walked.clear(); path.clear(); deepest = -1; badDepth = 0;
    twalk(root, visit);
    CHECK(walked == std::vector<int>(m.begin(), m.end()), "tree", "%s: the walk meets %zu keys, in another order or other ones than the %zu in the tree", when, walked.size(), m.size());
    CHECK(badDepth == 0 && path.empty(), "tree", "%s: the walk reports wrong depths or visits", when);
    if (!m.empty()) CHECK(deepest + 1 <= 2 * std::log2(m.size() + 1.) + 1e-9, "tree-balance", "%s: %zu keys are spread over %d levels", when, m.size(), deepest + 1);
    CHECK((root == nullptr) == m.empty(), "tree", "%s: the root is%s empty with %zu keys", when, root ? " not" : "", m.size());
  };
  for (int k = 0; k < steps; k++) {
    int v = order == 0 ? (int)r.below(span) : order == 1 ? next++ % span : order == 2 ? span - 1 - next++ % span : (int)((next++ * 37u) % span);
    int what = (int)r.below(12);
    Key probeKey = {v};
    if (what < remove) {
      bool had = m.count(v);
      void *p = tdelete(&probeKey, &root, compare);
      CHECK((p != nullptr) == had, "tree", "removing %d, which is%s there, reports %s", v, had ? "" : " not", p ? "success" : "failure");
      m.erase(v);
    } else if (what < 10) {
      void *p = tsearch(&keys[v], &root, compare);
      CHECK(p && (*(Key **)p)->v == v, "tree", "inserting %d gives another key", v);
      if (!m.count(v)) CHECK(*(Key **)p == &keys[v], "tree", "inserting %d does not keep the new key", v);
      m.insert(v);
      if (m.size() >= 3) nontrivial();
    }
    calls = 0;
    int f = (int)r.below(span);
    probeKey.v = f;
    void *p = tfind(&probeKey, &root, compare);
    CHECK((p != nullptr) == (m.count(f) > 0), "tree", "looking for %d, which is%s there, finds %s", f, m.count(f) ? "" : " not", p ? "something" : "nothing");
    if (p) CHECK(*(Key **)p == &keys[f], "tree", "looking for %d finds another key", f);
    CHECK(calls <= 2 * std::log2(m.size() + 1.) + 1, "tree-balance", "a search among %zu keys needs %d comparisons", m.size(), calls);
    if (!big || k % 16 == 0) look("during the history");
    CHECK(heapLiveBlocks() == m.size(), "leak", "%llu blocks are allocated for %zu keys", (unsigned long long)heapLiveBlocks(), m.size());
  }
  look("at the end");
  state(mix(m.size(), (uint64_t)deepest));
  released.clear();
  tdestroy(root, release);
  for (int v : m) CHECK(released[v] == 1, "tree", "destroying the tree releases key %d %d times", v, released[v]);
  CHECK(released.size() == m.size(), "tree", "destroying the tree releases %zu keys of %zu", released.size(), m.size());
  CHECK(heapLiveBlocks() == 0, "leak", "%llu blocks are still allocated", (unsigned long long)heapLiveBlocks());
  probe("search-tree");
}
}  // namespace tree
