// P05-P08: the netcarto program as a whole, on the simulated disk.
#include "model.h"
#include "engine.h"
#include "progs.h"
extern "C" void sim_free(void *);
using namespace sim;
using namespace model;
namespace nc {
struct Job {
  Graph g;
  Bip b;
  bool bip = false, inv = false, w = false, roles = false, fileIn = true, fileOut = true;
  std::vector<std::string> label;
  Mod mod;
  std::string text;
  std::vector<std::string> args;   // without -o / -f values changed
  uint64_t stream;
  RngMode mode;
};
static const char *IN = "net.dat", *OUT = "modules.out";
static Job genJob(bool allowRoles, bool forceFile) {
  Job j;
  j.w = choose(2);
  j.bip = choose(3) == 1;
  j.roles = allowRoles && choose(2);
  j.fileIn = forceFile || choose(2) == 0;
  j.fileOut = forceFile || choose(2) == 0;
  uint32_t size = choose(120);
  bool big = size >= 108, huge = size == 119;
  if (big) probe("larger-network");
  if (huge) probe("hundreds-of-nodes");
  if (!j.bip) {
    j.g = huge ? genBigGraph(257, 320, j.w) : big ? genBigGraph(13, 44, j.w) : genGraph(2, 12, j.w, false);
    if (j.g.e.empty()) skip("no-links");
    std::vector<char> used(j.g.n, 0);
    for (auto &x : j.g.e) used[x.a] = used[x.b] = 1;
    for (char u : used) if (!u) skip("isolated");
    j.label = j.g.label;
    j.mod = plainMod(j.g, true);
    j.text = edgeText(j.g, j.w, true);
  } else {
    j.inv = choose(2);
    if (big) { int few = range(2, 12), many = range(13, 70); if (huge) many = range(257, 320); j.b = huge && !j.inv ? genBigBip(many, range(1, 6), j.w, true) : choose(2) || huge ? genBigBip(few, many, j.w) : genBigBip(std::min(many, 30), few, j.w); }
    else j.b = genBip(1, 9, 1, 7, j.w, false);
    if (j.b.e.empty()) skip("no-links");
    for (auto &x : j.b.e) {
      const char *sep = choose(2) ? "\t" : " ";
      j.text += j.b.l1[x.a] + sep + j.b.l2[x.b];
      if (j.w) j.text += sep + num(x.w);
      j.text += "\n";
    }
    Bip side = j.b;
    if (j.inv) {
      std::swap(side.n1, side.n2);
      std::swap(side.l1, side.l2);
      for (auto &x : side.e) std::swap(x.a, x.b);
    }
    j.label = side.l1;
    j.mod = bipMod(side);
  }
  if (choose(4) == 1 && !j.text.empty()) { j.text.pop_back(); probe("no-newline-at-end"); }
  static const char *its[] = {"1.0", "0.1", "0.3"}, *cs[] = {"0.97", "0.9", "0.6"};
  j.args = {"netcarto", "-s", std::to_string(1 + choose(5000)), "-i", huge ? "0.002" : big ? "0.02" : its[choose(3)], "-c", big ? "0.3" : cs[choose(3)]};
  if (choose(3) == 1) { j.args.push_back("-C"); j.args.push_back(choose(2) ? "0" : "1"); }
  if (j.w) j.args.push_back("-w");
  if (j.bip) j.args.push_back("-b");
  if (j.inv) j.args.push_back("-t");
  if (j.roles) j.args.push_back("-r");
  if (j.fileIn) { j.args.push_back("-f"); j.args.push_back(IN); }
  else if (choose(2)) { j.args.push_back("-f"); j.args.push_back("-"); }
  if (j.fileOut) { j.args.push_back("-o"); j.args.push_back(OUT); }
  uint32_t k = choose(6);
  j.mode = k < 3 || big ? FAIR : (RngMode)(k - 2);
  j.stream = seed64();
  fault((std::string("draws:") + modeName(j.mode)).c_str());
  return j;
}
static Proc runJob(const Job &j, const FaultPlan &fp) {
  disk.clear();
  disk[IN].data = j.text;
  return runProcess(prog_main_netcarto_netcarto, j.args, j.fileIn ? "" : j.text, fp, j.mode, j.stream, 2000000000ULL);
}
// The report: from the first modularity line on.
static std::string reportOf(const Job &j, const Proc &p) {
  std::string s = j.fileOut ? disk[OUT].data : p.out;
  size_t i = s.find("# Modularity:");
  return i == std::string::npos ? std::string() : s.substr(i);
}
static bool nearly(double a, double b, double t) { return std::fabs(a - b) <= t; }
// Checks a grouping report against the network; returns module per node.
static std::vector<int> checkReport(const Job &j, const std::string &rep, bool roles, const char *when) {
  auto ls = lines(rep);
  CHECK(ls.size() >= 3, "report", "%s: report has %zu lines: %.80s", when, ls.size(), rep.c_str());
  double m1 = NAN, m2 = NAN;
  CHECK(sscanf(ls[0].c_str(), "# Modularity: %lf", &m1) == 1, "report", "%s: no modularity line: %.60s", when, ls[0].c_str());
  CHECK(sscanf(ls[1].c_str(), "# Modularity (with diagonal): %lf", &m2) == 1, "report", "%s: no diagonal modularity line: %.60s", when, ls[1].c_str());
  int n = (int)j.label.size();
  std::map<std::string, int> id;
  for (int i = 0; i < n; i++) id[j.label[i]] = i;
  std::vector<int> m(n, -1);
  std::vector<double> z(n), P(n);
  std::vector<int> R(n);
  int M = 0;
  if (!roles) {
    for (size_t i = 2; i < ls.size(); i++) {
      auto ws = words(ls[i]);
      CHECK(!ws.empty(), "report", "%s: line %zu is an empty module", when, i + 1);
      for (auto &s : ws) {
        CHECK(id.count(s), "report", "%s: unknown node '%s' in the report", when, s.c_str());
        CHECK(m[id[s]] < 0, "report", "%s: node '%s' is listed twice", when, s.c_str());
        m[id[s]] = M;
      }
      M++;
    }
  } else {
    auto hd = words(ls[2]);
    CHECK(hd.size() == 5 && hd[0] == "Label", "report", "%s: no table header: %.60s", when, ls[2].c_str());
    for (size_t i = 3; i < ls.size(); i++) {
      auto ws = words(ls[i]);
      CHECK(ws.size() == 5 && id.count(ws[0]), "report", "%s: bad table row: %.80s", when, ls[i].c_str());
      int v = id[ws[0]];
      CHECK(m[v] < 0, "report", "%s: node '%s' is listed twice", when, ws[0].c_str());
      m[v] = atoi(ws[1].c_str());
      M = std::max(M, m[v] + 1);
      z[v] = atof(ws[2].c_str());
      P[v] = atof(ws[3].c_str());
      CHECK(ws[4][0] == 'R', "report", "%s: bad role in row: %.80s", when, ls[i].c_str());
      R[v] = atoi(ws[4].c_str() + 1);
    }
  }
  std::vector<int> cnt(M, 0);
  for (int i = 0; i < n; i++) {
    CHECK(m[i] >= 0, "report", "%s: node '%s' is missing from the report", when, j.label[i].c_str());
    cnt[m[i]]++;
  }
  for (int k = 0; k < M; k++) CHECK(cnt[k], "report", "%s: module numbers are not consecutive (%d is empty)", when, k);
  double e = j.mod.energy(m), ed = e - j.mod.diag();
  CHECK(nearly(m1, e, 1.1e-6), "report-modularity", "%s: printed modularity %.6f, recomputed %.9f", when, m1, e);
  CHECK(nearly(m2, ed, 1.1e-6), "report-modularity", "%s: printed modularity with diagonal %.6f, recomputed %.9f", when, m2, ed);
  if (roles) {
    std::vector<std::vector<double>> K(n, std::vector<double>(M, 0));
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b) K[a][m[b]] += j.mod.A[a][b];
    for (int a = 0; a < n; a++) {
      double tot = 0, sq = 0, mean = 0, var = 0;
      for (int k = 0; k < M; k++) { tot += K[a][k]; sq += K[a][k] * K[a][k]; }
      double p = tot > 0 ? 1 - sq / (tot * tot) : 0;
      CHECK(nearly(P[a], p, 2e-6), "report-roles", "%s: participation of '%s' printed %.6f, recomputed %.9f", when, j.label[a].c_str(), P[a], p);
      for (int b = 0; b < n; b++) if (m[b] == m[a]) mean += K[b][m[a]] / cnt[m[a]];
      for (int b = 0; b < n; b++) if (m[b] == m[a]) var += (K[b][m[a]] - mean) * (K[b][m[a]] - mean) / cnt[m[a]];
      double sd = std::sqrt(var), zz = sd > 1e-9 * std::max(mean, 1e-300) ? (K[a][m[a]] - mean) / sd : 0;
      if (sd > 1e-12 * mean && sd < 1e-6 * mean) continue;  // between rounding noise and a real spread
      CHECK(nearly(z[a], zz, 2e-6), "report-roles", "%s: connectivity of '%s' printed %.6f, recomputed %.9f", when, j.label[a].c_str(), z[a], zz);
      auto role = [](double P, double z) { return z < 2.5 ? (P < .05 ? 1 : P < .62 ? 2 : P < .8 ? 3 : 4) : (P < .3 ? 5 : P < .75 ? 6 : 7); };
      double d = 1e-9;
      CHECK(R[a] == role(p, zz) || R[a] == role(p + d, zz) || R[a] == role(p - d, zz) || R[a] == role(p, zz + d) || R[a] == role(p, zz - d),
            "report-roles", "%s: role of '%s' printed R%d, recomputed R%d", when, j.label[a].c_str(), R[a], role(p, zz));
      if (zz >= 2.5) probe("hub-role");
    }
  }
  return m;
}
SCENARIO(P05, endtoend, 8) {
  heapRandom();
  Job j = genJob(true, false);
  FaultPlan fp;
  if (choose(2)) { fp.readChunk = -range(1, 64); fp.chunkSeed = choose(1000); }
  if (choose(2)) fp.bufSize = range(1, 64);
  Proc p = runJob(j, fp);
  CHECK(!p.crashed && p.code == 0, "exit-status", "netcarto exits with %d on a well-formed network", p.code);
  auto m = checkReport(j, reportOf(j, p), j.roles, "report");
  uint64_t h = 11;
  for (int x : m) h = mix(h, x);
  state(h);
  if (j.label.size() >= 3) nontrivial();
  if (j.bip) probe("bipartite");
  if (j.inv) probe("second-column");
  if (j.roles) probe("roles");
}
// The map of roles, close to its borders and anywhere: R1 R2 R3 R4 by participation .05 .62 .8 below z = 2.5,
// R5 R6 R7 by .3 .75 above it.
SCENARIO(P05, role_map, 1) {
  static const double PB[] = {.05, .62, .8, .3, .75}, EPS[] = {1e-9, 1e-4, .004, .02};
  int n = range(1, 24);
  for (int i = 0; i < n; i++) {
    double P = choose(2) ? PB[choose(5)] + (choose(2) ? 1 : -1) * EPS[choose(4)] : .0005 + .001 * range(0, 998);
    double z = choose(2) ? 2.5 + (choose(2) ? 1 : -1) * EPS[choose(4)] : -3 + .01 * range(0, 1400);
    if (std::fabs(z - 2.5) < 1e-12) continue;
    for (double b : PB) if (std::fabs(P - b) < 1e-12) P += 1e-6;
    int want = z < 2.5 ? (P > .05) + (P > .62) + (P > .8) : 4 + (P > .3) + (P > .75);
    int got = GetRole(P, z);
    op("role of P=%g z=%g is R%d", P, z, got + 1);
    CHECK(got == want, "role-map", "participation %.10g and connectivity %.10g give role R%d, should be R%d", P, z, got + 1, want + 1);
    state(mix(77, got));
  }
  if (n >= 3) nontrivial();
}
SCENARIO(P08, netcarto_readback, 3) {
  heapRandom();
  Job j = genJob(false, true);
  Proc p = runJob(j, FaultPlan());
  CHECK(p.code == 0, "exit-status", "netcarto exits with %d on a well-formed network", p.code);
  std::string rep = reportOf(j, p);
  auto m = checkReport(j, rep, false, "report");
  std::string saved = disk[OUT].data;
  // rewrite the saved file the way users keep it: as written, without header, or reordered lines
  int how = (int)choose(3);
  auto ls = lines(saved);
  if (how == 1) { ls.erase(std::remove_if(ls.begin(), ls.end(), [](const std::string &s) { return s.compare(0, 12, "# Modularity") == 0; }), ls.end()); probe("without-header"); }
  if (how == 2) { std::reverse(ls.begin() + 2, ls.end()); probe("modules-reordered"); }
  std::string part;
  for (auto &l : ls) part += l + "\n";
  if (choose(4) == 1) part.pop_back();
  disk["saved.part"].data = part;
  Job k = j;
  k.roles = choose(2);
  k.args = {"netcarto", "-f", IN, "-o", OUT, "-p", "saved.part"};
  if (k.w) k.args.push_back("-w");
  if (k.bip) k.args.push_back("-b");
  if (k.inv) k.args.push_back("-t");
  if (k.roles) k.args.push_back("-r");
  FaultPlan fp;
  if (choose(2)) { fp.readChunk = -range(1, 64); fp.chunkSeed = choose(1000); }
  if (choose(2)) fp.bufSize = range(1, 64);
  std::string keep = disk["saved.part"].data;
  Proc q = runProcess(prog_main_netcarto_netcarto, k.args, "", fp, j.mode, j.stream, 2000000000ULL);
  CHECK(!q.crashed && q.code == 0, "exit-status", "netcarto -p exits with %d on a partition it wrote", q.code);
  CHECK(disk["saved.part"].data == keep, "readback", "the saved partition was modified");
  std::string rep2 = reportOf(k, q);
  auto m2 = checkReport(k, rep2, k.roles, "report from the saved partition");
  CHECK(sameSetPartition(m, m2), "readback", "saved grouping %s, read back as %s", show(m).c_str(), show(m2).c_str());
  // the same value; its last printed digit may be rounded the other way when modules are summed in another order
  for (int k2 = 0; k2 < 2; k2++) {
    double a = atof(lines(rep)[k2].substr(lines(rep)[k2].find(':') + 1).c_str()), b = atof(lines(rep2)[k2].substr(lines(rep2)[k2].find(':') + 1).c_str());
    CHECK(nearly(a, b, 1.1e-6), "readback", "modularity changed: %s / %s", lines(rep)[k2].c_str(), lines(rep2)[k2].c_str());
  }
  std::set<int> ms(m.begin(), m.end());
  if (ms.size() > 1) nontrivial();
  uint64_t h = 11;
  for (int x : m) h = mix(h, x);
  state(h);
}
// The functions the program is made of, called again and again in one process: the reader, the writers and
// the reader of groupings.
SCENARIO(P08, library, 1) {
  heapRandom();
  int rounds = range(1, 3);
  for (int r = 0; r < rounds; r++) {
    Job j = genJob(false, true);
    disk["in"].data = j.text;
    FaultPlan fp;
    if (choose(2)) { fp.readChunk = -range(1, 64); fp.chunkSeed = choose(1000); }
    if (choose(2)) fp.bufSize = range(1, 64);
    setPlan(fp);
    captureBegin();
    unsigned *a = nullptr, *b = nullptr, E = 0, N = 0;
    double *w = nullptr;
    char **lab = nullptr;
    FILE *f = openMem("in", "r");
    int rc = EdgeListFileInput(f, j.w, j.bip ? j.inv ? 2 : 1 : 0, &a, &b, &w, &lab, &E, &N);
    fclose(f);
    captureEnd(nullptr, nullptr);
    const auto &links = j.bip ? j.b.e : j.g.e;
    CHECK(rc == 0 && E == links.size(), "readback", "reader returns %d with %u links of %zu", rc, E, links.size());
    std::map<std::string, int> id;
    for (size_t i = 0; i < j.label.size(); i++) id[j.label[i]] = (int)i;
    CHECK(N == id.size(), "readback", "reader found %u nodes of %zu", N, id.size());
    std::vector<int> of(N);   // node of the reader -> node of the model
    std::set<std::string> seen;
    for (unsigned i = 0; i < N; i++) {
      CHECK(id.count(lab[i]) && seen.insert(lab[i]).second, "readback", "node %u is called '%s'", i, lab[i]);
      of[i] = id[lab[i]];
    }
    std::multiset<std::pair<std::string, double>> want, got;
    std::map<int, int> team;
    for (auto &x : links) {
      int u = j.bip && j.inv ? x.b : x.a;
      want.insert({j.bip ? j.label[u] : j.label[std::min(x.a, x.b)] + " " + j.label[std::max(x.a, x.b)], j.w ? atof(num(x.w).c_str()) : 1.});
    }
    for (unsigned i = 0; i < E; i++) {
      CHECK(a[i] < N && (j.bip || b[i] < N), "readback", "link %u joins %u and %u of %u nodes", i, a[i], b[i], N);
      got.insert({j.bip ? lab[a[i]] : j.label[std::min(of[a[i]], of[b[i]])] + " " + j.label[std::max(of[a[i]], of[b[i]])], w[i]});
    }
    CHECK(want == got, "readback", "the links read are not those of the file");
    // a grouping, written and read again
    Partition *part[2];
    AdjaArray *adj[2];
    for (int k = 0; k < 2; k++) {
      if (!j.bip) {
        part[k] = CreatePartition(N, N);
        adj[k] = CreateAdjaArray(N, E);
        CHECK(EdgeListToAdjaArray((int *)a, (int *)b, w, adj[k], part[k], 1) == 0, "readback", "no structure for the links read");
      } else ProjectBipartEdgeList(a, b, w, E, &part[k], &adj[k]);
    }
    AssignNodesToModules(part[0], fairRng());
    int groups = range(1, (int)N);
    for (unsigned i = 0; i < N; i++) { unsigned to = choose(groups); if (part[0]->nodes[i]->module != to) ChangeModule(i, to, part[0]); }
    CompressPartition(part[0]);
    f = openMem("part", "w");
    fprintf(f, "# any header\n");
    ClusteringOutput(f, part[0], lab);
    fclose(f);
    // rows may be listed in any order
    auto ls = lines(disk["part"].data);
    bool turned = choose(2);
    if (turned) { std::reverse(ls.begin() + 1, ls.end()); std::string t; for (auto &l : ls) t += l + "\n"; disk["part"].data = t; }
    f = openMem("part", "r");
    captureBegin();
    rc = AssignNodesToModulesFromFile(f, part[1], lab);
    captureEnd(nullptr, nullptr);
    fclose(f);
    CHECK(rc == 0, "readback", "reading a grouping this code wrote returns %d", rc);
    Mod mod = j.mod;   // in the numbering of the reader
    for (unsigned x = 0; x < N; x++) { mod.k[x] = j.mod.k[of[x]]; for (unsigned y = 0; y < N; y++) mod.A[x][y] = j.mod.A[of[x]][of[y]]; }
    engine::recount(part[0], mod, nullptr, "grouping written");
    engine::recount(part[1], mod, nullptr, "grouping read");
    auto g0 = engine::modulesOf(part[0]), g1 = engine::modulesOf(part[1]);
    CHECK(sameSetPartition(g0, g1), "readback", "grouping %s was read back as %s", show(g0).c_str(), show(g1).c_str());
    CHECK(part[1]->M == part[0]->M, "readback", "%u modules read back as %u", part[0]->M, part[1]->M);
    double q0 = PartitionModularity(part[0], adj[0], 0), q1 = PartitionModularity(part[1], adj[1], 0);
    CHECK(nearly(q0, q1, 1e-9 * mod.scale) && nearly(q0, mod.energy(g0), 1e-9 * std::max(1., mod.scale)), "readback", "modularity %.12g is %.12g after reading", q0, q1);
    // the table
    std::vector<double> z(N), P(N);
    for (unsigned i = 0; i < N; i++) { z[i] = -3 + .01 * choose(1000); P[i] = .001 * choose(1000) + .0005; }
    f = openMem("table", "w");
    TabularOutput(f, lab, part[1], z.data(), P.data());
    fclose(f);
    auto rows = lines(disk["table"].data);
    CHECK(rows.size() == N + 1, "readback", "table of %zu rows for %u nodes", rows.size() - 1, N);
    for (unsigned i = 0; i < N; i++) {
      auto ws = words(rows[i + 1]);
      CHECK(ws.size() == 5 && seen.count(ws[0]), "readback", "table row '%s'", rows[i + 1].c_str());
      unsigned x = 0;
      while (ws[0] != lab[x]) x++;
      CHECK(atoi(ws[1].c_str()) == g1[x] && nearly(atof(ws[2].c_str()), z[x], 1e-6) && nearly(atof(ws[3].c_str()), P[x], 1e-6) && ws[4] == "R" + std::to_string(GetRole(P[x], z[x]) + 1),
            "readback", "table row '%s' for node %u of module %d, z=%g P=%g", rows[i + 1].c_str(), x, g1[x], z[x], P[x]);
    }
    for (int k = 0; k < 2; k++) { FreePartition(part[k]); FreeAdjaArray(adj[k]); }
    sim_free(a); sim_free(b); sim_free(w);
    for (unsigned i = 0; i < N; i++) sim_free(lab[i]);
    sim_free(lab);
    uint64_t h = 19;
    for (int x : g1) h = mix(h, x);
    state(h);
    if (part[0] && groups > 1) nontrivial();
  }
}
static FaultPlan anyFaults(const Proc &clean) {
  FaultPlan fp;
  if (choose(2)) { fp.readChunk = -range(1, 64); fp.chunkSeed = choose(1000); }
  if (choose(2)) fp.bufSize = range(1, 128);
  auto at = [&](uint64_t n) { return (long)choose((uint32_t)n + 1); };
  switch (choose(9)) {
    case 0: break;
    case 1: fp.readErrAt = at(clean.bytesRead); break;
    case 2: fp.diskCapacity = at(clean.bytesWritten); break;
    case 3: fp.writeErrAt = at(clean.bytesWritten); break;
    case 4: fp.closeErr = true; break;
    case 5: fp.openFailAt = (int)choose((uint32_t)std::max<uint64_t>(1, clean.opens)); fp.openErrno = choose(2) ? 24 : 13; break;
    case 6: fp.allocFailAt = 1 + choose((uint32_t)std::max<uint64_t>(1, choose(2) ? clean.allocs : std::min<uint64_t>(60, clean.allocs))); break;
    case 7: (choose(2) ? fp.diskCapacity : fp.writeErrAt) = at(clean.bytesWritten); fp.errOnce = true; break;
    default: fp.crashStep = 1 + choose((uint32_t)std::min<uint64_t>(clean.steps, 0x7ffffff0)); break;
  }
  return fp;
}
SCENARIO(P07, netcarto_io_faults, 3) {
  heapRandom();
  Job j = genJob(true, choose(3) != 1);
  Proc clean = runJob(j, FaultPlan());
  CHECK(clean.code == 0, "exit-status", "netcarto exits with %d on a well-formed network", clean.code);
  std::string want = reportOf(j, clean);
  FaultPlan fp = anyFaults(clean);
  Proc p = runJob(j, fp);
  std::string got = reportOf(j, p);
  bool any = p.faulted() || p.crashed;
  if (any) nontrivial();
  if (p.allocErrHit) probe(p.crashed ? "died-of-allocation-failure" : p.code ? "reported-allocation-failure" : "survived-allocation-failure");
  // without memory the search may take another course, but its report must be right
  if (!p.crashed && p.code == 0 && p.allocErrHit) checkReport(j, got, j.roles, "report after a failed allocation");
  else if (!p.crashed && p.code == 0)
    CHECK(got == want, "silent-failure", "netcarto reported success, but its report is %s (%zu of %zu bytes)%s%s%s%s", got.empty() ? "missing" : "wrong or cut", got.size(), want.size(),
          p.readErrHit ? " after a read error" : "", p.writeErrHit ? " after a write error" : "", p.closeErrHit ? " after a failed close" : "", p.openErrHit ? " after a failed open" : "");
  if (!any) CHECK(!p.crashed && p.code == 0, "exit-status", "netcarto exits with %d although nothing failed", p.code);
  // faults stop: the next run must give the complete report
  Proc again = runProcess(prog_main_netcarto_netcarto, j.args, j.fileIn ? "" : j.text, FaultPlan(), j.mode, j.stream, 2000000000ULL);
  CHECK(again.code == 0 && reportOf(j, again) == want, "recovery", "after the fault, a clean run exits with %d and %s report", again.code, reportOf(j, again) == want ? "the right" : "another");
  // and the partition reader
  if (j.fileOut && !j.roles && choose(2)) {
    disk["saved.part"].data = disk[OUT].data;
    Job k = j;
    k.args = {"netcarto", "-f", IN, "-o", OUT, "-p", "saved.part"};
    if (k.w) k.args.push_back("-w");
    if (k.bip) k.args.push_back("-b");
    if (k.inv) k.args.push_back("-t");
    FaultPlan f2;
    f2.readErrAt = (long)choose((uint32_t)(j.text.size() + disk["saved.part"].data.size() + 1));
    f2.bufSize = range(0, 64);
    Proc r = runProcess(prog_main_netcarto_netcarto, k.args, "", f2, j.mode, j.stream, 2000000000ULL);
    if (r.readErrHit) probe("read-error-in-partition-run");
    if (r.code == 0) {
      auto l1 = lines(reportOf(k, r)), l2 = lines(want);
      CHECK(l1.size() == l2.size() && l1[0] == l2[0], "silent-failure", "netcarto -p reported success after a read error with a different result");
    }
  }
}
SCENARIO(P07, netcarto_malformed, 1) {
  heapRandom();
  Job j = genJob(true, true);
  auto ls = lines(j.text);
  std::string what;
  int k = (int)choose(7);
  size_t i = choose((uint32_t)ls.size());
  if (k == 0) { ls.clear(); what = "empty network"; }
  else if (k == 1) { ls[i] = words(ls[i])[0]; what = "line with one field"; }
  else if (k == 2) { ls[i] = ""; what = "blank line"; }
  else if (k == 3) { auto w = words(ls[i]); w[choose(2)] = std::string(100 + choose(60), 'q'); ls[i] = w[0] + " " + w[1] + (j.w ? " 1" : ""); what = "label of 100 characters or more"; }
  else if (k == 4) { if (!j.w) skip("unweighted"); auto w = words(ls[i]); ls[i] = w[0] + " " + w[1]; what = "line without weight"; }
  else if (k == 5) { if (!j.w) skip("unweighted"); auto w = words(ls[i]); ls[i] = w[0] + " " + w[1] + " abc"; what = "weight that is not a number"; }
  else what = "missing file";
  j.text.clear();
  for (auto &l : ls) j.text += l + "\n";
  op("malformed: %s", what.c_str());
  fault(("input:" + what).c_str());
  disk.clear();
  if (k != 6) disk[IN].data = j.text;
  FaultPlan fp;
  if (choose(2)) { fp.readChunk = -range(1, 64); fp.chunkSeed = choose(1000); }
  Proc p = runProcess(prog_main_netcarto_netcarto, j.args, "", fp, j.mode, j.stream, 2000000000ULL);
  CHECK(!p.crashed && p.code != 0, "silent-failure", "netcarto reports success on a network with %s", what.c_str());
  CHECK(reportOf(j, p).empty(), "silent-failure", "netcarto wrote a report for a network with %s", what.c_str());
  nontrivial();
}
SCENARIO(P07, partition_malformed, 1) {
  heapRandom();
  Job j = genJob(false, true);
  std::vector<std::string> mods(1 + choose(3));
  for (auto &l : j.label) mods[choose((uint32_t)mods.size())] += l + "\t";
  int k = (int)choose(4);
  std::string what, text;
  mods.erase(std::remove(mods.begin(), mods.end(), std::string()), mods.end());
  if (k == 0) { what = "an unknown node"; mods[0] += "no-such-node-here\t"; }
  else if (k == 1) { what = "a node listed twice"; mods.back() += j.label[0] + "\t"; }
  else if (k == 2) { what = "a missing node"; auto w = words(mods[0]); mods[0].clear(); for (size_t i = 1; i < w.size(); i++) mods[0] += w[i] + "\t"; }
  else { what = "no node at all"; mods.clear(); }
  for (auto &m : mods) text += m + "\n";
  op("partition file with %s", what.c_str());
  fault(("input:partition with " + what).c_str());
  disk.clear();
  disk[IN].data = j.text;
  disk["p.part"].data = text;
  std::vector<std::string> args = {"netcarto", "-f", IN, "-o", OUT, "-p", "p.part"};
  if (j.w) args.push_back("-w");
  if (j.bip) args.push_back("-b");
  if (j.inv) args.push_back("-t");
  Proc p = runProcess(prog_main_netcarto_netcarto, args, "", FaultPlan(), j.mode, j.stream, 2000000000ULL);
  CHECK(!p.crashed && p.code != 0, "silent-failure", "netcarto -p reports success on a partition with %s", what.c_str());
  nontrivial();
}
SCENARIO(P06, netcarto_repeat, 4) {
  heapRandom();
  Job j = genJob(true, false);
  dirtyStack((int)choose(4));
  Proc a = runJob(j, FaultPlan());
  CHECK(a.code == 0, "exit-status", "netcarto exits with %d on a well-formed network", a.code);
  std::string ra = reportOf(j, a);
  int n = range(1, 3);
  for (int i = 0; i < n; i++) {
    // a disturbed environment, possibly after a run that crashed half-way
    FaultPlan fp;
    if (choose(2)) {
      FaultPlan c;
      c.crashStep = 1 + choose((uint32_t)std::min<uint64_t>(a.steps, 0x7ffffff0));
      c.bufSize = range(0, 64);
      runProcess(prog_main_netcarto_netcarto, j.args, j.fileIn ? "" : j.text, c, j.mode, j.stream, 2000000000ULL);
    } else disk.erase(OUT);
    fp.readChunk = choose(2) ? -range(1, 64) : 0;
    fp.chunkSeed = choose(1000);
    fp.bufSize = choose(2) ? range(1, 64) : 0;
    heapRandom();
    dirtyStack((int)choose(4));
    Proc b = runProcess(prog_main_netcarto_netcarto, j.args, j.fileIn ? "" : j.text, fp, j.mode, j.stream, 2000000000ULL);
    std::string rb = reportOf(j, b);
    CHECK(b.code == a.code, "not-reproducible", "exit status %d, then %d with the same input and seed", a.code, b.code);
    CHECK(ra == rb, "not-reproducible", "two runs with the same input and seed report different results (%zu and %zu bytes)", ra.size(), rb.size());
    CHECK(a.err == b.err, "not-reproducible", "two runs with the same input and seed took different courses");
  }
  fold(hashBytes(ra.data(), ra.size()));
  nontrivial();
}
}  // namespace nc
