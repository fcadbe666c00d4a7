// Whole programs: what they are given and what they must answer.
#pragma once
#include "model.h"
namespace programs {
struct LegacyJob {  // netcarto_legacy
  model::Graph g;
  std::vector<int> order;  // nodes in order of appearance
  std::vector<std::string> args;
  std::string text;
  int rep = 0;
};
LegacyJob legacyJob();
std::vector<int> legacyCheck(const LegacyJob &j);  // its six output files on the disk
struct Job {
  std::string name;
  sim::MainFn fn = nullptr;
  std::vector<std::string> args;                 // the first one is the program
  std::map<std::string, std::string> files;      // inputs
  std::vector<std::string> out;                  // files it writes ("" is the standard output)
  std::function<void(const sim::Proc &)> verify;  // of a run that claims success
  uint64_t budget = 2000000000ull;
  std::string bad;                               // an input file and ...
  std::string badText;                           // ... a content that is not acceptable
};
}  // namespace programs
