// A scenario is a complete description of one simulated run: configuration, workload programs, recorded decisions.
#pragma once
#include "core.h"
#include "kern.h"
#include "model.h"
struct Op { int prog = 0; int uid = 0; char k = 0; std::vector<long> a; long at(size_t i, long d = 0) const { return i < a.size() ? a[i] : d; } };
struct Scenario {
  std::string family, prop;
  u64 seed = 0;
  RunCfg cfg;
  int nprog = 0;
  std::vector<Op> ops;
  std::map<u32, std::vector<int>> dec;
  std::string save(const std::string &cls, const std::string &msg, u64 hash) const;
  bool load(const std::string &text, std::string *cls, u64 *hash);
};
struct RunResult {
  Violation vio; u64 hash = 0, sched_hash = 0, clock_us = 0, steps = 0, switches = 0, ops = 0;
  std::map<std::string, u64> fired, probes;
  bool nontrivial = false, undecided = false; u64 dfs = 0;
  std::map<u32, std::vector<int>> dec;
};
RunResult run_scenario(const Scenario &s, bool replay, u64 seed);  // dispatches on the family
void run_ring(const Scenario &s, RunResult &r);
void run_tool(const Scenario &s, RunResult &r);
void run_mnt(const Scenario &s, RunResult &r);
void run_bwt(const Scenario &s, RunResult &r);
void run_bw(const Scenario &s, RunResult &r);
bool gen_scenario(const std::string &prop, u64 seed, Scenario &s);
void gen_ring(const std::string &prop, Rng &r, Scenario &s);
void gen_tool(const std::string &prop, Rng &r, Scenario &s);
void gen_mnt(const std::string &prop, Rng &r, Scenario &s);
void gen_bwt(const std::string &prop, Rng &r, Scenario &s);
void gen_bw(const std::string &prop, Rng &r, Scenario &s);
// message contents
void fill_msg(char *b, u64 id, u64 len);
u64 hash_bytes(const char *b, u64 len);
u64 hash_msg(u64 id, u64 len);
