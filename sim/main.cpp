// Entry point: seeded search, replay of one recorded run, minimisation.
#include "scenario.h"
#include <chrono>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <cstdlib>

std::string Scenario::save(const std::string &cls, const std::string &msg, u64 hash) const {
  std::ostringstream o;
  o << "family " << family << "\nprop " << prop << "\nseed " << seed << "\nnprog " << nprog << "\n";
  for (auto &k : cfg.kv) o << "cfg " << k.first << " " << k.second << "\n";
  for (auto &p : ops) { o << "op " << p.prog << " " << p.uid << " " << p.k; for (long x : p.a) o << " " << x; o << "\n"; }
  for (auto &d : dec) {
    size_t n = d.second.size(); while (n && !d.second[n - 1]) n--;
    if (!n) continue;
    o << "dec " << d.first; for (size_t i = 0; i < n; i++) o << " " << d.second[i]; o << "\n";
  }
  std::string m = msg; for (char &c : m) if (c == '\n') c = ' ';
  o << "expect " << cls << " " << m << "\nhash " << hash << "\n";
  return o.str();
}
bool Scenario::load(const std::string &text, std::string *cls, u64 *hash) {
  std::istringstream in(text); std::string l;
  while (std::getline(in, l)) {
    std::istringstream t(l); std::string k; t >> k;
    if (k == "family") t >> family; else if (k == "prop") t >> prop; else if (k == "seed") t >> seed; else if (k == "nprog") t >> nprog;
    else if (k == "cfg") { std::string n; long v; t >> n >> v; cfg.set(n.c_str(), v); }
    else if (k == "op") { Op o; t >> o.prog >> o.uid >> o.k; long v; while (t >> v) o.a.push_back(v); ops.push_back(o); }
    else if (k == "dec") { u32 key; t >> key; int v; auto &d = dec[key]; while (t >> v) d.push_back(v); }
    else if (k == "expect") t >> *cls;
    else if (k == "hash") t >> *hash;
  }
  return !family.empty();
}

RunResult run_scenario(const Scenario &s, bool replay, u64 seed) {
  RunResult r;
  World w; w.cfg = s.cfg;
  w.dec.replay = replay; w.dec.rng = Rng(mix(seed, 77));
  if (replay) w.dec.rec = s.dec;
  w.faults_on = s.cfg.get("fault", 0) > 0;
  w.max_steps = (u64)s.cfg.get("maxsteps", 40000000);
  world_begin(&w);
  if (s.family == "ring") run_ring(s, r);
  else if (s.family == "tool") run_tool(s, r);
  else if (s.family == "mnt") run_mnt(s, r);
  else if (s.family == "bwt") run_bwt(s, r);
  else run_bw(s, r);
  world_end(&w);
  r.vio = w.vio; r.hash = w.hash; r.sched_hash = w.sched_hash; r.clock_us = w.clock_us; r.steps = w.steps; r.switches = w.switches;
  r.fired = w.fired; r.probes = w.probes;
  if (!replay) r.dec = std::move(w.dec.rec);
  W = nullptr;
  return r;
}

static bool load_images(const std::string &dir, const std::string &family) {
  std::string e;
  if (!images_load(dir, family == "tool" || family == "mnt" ? "tool" : family == "bwt" ? "bwtool" : "lib", &e)) { fprintf(stderr, "simulator: %s\n", e.c_str()); return false; }
  return true;
}
static std::string family_of(const std::string &prop) { int id = atoi(prop.c_str() + 1); return (id >= 19 && id <= 22) || id == 25 ? "tool" : id == 26 ? "mnt" : id == 27 ? "bwt" : id == 23 ? "bw" : "ring"; }
static std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static bool same(const Violation &a, const std::string &cls) { return a.set && a.cls == cls; }
static Scenario minimise(Scenario s, const std::string &cls, double limit, u64 *tries) {
  double t0 = now();
  auto bad = [&](const Scenario &c) { (*tries)++; return same(run_scenario(c, true, 0).vio, cls); };
  auto over = [&] { return now() - t0 > limit; };
  for (int round = 0; round < 4 && !over(); round++) {
    size_t before = s.ops.size(), dn = 0; for (auto &d : s.dec) for (int v : d.second) dn += v != 0;
    // whole programs, then chunks of operations
    for (int p = s.nprog - 1; p >= 0 && !over(); p--) {
      Scenario c = s; c.ops.erase(std::remove_if(c.ops.begin(), c.ops.end(), [&](const Op &o) { return o.prog == p; }), c.ops.end());
      if (c.ops.size() < s.ops.size() && bad(c)) s = c;
    }
    for (size_t ch = std::max<size_t>(1, s.ops.size() / 2); ch >= 1 && !over(); ch /= 2) {
      for (size_t i = 0; i < s.ops.size() && !over();) {
        Scenario c = s; size_t e = std::min(s.ops.size(), i + ch);
        c.ops.erase(c.ops.begin() + i, c.ops.begin() + e);
        if (bad(c)) s = c; else i += ch;
      }
      if (ch == 1) break;
    }
    // decision streams: drop whole, cut, zero
    std::vector<u32> keys; for (auto &d : s.dec) keys.push_back(d.first);
    for (u32 k : keys) { if (over()) break; Scenario c = s; c.dec.erase(k); if (bad(c)) s = c; }
    for (u32 k : keys) {
      if (over() || !s.dec.count(k)) continue;
      for (size_t len = s.dec[k].size() / 2; len >= 1 && !over(); len /= 2) {
        while (s.dec[k].size() >= len && !over()) { Scenario c = s; c.dec[k].resize(s.dec[k].size() - len); if (bad(c)) s = c; else break; }
        if (len == 1) break;
      }
      for (size_t ch = std::max<size_t>(1, s.dec[k].size() / 2); ch >= 1 && !over(); ch /= 2) {
        for (size_t i = 0; i < s.dec[k].size() && !over(); i += ch) {
          Scenario c = s; bool any = false;
          for (size_t j = i; j < std::min(c.dec[k].size(), i + ch); j++) if (c.dec[k][j]) { any = true; c.dec[k][j] = 0; }
          if (any && bad(c)) s = c;
        }
        if (ch == 1) break;
      }
    }
    size_t dn2 = 0; for (auto &d : s.dec) for (int v : d.second) dn2 += v != 0;
    if (s.ops.size() == before && dn2 == dn) break;
  }
  return s;
}

int main(int argc, char **argv) {
  std::string mode = argc > 1 ? argv[1] : "", prop, sut, out, file, known;
  u64 from = 0, count = 0, stride = 1; double secs = 0, limit = 20; bool twice = false; size_t maxv = 6; std::string repdir = ".";
  std::map<std::string, long> over;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = nx(); else if (a == "--sut") sut = nx(); else if (a == "--from") from = strtoull(nx().c_str(), 0, 10);
    else if (a == "--count") count = strtoull(nx().c_str(), 0, 10); else if (a == "--stride") stride = strtoull(nx().c_str(), 0, 10);
    else if (a == "--out") out = nx(); else if (a == "--secs") secs = atof(nx().c_str()); else if (a == "--limit") limit = atof(nx().c_str());
    else if (a == "--twice") twice = true; else if (a == "--maxv") maxv = strtoull(nx().c_str(), 0, 10); else if (a == "--repdir") repdir = nx(); else if (a == "-v") g_verbose = true;
    else if (a == "--set") { std::string kv = nx(); size_t e = kv.find('='); over[kv.substr(0, e)] = atol(kv.c_str() + e + 1); }
    else file = a;
  }
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  sim_global_init();
  if (mode == "run" || mode == "one") {
    if (!load_images(sut, family_of(prop))) return 70;
    double t0 = now(); u64 done = 0, nontriv = 0, und = 0, dfs = 0, clock = 0, steps = 0, sw = 0, ops = 0, dig = 0; int vios = 0;
    std::map<std::string, u64> fired, probes; std::unordered_set<u64> inter, traces; std::vector<std::string> viol, samples;
    u64 nondet = 0;
    for (u64 k = 0; k < count; k++) {
      if (secs > 0 && now() - t0 > secs) break;
      u64 seed = from + k * stride;
      Scenario s; gen_scenario(prop, seed, s);
      for (auto &o : over) s.cfg.set(o.first.c_str(), o.second);
      if (mode == "one") printf("%s", s.save("-", "", 0).c_str());
      RunResult r = run_scenario(s, false, seed);
      if (twice) { RunResult q = run_scenario(s, false, seed); if (q.hash != r.hash || q.vio.cls != r.vio.cls) { nondet++; fprintf(stderr, "simulator: seed %llu is not repeatable\n", (unsigned long long)seed); }
        Scenario c = s; c.dec = r.dec; q = run_scenario(c, true, 0); if (q.hash != r.hash || q.vio.cls != r.vio.cls) { nondet++; fprintf(stderr, "simulator: seed %llu: replay differs\n", (unsigned long long)seed); } }
      done++; nontriv += r.nontrivial; und += r.undecided; dfs += r.dfs; clock += r.clock_us; steps += r.steps; sw += r.switches; ops += r.ops;
      dig = mix(dig, r.hash);
      if (r.nontrivial) { inter.insert(r.sched_hash); traces.insert(r.hash); }
      for (auto &f : r.fired) fired[f.first] += f.second;
      for (auto &f : r.probes) probes[f.first] += f.second;
      if (mode == "one") { printf("result: %s %s hash=%llu steps=%llu switches=%llu ops=%llu dfs=%llu und=%d nontrivial=%d\n", r.vio.set ? r.vio.cls.c_str() : "ok", r.vio.msg.c_str(), (unsigned long long)r.hash, (unsigned long long)r.steps, (unsigned long long)r.switches, (unsigned long long)r.ops, (unsigned long long)r.dfs, r.undecided, r.nontrivial); }
      if (samples.size() < 3 && r.nontrivial && !r.vio.set) {
        std::ostringstream o; o << "seed " << seed << ": " << s.nprog << " programs, " << r.ops << " operations, " << r.switches << " switches, " << r.clock_us << " us simulated, event hash " << std::hex << r.hash << std::dec << "; configuration";
        for (auto &k : s.cfg.kv) o << " " << k.first << "=" << k.second;
        o << "; operations"; size_t n = 0;
        for (auto &q : s.ops) { if (++n > 24) { o << " ... (" << s.ops.size() << ")"; break; } o << " P" << q.prog << ":" << q.k; for (size_t i = 0; i < q.a.size() && i < 6; i++) o << (i ? "," : "") << q.a[i]; }
        o << "; injected"; for (auto &f : r.fired) o << " " << f.first << "x" << f.second;
        samples.push_back(o.str());
      }
      if (r.vio.set) {
        vios++;
        if (viol.size() < 6 && !repdir.empty()) {
          Scenario c = s; c.dec = r.dec;
          std::string f = repdir + "/" + prop + "-" + std::to_string(seed) + ".raw";
          std::ofstream(f) << c.save(r.vio.cls, r.vio.msg, r.hash);
          viol.push_back(f + "\t" + r.vio.cls + "\t" + r.vio.msg);
        }
        if (viol.size() >= maxv && !twice) break;
      }
    }
    std::ostringstream o;
    o << "runs " << done << "\nnontrivial " << nontriv << "\nundecided " << und << "\nsearches " << dfs << "\nclock_us " << clock << "\nsteps " << steps << "\nswitches " << sw << "\nops " << ops << "\nviolations " << vios << "\nnondeterministic " << nondet << "\ndigest " << dig << "\nseconds " << now() - t0 << "\n";
    for (auto &f : fired) o << "fired " << f.first << " " << f.second << "\n";
    for (auto &f : probes) o << "probe " << f.first << " " << f.second << "\n";
    for (auto &f : samples) o << "sample " << f << "\n";
    for (auto &f : viol) o << "violation " << f << "\n";
    o << "inter"; for (u64 h : inter) o << " " << std::hex << h; o << "\n";
    o << "traces"; for (u64 h : traces) o << " " << std::hex << h; o << "\n";
    if (out.empty() || out == "-") { std::string t = o.str(); fputs(t.substr(0, t.find("\ninter") + 1).c_str(), stdout); printf("interleavings %zu\n", inter.size()); }
    else { std::ofstream(out + ".tmp") << o.str(); rename((out + ".tmp").c_str(), out.c_str()); }
    fflush(stdout);
    return 0;
  }
  if (mode == "replay" || mode == "shrink") {
    Scenario s; std::string cls; u64 hash = 0;
    if (!s.load(slurp(file), &cls, &hash)) { fprintf(stderr, "simulator: cannot read %s\n", file.c_str()); return 70; }
    if (!load_images(sut, s.family)) return 70;
    if (mode == "shrink") {
      u64 tries = 0;
      RunResult r0 = run_scenario(s, true, 0);
      if (!same(r0.vio, cls)) { fprintf(stderr, "simulator: recorded run does not reproduce (%s)\n", r0.vio.cls.c_str()); return 3; }
      Scenario m = minimise(s, cls, limit, &tries);
      RunResult r = run_scenario(m, true, 0);
      std::ofstream(out) << m.save(r.vio.cls, r.vio.msg, r.hash);
      printf("minimised to %zu operations in %llu runs: %s: %s\n", m.ops.size(), (unsigned long long)tries, r.vio.cls.c_str(), r.vio.msg.c_str());
      fflush(stdout);
      return 0;
    }
    RunResult r = run_scenario(s, true, 0);
    printf("replay: %s %s hash %llu\n", r.vio.set ? r.vio.cls.c_str() : "ok", r.vio.msg.c_str(), (unsigned long long)r.hash);
    fflush(stdout);
    if (!same(r.vio, cls)) return r.vio.set ? 4 : 3;
    if (r.hash != hash) { printf("replay: event hash differs\n"); fflush(stdout); return 5; }
    return 1;
  }
  fprintf(stderr, "usage: sim run|one|replay|shrink ...\n");
  return 64;
}
