// Executable reference model of a ring and the linearizability search.
#pragma once
#include "core.h"

enum HK { H_OPEN, H_CLOSE, H_READ, H_WRITE, H_FLUSH, H_STAT, H_FARMSTAT, H_APPGET, H_APPSET, H_APPSWAP, H_FDCHECK, H_FDWAIT, H_DIE };
struct MMsg { u64 h; u64 len; bool operator==(const MMsg &o) const { return h == o.h && len == o.len; } };
struct MStat { u64 bw = 0, br = 0, mw = 0, mr = 0, md = 0, bd = 0, start = 0; };
struct HOp {
  int kind = 0, proc = 0, handle = -1, idx = 0;
  u64 inv = 0, ret = ~0ull;            // global sequence numbers; ret == ~0: still pending
  u64 first = 0;                       // first access to shared memory, if any: no effect before it
  u64 lastunlock = 0; std::vector<u64> commits;
  bool killed = false;                 // the process died inside
  u32 faults = 0, natural = 0;
  bool waited = false;
  // arguments
  u64 buflen = 0, niov = 0;            // read
  std::vector<MMsg> batch;             // write
  bool rd = false, nb = false, buf = false; // open
  bool wait = false;                   // flush
  bool reset = false; u64 resetval = 0;
  u64 value = 0;                       // appdata value stored
  std::vector<int> dead;               // die: handles
  // results
  long rc = 0;
  std::vector<MMsg> got;
  MStat st; u64 bn = 0, bu = 0, mu = 0, mm = 0, cm = 0, cb = 0; unsigned flags = 0;
  u64 out = 0;                         // farm count / appdata value read
  bool stale = false;                  // descriptor still readable from wakeups older than this read
  std::string str() const;
};

struct MHandle {
  bool open = false, rd = false, nb = false, buf = false, r2w = false;
  u64 q = 0, missed = 0;
  std::vector<MMsg> pend; u64 pbytes = 0;
};
struct RingState {
  // geometry
  u64 n = 0, mm = 0; bool drop = false, farm = false; unsigned gflags = 0; u64 applen = 0;
  std::deque<MMsg> msgs; u64 q0 = 0, u = 0;
  MStat st; u64 app = 0;
  int rslots = 0, wslots = 0, rmaybe = 0, wmaybe = 0;
  int maxslots = 64; bool lenient = false;
  std::map<int, MHandle> h;
  u64 hash() const;
};

struct History {
  std::vector<HOp> ops;                // in invocation order
  RingState init;
  bool lenient_slots = false;          // stale slots may be indistinguishable for a while
  bool pollfd_ok = true;
};
struct CheckResult { enum { OK, BAD, UNDECIDED } v = OK; std::string msg; bool dfs = false; u64 nodes = 0; };
// quiescent: pending operations must not be enabled in the final state (exempt: handles whose wakeup may have been lost by an injected fault)
CheckResult check_history(const History &h, bool quiescent, bool exempt_wakeups, RingState *final_state = nullptr);
