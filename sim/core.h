// Deterministic simulator core: processes as coroutines, simulated memory, decisions, scheduler.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <deque>
#include <memory>
#include <functional>
#include <algorithm>
#include <sys/types.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

// ---------------------------------------------------------------- PRNG
static inline u64 splitmix(u64 &x) {
  u64 z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline u64 mix(u64 a, u64 b) { u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15); return splitmix(x); }
struct Rng {
  u64 s[2];
  explicit Rng(u64 seed = 1) { u64 x = seed; s[0] = splitmix(x); s[1] = splitmix(x); }
  u64 next() { u64 a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b; }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((u64)(hi - lo + 1)); }
  bool chance(double p) { return unit() < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  int logrange(int lo, int hi);  // log-uniform integer
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- memory layout
constexpr int NPROC = 16;                       // live simulated processes (image slots)
constexpr u64 SHM_SIZE = 64ull << 30;           // backing store of simulated files (sparse)
constexpr int NALIAS = NPROC * 2;
constexpr u64 SHM_BASE = 0x100000000000ull, SHM_SPAN = SHM_SIZE * NALIAS;
constexpr u64 HEAP_SIZE = 256ull << 30;         // address space; blocks are never reused
constexpr u64 HEAP_LIMIT = 256ull << 20;         // what a process may use of it in ordinary runs
extern int g_shm_fd;
extern u64 g_shm_used;                          // the backing store is zero from here on
constexpr u64 CHUNK = 65536;
void touch(const void *p, u64 n);
bool is_touched(const void *p);                  // false: the chunk p lies in is all zeros
void check_range(const void *p, u64 n, bool w, bool mark);
constexpr u64 HEAP_BASE = 0x200000000000ull, HEAP_SPAN = HEAP_SIZE * NPROC;
constexpr u64 SHADOW_BASE = 0x280000000000ull, SHADOW_SPAN = HEAP_SPAN / 8;
constexpr u64 STACK_SIZE = 512ull << 10;
constexpr u64 STACK_BASE = 0x300000000000ull, STACK_SPAN = STACK_SIZE * NPROC;
constexpr u64 PAGE = 4096;

// ---------------------------------------------------------------- decisions
// Value 0 is always the benign default, so a shortened stream is still meaningful.
enum DK { K_GAP = 1, K_NEXT, K_FNTH, K_FSEL, K_KILL, K_EPOLL, K_SEG, K_PROC, K_DISK, K_MISC };
struct Decider {
  bool replay = false;
  Rng rng;
  std::map<u32, std::vector<int>> rec;
  std::unordered_map<u32, size_t> pos;
  u64 count = 0;
};

struct Inode; struct File; struct SutImage; struct Proc;

struct Block { u64 size; int owner; bool harness; };
struct Mapping { u64 base, len; Inode *ino; u64 fileoff; bool priv; int owner; };

enum PState { P_FREE, P_RUN, P_BLOCK, P_DYING, P_DONE, P_DEAD };

struct Proc {
  int slot = 0;          // image/stack/heap slot
  int id = 0;            // unique within the run
  int pid = 0;
  int prog = -1;         // workload program index
  PState st = P_FREE;
  void *sp = nullptr;
  std::function<void()> body;
  std::string name;
  // blocking
  std::function<bool()> pred; const char *why = ""; bool intr_ok = false;
  bool intr = false;             // a signal handler ran while blocked
  bool idle = false;             // blocked in the harness, not in the code under test
  // kernel state
  std::map<int, std::shared_ptr<File>> fds;
  std::map<int, int> fd_owner;   // which handle the descriptor was created for (0: harness)
  std::vector<Mapping> maps;
  Mapping *mcache = nullptr;
  std::vector<std::pair<u64, u64>> mlocks; // [base,len)
  std::map<u64, int> dirs;       // open DIR* and owner
  int err = 0;
  int alias_toggle = 0;
  int uid = 0;
  bool zombie = false;
  u64 alarm_at = 0, wake_at = 0; u64 sig_mask = 0, sig_pending = 0, sig_ign = 0;
  int nofile = 1024;
  int owner = 0;                 // current resource owner tag (handle number)
  // heap
  u64 heap_top = 0, heap_hi = 0; int big = 0;
  std::map<u64, Block> live;
  // scheduling
  long gap = 0; bool gap_inf = false;
  int weight = 0;
  // kill plan (armed per operation)
  long kill_at = 0; bool kill_on_block = false, kill_now = false;
  bool in_op = false;
  // fault plan
  int f_nth = 0, f_sel = 0; bool f_sticky = false; std::string f_last;
  u32 faults_fired = 0;          // in the current operation (FB_*)
  u32 natural = 0;               // environment-caused failures in the current operation
  bool f_off = false, nofault_next = false;
  // lock section bookkeeping
  int nlocks = 0; bool dirty = false; bool section_wrote = false;
  u64 lock_seq = 0, unlock_seq = 0, nsys = 0;
  u64 acc_first = 0, acc_last = 0; // first and last access to shared memory in this operation
  std::vector<u64> commits;      // unlock sequence numbers of sections that stored to shared memory
  u64 waits = 0;                 // times this process blocked in the current operation
  u64 ewaits = 0;                // the same, the ring lock aside
  u64 nsent = 0;                 // datagrams it sent
  bool resumed = false;          // suspended and resumed while it waited
  bool eintr = false;            // a signal interrupted a wait of the current operation
  int exit_code = 0; bool exited = false;
};

// classes of fired faults
enum { FB_LOCK = 1, FB_WAIT = 2, FB_NOTIFY = 4, FB_MSYNC = 8, FB_ALLOC = 16, FB_OPEN = 32, FB_OTHER = 64, FB_IO = 128, FB_SIG = 256 };

struct Violation { bool set = false; std::string cls, msg; };

struct RunCfg {                // environment knobs of one run (all serialised)
  std::map<std::string, long> kv;
  long get(const char *k, long d) const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
  void set(const std::string &k, long v) { kv[k] = v; }
};

struct World {
  RunCfg cfg;
  Decider dec;
  std::vector<std::unique_ptr<Proc>> procs;   // all processes of the run, by id
  Proc *slots[NPROC] = {};
  Proc *cur = nullptr;
  u64 seq = 0;                 // global event sequence number
  u64 nsent = 0;               // datagrams sent
  u64 clock_us = 0;            // simulated time
  u64 steps = 0, max_steps = 4000000, progress = 0;   // progress: step of the last completed operation
  u64 hash = 1469598103934665603ull;
  u64 sched_hash = 1469598103934665603ull;
  u64 switches = 0;
  Violation vio;
  bool stop = false;
  bool faults_on = false; u32 fault_mask = ~0u;
  bool shm_pt = true, huge = false;
  std::unordered_set<u64> touched;                // huge runs: the 64 KiB chunks that may hold anything but zeros
  bool kill_dirty = false;
  int dirty_kills = 0, kills = 0;
  int alarms_left = 3;
  std::function<void(Proc *, int)> on_dead;    // 0: locks gone, 1: everything gone
  std::vector<std::function<void()>> deferred; // run on the main stack before the next scheduling
  std::map<std::string, u64> fired;           // fault kinds fired in this run
  std::map<std::string, u64> probes;          // rare conditions reached
};
extern World *W;
extern bool g_verbose;

// ---------------------------------------------------------------- API
void sim_global_init();                         // once per OS process
void world_begin(World *w);
void world_end(World *w);
Proc *proc_spawn(const std::string &name, int prog, std::function<void()> body);
void proc_die(Proc *p, const char *how);        // release resources; does not return if p is current
void proc_kill(Proc *p);                        // SIGKILL now (or at the next point where it is not mid-update)
void sim_run();                                 // runs all processes until none can run (or violation)
bool block_on(const char *why, std::function<bool()> pred, bool intr_ok); // false if interrupted
void idle_until(std::function<bool()> pred);    // harness wait (not counted as code under test)
void sim_point(int cost);                       // scheduling point
void sys_enter(const char *name);               // entry of every simulated system call
void note(u64 kind, u64 a = 0, u64 b = 0);      // event log (hash)
void vlog(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void probe(const char *k);
void fired(const char *k);
int decide(DK k, int who, const std::function<int(Rng &)> &gen);
static inline Proc *cur() { return W->cur; }

// returns errno to inject (0: none)
int fault(const char *sys, u32 cls, std::initializer_list<int> alts);

// simulated heap
void *heap_alloc(Proc *p, u64 n, int owner, bool harness);
void heap_free(Proc *p, void *ptr, const char *what);
u64 heap_block_size(Proc *p, void *ptr);
void check_range(const void *p, u64 n, bool write);
void *h_alloc(u64 n);             // harness buffer of exact size in the current process
void h_free(void *p);

// kernel entry points used by harness code
void k_world_begin();
void k_world_end();
void k_release(Proc *p, bool locks, bool fds);
void k_shm_access(u64 a, u64 n, bool write);
void k_deliver_alarms();
bool k_next_alarm(u64 *t);
bool signal_deliverable(Proc *p);

// image.cpp
struct shr; struct shr_stat; struct iovec; struct bw_t; struct bw_handle; struct timeval;
struct SutImage {
  int (*init)(char *, size_t, unsigned, ...);
  shr *(*open)(const char *, unsigned, ...);
  int (*selfd)(shr *);
  ssize_t (*read)(shr *, char *, size_t);
  ssize_t (*write)(shr *, char *, size_t);
  ssize_t (*readv)(shr *, char *, size_t, struct iovec *, size_t *);
  ssize_t (*writev)(shr *, struct iovec *, size_t);
  ssize_t (*flush)(shr *, int);
  void (*close)(shr *);
  int (*appdata)(shr *, void **, void *, size_t *);
  int (*stat)(shr *, struct shr_stat *, struct timeval *);
  size_t (*farm_stat)(shr *, int);
  int (*ctl)(shr *, int, ...);
  bw_t *(*bopen)(int, bw_handle *, ...);
  int (*bwake)(bw_t *);
  void (*bclose)(bw_t *);
  int (*bforce)(bw_t *, int);
  int (*bready)(bw_t *);
  int (*bwait)(bw_t *);
  int (*bctl)(bw_t *, int, ...);
  int (*tool_main)(int, char **);
  void (*stat_fields)(const shr_stat *, unsigned long long *);
  unsigned long (*sizes)(int);
};
bool images_load(const std::string &dir, const std::string &kind, std::string *err);
void image_reset(int slot);
SutImage *image_of(Proc *p);
bool image_owns(int slot, u64 a);
