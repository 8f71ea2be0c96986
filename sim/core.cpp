#include "core.h"
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <csignal>
#include <sys/mman.h>
#include <unistd.h>
#include <sys/time.h>
#include <ucontext.h>

World *W = nullptr;
bool g_verbose = false;
int g_shm_fd = -1;
u64 g_shm_used = 0;
// Runs with rings of many gigabytes track which memory was ever written, so that copying and checking it costs nothing.
static u64 tkey(u64 a) { return (a - SHM_BASE < SHM_SPAN ? (a - SHM_BASE) % SHM_SIZE : a) / CHUNK; }
void touch(const void *p, u64 n) { if (W && W->huge && n) for (u64 k = (u64)p / CHUNK; k <= ((u64)p + n - 1) / CHUNK; k++) W->touched.insert(tkey(k * CHUNK)); }
bool is_touched(const void *p) {
  u64 a = (u64)p;
  if (a - SHM_BASE < SHM_SPAN) { if ((a - SHM_BASE) % SHM_SIZE / CHUNK * CHUNK < g_shm_used) return true; }
  else if (a - HEAP_BASE >= HEAP_SPAN || (a - HEAP_BASE) % HEAP_SIZE < (8u << 20)) return true;
  return W->touched.count(tkey(a));
}

int Rng::logrange(int lo, int hi) {
  if (hi <= lo) return lo;
  double a = std::log((double)lo), b = std::log((double)hi + 1);
  int v = (int)std::exp(a + (b - a) * unit());
  return v < lo ? lo : v > hi ? hi : v;
}

// ---------------------------------------------------------------- coroutine switch
extern "C" void sim_switch(void **save, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
static void *main_sp;

static void to_main() {            // leave the current coroutine
  void *dummy; Proc *p = W->cur;
  void **save = p ? &p->sp : &dummy;
  W->cur = nullptr;
  sim_switch(save, main_sp);
}

static void coro_main() {
  Proc *p = W->cur;
  p->body();
  p->exited = true;
  proc_die(p, "exit");
  abort();
}

// ---------------------------------------------------------------- log
void vlog(const char *fmt, ...) {
  if (!g_verbose) return;
  va_list ap; va_start(ap, fmt);
  fprintf(stdout, "[%6llu t=%llu %s", (unsigned long long)W->seq, (unsigned long long)W->clock_us, W->cur ? W->cur->name.c_str() : "-");
  if (W->cur && W->cur->pid) fprintf(stdout, ".%d", W->cur->pid);
  fputs("] ", stdout);
  vfprintf(stdout, fmt, ap); fputc('\n', stdout);
  va_end(ap);
}
static inline void fnv(u64 &h, u64 v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }
void note(u64 kind, u64 a, u64 b) { W->seq++; fnv(W->hash, kind); fnv(W->hash, a); fnv(W->hash, b); fnv(W->hash, W->cur ? W->cur->id + 1 : 0); }
void probe(const char *k) { W->probes[k]++; }
void fired(const char *k) { W->fired[k]++; }

void violation(const char *cls, const char *fmt, ...) {
  if (!W->vio.set) {
    char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    W->vio.set = true; W->vio.cls = cls;
    W->vio.msg = (W->cur ? W->cur->name + ": " : std::string()) + b;
    vlog("VIOLATION %s %s", cls, b);
  }
  W->stop = true;
  if (W->cur) to_main();
}

int decide(DK k, int who, const std::function<int(Rng &)> &gen) {
  u32 key = (u32)k << 16 | (u32)(who & 0xffff);
  Decider &d = W->dec;
  d.count++;
  int v;
  if (d.replay) {
    auto &r = d.rec[key]; size_t &p = d.pos[key];
    v = p < r.size() ? r[p] : 0; p++;
  } else {
    v = gen(d.rng);
    d.rec[key].push_back(v);
  }
  fnv(W->hash, key); fnv(W->hash, (u64)v);
  return v;
}

// ---------------------------------------------------------------- global init
static char altstk[65536];
static void on_crash(int sig, siginfo_t *si, void *) {
  sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, nullptr);
  if (W && W->cur) {
    const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "an array index out of bounds" : sig == SIGVTALRM ? "endless computation" : "signal";
    violation(sig == SIGVTALRM ? "hang" : "crash", "%s in the code under test%s", n, sig == SIGSEGV ? " (bad address)" : "");
  }
  (void)si;
  fprintf(stderr, "simulator: fatal signal %d outside a simulated process\n", sig);
  _exit(70);
}
static void *map_at(u64 a, u64 len, int prot, int flags, int fd) {
  void *r = mmap((void *)a, len, prot, flags | MAP_FIXED_NOREPLACE, fd, 0);
  if (r != (void *)a) { perror("simulator: mmap"); _exit(70); }
  return r;
}
void sim_global_init() {
  g_shm_fd = memfd_create("shm", 0);
  if (g_shm_fd < 0 || ftruncate(g_shm_fd, SHM_SIZE)) { perror("memfd"); _exit(70); }
  for (int i = 0; i < NALIAS; i++) map_at(SHM_BASE + i * SHM_SIZE, SHM_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, g_shm_fd);
  map_at(HEAP_BASE, HEAP_SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1);
  map_at(SHADOW_BASE, SHADOW_SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1);
  map_at(STACK_BASE, STACK_SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1);
  for (int i = 0; i < NPROC; i++) mprotect((void *)(STACK_BASE + i * STACK_SIZE), PAGE, PROT_NONE);
  stack_t ss{}; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
}

// ---------------------------------------------------------------- world
void world_begin(World *w) {
  W = w;
  w->shm_pt = w->cfg.get("shmpt", 1); w->huge = w->cfg.get("huge", 0); if (w->huge) probe("ring_over_2GiB");
  k_world_begin();
}
void world_end(World *w) {
  k_world_end();
  (void)w;
}

// ---------------------------------------------------------------- processes
static void shadow_clear(Proc *p) {
  u64 b = HEAP_BASE + p->slot * HEAP_SIZE;
  u64 n = p->heap_hi - b;
  u64 sh = SHADOW_BASE + (b - HEAP_BASE) / 8;
  if (n > (64u << 20)) madvise((void *)sh, (n / 8 + 8 + PAGE - 1) / PAGE * PAGE, MADV_DONTNEED);
  else memset((void *)sh, 0, n / 8 + 8);
  if (n > (8u << 20)) madvise((void *)(b + (8u << 20)), n - (8u << 20), MADV_DONTNEED);
  if (p->big) madvise((void *)(b + HEAP_SIZE / 2), HEAP_SIZE / 2, MADV_DONTNEED);
}
Proc *proc_spawn(const std::string &name, int prog, std::function<void()> body) {
  int s = 0;
  while (s < NPROC && W->slots[s]) s++;
  if (s == NPROC) { fprintf(stderr, "simulator: out of process slots\n"); _exit(70); }
  W->procs.emplace_back(new Proc);
  Proc *p = W->procs.back().get();
  p->slot = s; p->id = (int)W->procs.size() - 1; p->prog = prog; p->name = name; p->body = std::move(body);
  p->heap_top = p->heap_hi = HEAP_BASE + s * HEAP_SIZE;
  p->uid = (int)W->cfg.get("uid", 0);
  if (W->cfg.get("uidmix", 0) && prog >= 0 && (prog & 1)) p->uid = 0;   // some of the users are root
  p->nofile = (int)W->cfg.get("nofile", 1024);
  W->slots[s] = p;
  // process id: fresh, or that of a process that is gone
  std::vector<int> old;
  for (auto &q : W->procs) if (q->st == P_DEAD && !q->zombie) {
    bool used = false;
    for (auto &r : W->procs) if (r.get() != q.get() && r->pid == q->pid && (r->st != P_DEAD || r->zombie)) used = true;
    if (!used && std::find(old.begin(), old.end(), q->pid) == old.end()) old.push_back(q->pid);
  }
  int v = 0;
  if (!old.empty()) v = decide(K_PROC, 900, [&](Rng &r) { return r.chance(W->cfg.get("pidreuse", 30) / 100.0) ? 1 + (int)r.below(old.size()) : 0; });
  if (v > 0) { p->pid = old[(v - 1) % old.size()]; fired("pid_reuse"); }
  else { long p0 = W->cfg.get("pid0", 1000), st = W->cfg.get("pidstep", 7); p->pid = (int)(st < 1000 || p->id < 60 ? p0 + p->id * st : 100000 + p->id * 7); }
  u64 *top = (u64 *)(STACK_BASE + (s + 1) * STACK_SIZE - 64);
  memset((char *)(STACK_BASE + (s + 1) * STACK_SIZE) - 16384, 0x5A, 16384 - 64);
  *--top = 0;                    // alignment: at function entry rsp % 16 == 8
  *--top = (u64)coro_main;
  for (int i = 0; i < 6; i++) *--top = 0;
  p->sp = top;
  p->st = P_RUN;
  p->gap = 0;
  p->weight = (int)W->cfg.get(("w" + std::to_string(prog)).c_str(), 10);
  image_reset(s);
  note(1, p->id, p->pid);
  vlog("spawn %s pid=%d", name.c_str(), p->pid);
  return p;
}

static void finish_death(Proc *p) {
  if (p->st != P_DYING) { k_release(p, true, false); if (W->on_dead) W->on_dead(p, 0); }
  k_release(p, true, true);
  p->st = P_DEAD;
  p->maps.clear(); p->mcache = nullptr; p->mlocks.clear(); p->dirs.clear(); p->live.clear();
  shadow_clear(p);
  W->slots[p->slot] = nullptr;
  p->pred = nullptr;
  if (W->on_dead) W->on_dead(p, 1);
}
void proc_die(Proc *p, const char *how) {
  bool me = W->cur == p;
  note(2, p->id);
  vlog("death of %s (%s)", p->name.c_str(), how);
  bool killed = strcmp(how, "exit") != 0;
  if (killed) {
    p->zombie = decide(K_PROC, p->prog, [&](Rng &r) { return r.chance(W->cfg.get("zombie", 0) / 100.0) ? 1 : 0; });
    if (p->zombie) fired("zombie");
  }
  int slow = 0;
  if (killed && W->cfg.get("dying", 0)) slow = decide(K_PROC, 100 + p->prog, [&](Rng &r) { return r.chance(0.4) ? 1 : 0; });
  if (slow) {                    // the kernel drops locks before it closes the sockets
    p->st = P_DYING;
    p->maps.clear(); p->mcache = nullptr; p->mlocks.clear(); p->dirs.clear();
    k_release(p, true, false);
    if (W->on_dead) W->on_dead(p, 0);
    fired("slow_death");
  } else finish_death(p);
  if (me) to_main();
}
void proc_kill(Proc *p) {
  if (p->st == P_DEAD || p->st == P_DYING || p->st == P_FREE) return;
  if (p->dirty && !W->kill_dirty) { p->kill_now = true; return; }
  W->kills++; fired("kill");
  if (p->why && p->st == P_BLOCK) probe(!strcmp(p->why, "fcntl") ? "kill_waiting_lock" : "kill_blocked");
  proc_die(p, "killed");
}

static bool can_run(Proc *p) {
  if (p->st == P_RUN || p->st == P_DYING) return true;
  if (p->st != P_BLOCK) return false;
  if (p->intr_ok && (p->resumed || signal_deliverable(p))) return true;
  return p->pred && p->pred();
}

static Proc *last_run = nullptr;
static Proc *pick_next() {
  static thread_local Proc *c[NPROC];
  int n = 0;
  for (int i = 0; i < NPROC; i++) { Proc *p = W->slots[i]; if (p && can_run(p)) c[n++] = p; }
  if (!n) return nullptr;
  if (n == 1) return c[0];
  // order by workload program so that decisions mean the same after shrinking
  std::sort(c, c + n, [](Proc *a, Proc *b) { return a->id < b->id; });
  int self = -1;
  for (int i = 0; i < n; i++) if (c[i] == last_run) self = i;
  if (self > 0) { Proc *t = c[self]; for (int i = self; i > 0; i--) c[i] = c[i - 1]; c[0] = t; }
  int who = last_run ? (last_run->prog >= 0 ? last_run->prog : 50) : 99;
  int v = decide(K_NEXT, who, [&](Rng &r) {
    int tot = 0; for (int i = 0; i < n; i++) tot += c[i]->weight;
    int x = (int)r.below(tot ? tot : 1);
    for (int i = 0; i < n; i++) { x -= c[i]->weight; if (x < 0) return i; }
    return 0;
  });
  return c[v % n];
}

static void sched_slice(Proc *p) {
  long gm = W->cfg.get("gapmax", 400);
  int v = decide(K_GAP, p->prog >= 0 ? p->prog : 50, [&](Rng &r) {
    if (r.chance(W->cfg.get("gapinf", 15) / 100.0)) return 0;
    return r.logrange(1, (int)gm);
  });
  p->gap = v; p->gap_inf = v == 0;
}

struct CpuGuard {                 // catches loops that reach no hook at all
  CpuGuard() { struct itimerval it{}; it.it_value.tv_sec = W && W->huge ? 300 : 20; setitimer(ITIMER_VIRTUAL, &it, nullptr); }
  ~CpuGuard() { struct itimerval it{}; setitimer(ITIMER_VIRTUAL, &it, nullptr); }
};
void sim_run() {
  CpuGuard guard;
  last_run = nullptr;
  while (!W->stop) {
    while (!W->deferred.empty()) { auto d = std::move(W->deferred); W->deferred.clear(); for (auto &f : d) f(); }
    Proc *p = pick_next();
    if (!p) {
      u64 t;
      if (W->alarms_left > 0 && k_next_alarm(&t)) {
        W->alarms_left--;
        if (t > W->clock_us) W->clock_us = t;
        k_deliver_alarms();
        note(3);
        continue;
      }
      return;
    }
    if (p != last_run) { W->switches++; fnv(W->sched_hash, p->prog + 2); fnv(W->sched_hash, p->nsys); }
    last_run = p;
    if (p->st == P_DYING) { finish_death(p); last_run = nullptr; continue; }
    if (p->st == P_BLOCK) { p->st = P_RUN; }
    sched_slice(p);
    W->clock_us++;
    W->cur = p;
    sim_switch(&main_sp, p->sp);
    W->cur = nullptr;
    if (last_run && last_run->st == P_DEAD) last_run = nullptr;
  }
}

static void yield_now() { to_main(); }

static void check_steps() {
  if (++W->steps - W->progress > W->max_steps) violation("hang", "no progress within %llu steps", (unsigned long long)W->max_steps);
}
static inline void check_kill(Proc *p) {
  if (p->kill_now) { if (!p->dirty || W->kill_dirty) { p->kill_now = false; p->dirty = false; proc_kill(p); } return; }
  if (p->kill_at > 0) {
    if (p->kill_at > 1) { p->kill_at--; return; }
    if (p->dirty && !W->kill_dirty) return;
    p->kill_at = 0;
    if (p->dirty) W->dirty_kills++;
    if (p->nlocks) probe("kill_holding_lock"); else probe("kill_without_lock");
    p->dirty = false;
    proc_kill(p);
  }
}
void sim_point(int cost) {
  Proc *p = W->cur;
  check_steps();
  check_kill(p);
  if (p->gap_inf) return;
  p->gap -= cost;
  if (p->gap <= 0) { fnv(W->sched_hash, W->steps); yield_now(); }
}
void sys_enter(const char *name) {
  Proc *p = W->cur;
  if (!p) { fprintf(stderr, "simulator: system call %s outside a process\n", name); _exit(70); }
  p->dirty = false;
  p->nsys++;
  u64 h = 0; for (const char *c = name; *c; c++) h = h * 131 + (u8)*c;
  note(5, h);
  if (g_verbose) vlog("  %s", name);
  W->clock_us++;
  sim_point(4);
}

bool block_on(const char *why, std::function<bool()> pred, bool intr_ok) {
  Proc *p = W->cur;
  if (pred()) return true;
  if (intr_ok && signal_deliverable(p)) return false;
  if (p->kill_on_block) { p->kill_on_block = false; probe("kill_on_block"); p->why = why; p->dirty = false; W->kills++; fired("kill"); proc_die(p, "killed"); }
  p->waits++;
  if (strcmp(why, "fcntl")) p->ewaits++;
  for (;;) {
    p->pred = pred; p->why = why; p->intr_ok = intr_ok; p->st = P_BLOCK; p->intr = false;
    vlog("  ... blocks in %s", why);
    yield_now();
    p->st = P_RUN;
    if (p->kill_now) check_kill(p);
    if (pred()) { p->resumed = false; p->pred = nullptr; return true; }
    if (intr_ok && (p->resumed || signal_deliverable(p))) { p->resumed = false; p->pred = nullptr; return false; }
  }
}
void idle_until(std::function<bool()> pred) {
  Proc *p = W->cur;
  p->idle = true;
  bool kb = p->kill_on_block; p->kill_on_block = false;
  block_on("idle", pred, false);
  p->kill_on_block = kb;
  p->idle = false;
}

// ---------------------------------------------------------------- faults
int fault(const char *sys, u32 cls, std::initializer_list<int> alts) {
  Proc *p = W->cur;
  if (!p || !p->in_op || p->f_off || !(cls & W->fault_mask)) return 0;
  bool hit = false;
  if (p->f_sticky && p->f_last == sys) hit = true;
  else if (p->f_nth > 0 && --p->f_nth == 0) hit = true;
  if (!hit) return 0;
  int i = alts.size() > 1 ? p->f_sel % (int)alts.size() : 0;
  int e = *(alts.begin() + i);
  if (e == EINTR) p->f_sticky = false;            // a signal does not interrupt forever
  p->f_last = sys;
  p->faults_fired |= cls;
  char b[64]; snprintf(b, sizeof b, "%s:%s", sys, strerrorname_np(e) ? strerrorname_np(e) : "?");
  fired(b);
  note(6, e);
  vlog("  *** fault: %s fails with %s", sys, b);
  return e;
}

// ---------------------------------------------------------------- heap with red zones
static inline u8 *shadow(u64 a) { return (u8 *)(SHADOW_BASE + (a - HEAP_BASE) / 8); }
constexpr u64 BIG = 32u << 20;
void *heap_alloc(Proc *p, u64 n, int owner, bool harness) {
  u64 base = HEAP_BASE + p->slot * HEAP_SIZE;
  u64 a = p->heap_top + 32;
  u64 sz = (n + 15) & ~15ull;
  if (n > BIG && W->huge) {                        // looked up as a block; the first gap in the upper half of the arena
    a = base + HEAP_SIZE / 2;
    for (auto i = p->live.lower_bound(a); i != p->live.end(); ++i) { if (a + sz + 2 * CHUNK <= i->first) break; a = (i->first + i->second.size) / CHUNK * CHUNK + 2 * CHUNK + 64 + (n & 8); }
    if (a + sz + CHUNK > base + HEAP_SIZE) return nullptr;
    p->big++; p->live[a] = Block{n, owner, harness};
    return (void *)a;
  }
  if (a + sz + 64 > base + (W->huge ? HEAP_SIZE : HEAP_LIMIT)) { return nullptr; }
  p->heap_top = a + sz;
  if (p->heap_top + 64 > p->heap_hi) p->heap_hi = p->heap_top + 64;
  u8 *s = shadow(a);
  memset(s, 8, n / 8);
  if (n & 7) s[n / 8] = n & 7;
  p->live[a] = Block{n, owner, harness};
  memset((void *)a, 0xA5, n < 65536 ? n : 65536);
  if (W->huge) touch((void *)a, n < 65536 ? n : 65536);
  return (void *)a;
}
void heap_free(Proc *p, void *ptr, const char *what) {
  if (!ptr) return;
  auto i = p->live.find((u64)ptr);
  if (i == p->live.end()) { violation("memory", "%s of a pointer that is not an allocated block", what); return; }
  if (!(i->second.size > BIG && W->huge)) memset(shadow((u64)ptr), 0, (i->second.size + 7) / 8);
  if (i->second.size > BIG && W->huge) {           // all zeros again, up to the ends of its first and last page
    u64 a = (u64)ptr, e = a + i->second.size, pa = (a + PAGE - 1) / PAGE * PAGE, pe = e / PAGE * PAGE;
    memset(ptr, 0, pa - a); madvise((void *)pa, pe - pa, MADV_DONTNEED); memset((void *)pe, 0, e - pe); touch(ptr, PAGE); touch((void *)(pe - 1), PAGE);
  } else memset(ptr, 0xDD, i->second.size < 65536 ? i->second.size : 65536);
  p->live.erase(i);
}
u64 heap_block_size(Proc *p, void *ptr) { auto i = p->live.find((u64)ptr); return i == p->live.end() ? 0 : i->second.size; }
void *h_alloc(u64 n) {
  void *r = heap_alloc(W->cur, n, 0, true);
  if (!r) { fprintf(stderr, "simulator: heap arena exhausted (%llu bytes)\n", (unsigned long long)n); _exit(70); }
  return r;
}
void h_free(void *p) { heap_free(W->cur, p, "harness free"); }

static void heap_bad(u64 a, u64 n, bool w) {
  Proc *p = W->cur;
  const char *k = "outside any block";
  auto i = p->live.upper_bound(a);
  if (i != p->live.begin()) { --i; if (a < i->first + i->second.size + 64) k = i->second.harness ? "beyond a caller's buffer" : "beyond a heap block"; }
  violation("memory", "invalid heap %s of %llu bytes %s", w ? "write" : "read", (unsigned long long)n, k);
}
static inline void heap_check(u64 a, u64 n, bool w) {
  u64 sl = (a - HEAP_BASE) / HEAP_SIZE;
  if ((int)sl != W->cur->slot) { violation("memory", "access to another process's memory"); return; }
  if (W->cur->big) {
    auto &l = W->cur->live; auto i = l.upper_bound(a);
    if (i != l.begin()) { --i; if (i->second.size > BIG && a < i->first + i->second.size) { if (a + n > i->first + i->second.size) heap_bad(a, n, w); return; } }
  }
  u8 *s = shadow(a);
  u64 off = a & 7;
  if (off + n <= 8) { if (__builtin_expect(*s < off + n, 0)) heap_bad(a, n, w); return; }
  if (*s < 8) { heap_bad(a, n, w); return; }
  u64 left = n - (8 - off); s++;
  while (left >= 64) { u64 v; memcpy(&v, s, 8); if (v != 0x0808080808080808ull) break; s += 8; left -= 64; }
  while (left >= 8) { if (*s < 8) { heap_bad(a, n, w); return; } s++; left -= 8; }
  if (left && *s < left) heap_bad(a, n, w);
}
static void other_access(u64 a, u64 n, bool w) {
  if (!w) return;
  u64 b = STACK_BASE + W->cur->slot * STACK_SIZE;
  if (a >= b && a + n <= b + STACK_SIZE) return;
  if (image_owns(W->cur->slot, a)) return;
  if (a == (u64)&W->cur->err) return;
  violation("memory", "write to memory the process does not own");
}
static inline void access(u64 a, u64 n, bool w) {
  if (__builtin_expect(!W || !W->cur, 0)) return;
  if (a - SHM_BASE < SHM_SPAN) {
    if (W->shm_pt) sim_point(1); else check_steps();
    if (w && W->huge) touch((void *)a, n);
    k_shm_access(a, n, w);
    return;
  }
  check_steps();
  if (a - HEAP_BASE < HEAP_SPAN) { if (w && W->huge) touch((void *)a, n); heap_check(a, n, w); }
  else if (w) other_access(a, n, w);
}
void check_range(const void *p, u64 n, bool w) { check_range(p, n, w, true); }
void check_range(const void *p, u64 n, bool w, bool mark) {
  if (!n) return;
  if (w && mark && W->huge) touch(p, n);
  u64 a = (u64)p;
  if (a - SHM_BASE < SHM_SPAN) { k_shm_access(a, n, w); return; }
  if (a - HEAP_BASE < HEAP_SPAN) heap_check(a, n, w);
  else if (w) other_access(a, n, w);
}

// ---------------------------------------------------------------- instrumentation hooks
#define EXP __attribute__((visibility("default")))
extern "C" {
EXP void __tsan_init() {}
EXP void __tsan_func_entry(void *) {}
EXP void __tsan_func_exit() {}
EXP void __tsan_vptr_update(void **, void *) {}
EXP void __tsan_vptr_read(void **) {}
#define RW(N) \
  EXP void __tsan_read##N(void *p) { access((u64)p, N, false); } \
  EXP void __tsan_write##N(void *p) { access((u64)p, N, true); } \
  EXP void __tsan_volatile_read##N(void *p) { access((u64)p, N, false); } \
  EXP void __tsan_volatile_write##N(void *p) { access((u64)p, N, true); } \
  EXP void __tsan_unaligned_read##N(void *p) { access((u64)p, N, false); } \
  EXP void __tsan_unaligned_write##N(void *p) { access((u64)p, N, true); } \
  EXP void __tsan_unaligned_volatile_read##N(void *p) { access((u64)p, N, false); } \
  EXP void __tsan_unaligned_volatile_write##N(void *p) { access((u64)p, N, true); } \
  EXP void __tsan_read_write##N(void *p) { access((u64)p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXP void __tsan_read_range(void *p, u64 n) { if (n) access((u64)p, n, false); }
EXP void __tsan_write_range(void *p, u64 n) { if (n) access((u64)p, n, true); }
#define ATOM(B, T) \
  EXP T __tsan_atomic##B##_load(const volatile T *a, int) { access((u64)a, sizeof(T), false); return *a; } \
  EXP void __tsan_atomic##B##_store(volatile T *a, T v, int) { access((u64)a, sizeof(T), true); *a = v; } \
  EXP T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { access((u64)a, sizeof(T), true); T o = *a; *a = v; return o; } \
  EXP T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { access((u64)a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
  EXP T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { access((u64)a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
  EXP T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { access((u64)a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
  EXP T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { access((u64)a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
  EXP T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { access((u64)a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
  EXP int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access((u64)a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  EXP int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, m, f); } \
  EXP T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access((u64)a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
EXP void __tsan_atomic_thread_fence(int) {}
EXP void __tsan_atomic_signal_fence(int) {}
}
