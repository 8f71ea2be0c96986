// The block/wake library used directly: processes sharing wait tables under a file lock.
#include "scenario.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
extern "C" int sx_open(const char *, int, ...);
extern "C" void *sx_mmap(void *, size_t, int, int, int, off_t);
extern "C" int sx_fcntl(int, int, ...);

namespace {
constexpr int NT = 2;                        // tables in the shared file
struct BH { bool open = false, wait = false, lost = false; int tbl = 0; bw_t *w = nullptr; int gid = -1, fd = -1; bool busy = false; u64 consumed = 0; std::vector<int> evs, sure; };
struct BP { int id = 0; std::vector<int> ops; size_t pc = 0; BH h[72]; Proc *p = nullptr; bool started = false; char kind = 0; BH *cur = nullptr; u64 wait_start = 0; char *map = nullptr; int lockfd = -1; bool probe = false; };
struct Ev { FileP f; };

struct BwRun {
  const Scenario &s; RunResult &res;
  std::vector<std::unique_ptr<BP>> progs;
  std::map<int, Ev> events;
  int phase = 0, next_gid = 0, kills_left = 0; bool calm = false, lenient = false; u64 nops = 0, fsz = 0, hsz = 0;
  u64 wake_start[NT] = {};                   // start of the last undisturbed wake
  bool capdone = false;
  BwRun(const Scenario &sc, RunResult &r) : s(sc), res(r) {}
  long cfg(const char *k, long d = 0) { return s.cfg.get(k, d); }
  SutImage *img() { return image_of(cur()); }

  void arm(BP &g, char kind) {
    Proc *p = cur();
    p->in_op = true; p->faults_fired = 0; p->natural = 0; p->waits = 0; p->commits.clear();
    p->f_nth = 0; p->f_sel = 0; p->f_sticky = false; p->f_last.clear(); p->f_off = calm;
    p->kill_at = 0; p->kill_on_block = false;
    g.kind = kind;
    if (calm || g.probe) { p->f_off = true; return; }
    if (long fr = cfg("fault")) {
      int v = decide(K_FNTH, g.id, [&](Rng &r) { return r.chance(fr / 100.0) ? r.logrange(1, (int)cfg("faultmax", 12)) : 0; });
      if (v > 0) { p->f_nth = v; int q = decide(K_FSEL, g.id, [&](Rng &r) { return (int)r.below(16); }); p->f_sel = q & 7; p->f_sticky = q >= 12; }
    }
    if (long kr = cfg("kill")) {
      int v = decide(K_KILL, g.id, [&](Rng &r) { if (!r.chance(kr / 100.0)) return 0; if (r.chance(0.3)) return -1; return r.logrange(1, (int)cfg("killmax", 120)); });
      if (v && kills_left > 0) { kills_left--; if (v < 0) p->kill_on_block = true; else p->kill_at = v; }
    }
  }
  void disarm(BP &g) {
    Proc *p = cur();
    if (p->kill_at > 0 || p->kill_on_block) kills_left++;
    p->in_op = false; p->kill_at = 0; p->kill_on_block = false; p->f_nth = 0; p->f_off = true;
    p->owner = 0; g.kind = 0; g.cur = nullptr; nops++; W->progress = W->steps;
    note(60, p->faults_fired);
  }
  bool disturbed() { return cur()->faults_fired || cur()->natural; }
  // the lock under which a table is used
  void lock(BP &g, int tbl, bool on) {
    struct flock k = {}; k.l_type = on ? F_WRLCK : F_UNLCK; k.l_whence = SEEK_SET; k.l_start = tbl; k.l_len = 1;
    int o = cur()->owner; cur()->owner = 0;
    int nth = cur()->f_nth; bool off = cur()->f_off; cur()->f_nth = 0; cur()->f_off = true;
    int rc = sx_fcntl(g.lockfd, F_SETLKW, &k);
    cur()->f_nth = nth; cur()->f_off = off; cur()->owner = o;
    if (rc) violation("simulator", "locking the table failed");
  }
  void attach(BP &g) {
    if (g.map) return;
    cur()->f_off = true;
    char *pc = (char *)h_alloc(16); strcpy(pc, "/ring/bw");
    g.lockfd = sx_open(pc, O_RDWR); h_free(pc);
    if (g.lockfd < 0) violation("simulator", "no table file");
    cur()->owner = 0;
    g.map = (char *)sx_mmap(nullptr, fsz, PROT_READ | PROT_WRITE, MAP_SHARED, g.lockfd, 0);
  }
  bw_handle *table(BP &g, int t) { return (bw_handle *)(g.map + 8 + t * ((hsz + 15) / 8 * 8)); }
  void leak_check(int tag, const char *what) {
    Proc *p = cur(); int nf = 0, nd = 0, nb = 0, nm = 0;
    for (auto &x : p->fd_owner) if (x.second == tag) nf++;
    for (auto &x : p->dirs) if (x.second == tag) nd++;
    for (auto &x : p->live) if (x.second.owner == tag && !x.second.harness) nb++;
    for (auto &x : p->maps) if (x.owner == tag) nm++;
    if (nf || nd || nb || nm) violation("leak", "%s leaves behind %d descriptor(s), %d directory stream(s), %d memory block(s), %d mapping(s)", what, nf, nd, nb, nm);
  }
  template <class F> void each_waiter(int tbl, F f) { for (auto &g : progs) if (g->p) for (auto &h : g->h) if (h.open && h.wait && h.tbl == tbl) f(*g, h); }
  int waiters(int tbl) { int n = 0; each_waiter(tbl, [&](BP &, BH &) { n++; }); return n; }
  static int queued(BP &g, BH &h, u64 *last = nullptr) { return sock_fd_queue(g.p, h.fd, last); }

  void do_open(BP &g, long n, int tbl, bool wait, bool trace) {
    BH &h = g.h[n]; Proc *p = cur();
    int gid = next_gid++; auto z = img()->sizes;
    int *fd = (int *)h_alloc(sizeof(int)); *fd = -77;
    arm(g, 'o'); g.cur = nullptr;
    lock(g, tbl, true);
    p->owner = gid + 1;
    int fl = (int)(wait ? z(31) : z(30)) | (trace ? (int)z(32) : 0);
    bw_t *w = wait ? img()->bopen(fl, table(g, tbl), fd) : img()->bopen(fl, table(g, tbl));
    p->owner = 0;
    if (w) {
      if (wait && (p->fds.find(*fd) == p->fds.end() || p->fd_owner[*fd] != gid + 1)) violation("bw_open", "an open for waiting returned no descriptor");
      if (wait && waiters(tbl) >= (int)z(34)) violation("bw_open", "more waiters than there are slots");
      h = BH(); h.open = true; h.wait = wait; h.tbl = tbl; h.w = w; h.gid = gid; h.fd = wait ? *fd : -1;
    } else {
      if (!disturbed() && !lenient && !(wait && waiters(tbl) >= (int)z(34))) violation("bw_open", "an open for %s failed without a cause", wait ? "waiting" : "waking");
      leak_check(gid + 1, "a failed open");
    }
    lock(g, tbl, false);
    h_free(fd);
    vlog("bw_open table %d %s -> %s", tbl, wait ? "wait" : "wake", w ? "ok" : "failed");
    disarm(g);
  }
  void do_close(BP &g, BH &h) {
    Proc *p = cur(); int tbl = h.tbl;
    arm(g, 'c');
    lock(g, tbl, true);
    h.open = false; h.lost = false;
    p->owner = h.gid + 1;
    img()->bclose(h.w);
    p->owner = 0;
    leak_check(h.gid + 1, "a close");
    lock(g, tbl, false);
    disarm(g);
  }
  void do_wake(BP &g, BH &h) {
    Proc *p = cur(); int tbl = h.tbl;
    arm(g, 'k'); g.cur = &h;
    lock(g, tbl, true);
    u64 start = ++W->seq; p->waits = 0;
    p->owner = h.gid + 1; p->waits = 0;
    int rc = img()->bwake(h.w);
    p->owner = 0;
    if (p->waits) violation("bw_wake", "a wake blocked");
    bool dist = disturbed();
    if (rc != 0 && rc != -1) violation("bw_wake", "a wake returned %d", rc);
    if (rc && !dist && !lenient) violation("bw_wake", "a wake failed without a cause");
    if (!rc && !dist) {
      int n = 0;
      each_waiter(tbl, [&](BP &o, BH &w) {
        n++;
        u64 last = 0; int q = queued(o, w, &last);
        if (q > 0 || w.busy || w.consumed > start) return;
        violation("bw_wake", "after a wake the descriptor of a waiter (process %s) is not readable", o.p->name.c_str());
      });
      if (n > 1) probe("wake_of_several");
      if (n > 12) probe("wake_of_many");
      wake_start[tbl] = start;
    }
    lock(g, tbl, false);
    note(61, (u64)rc);
    disarm(g);
  }
  void do_ready(BP &g, BH &h) {
    Proc *p = cur();
    u64 last = 0; int q0 = queued(g, h, &last); u64 start = ++W->seq;
    arm(g, 'r'); g.cur = &h; h.busy = true; p->owner = h.gid + 1;
    int rc = img()->bready(h.w);
    h.busy = false; h.consumed = ++W->seq;
    int q1 = queued(g, h, &last);
    if (rc != 0 && !disturbed()) violation("bw_ready", "clearing readiness returned %d", rc);
    if (p->waits) violation("bw_ready", "clearing readiness blocked");
    if (rc == 0 && !disturbed() && q0 > 0 && q1 >= q0 && last < start) violation("bw_ready", "clearing readiness took nothing");
    disarm(g);
  }
  void do_force(BP &g, BH &h, bool want) {
    Proc *p = cur(); int tbl = h.tbl;
    arm(g, 'f'); g.cur = &h;
    lock(g, tbl, true);
    std::vector<std::pair<BH *, int>> others;
    for (int t = 0; t < NT; t++) each_waiter(t, [&](BP &o, BH &w) { if (&w != &h && !w.busy && (t == tbl)) others.push_back({&w, queued(o, w)}); });
    u64 start = ++W->seq, sent = W->nsent - p->nsent; p->waits = 0;
    p->owner = h.gid + 1; h.busy = true;
    int rc = img()->bforce(h.w, want);
    p->owner = 0; h.busy = false; h.consumed = ++W->seq;
    if (rc && !disturbed()) violation("bw_force", "setting readiness returned %d", rc);
    if (p->waits) violation("bw_force", "setting readiness blocked");
    int q = queued(g, h);
    if (!rc && want && q <= 0 && !disturbed()) violation("bw_force", "a descriptor forced ready is not readable");
    if (!rc && !want && q > 0 && !disturbed()) violation("bw_force", "a descriptor forced not ready is readable");
    // a process that wakes another table may reach one of ours: a name it knows was given out again
    if (W->nsent - p->nsent == sent) each_waiter(tbl, [&](BP &o, BH &w) {
      for (auto &x : others) if (x.first == &w && !w.busy && w.consumed < start && queued(o, w) != x.second) violation("bw_force", "setting the readiness of one descriptor changed another's");
    });
    lock(g, tbl, false);
    disarm(g);
  }
  void do_wait(BP &g, BH &h) {
    Proc *p = cur();
    arm(g, 'w'); g.cur = &h; g.wait_start = ++W->seq; h.busy = true; p->owner = h.gid + 1;
    u64 last = 0; int q0 = queued(g, h);
    FileP f = fd_file(p, h.fd); u64 woke0 = f ? f->arrivals : 0;
    int rc = img()->bwait(h.w);
    h.busy = false; h.consumed = ++W->seq; g.wait_start = 0;
    if (rc == -3) {
      bool any = false; for (int e : h.evs) if (events[e].f->ready) any = true;
      if (!any) violation("bw_wait", "a wait reports another descriptor ready although none is");
    } else if (rc == 0) {
      if (q0 <= 0 && f && f->arrivals == woke0 && !disturbed()) violation("bw_wait", "a wait returned although nobody woke it");
      if (!disturbed() && q0 > 0 && queued(g, h, &last) >= q0 && f->arrivals == woke0) violation("bw_wait", "a wait took no wakeup");
    } else if (!disturbed()) violation("bw_wait", "a wait returned %d", rc);
    if (p->waits) probe("blocked_wait_returned");
    disarm(g);
  }
  BH *handle(BP &g, long n, int want) {
    BH *h = &g.h[n];
    if (!h->open && h->lost) { h->lost = false; do_open(g, n, h->tbl, h->wait, false); }
    if (!h->open || (want >= 0 && h->wait != (want != 0))) return nullptr;
    return h;
  }
  void exec(BP &g, const Op &o) {
    sim_point(2);
    attach(g);
    Proc *p = cur(); long n = o.at(0);
    switch (o.k) {
    case 'o': if (!g.h[n].open) do_open(g, n, (int)o.at(1), o.at(2), o.at(3)); return;
    case 'N': for (long k = 0; k < o.at(1) && k < 70; k++) if (!g.h[k].open) do_open(g, k, (int)n, true, false); return;   // many waiters
    case 'M': for (long k = 0; k < o.at(1) && k < 70; k++) if (g.h[k].open) do_close(g, g.h[k]); return;
    case 'c': { BH &h = g.h[n]; if (h.open) do_close(g, h); return; }
    case 'k': { BH *h = handle(g, n, 0); if (h) do_wake(g, *h); return; }
    case 'r': { BH *h = handle(g, n, 1); if (h) do_ready(g, *h); return; }
    case 'w': { BH *h = handle(g, n, 1); if (h) do_wait(g, *h); return; }
    case 'f': { BH *h = handle(g, n, 1); if (h) do_force(g, *h, o.at(1)); return; }
    case 's': { BH *h = handle(g, n, 1); if (!h) return; int ph = phase; BP *gp = &g; idle_until([=] { return queued(*gp, *h) > 0 || phase > ph || calm; }); if (queued(g, *h) > 0) do_ready(g, *h); return; }
    case 'p': { // register a further descriptor
      BH *h = handle(g, n, 1); if (!h) return;
      auto it = events.find((int)o.at(1)); if (it == events.end()) return;
      for (int e : h->evs) if (e == o.at(1)) return;
      arm(g, 'p'); g.cur = h; p->owner = h->gid + 1;
      int fd = fd_install(p, it->second.f, 0);
      int rc = img()->bctl(h->w, (int)img()->sizes(33), fd);
      if (rc && !disturbed()) violation("bw_ctl", "registering a descriptor failed");
      if (o.uid % 4 == 0 && img()->bctl(h->w, (int)img()->sizes(33) ^ 0x4000, fd) == 0) violation("bw_ctl", "a request that does not exist is reported as done");
      if (o.uid % 4 == 1 && img()->bctl(h->w, (int)img()->sizes(33), 900) == 0) violation("bw_ctl", "registering a descriptor that is not open is reported as done");
      if (o.uid % 4 == 2) { int *q = (int *)h_alloc(sizeof(int)); lock(g, h->tbl, true); bw_t *x = img()->bopen(o.uid % 8 == 2 ? (int)(img()->sizes(30) | img()->sizes(31)) : 0, table(g, h->tbl), q); if (x) violation("bw_open", "an open for both or neither of waiting and waking succeeded"); lock(g, h->tbl, false); h_free(q); }
      h->evs.push_back((int)o.at(1)); if (!rc && !disturbed()) h->sure.push_back((int)o.at(1));
      disarm(g); return;
    }
    case 'e': { auto it = events.find((int)o.at(0)); if (it != events.end()) it->second.f->ready = o.at(1); if (o.at(1)) it->second.f->arrivals++; note(62, o.at(1)); return; }
    case 'B': { int ph = (int)o.at(0); idle_until([this, ph] { return phase >= ph || calm; }); return; }
    case 'Z': for (auto &q : W->procs) q->zombie = false; return;
    case 'x': p->exit_code = 77; W->kills++; fired("exit_without_close"); proc_die(p, "exit"); return;
    }
  }
  void on_dead(Proc *p, int st) {
    if (st == 1) return;
    for (auto &g : progs) if (g->p == p) {
      for (auto &h : g->h) if (h.open) { h.open = false; h.lost = true; h.busy = false; }
      g->map = nullptr; g->lockfd = -1; g->cur = nullptr; g->kind = 0; g->wait_start = 0; g->p = nullptr;
      if (g->pc < g->ops.size()) { BP *gp = g.get(); W->deferred.push_back([this, gp] { spawn(*gp); }); }
    }
  }
  void spawn(BP &g) {
    if (W->stop) return;
    BP *gp = &g;
    g.p = proc_spawn("P" + std::to_string(g.id) + (g.started ? "'" : ""), g.id, [this, gp] {
      while (gp->pc < gp->ops.size()) { const Op &o = s.ops[gp->ops[gp->pc++]]; exec(*gp, o); }
      // stays, holding what it has open, until the end
      idle_until([this] { return closing; });
      for (auto &h : gp->h) if (h.open) do_close(*gp, h);
    });
    g.started = true;
  }
  bool closing = false;
  void quiet() {
    for (auto &g : progs) {
      if (W->stop || !g->p) continue;
      Proc *p = g->p;
      if (p->st != P_BLOCK || p->idle) continue;
      if (!strcmp(p->why, "fcntl")) { W->cur = nullptr; violation("deadlock", "%s waits for the lock forever", p->name.c_str()); return; }
      if (g->kind != 'w' || !g->cur) { W->cur = nullptr; violation("stuck", "%s never returns from operation %c (blocked in %s)", p->name.c_str(), g->kind ? g->kind : '?', p->why); return; }
      if (queued(*g, *g->cur) > 0) { W->cur = nullptr; violation("bw_wait", "%s stays blocked in a wait although its descriptor is readable", p->name.c_str()); return; }
      if (wake_start[g->cur->tbl] > g->wait_start) { W->cur = nullptr; violation("bw_wait", "%s stays blocked in a wait although a wake was issued since", p->name.c_str()); return; }
      for (int e : g->cur->sure) if (events[e].f->ready) { W->cur = nullptr; violation("bw_wait", "%s stays blocked in a wait although a descriptor it registered is readable", p->name.c_str()); return; }
    }
  }
  bool barrier() { for (auto &g : progs) if (g->p && g->p->st == P_BLOCK && g->p->idle && g->pc < g->ops.size()) return true; return false; }
  bool blocked() { for (auto &g : progs) if (g->p && g->p->st == P_BLOCK && !g->p->idle) return true; return false; }
  BP *helper(const char *name, std::function<void(BP &)> f) {
    progs.emplace_back(new BP); BP *g = progs.back().get(); g->id = 40 + (int)progs.size(); g->probe = true; g->started = true;
    g->p = proc_spawn(name, g->id, [=] { attach(*g); f(*g); });
    return g;
  }
  void run() {
    lenient = (cfg("zombie") && cfg("uid")) || cfg("uidmix") || cfg("alienpid") || cfg("dying") || cfg("pidreuse", 30) >= 50;
    kills_left = (int)cfg("maxkills", 4);
    W->kill_dirty = cfg("killdirty", 1);
    W->fault_mask = (u32)cfg("fmask", 0xffff);
    W->on_dead = [this](Proc *p, int st) { on_dead(p, st); };
    for (int k = 0; k < (int)cfg("nev"); k++) { FileP f = std::make_shared<File>(); f->type = T_EVENT; f->num = 90000 + k; events[k] = Ev{f}; }
    proc_spawn("setup", -1, [this] {
      cur()->f_off = true;
      hsz = img()->sizes(1); fsz = 8 + NT * ((hsz + 15) / 8 * 8);
      Inode *i = k_create_file("/ring/bw", fsz); std::fill(i->alloc.begin(), i->alloc.end(), 1);
    });
    sim_run();
    if (W->stop) return;
    for (int i = 0; i < s.nprog; i++) { progs.emplace_back(new BP); progs.back()->id = i; }
    for (size_t k = 0; k < s.ops.size(); k++) { int q = s.ops[k].prog; if (q >= 0 && q < s.nprog) progs[q]->ops.push_back((int)k); }
    for (int i = 0; i < s.nprog; i++) spawn(*progs[i]);
    for (;;) {
      sim_run();
      if (W->stop) return;
      quiet();
      if (W->stop) return;
      if (!barrier() || phase > 40) break;
      phase++;
      long act = cfg(("act" + std::to_string(phase)).c_str());
      if (act == 3) for (auto &q : W->procs) q->zombie = false;
      if (act == 4) { W->fault_mask = 0; }
    }
    // faults stop: a newcomer's wake and every surviving waker's wake reach everybody
    calm = true; W->fault_mask = 0; kills_left = 0; W->cfg.set("nofile", 1024);
    for (int i = 0; i < NPROC; i++) if (Proc *p = W->slots[i]) { p->f_off = true; p->nofile = 1024; p->kill_at = 0; p->kill_on_block = false; }
    helper("poker", [this](BP &g) {
      for (int t = 0; t < NT; t++) { do_open(g, t, t, false, false); if (!g.h[t].open && !lenient) violation("bw_open", "an open for waking failed"); }
      for (;;) {
        int r = round;
        for (int t = 0; t < NT; t++) if (g.h[t].open) do_wake(g, g.h[t]);
        if (closing) break;
        idle_until([=] { return round > r || closing; });
        if (closing) break;
      }
      for (int t = 0; t < NT; t++) if (g.h[t].open) do_close(g, g.h[t]);
    });
    for (int k = 0; k < 300; k++) {
      sim_run();
      if (W->stop) return;
      quiet();
      if (W->stop) return;
      if (!blocked() && !barrier()) break;
      round++;
    }
    if (blocked() || barrier()) { if (!lenient) { W->cur = nullptr; violation("stuck", "waiters stay blocked although wakes keep coming"); return; } }
    closing = true;
    sim_run();
    if (W->stop) return;
    quiet();
    if (W->stop) return;
    // every slot is usable again
    if (cfg("cap") && !lenient) {
      for (auto &q : W->procs) q->zombie = false;
      helper("fill", [this](BP &g) {
        int max = (int)img()->sizes(34);
        for (int k = 0; k < max && k < 66; k++) { do_open(g, k, 0, true, false); if (!g.h[k].open) violation("bw_open", "a waiting slot is not usable again"); }
        do_open(g, 70, 0, true, false);
        if (g.h[70].open) violation("bw_open", "more waiters than there are slots");
        do_open(g, 71, 0, false, false);
        if (!g.h[71].open) violation("bw_open", "an open for waking failed");
        do_wake(g, g.h[71]);
        for (int k = 0; k < 72; k++) if (g.h[k].open) do_close(g, g.h[k]);
        capdone = true;
      });
      sim_run();
      if (W->stop) return;
      quiet();
      if (W->stop) return;
      if (capdone) probe("all_slots_used");
    }
    res.nontrivial = nops >= 4 && W->switches >= 4;
  }
  int round = 0;
};
}
void run_bw(const Scenario &s, RunResult &r) {
  BwRun q(s, r);
  q.run();
  r.ops = q.nops;
  W->on_dead = nullptr;
}
