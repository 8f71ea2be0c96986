// The bw-tool program: processes that make, wait on and wake a shared table in a file.
#include "scenario.h"
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
extern "C" int sx_open(const char *, int, ...);
extern "C" void *sx_mmap(void *, size_t, int, int, int, off_t);
extern "C" int sx_fcntl(int, int, ...);

namespace {
enum { MAKE = 0, WAKE = 1, WAIT = 2 };
struct Inv {
  int kind = 0; const Op *op = nullptr; Proc *p = nullptr; std::vector<std::string> args; std::shared_ptr<PipeBuf> out;
  u64 start = 0, end = 0, t0 = 0, t1 = 0; bool done = false, returned = false, faulted = false, usable = false, signalled = false, resumed = false, full = false; int ret = 0, force = 0; long alarm = 0, delay = 0; bool api = false;
  bool killed() const { return !returned && !(p && p->exited); }
  int rc() const { return returned ? ret : p && p->exited ? p->exit_code : -1; }
  bool alive() const { return p && p->st != P_DEAD; }
  u64 reg() const { return p && !p->commits.empty() ? p->commits[0] : ~0ull; }       // when it became one of the waiters
};
struct TP { int id = 0; std::vector<int> ops; size_t pc = 0; Proc *p = nullptr; char *map = nullptr; int lockfd = -1; std::vector<bw_t *> held; };

struct BwtRun {
  const Scenario &s; RunResult &res;
  std::vector<std::unique_ptr<TP>> progs; std::vector<std::unique_ptr<Inv>> invs; u64 nops = 0, hsz = 0; int held = 0;
  BwtRun(const Scenario &sc, RunResult &r) : s(sc), res(r) {}
  long cfg(const char *k, long d = 0) { return s.cfg.get(k, d); }
  void bad(const char *cls, const std::string &m) { W->cur = nullptr; violation(cls, "%s", m.c_str()); }
  bool usable() { Inode *i = k_lookup("/ring/bw"); return i && i->size >= hsz; }
  int wakeups(Inv *w, int from = -1, u64 after = 0) { int n = 0; for (auto &x : K->sends) if (x.to == w->p->id && x.from != w->p->id && (from < 0 ? x.queued : x.from == from) && x.seq > after) n++; return n; }
  // an instance that registered and now waits for readiness or for its delay to pass
  static bool waits(Proc *p) { return p->st == P_BLOCK && strcmp(p->why, "fcntl"); }
  std::vector<std::pair<Inv *, int>> unsure;
  int live() { int n = 0; for (int i = 0; i < NPROC; i++) if (W->slots[i]) n++; return n; }
  int registered() { int n = held; for (auto &i : invs) if (i->kind == WAIT && i->alive() && i->reg() != ~0ull) n++; return n; }

  Inv *start(const Op &o, bool calm) {
    invs.emplace_back(new Inv); Inv *i = invs.back().get(); i->op = &o; i->kind = (int)o.at(0) % 3;
    i->delay = o.at(3); i->force = (int)o.at(4) & 3; i->api = o.at(5); i->alarm = o.at(6);
    static const char *K3[] = {"make", "wake", "wait"};
    auto &a = i->args; a.push_back("bw-tool");
    if (o.at(2) & 1) { a.push_back("-r"); a.push_back("/ring/bw"); }
    if (i->kind == WAIT) {
      if (i->force & 1) a.push_back("-f");
      if (i->force & 2) a.push_back("-c");
      if (i->api) a.push_back("-w");
      if (i->alarm) { a.push_back("-a"); a.push_back(std::to_string(i->alarm)); }
    }
    if (i->kind != MAKE && i->delay) a.push_back("-d" + std::to_string(i->delay));
    if (!(o.at(2) & 1)) a.push_back("-r/ring/bw");
    a.push_back(K3[i->kind]);
    i->out = std::make_shared<PipeBuf>(); i->out->cap = 1 << 30;
    W->deferred.push_back([this, i, calm] {
      i->start = ++W->seq; i->t0 = W->clock_us; i->usable = usable();
      i->p = proc_spawn("bw-tool", 20 + (int)invs.size(), [this, i, calm] {
        Proc *p = cur();
        FileP fo = std::make_shared<File>(); fo->type = T_PIPE_W; fo->pipe = i->out; fo->num = 80001;
        FileP fi = std::make_shared<File>(); fi->type = T_PIPE_R; fi->pipe = std::make_shared<PipeBuf>(); fi->pipe->weof = true; fi->num = 80000;
        p->fds[0] = fi; p->fd_owner[0] = 0; p->fds[1] = fo; p->fd_owner[1] = 0;
        p->owner = 1;
        auto &a = i->args;
        char **av = (char **)h_alloc((a.size() + 1) * sizeof(char *));
        for (size_t k = 0; k < a.size(); k++) { av[k] = (char *)h_alloc(a[k].size() + 1); memcpy(av[k], a[k].c_str(), a[k].size() + 1); }
        av[a.size()] = nullptr;
        { std::string l; for (auto &x : a) l += " " + x; vlog("runs%s", l.c_str()); }
        p->in_op = true; p->f_off = true;
        if (!calm && cfg("fault")) {
          p->f_nth = decide(K_FNTH, 60, [&](Rng &r) { return r.chance(cfg("fault") / 100.0) ? r.logrange(1, 40) : 0; });
          p->f_sel = decide(K_FSEL, 60, [&](Rng &r) { return (int)r.below(8); });
          p->f_off = false;
        }
        if (!calm && cfg("kill")) p->kill_at = decide(K_KILL, 60, [&](Rng &r) { return r.chance(cfg("kill") / 100.0) ? r.logrange(1, (int)cfg("killmax", 40)) : 0; });
        int rc = image_of(cur())->tool_main((int)a.size(), av);
        p->kill_at = 0; p->f_off = true; k_exit_flush();
        i->returned = true; i->ret = rc;
        p->in_op = false; p->exit_code = rc;
        vlog("bw-tool returns %d", rc);
      });
    });
    return i;
  }
  void on_dead(Proc *p, int st) {
    if (st != 1) return;
    for (auto &g : progs) if (g->p == p) { held -= (int)g->held.size(); g->held.clear(); g->p = nullptr; }
    for (auto &x : invs) if (x->p == p && !x->done) {
      Inv *i = x.get(); i->done = true; i->end = ++W->seq; i->t1 = W->clock_us; i->faulted = p->faults_fired || (p->natural & ~FB_SIG); i->resumed |= p->eintr;
      if (registered() >= (int)image_of_sizes(34)) i->full = true;
      W->deferred.push_back([this, i] { check(i); });
    }
  }
  u64 sz34 = 64;
  u64 image_of_sizes(int) { return sz34; }
  void check(Inv *i) {
    if (W->stop) return;
    bool ok = !i->killed() && i->rc() == 0;
    nops++;
    if (i->kind == MAKE) {
      if (i->killed()) return;
      if (ok && !usable()) { bad("bwt_make", "make reports success although the file is no table"); return; }
      if (!ok && !i->faulted) { bad("bwt_make", "make fails without a cause"); return; }
      return;
    }
    if (i->kind == WAKE) {
      if (i->killed()) return;
      if (!ok) { if (i->usable && !i->faulted) bad("bwt_wake", "wake fails without a cause"); return; }
      if (!usable()) { bad("bwt_wake", "wake reports success although there is no table"); return; }
      if (i->faulted) return;
      for (auto &w : invs) {
        if (w->kind != WAIT || !w->alive() || w->p->st == P_DYING || w->p->st == P_DONE || w->reg() >= i->p->lock_seq || w->p->commits.size() > 1) continue;
        if (!wakeups(w.get(), i->p->id)) {
          if (!waits(w->p)) { unsure.push_back({w.get(), i->p->id}); continue; }      // it may be on its way out, having failed
          bad("bwt_wake", "wake reports success without having woken a process that waits (pid " + std::to_string(w->p->pid) + ")"); return;
        }
        probe("wake_reached_wait");
      }
      return;
    }
    if (i->killed()) return;
    int n = wakeups(i);
    std::string e = (int)K->stderr_of.size() > i->p->id ? K->stderr_of[i->p->id] : "";
    if (ok) {
      if (!n) { bad("bwt_wait", "wait reports success although nobody woke it"); return; }
      if (i->faulted || i->resumed) return;
      size_t r = e.rfind("fd ready"), c = e.rfind("fd clear");
      bool ready = r != std::string::npos && (c == std::string::npos || r > c), clear = c != std::string::npos && !ready;
      if (!ready && !clear) { bad("bwt_report", "wait does not report the state of its descriptor"); return; }
      bool want = i->force & 2 ? false : i->force & 1 ? true : n > 1;
      if (ready != want) { bad("bwt_report", std::string("wait reports its descriptor ") + (ready ? "ready" : "not ready") + " after " + std::to_string(n) + " wakeups" + (i->force ? i->force & 2 ? ", forced not ready" : ", forced ready" : "")); return; }
      probe(want ? "wait_left_ready" : "wait_left_clear");
    } else {
      bool alarm = i->alarm && i->t1 >= i->t0 + (u64)i->alarm * 1000000;
      if (!i->usable || i->faulted || i->resumed || i->signalled || i->full || alarm) { if (alarm) probe("wait_ended_by_timer"); if (i->signalled) probe("wait_ended_by_signal"); return; }
      bad("bwt_wait", "wait fails without a cause");
    }
  }
  // ------------------------------------------------ the workload
  Inv *pick(long n) { std::vector<Inv *> v; for (auto &i : invs) if (i->alive()) v.push_back(i.get()); return v.empty() ? nullptr : v[(size_t)n % v.size()]; }
  void lock(TP &g, bool on) { struct flock k = {}; k.l_type = on ? F_WRLCK : F_UNLCK; k.l_whence = SEEK_SET; if (sx_fcntl(g.lockfd, F_SETLKW, &k)) violation("simulator", "locking the table failed"); }
  void exec(TP &g, const Op &o) {
    sim_point(2);
    Proc *p = cur(); p->f_off = true;
    if (calm && (o.k == 'k' || o.k == 'G' || o.k == 'U')) return;
    switch (o.k) {
    case 'T': {
      if (live() >= NPROC - 3) return;
      Inv *i = start(o, calm);
      if (o.at(1)) { idle_until([=] { return i->p != nullptr; }); return; }
      idle_until([=] { return i->p && (i->p->st == P_DEAD || calm); });
      return;
    }
    case 'A': { u64 t; if (k_next_alarm(&t)) { if (t > W->clock_us) W->clock_us = t; k_deliver_alarms(); note(3); } return; }
    case 'U': { Inv *i = pick(o.at(0)); if (!i || i->p->st != P_BLOCK || strcmp(i->p->why, "epoll_wait")) return; i->p->resumed = true; fired("suspend_resume"); return; }
    case 'G': {
      static const int SG[] = {SIGHUP, SIGTERM, SIGINT, SIGQUIT, SIGUSR1, SIGUSR2};
      Inv *i = pick(o.at(0)); int k = (int)o.at(1) % 6, n = SG[k];
      if (!i || i->p->st == P_DYING) return;
      if (!(i->p->sig_mask & (1ull << (n - 1)))) {
        if (i->kind != WAIT || i->reg() == ~0ull || (i->p->sig_ign & (1ull << (n - 1)))) return;
        if (k >= 4) { violation("bwt_signal", "a signal that wait does not accept ends it"); return; }
        fired("signal_to_tool"); proc_kill(i->p); return;
      }
      i->p->sig_pending |= 1ull << (n - 1); if (k < 4) i->signalled = true;
      fired("signal_to_tool"); return;
    }
    case 'k': { Inv *i = pick(o.at(0)); if (i && i->p->st != P_DYING) proc_kill(i->p); return; }
    case 'Z': for (auto &q : W->procs) q->zombie = false; return;
    case 'N': {                                    // a process that has the table open for waiting several times
      if (!usable()) return;
      if (!g.map) {
        char *pc = (char *)h_alloc(16); strcpy(pc, "/ring/bw"); g.lockfd = sx_open(pc, O_RDWR); h_free(pc);
        g.map = (char *)sx_mmap(nullptr, hsz, PROT_READ | PROT_WRITE, MAP_SHARED, g.lockfd, 0);
      }
      int *fd = (int *)h_alloc(sizeof(int));
      lock(g, true); p->owner = 1;
      for (long k = 0; k < o.at(0); k++) {
        bw_t *w = image_of(p)->bopen((int)image_of(p)->sizes(31), (bw_handle *)g.map, fd);
        if (!w) break;
        g.held.push_back(w); held++; W->progress = W->steps;
      }
      p->owner = 0; lock(g, false);
      h_free(fd);
      return;
    }
    case 'M': if (g.held.empty()) return; lock(g, true); p->owner = 1; while (!g.held.empty()) { image_of(p)->bclose(g.held.back()); g.held.pop_back(); held--; } p->owner = 0; lock(g, false); return;
    }
  }
  bool calm = false;
  void quiet() {
    for (auto &u : unsure) if (u.first->alive() && waits(u.first->p) && !wakeups(u.first, u.second)) { bad("bwt_wake", "wake reports success without having woken a process that waits (pid " + std::to_string(u.first->p->pid) + ")"); return; }
    unsure.clear();
    for (auto &i : invs) {
      if (W->stop || !i->alive() || i->p->st != P_BLOCK) continue;
      Proc *p = i->p; std::string who = "bw-tool " + i->args.back();
      if (!strcmp(p->why, "fcntl")) { bad("deadlock", who + " waits for the lock forever"); return; }
      if (i->kind != WAIT) { bad("bwt_stuck", who + " does not end"); return; }
      if (i->reg() == ~0ull) { bad("bwt_stuck", "wait neither registers nor ends"); return; }
      if (i->signalled || i->alarm) { bad("bwt_stuck", i->signalled ? "wait does not end although a signal it accepts was sent" : "wait does not end although its timer expired"); return; }
      if (wakeups(i.get())) { bad("bwt_stuck", "wait does not end although it was woken"); return; }
    }
  }
  void run() {
    K->log_sends = true; W->alarms_left = 1000;
    W->fault_mask = 0xffff; W->kill_dirty = true;
    W->on_dead = [this](Proc *p, int st) { on_dead(p, st); };
    proc_spawn("setup", -1, [this] {
      cur()->f_off = true;
      hsz = image_of(cur())->sizes(1); sz34 = image_of(cur())->sizes(34);
      long f = cfg("file", 2);
      if (f) { Inode *i = k_create_file("/ring/bw", f == 2 ? hsz : 0); std::fill(i->alloc.begin(), i->alloc.end(), 1); }
    });
    sim_run();
    if (W->stop) return;
    for (int i = 0; i < s.nprog; i++) { progs.emplace_back(new TP); progs.back()->id = i; }
    for (size_t k = 0; k < s.ops.size(); k++) { int q = s.ops[k].prog; if (q >= 0 && q < s.nprog) progs[q]->ops.push_back((int)k); }
    for (auto &g : progs) {
      TP *gp = g.get();
      g->p = proc_spawn("P" + std::to_string(g->id), g->id, [this, gp] {
        cur()->f_off = true;
        while (gp->pc < gp->ops.size()) { const Op &o = s.ops[gp->ops[gp->pc++]]; exec(*gp, o); note(40); W->progress = W->steps; }
        if (!gp->held.empty()) idle_until([this] { return closing; });
      });
    }
    sim_run();
    if (W->stop) return;
    quiet();
    if (W->stop) return;
    // faults stop; a wake ends every wait, until the programs have no more to do
    calm = true;
    static const Op fin = [] { Op o; o.k = 'T'; o.a = {WAKE, 1, 1, 0, 0, 0, 0}; return o; }();
    for (int k = 0; k < 40; k++) {
      bool any = false; for (auto &i : invs) if (i->alive()) any = true;
      bool prog = false; for (auto &g : progs) if (g->p && g->p->st != P_DEAD && g->pc < g->ops.size()) prog = true;
      if (!any && !prog) break;
      if (any) { Inv *w = start(fin, true); sim_run(); if (W->stop) return; if (!w->p || w->rc() != 0) { bad("bwt_wake", "wake fails without a cause"); return; } }
      else sim_run();
      if (W->stop) return;
      quiet();
      if (W->stop) return;
      if (k == 39) { bad("bwt_stuck", "waits do not end although wakes keep coming"); return; }
    }
    closing = true;
    sim_run();
    if (W->stop) return;
    // a later waiter and waker still work
    if (usable()) {
      static const Op wo = [] { Op o; o.k = 'T'; o.a = {WAIT, 1, 0, 0, 0, 0, 0}; return o; }();
      for (auto &q : W->procs) q->zombie = false;
      Inv *a = start(wo, true); sim_run(); if (W->stop) return; quiet(); if (W->stop) return;
      Inv *b = start(fin, true); sim_run(); if (W->stop) return;
      if (b->rc() != 0 || a->alive() || a->rc() != 0) { bad("bwt_stuck", "a wait and a wake after everything else do not end well"); return; }
    }
    res.nontrivial = nops >= 2 && W->switches >= 4;
  }
  bool closing = false;
};
}
void run_bwt(const Scenario &s, RunResult &r) {
  BwtRun q(s, r);
  q.run();
  r.ops = q.nops;
  W->on_dead = nullptr;
}
