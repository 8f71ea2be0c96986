// The tool's mount command and its delegation to sibling programs, against a simulated mount namespace that others change too.
#include "scenario.h"
#include <cerrno>

namespace {
// what the machine looks like at first; the workload names directories by these and other spellings
const char *DIRS[] = {"/mnt/a", "/mnt/b", "/mnt/a/s", "/mnt/b/t", "/mnt/l", "/mnt/f", "/mnt/none", "/mnt/dang", "/mnt/loop", "/mnt/a/s/t", "/mnt", "/mnt/l/s"};
const char *RELS[] = {".", "a", "./a", "a/", "s", "../a", "a/s/..", "..", "a/.", "b//", "../../mnt/b", "", "./."};
const char *TYPES[] = {"", "tmpfs", "ramfs", "hugetlbfs", "nosuchfs"};
const char *SUBS[] = {"s", "t", "s/t", "u", "s/", "t/u/v", ".", "s/u", "xx"};
const char *CMDS[] = {"plot", "noexec", "garbled", "nothere", "", "plo", "plott", "mount2", "Status", "-v", "a b", "plot/", "x/../plot"};
const char *WORDS[] = {"s", "ring one", "-u", "--", "", "-N", "17", "mount", "plot", "-"};
enum { NWORDS = 10, NDIRS = 12, NRELS = 13, NTYPES = 5, NSUBS = 9, NCMDS = 13 };
struct Inv {
  const Op *op = nullptr; Proc *p = nullptr; std::vector<std::string> args; std::string dir, shown; std::shared_ptr<PipeBuf> out;
  u64 start = 0, end = 0; bool returned = false, faulted = false; int ret = 0; bool done = false;
  int e = 0; MLoc t; bool ramp = false, amb = false, longp = false; std::vector<std::string> subs; std::string type; u64 size = 0; long hp = 0;
  bool subs_ok = true; u64 blocks = 0, bfree = 0, bsize = 0; std::string expect; bool umount_ok = false;
  bool killed() const { return !returned && !(p && p->exited); }
  int rc() const { return returned ? ret : p && p->exited ? p->exit_code : -1; }
};
struct TP { int id = 0; std::vector<int> ops; size_t pc = 0; Proc *p = nullptr; Inv *inv = nullptr; };

struct MntRun {
  const Scenario &s; RunResult &res;
  std::vector<std::unique_ptr<TP>> progs; std::vector<std::unique_ptr<Inv>> invs; u64 nops = 0;
  MntRun(const Scenario &sc, RunResult &r) : s(sc), res(r) {}
  long cfg(const char *k, long d = 0) { return s.cfg.get(k, d); }
  NS *ns() { return K->ns.get(); }
  void bad(const char *cls, const std::string &m) { W->cur = nullptr; violation(cls, "%s", m.c_str()); }
  void changed(char k, int by) { ns()->log.push_back(MEv{k, by, ++W->seq, nullptr, MLoc(), "", {}}); }

  void setup() {
    K->ns.reset(new NS); NS *n = ns();
    int e = 0; MFs *f = n->make_fs("ext4", "", &e);
    n->mounts.emplace_back(new MMount); n->mounts[0]->fs = f; n->root = MLoc{n->mounts[0].get(), f->root};
    MNode *m = n->node(f->root, "mnt", true), *a = n->node(m, "a", true), *b = n->node(m, "b", true), *q = n->node(a, "s", true);
    n->node(q, "t", true); n->node(b, "t", true); n->node(m, "f", false);
    n->node(m, "l", false)->link = "/mnt/a"; n->node(m, "dang", false)->link = "/mnt/none"; n->node(m, "loop", false)->link = "/mnt/loop";
    n->ram_pages = (u64)cfg("ram", 1 << 20);
    n->exe = "/usr/bin/shr-tool"; long len = cfg("exelen");
    if (len) { n->exe = "/d"; while ((long)n->exe.size() < len) n->exe += n->exe.size() % 200 == 0 ? '/' : 'd'; }
    n->exes[n->exe] = 0; n->exes["plot"] = 0; n->exes["/usr/bin/plot"] = 0; n->exes[n->exe + "plot"] = 0; n->exes["shr-tool-plot"] = 0;
    n->exes[n->exe + "-mount"] = 0; n->exes[n->exe + "-status"] = 0; n->exes[n->exe + "-plo"] = 0; n->exes[n->exe + "-"] = 0;
    if (cfg("plot", 1)) n->exes[n->exe + "-plot"] = 0;
    n->exes[n->exe + "-noexec"] = EACCES; n->exes[n->exe + "-garbled"] = ENOEXEC;
  }
  MLoc at(const std::string &path) { MLoc l; if (ns()->walk(path, -1, true, &l)) return MLoc(); return l; }

  // ------------------------------------------------ invocations
  std::string spell(const Op &o) {
    long d = o.at(1), form = o.at(2);
    if (form == 3) return RELS[d % NRELS];
    std::string x = DIRS[d % NDIRS];
    if (form == 1) return x + "/";
    if (form == 2) { size_t k = x.find('/', 1); if (k == std::string::npos) return "/." + x; return x.substr(0, k) + "//./" + x.substr(k + 1); }
    if (form == 4) { size_t want = 4085 + (size_t)o.at(3) % 14; return x.size() < want ? x.substr(0, 4) + std::string(want - x.size(), '/') + x.substr(4) : x; }
    return x;
  }
  // op 'T': kind, directory, spelling, padding, type, size, unit, huge pages, subdirectories or arguments...
  void prepare(Inv *i, int shell) {
    const Op &o = *i->op; NS *n = ns(); auto &a = i->args; long kind = o.at(0);
    a.push_back("shr-tool");
    if (kind == 3) { a.push_back(CMDS[o.at(1) % NCMDS]); for (size_t k = 8; k < o.a.size(); k++) a.push_back(WORDS[o.a[k] % NWORDS]); return; }
    if (kind == 4) {
      switch (o.at(1) % 7) {
      case 0: break;
      case 1: a.push_back("mount"); break;
      case 2: a.insert(a.end(), {"mount", "-z", "/mnt/a"}); break;
      case 3: a.insert(a.end(), {"mount", "-s", "5x", "/mnt/a"}); break;
      case 4: a.insert(a.end(), {"mount", "-t"}); break;
      case 5: a.insert(a.end(), {"mount", "-s", "lots", "/mnt/a"}); break;
      case 6: a.insert(a.end(), {"mount", "-q"}); break;
      }
      return;
    }
    i->dir = spell(o); i->longp = i->dir.size() > 4092;
    a.push_back("mount");
    i->type = o.at(4) ? TYPES[o.at(4) % NTYPES] : "ramfs";
    i->size = (u64)o.at(5) << (10 * (o.at(6) % 4)); i->hp = o.at(7);
    if (kind == 1) a.push_back("-q");
    if (kind == 2) a.push_back("-u");
    if (kind == 0) {
      if (o.at(4)) { a.push_back("-t"); a.push_back(i->type); }
      if (o.at(5)) { static const char *U[] = {"", "k", "m", "g", "", "K", "M", "G"}; a.push_back("-s"); a.push_back(std::to_string(o.at(5)) + U[o.at(6) % 8]); }
      if (i->hp) { a.push_back("-H"); a.push_back(std::to_string(i->hp)); }
      for (size_t k = 8; k < o.a.size(); k++) i->subs.push_back(SUBS[o.a[k] % NSUBS]);
      if (!i->subs.empty()) a.push_back("-d");
    }
    a.push_back(i->dir); a.insert(a.end(), i->subs.begin(), i->subs.end());
    // what the directory is now
    MLoc w, v; i->e = n->walk(i->dir, shell, true, &w);
    std::string abs = i->dir; if (!abs.empty() && abs[0] != '/') { std::string c = n->name_of(n->cwd[shell]); abs = (c == "/" ? "" : c) + "/" + abs; }
    int e2 = i->dir.empty() ? ENOENT : n->walk(abs, shell, true, &v);
    if (!i->e) i->t = n->top(w);
    i->amb = i->e != e2 || (!i->e && !(i->t == n->top(v)));     // seen from here it is another place than seen from elsewhere
    if (!i->e && n->name_of(i->t) == "/") i->amb = true;               // the root directory never shows what is mounted on it
    if (!i->e && i->t.n->dir) i->ramp = n->is_mount_root(i->t) && NS::ram(i->t.m->fs);
    if (!i->e) { MFs *f = i->t.m->fs; i->blocks = f->blocks; i->bfree = f->bfree; i->bsize = f->bsize; }
    std::set<std::string> have{""};
    for (auto s0 : i->subs) {
      std::string x = s0; while (!x.empty() && x.back() == '/') x.pop_back();
      size_t q = x.rfind('/'); std::string par = q == std::string::npos ? "" : x.substr(0, q);
      if (x == "." || have.count(x) || !have.count(par)) { i->subs_ok = false; break; }
      have.insert(x);
    }
    // what a query prints
    if (i->e || !i->ramp) i->expect = i->dir + ": not a ramdisk\n";
    else if (i->t.m->fs->name != "tmpfs") i->expect = i->dir + ": " + i->t.m->fs->name + " (unbounded size)\n";
    else if (!i->blocks) i->expect = i->dir + ": tmpfs (unbounded size)\n";
    else {
      char b[80]; u64 y = i->blocks * i->bsize;
      if (y < 1024) snprintf(b, sizeof b, "%llu bytes", (unsigned long long)y); else if (y < 1 << 20) snprintf(b, sizeof b, "%llu kb", (unsigned long long)(y >> 10)); else if (y < 1 << 30) snprintf(b, sizeof b, "%llu mb", (unsigned long long)(y >> 20)); else snprintf(b, sizeof b, "%llu gb", (unsigned long long)(y >> 30));
      i->expect = i->dir + ": tmpfs of size " + b + " (";
    }
    i->umount_ok = !i->e && n->is_mount_root(i->t);
    if (i->umount_ok) {
      for (auto &m : n->mounts) if (!m->gone && m->parent == i->t.m) i->umount_ok = false;
      for (auto &c : n->cwd) if (c.second.m == i->t.m) for (auto &p : W->procs) if (p->id == c.first && p->st != P_DEAD) i->umount_ok = false;
    }
  }
  void start(TP &g, const Op &o) {
    invs.emplace_back(new Inv); Inv *i = invs.back().get(); g.inv = i; i->op = &o; int shell = cur()->id;
    i->out = std::make_shared<PipeBuf>(); i->out->cap = 1 << 30;
    W->deferred.push_back([this, i, shell] {
      prepare(i, shell); i->start = ++W->seq;
      if (i->ramp) probe("mountpoint_is_ramdisk");
      if (i->amb) probe("ambiguous_directory");
      MLoc c = ns()->cwd[shell];
      i->p = proc_spawn("tool", 20 + (int)invs.size(), [this, i] {
        Proc *p = cur();
        FileP fi = std::make_shared<File>(), fo = std::make_shared<File>();
        fi->type = T_PIPE_R; fi->pipe = std::make_shared<PipeBuf>(); fi->pipe->weof = true; fi->num = 80000; fo->type = T_PIPE_W; fo->pipe = i->out; fo->num = 80001;
        p->fds[0] = fi; p->fd_owner[0] = 0; p->fds[1] = fo; p->fd_owner[1] = 0;
        p->owner = 1;
        auto &a = i->args;
        char **av = (char **)h_alloc((a.size() + 1) * sizeof(char *));
        for (size_t k = 0; k < a.size(); k++) { av[k] = (char *)h_alloc(a[k].size() + 1); memcpy(av[k], a[k].c_str(), a[k].size() + 1); }
        av[a.size()] = nullptr;
        { std::string l; for (auto &x : a) l += " '" + (x.size() > 60 ? x.substr(0, 20) + "..." + x.substr(x.size() - 20) : x) + "'"; vlog("runs%s", l.c_str()); }
        p->in_op = true;
        if (cfg("fault")) {
          p->f_nth = decide(K_FNTH, 60, [&](Rng &r) { return r.chance(cfg("fault") / 100.0) ? r.logrange(1, 14) : 0; });
          p->f_sel = decide(K_FSEL, 60, [&](Rng &r) { return (int)r.below(8); });
        } else p->f_off = true;
        int rc = image_of(cur())->tool_main((int)a.size(), av);
        p->f_off = true; k_exit_flush();
        i->returned = true; i->ret = rc;
        p->in_op = false; p->exit_code = rc;
        vlog("tool returns %d", rc);
      });
      ns()->cwd[i->p->id] = c;
    });
    idle_until([=] { return i->p && i->p->st == P_DEAD; });
  }
  void on_dead(Proc *p, int st) {
    if (st != 1) return;
    for (auto &x : invs) if (x->p == p && !x->done) {
      Inv *i = x.get(); i->done = true; i->end = ++W->seq; i->faulted = p->faults_fired;
      changed('C', p->id);
      W->deferred.push_back([this, i] { check(i); });
    }
  }

  // ------------------------------------------------ checks
  void check(Inv *i) {
    if (W->stop) return;
    long kind = i->op->at(0); int me = i->p->id; bool ok = !i->killed() && i->rc() == 0, clean = !i->faulted && !i->killed();
    bool others = false; std::vector<MEv *> M, U, D, E, Wr; MEv *first_other = nullptr;
    for (auto &v : ns()->log) {
      if (v.seq < i->start || v.seq > i->end) continue;
      if (v.by != me) { if (!first_other) first_other = &v; others = true; continue; }
      if (v.kind == 'M') { if (v.stacked && !others && ns()->name_of(v.at) != "/") { bad("mnt_stack", "the mount command put a RAM disk on a RAM disk"); return; } M.push_back(&v); }
      if (v.kind == 'U') U.push_back(&v);
      if (v.kind == 'D') D.push_back(&v);
      if (v.kind == 'E') E.push_back(&v);
      if (v.kind == 'W') Wr.push_back(&v);
      if (v.kind == 'O') { bad("mnt_scope", "the tool opens " + v.text); return; }
    }
    if ((kind != 0 && (!M.empty() || !D.empty() || !Wr.empty())) || (kind != 2 && !U.empty()) || (kind != 3 && !E.empty())) { bad("mnt_scope", "the tool does something it was not asked for"); return; }
    std::string out = i->out->log;
    if (kind == 0) {
      bool dir = !i->e && i->t.n->dir, type = i->type != "nosuchfs", exact = !others && !i->amb;
      bool may = dir && !i->ramp;
      if (M.size() > 1) { bad("mnt_count", "the mount command mounted more than once"); return; }
      if (exact && !may && !M.empty()) { bad("mnt_refuse", i->ramp ? "the mount command mounted on a RAM disk" : "the mount command mounted where there is no directory"); return; }
      if (exact && clean && !i->longp && may && type && i->subs_ok && !ok) { bad("mnt_fail", "the mount command failed although nothing stands in its way"); return; }
      if (ok && M.empty()) { bad("mnt_report", "the mount command reports success without having mounted"); return; }
      if (ok && (!type || (exact && !i->subs_ok))) { bad("mnt_report", "the mount command reports success although it cannot have done what it was told"); return; }
      if (!M.empty()) {
        MMount *m = M[0]->m;
        if (m->fs->name != i->type) { bad("mnt_type", "the mount command mounted a " + m->fs->name + " instead of a " + i->type); return; }
        if (m->fs->name == "tmpfs") {
          u64 want = i->size ? (i->size + PAGE - 1) / PAGE : ns()->ram_pages / 2;
          if (m->fs->blocks != want) { bad("mnt_size", "the mounted RAM disk has " + std::to_string(m->fs->blocks) + " pages instead of " + std::to_string(want)); return; }
        }
        if (exact && !(M[0]->at == i->t)) { bad("mnt_where", "the mount command mounted in another place than it was told"); return; }
      }
      std::vector<std::string> made;
      for (auto *v : D) {
        if (exact && (M.empty() || v->m != M[0]->m)) { bad("mnt_subdir", "the mount command makes a directory outside the RAM disk: " + v->text); return; }
        std::string x; for (MNode *q = v->at.n; q->parent; q = q->parent) x = q->name + (x.empty() ? "" : "/" + x);
        made.push_back(x);
      }
      if (exact && made.size() > i->subs.size()) { bad("mnt_subdir", "the mount command makes more directories than it was told"); return; }
      if (exact) for (size_t k = 0; k < made.size(); k++) { std::string w = i->subs[k]; while (w.back() == '/') w.pop_back(); if (made[k] != w) { bad("mnt_subdir", "the mount command makes the directory " + made[k] + " instead of " + w); return; } }
      if (ok && D.size() != i->subs.size()) { bad("mnt_subdir", "the mount command reports success without having made all subdirectories"); return; }
      if (ok && i->hp && Wr.size() != 1) { bad("mnt_huge", "the mount command reports success without having set the number of huge pages"); return; }
      if (!i->hp && !Wr.empty()) { bad("mnt_huge", "the mount command sets the number of huge pages without having been asked to"); return; }
      for (auto *v : Wr) if (v->text != std::to_string(i->hp) && v->text != std::to_string(i->hp) + "\n") { bad("mnt_huge", "the mount command sets a wrong number of huge pages: " + v->text); return; }
    } else if (kind == 1) {
      if (others || i->amb || i->longp || i->killed()) return;
      // It could not find out, or not write what it found: then what came out ends early.
      if (!clean) {
        auto early = [&](const std::string &w) { return w.compare(0, out.size(), out) == 0; };
        if (early(i->dir + ": not a ramdisk\n") || early(i->expect)) return;
        if (i->expect.back() == '(' && out.back() != '\n' && out.compare(0, i->expect.size(), i->expect) == 0) return;
      }
      bool good = out == i->expect;
      if (i->expect.back() == '(') {
        int p = -1, used = 0; double pct = i->blocks ? 100.0 * (i->blocks - i->bfree) / i->blocks : 0;
        good = out.compare(0, i->expect.size(), i->expect) == 0 && sscanf(out.c_str() + i->expect.size(), "%d%% used)\n%n", &p, &used) == 1 && used && i->expect.size() + used == out.size() && p > pct - 1.01 && p < pct + 1.01;
      }
      if (!good) { bad("mnt_query", "the query prints \"" + out.substr(0, out.find('\n')) + "\" of a " + (i->ramp ? i->t.m->fs->name + " of " + std::to_string(i->blocks) + " pages, " + std::to_string(i->bfree) + " free" : std::string("directory that is no RAM disk"))); return; }
    } else if (kind == 2) {
      if (U.size() > 1) { bad("mnt_umount", "the unmount command unmounted more than once"); return; }
      if (ok && U.empty()) { bad("mnt_umount", "the unmount command reports success without having unmounted"); return; }
      if (!i->killed() && !ok && !U.empty()) { bad("mnt_umount", "the unmount command reports failure although it has unmounted"); return; }
      if (!others && !i->amb && !U.empty() && U[0]->m != i->t.m) { bad("mnt_umount", "the unmount command unmounted something else"); return; }
      if (!others && !i->amb && !i->longp && clean && ok != i->umount_ok) { bad("mnt_umount", ok ? "the unmount command unmounted what cannot be unmounted" : "the unmount command failed"); return; }
    } else if (kind == 3) {
      std::string path = ns()->exe + "-" + i->args[1]; bool there = path.size() < 4096 && ns()->exes.count(path) && !ns()->exes[path];
      if (E.size() > 1) { bad("mnt_delegate", "more than one program is executed"); return; }
      if (!there && !E.empty()) { bad("mnt_delegate", "a program is executed that does not implement the command: " + E[0]->text.substr(0, 100)); return; }
      if (there && clean && E.empty()) { bad("mnt_delegate", "the program that implements the command is not executed"); return; }
      if (!E.empty()) {
        if (E[0]->text != path) { bad("mnt_delegate", "another program is executed: " + E[0]->text.substr(0, 100)); return; }
        std::vector<std::string> w(i->args.begin() + 2, i->args.end()), a2(E[0]->args.begin() + (E[0]->args.empty() ? 0 : 1), E[0]->args.end());
        if (E[0]->args.empty() || w != a2) { bad("mnt_delegate", "the program that implements the command gets other arguments"); return; }
      }
      if (E.empty() && ok) { bad("mnt_delegate", "an unknown command is reported as done"); return; }
    } else if (ok) { bad("mnt_usage", "a command without sense is reported as done"); return; }
    nops++;
  }

  void exec(TP &g, const Op &o) {
    sim_point(2);
    int me = cur()->id; NS *n = ns();
    switch (o.k) {
    case 'T': start(g, o); return;
    case 'm': { MLoc l = at(DIRS[o.at(0) % NDIRS]); static const char *Y[] = {"tmpfs", "ramfs", "hugetlbfs", "ext4"}; int y = (int)(o.at(1) % 4); if (l.m && l.n->dir) n->mount(Y[y], y == 0 && o.at(2) >= 0 ? "size=" + std::to_string(o.at(2)) : "", l, me); return; }
    case 'u': { MLoc l = at(DIRS[o.at(0) % NDIRS]); if (l.m) n->umount(l, me); return; }
    case 'd': { MLoc l = at(DIRS[o.at(0) % NDIRS]); if (!l.m || !l.n->dir) return; const char *x = o.at(1) ? "t" : "s"; if (!l.n->kids.count(x)) { n->node(l.n, x, true); changed('D', me); } return; }
    case 'F': { MLoc l = at(DIRS[o.at(0) % NDIRS]); if (!l.m || !l.m->fs->blocks) return; l.m->fs->bfree = l.m->fs->blocks - (u64)(l.m->fs->blocks * (o.at(1) / 10000.0)); changed('F', me); return; }
    case 'C': { MLoc l = at(DIRS[o.at(0) % NDIRS]); if (l.m && l.n->dir) { n->cwd[me] = l; changed('C', me); } return; }
    case 'k': { Inv *i = progs[(size_t)o.at(0) % progs.size()]->inv; if (i && i->p && i->p->st != P_DEAD) proc_kill(i->p); return; }
    }
  }
  void run() {
    setup();
    W->on_dead = [this](Proc *p, int st) { on_dead(p, st); };
    W->fault_mask = FB_IO | FB_OPEN | FB_OTHER;
    for (int i = 0; i < s.nprog; i++) { progs.emplace_back(new TP); progs.back()->id = i; }
    for (size_t k = 0; k < s.ops.size(); k++) { int q = s.ops[k].prog; if (q >= 0 && q < s.nprog) progs[q]->ops.push_back((int)k); }
    for (auto &g : progs) {
      TP *gp = g.get();
      g->p = proc_spawn("P" + std::to_string(g->id), g->id, [this, gp] {
        int me = cur()->id;
        while (gp->pc < gp->ops.size()) { const Op &o = s.ops[gp->ops[gp->pc++]]; exec(*gp, o); note(40); W->progress = W->steps; }
        changed('C', me); ns()->cwd.erase(me);
      });
      ns()->cwd[g->p->id] = at("/mnt");
    }
    sim_run();
    if (W->stop) return;
    for (auto &i : invs) if (i->p && i->p->st != P_DEAD) { bad("tool_exit", "a command does not end although nothing holds it up"); return; }
    res.nontrivial = nops >= 2;
  }
};
}
void run_mnt(const Scenario &s, RunResult &r) {
  MntRun q(s, r);
  q.run();
  r.ops = q.nops;
  W->on_dead = nullptr;
}
