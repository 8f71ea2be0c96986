// Ring workloads: programs of library calls run by simulated processes, recorded as a history and checked.
#include "scenario.h"
#include <sys/uio.h>
#include <sys/time.h>
#include <cerrno>
#include <set>

// ---------------------------------------------------------------- message contents
constexpr u64 WIN = 5000;          // in huge runs a long message has content at its ends and zeros in between
static bool sparse(u64 len) { return W && W->huge && len > (1u << 20); }
void fill_msg(char *b, u64 id, u64 len) {
  if (sparse(len)) {
    for (u64 o = 0; o < len;) { u64 c = std::min<u64>(len - o, CHUNK - (u64)(b + o) % CHUNK); if (is_touched(b + o)) memset(b + o, 0, c); o += c; }
    fill_msg(b, id ^ len << 20, WIN); fill_msg(b + len - WIN, id ^ len << 21, WIN); touch(b, WIN); touch(b + len - WIN, WIN); return;
  }
  if (W && W->huge) touch(b, len);
  u64 x = id * 0x9E3779B97F4A7C15ull + len, o = 0;
  while (o < len) { u64 v = splitmix(x); u64 c = len - o < 8 ? len - o : 8; memcpy(b + o, &v, c); o += c; }
}
u64 hash_bytes(const char *b, u64 len) {
  if (sparse(len)) {
    bool dirt = false;
    for (u64 o = WIN; o < len - WIN;) { u64 c = std::min<u64>(len - WIN - o, CHUNK - (u64)(b + o) % CHUNK); if (is_touched(b + o)) for (u64 j = 0; j < c; j++) dirt |= b[o + j] != 0; o += c; }
    return mix(mix(hash_bytes(b, WIN), hash_bytes(b + len - WIN, WIN)), len) + dirt;
  }
  u64 h = 0x1234567 + len, o = 0;
  while (o < len) { u64 v = 0; u64 c = len - o < 8 ? len - o : 8; memcpy(&v, b + o, c); o += c; h = (h ^ v) * 0x9FB21C651E98DF25ull; h ^= h >> 32; }
  return h;
}
u64 hash_msg(u64 id, u64 len) {
  static std::unordered_map<u64, u64> cache;
  u64 k = mix(id, len) + sparse(len);
  auto i = cache.find(k); if (i != cache.end()) return i->second;
  if (cache.size() > 200000) cache.clear();
  if (sparse(len)) { std::vector<char> w(WIN); fill_msg(w.data(), id ^ len << 20, WIN); u64 h1 = hash_bytes(w.data(), WIN); fill_msg(w.data(), id ^ len << 21, WIN); return mix(mix(h1, hash_bytes(w.data(), WIN)), len); }
  static std::vector<char> t; if (t.size() < len) t.resize(len);
  fill_msg(t.data(), id, len);
  return cache[k] = hash_bytes(t.data(), len);
}

namespace {
enum { F_R = 1, F_W = 2, F_NB = 4, F_BUF = 8 };
struct LH { bool open = false, lost = false, r2w = false; shr *s = nullptr; int gid = -1, ring = -1; int flags = 0, fd = -1; std::string path; std::vector<int> evs, sure; };
struct Prog { int id = 0; std::vector<int> ops; size_t pc = 0; LH h[72]; Proc *p = nullptr; int cring = -1, cidx = -1; bool started = false; char kind = 0; int die_ring[4] = {-1, -1, -1, -1}; std::vector<std::pair<int, int>> dies; int kills = 0; int inituid = -1; };
struct RingH { History h; Inode *ino = nullptr; int creator = 0; bool complete = false; bool opened = false; };
struct Event { FileP f; u64 lastset = 0, lastclear = 0; };
struct InitRec { int uid; int rc = 99; bool pending = true, killed = false; std::vector<long> a; u64 inv = 0, ret = ~0ull; u64 appval = 0; };

struct RingRun {
  const Scenario &s; RunResult &res;
  std::vector<RingH> rings;
  std::vector<std::unique_ptr<Prog>> progs;
  std::map<int, Event> events;
  std::map<int, InitRec> inits;              // by owner tag
  int phase = 0, next_gid = 0;
  std::unordered_set<u64> written;
  u32 faults = 0; bool calm = false; bool lenient = false;
  bool create_mode = false;
  u64 nops = 0; int kills_left = 0;
  std::string path = "/ring/a";
  u64 init_inv_any = 0;
  int init_running = 0; u64 last_init_end = 0; bool init_ever = false;
  int auditor_round = 0; u64 drained = 0; u64 pokes = 0; bool aud_ok = false;
  RingRun(const Scenario &sc, RunResult &r) : s(sc), res(r) {}

  SutImage *img() { return image_of(cur()); }
  long cfg(const char *k, long d = 0) { return s.cfg.get(k, d); }

  // ------------------------------------------------ operation bookkeeping
  void arm(Prog &g, char kind) {
    Proc *p = cur();
    p->in_op = true; p->faults_fired = 0; p->natural = 0; p->waits = p->ewaits = 0; p->eintr = false; p->acc_first = p->acc_last = 0; p->commits.clear(); p->section_wrote = false;
    p->f_nth = 0; p->f_sel = 0; p->f_sticky = false; p->f_last.clear(); p->f_off = calm;
    p->kill_at = 0; p->kill_on_block = false;
    g.kind = kind;
    bool nofault = p->nofault_next; p->nofault_next = false;
    if (nofault || calm || p->prog < 0 || p->prog >= s.nprog) { p->f_off = true; return; }
    long fr = cfg("fault");
    if (fr && !(kind == 'I' && cfg("initfault", 1) == 0)) {
      int v = decide(K_FNTH, g.id, [&](Rng &r) { return r.chance(fr / 100.0) ? r.logrange(1, (int)cfg("faultmax", 40)) : 0; });
      if (v > 0) { p->f_nth = v; int q = decide(K_FSEL, g.id, [&](Rng &r) { return (int)r.below(16); }); p->f_sel = q & 7; p->f_sticky = q >= 12; if (kind == 'C') { p->f_sel = 0; p->f_sticky = false; } }
    }
    long kr = cfg("kill");
    if (kr) {
      int v = decide(K_KILL, g.id, [&](Rng &r) { if (!r.chance(kr / 100.0)) return 0; if (r.chance(0.3)) return -1; return r.logrange(1, (int)cfg("killmax", 250)); });
      if (v && kills_left > 0) { kills_left--; if (v < 0) p->kill_on_block = true; else p->kill_at = v; }
    }
  }
  void disarm(Prog &g, const char *what) {
    Proc *p = cur();
    if (p->kill_at > 0 || p->kill_on_block) kills_left++;
    p->in_op = false; p->kill_at = 0; p->kill_on_block = false;
    faults |= p->faults_fired | (p->natural & (FB_OPEN | FB_OTHER | FB_ALLOC));
    if (p->nlocks && !p->kill_now) violation("lock_held", "%s returned with the ring lock held", what);
    p->owner = 0; g.kind = 0; nops++; W->progress = W->steps;
    note(30, p->faults_fired);
  }
  int begin(Prog &g, int ring, HOp o) {
    o.proc = cur()->id; o.inv = ++W->seq;
    auto &v = rings[ring].h.ops;
    o.idx = (int)v.size(); v.push_back(o);
    g.cring = ring; g.cidx = o.idx;
    return o.idx;
  }
  HOp &cop(Prog &g) { return rings[g.cring].h.ops[g.cidx]; }
  void finish(Prog &g) {
    Proc *p = cur(); HOp &o = cop(g);
    o.faults = p->faults_fired; o.natural = p->natural; o.waited = p->ewaits > 0;
    o.first = p->acc_first > o.inv ? p->acc_first : 0; o.commits = p->commits; o.lastunlock = p->unlock_seq > o.inv ? p->unlock_seq : 0;
    o.ret = ++W->seq;
    g.cring = g.cidx = -1;
    if (g_verbose) vlog("%s", o.str().c_str());
    note(31, (u64)o.rc, o.got.size());
  }
  void leak_check(int tag, const char *what) {
    Proc *p = cur();
    int nf = 0, nd = 0, nb = 0, nm = 0;
    for (auto &x : p->fd_owner) if (x.second == tag) nf++;
    for (auto &x : p->dirs) if (x.second == tag) nd++;
    for (auto &x : p->live) if (x.second.owner == tag && !x.second.harness) nb++;
    for (auto &x : p->maps) if (x.owner == tag) nm++;
    if (nf || nd || nb || nm) violation("leak", "%s leaves behind %d descriptor(s), %d directory stream(s), %d memory block(s), %d mapping(s)", what, nf, nd, nb, nm);
  }

  // ------------------------------------------------ death and restart
  void on_dead(Proc *p, int stage) {
    if (p->prog < 0 || p->prog >= (int)progs.size()) return;
    Prog &g = *progs[p->prog];
    if (stage == 1) {
      for (auto it = g.dies.begin(); it != g.dies.end();) {
        HOp &o = rings[it->first].h.ops[it->second];
        if (o.proc == p->id) { o.ret = ++W->seq; it = g.dies.erase(it); } else ++it;
      }
      return;
    }
    faults |= p->faults_fired | (p->natural & (FB_OPEN | FB_OTHER | FB_ALLOC));
    u64 now = ++W->seq;
    if (g.p == p && g.cring >= 0 && !p->exited) {
      HOp &o = cop(g);
      o.killed = true; o.faults = p->faults_fired; o.natural = p->natural; o.commits = p->commits; o.first = p->acc_first > o.inv ? p->acc_first : 0;
      o.lastunlock = p->unlock_seq > o.inv ? p->unlock_seq : 0; o.ret = now;
      g.cring = g.cidx = -1;
      if (g_verbose) vlog("%s", o.str().c_str());
    }
    if (g.p == p && g.inituid >= 0) { auto &ir = inits[g.inituid]; ir.pending = false; ir.killed = true; ir.ret = now; g.inituid = -1; init_running--; last_init_end = now; }
    std::map<int, std::vector<int>> by;
    for (auto &h : g.h) if (h.open) { by[h.ring].push_back(h.gid); h.open = false; h.lost = true; h.evs.clear(); h.sure.clear(); }
    for (auto &b : by) {
      HOp o; o.kind = H_DIE; o.proc = p->id; o.inv = ++W->seq; o.dead = b.second; o.idx = (int)rings[b.first].h.ops.size();
      rings[b.first].h.ops.push_back(o); g.dies.push_back({b.first, o.idx});
    }
    bool again = g.pc < g.ops.size() && !(p->exited && p->exit_code == 77);
    if (g.id < s.nprog && again) { Prog *gp = &g; W->deferred.push_back([this, gp] { spawn(*gp); }); }
  }
  void spawn(Prog &g) {
    if (W->stop) return;
    Prog *gp = &g;
    g.p = proc_spawn("P" + std::to_string(g.id) + (g.started ? "'" : ""), g.id, [this, gp] { body(*gp); });
    g.started = true;
  }
  void body(Prog &g) {
    while (g.pc < g.ops.size()) {
      const Op &o = s.ops[g.ops[g.pc]];
      g.pc++;
      exec(g, o);
      if (o.k == 'X') return;
    }
  }

  // ------------------------------------------------ operations
  LH *handle(Prog &g, long n, int want) {
    LH *h = &g.h[(size_t)n % 72];
    if (!h->open && h->lost) { h->lost = false; do_open(g, n, h->flags, h->path); h = &g.h[(size_t)n % 72]; }
    if (!h->open || (want && !(h->flags & want))) return nullptr;
    return h;
  }
  unsigned oflags(long f) {
    auto z = img()->sizes; unsigned u = 0;
    if (f & F_R) u |= z(20);
    if (f & F_W) u |= z(21);
    if (f & F_NB) u |= z(22);
    if (f & F_BUF) u |= z(23);
    if (f & 16) u |= z(10);       // an init flag: invalid here
    if (f & 32) u |= z(16);
    return u;
  }
  Inode *path_ring(const std::string &pth) { return k_lookup(pth); }
  int ring_of(Inode *i) { for (size_t k = 0; k < rings.size(); k++) if (rings[k].ino == i) return (int)k; return -1; }
  void do_open(Prog &g, long n, long fl, const std::string &pth) {
    LH &h = g.h[(size_t)n % 72];
    Proc *p = cur();
    bool valid = ((fl & F_R) != 0) != ((fl & F_W) != 0) && !(fl & 48);
    int gid = next_gid++;
    HOp o; o.kind = H_OPEN; o.handle = gid; o.rd = fl & F_R; o.nb = fl & F_NB; o.buf = (fl & F_BUF) && (fl & F_W);
    std::string pp = pth.empty() ? path : pth;
    Inode *i0 = k_lookup(pp);
    int ring = i0 ? ring_of(i0) : -1;
    bool early = !create_mode && ring >= 0 && valid;
    u64 inv = W->seq + 1;
    bool init_during0 = init_running > 0;
    if (early) begin(g, ring, o); else { ++W->seq; o.inv = W->seq; o.proc = p->id; }
    arm(g, 'O');
    p->owner = gid + 1;
    char *path_c = (char *)h_alloc(pp.size() + 1); memcpy(path_c, pp.c_str(), pp.size() + 1);
    shr *sh = img()->open(path_c, oflags(fl));
    h_free(path_c);
    u32 ff = p->faults_fired, nat = p->natural;
    vlog("open flags=%ld -> %s", fl, sh ? "ok" : "failed");
    if (!valid && sh) { violation("badflags", "open accepted an invalid combination of flags"); }
    if (sh) {
      Mapping *m = nullptr; for (auto &x : p->maps) if (x.owner == gid + 1 && x.ino) m = &x;
      if (!m) violation("create", "a successful open has no ring mapped");
      int r = ring_of(m->ino);
      if (create_mode) {
        auto it = inits.find(m->ino->creator);
        if (it == inits.end()) violation("create", "open succeeded on a file that is not a ring");
        if (!it->second.pending && !it->second.killed && it->second.rc != 0) violation("create", "open succeeded on a ring whose creation failed");
        if (r < 0) r = add_ring(m->ino, it->second.a, it->second.appval, m->ino->creator);
      }
      if (r < 0) violation("create", "open succeeded on a file that is not a ring");
      if (rings[r].h.init.gflags & 64) {
        u64 cov = 0; for (auto &x : p->mlocks) if (x.first <= m->base && x.first + x.second >= m->base + rings[r].ino->size) cov = 1;
        if (!cov) violation("mlock", "open of a memory-locked ring succeeded without the whole ring locked in memory");
      }
      if (!early) { u64 keep = o.inv; begin(g, r, o); rings[r].h.ops[g.cidx].inv = keep; }
      h.open = true; h.lost = false; h.s = sh; h.gid = gid; h.ring = r; h.flags = (int)fl; h.path = pth; h.evs.clear(); h.sure.clear(); h.fd = -1; h.r2w = (fl & F_W) && !(fl & F_NB);
      rings[r].opened = true;
      cop(g).rc = 0; finish(g);
      if ((fl & F_R) && (fl & F_NB)) { int fd = img()->selfd(sh); if (fd < 0 || p->fds.find(fd) == p->fds.end()) violation("selfd", "no selectable descriptor for a non-blocking reader"); h.fd = fd; }
      else if (img()->selfd(sh) != -1) violation("selfd", "a selectable descriptor for a handle that is not a non-blocking reader");
      disarm(g, "open");
    } else {
      if (early) { cop(g).rc = -1; finish(g); }
      else if (valid) {
        // must have succeeded if the same complete ring was in place the whole time
        Inode *i1 = k_lookup(pp);
        bool race = init_during0 || init_running > 0 || last_init_end >= inv;
        if (i0 && i0 == i1 && !race && !ff && !nat) {
          auto it = inits.find(i0->creator);
          if (it != inits.end() && it->second.rc == 0) {
            int r = ring_of(i0); if (r < 0) r = add_ring(i0, it->second.a, it->second.appval, i0->creator);
            u64 keep = o.inv; begin(g, r, o); rings[r].h.ops[g.cidx].inv = keep; cop(g).rc = -1; finish(g);
          }
        }
      }
      leak_check(gid + 1, "a failed open");
      disarm(g, "open");
      if (ff && cfg("retry", 0) && valid) { p->nofault_next = true; do_open(g, n, fl, pth); }
      else if (ff || nat) { h.lost = true; h.flags = (int)fl; h.path = pth; }
    }
  }
  int add_ring(Inode *ino, const std::vector<long> &a, u64 appval, int tag) {
    RingH r; r.ino = ino; r.creator = tag; r.complete = true;
    RingState &q = r.h.init; q.lenient = lenient;
    long f = a[0];
    q.n = a[1]; q.mm = (f & 16) && a[2] ? a[2] : 100 + a[1] / 100;
    q.drop = f & (2 | 8); q.farm = f & 8; q.applen = (f & 4) ? a[3] : 0; q.app = appval;
    auto z = img_any()->sizes;
    q.gflags = 0;
    if (f & 2) q.gflags |= z(11);
    if (f & 8) q.gflags |= z(13) | z(11);
    if (f & 32) q.gflags |= z(15);
    if (f & 64) q.gflags |= z(16);
    r.h.lenient_slots = lenient;
    rings.push_back(std::move(r));
    return (int)rings.size() - 1;
  }
  SutImage *img_any() { return image_of(W->procs[0].get()); }

  void do_init(Prog &g, const std::vector<long> &a, int uid) {
    Proc *p = cur(); auto z = img()->sizes;
    int tag = 500000 + uid;
    InitRec ir; ir.uid = uid; ir.a = a; ir.inv = ++W->seq;
    long f = a[0]; u64 sz = (u64)a[1], mm = (u64)a[2], al = (u64)a[3];
    unsigned u = 0;
    if (f & 1) u |= z(10);
    if (f & 2) u |= z(11);
    if (f & 4) u |= z(12);
    if (f & 8) u |= z(13);
    if (f & 16) u |= z(14);
    if (f & 32) u |= z(15);
    if (f & 64) u |= z(16);
    if (f & 128) u |= z(20);         // invalid here
    bool valid = !(f & 128) && sz > 0;
    char *ad = nullptr;
    if (f & 4) { ad = (char *)h_alloc(al ? al : 1); fill_msg(ad, (1ull << 60) + uid, al); ir.appval = hash_bytes(ad, al); }
    inits[tag] = ir; 
    Inode *before = k_lookup(path);
    size_t un0 = K->unlinks.size();
    bool race = init_running > 0; init_running++; init_ever = true;
    g.inituid = tag;
    arm(g, 'I'); p->owner = tag;
    char *pc = (char *)h_alloc(path.size() + 1); memcpy(pc, path.c_str(), path.size() + 1);
    int rc;
    if ((f & 4) && (f & 16)) rc = img()->init(pc, sz, u, ad, al, mm);
    else if (f & 4) rc = img()->init(pc, sz, u, ad, al);
    else if (f & 16) rc = img()->init(pc, sz, u, mm);
    else rc = img()->init(pc, sz, u);
    h_free(pc); if (ad) h_free(ad);
    vlog("init flags=%ld size=%llu -> %d", f, (unsigned long long)sz, rc);
    init_running--; g.inituid = -1;
    race = race || init_running > 0 || last_init_end > ir.inv;
    last_init_end = ++W->seq;
    InitRec &r = inits[tag]; r.pending = false; r.rc = rc; r.ret = W->seq;
    u32 ff = p->faults_fired, nat = p->natural;
    Inode *mine = nullptr; for (auto &i : K->inodes) if (i->creator == tag) mine = i.get();
    Inode *after = k_lookup(path);
    for (size_t k = un0; k < K->unlinks.size(); k++) if (K->unlinks[k].second == tag && (f & 1) && K->unlinks[k].first && K->unlinks[k].first != mine)
      violation("create", "creation with keep-existing removed an existing file");
    if (!valid && rc == 0) violation("badflags", "creation accepted invalid arguments");
    if (rc == 0) {
      if (mine) {
        if (!race && after != mine) violation("create", "a successful creation left no ring at the path");
        if (!race && before && (f & 1)) violation("create", "creation with keep-existing replaced an existing ring");
        u64 need = sz + al * ((f & 4) != 0);
        if (mine->size < need) violation("create", "the created ring file is too small");
      } else {
        if (!(f & 1)) violation("create", "a successful creation did not create a fresh ring");
        if (!race && (!before || after != before)) violation("create", "creation with keep-existing reported success but no ring is kept");
      }
    } else {
      if (rc != -1) violation("create", "creation returned %d", rc);
      if (mine && mine->linked && k_lookup(path) == mine && p->f_last != "unlink") violation("create", "a failed creation left a ring file behind");
      if (valid && !ff && !nat && !race && !(before && before->dir)) violation("create", "creation failed without a cause");
    }
    leak_check(tag, "creation of a ring");
    disarm(g, "creation");
  }

  void do_read(Prog &g, LH *h, u64 buflen, long niov) {
    Proc *p = cur();
    HOp o; o.kind = H_READ; o.handle = h->gid; o.buflen = buflen; o.niov = niov < 0 ? 1 : (u64)niov;
    begin(g, h->ring, o);
    arm(g, 'R'); p->owner = h->gid + 1;
    char *buf = (char *)h_alloc(buflen ? buflen : 1);
    size_t n = niov < 0 ? 1 : (size_t)niov;
    struct iovec *iov = niov < 0 ? nullptr : (struct iovec *)h_alloc(n ? n * sizeof *iov : 1);
    ssize_t rc;
    if (niov < 0) rc = img()->read(h->s, buf, buflen);
    else rc = img()->readv(h->s, buf, buflen, iov, &n);
    HOp &q = cop(g); q.rc = rc;
    if (rc > 0) {
      if ((u64)rc > buflen) violation("content", "read returned more bytes than the buffer holds");
      if (niov < 0) q.got.push_back(MMsg{hash_bytes(buf, rc), (u64)rc});
      else {
        if (n > (u64)niov || n == 0) violation("content", "vector read returned a wrong number of messages");
        u64 off = 0;
        for (size_t k = 0; k < n; k++) {
          if (iov[k].iov_base != buf + off || off + iov[k].iov_len > (u64)rc) violation("content", "vector read describes a message at a wrong place");
          q.got.push_back(MMsg{hash_bytes(buf + off, iov[k].iov_len), (u64)iov[k].iov_len});
          off += iov[k].iov_len;
        }
        if (off != (u64)rc) violation("content", "vector read: lengths do not add up to the byte count");
      }
      for (auto &m : q.got) if (!written.count(mix(m.h, m.len))) violation("content", "a message of %llu bytes was delivered that no writer wrote", (unsigned long long)m.len);
    }
    if (rc == 0 || rc > 0) if ((h->flags & F_NB) && !p->faults_fired && h->fd >= 0) {
      u64 last; int nq = sock_fd_queue(p, h->fd, &last);
      if (nq > 0 && last < p->lock_seq) q.stale = true;
    }
    if (niov >= 0 && (rc == 0 || rc < -1) && n) violation("content", "a vector read that delivered nothing reports %zu message(s)", n);
    if (niov >= 0 && n > (u64)niov) violation("content", "a vector read reports more messages than it was given elements for");
    bool intr = rc == -3;
    u64 inv = q.inv;
    bool failed = rc == -1 && p->faults_fired;
    if (g_verbose && rc != -1) vlog("read -> %zd", rc);
    finish(g);
    h_free(buf); if (iov) h_free(iov);
    if (intr) check_intr(h, inv);
    check_eintr(rc, "read");
    disarm(g, "read");
    if (failed && cfg("retry")) { p->nofault_next = true; do_read(g, h, buflen, niov); }
  }
  void check_eintr(ssize_t rc, const char *what) {
    if (cur()->eintr && rc != -1 && rc != -3) violation("interrupt", "a signal interrupted the wait of a %s, which nevertheless returned %zd", what, rc);
  }
  void check_intr(LH *h, u64 inv) {
    for (int e : h->evs) { Event &ev = events[e]; if (ev.f->ready || ev.lastclear > inv) return; }
    violation("interrupt", "a call returned -3 although none of its descriptors was readable");
  }
  void do_write(Prog &g, LH *h, const std::vector<long> &lens, u64 uid, bool single) {
    Proc *p = cur();
    HOp o; o.kind = H_WRITE; o.handle = h->gid;
    for (size_t k = 0; k < lens.size(); k++) { u64 id = uid << 20 | k; MMsg m{hash_msg(id, lens[k]), (u64)lens[k]}; o.batch.push_back(m); written.insert(mix(m.h, m.len)); }
    begin(g, h->ring, o);
    arm(g, 'W'); p->owner = h->gid + 1;
    std::vector<void *> bufs;
    size_t n = lens.size();
    struct iovec *iov = (struct iovec *)h_alloc(n ? n * sizeof *iov : 1);
    u64 tot = 0; for (long l : lens) tot += l;
    if (n <= 24) for (size_t k = 0; k < n; k++) { char *b = (char *)h_alloc(lens[k] ? lens[k] : 1); fill_msg(b, uid << 20 | k, lens[k]); bufs.push_back(b); iov[k].iov_base = b; iov[k].iov_len = lens[k]; }
    else { char *b = (char *)h_alloc(tot ? tot : 1); bufs.push_back(b); for (size_t k = 0; k < n; k++) { fill_msg(b, uid << 20 | k, lens[k]); iov[k].iov_base = b; iov[k].iov_len = lens[k]; b += lens[k]; } }
    ssize_t rc = single && n == 1 ? img()->write(h->s, (char *)iov[0].iov_base, iov[0].iov_len) : img()->writev(h->s, iov, n);
    HOp &q = cop(g); q.rc = rc;
    u64 inv = q.inv; bool failed = rc == -1 && p->faults_fired;
    finish(g);
    for (void *b : bufs) h_free(b);
    h_free(iov);
    if (rc == -3) check_intr(h, inv);
    check_eintr(rc, "write");
    disarm(g, "write");
    if (failed && cfg("retry")) { p->nofault_next = true; do_write(g, h, lens, uid + 500000, single); }
  }
  void do_flush(Prog &g, LH *h, bool wait) {
    Proc *p = cur();
    HOp o; o.kind = H_FLUSH; o.handle = h->gid; o.wait = wait;
    begin(g, h->ring, o);
    arm(g, 'F'); p->owner = h->gid + 1;
    ssize_t rc = img()->flush(h->s, wait);
    HOp &q = cop(g); q.rc = rc;
    u64 inv = q.inv; bool failed = rc == -1 && p->faults_fired;
    finish(g);
    if (q.waited && wait) h->r2w = true;          // from now on the handle has what it needs to block
    if (rc == -3) check_intr(h, inv);
    check_eintr(rc, "flush");
    disarm(g, "flush");
    if (failed && cfg("retry")) { p->nofault_next = true; do_flush(g, h, wait); }
  }
  void do_close(Prog &g, LH *h) {
    Proc *p = cur();
    HOp o; o.kind = H_CLOSE; o.handle = h->gid;
    begin(g, h->ring, o);
    arm(g, 'C'); p->owner = h->gid + 1;
    int tag = h->gid + 1;
    std::vector<int> evs = h->evs; u64 inv = cop(g).inv;
    img()->close(h->s);
    h->open = false; h->s = nullptr; h->evs.clear(); h->sure.clear();
    for (int e : evs) if (events[e].f->ready || events[e].lastclear > inv) p->natural |= FB_WAIT;   // its final flush may be interrupted
    cop(g).rc = 0; finish(g);
    leak_check(tag, "a closed handle");
    disarm(g, "close");
  }
  void do_stat(Prog &g, LH *h, bool reset) {
    Proc *p = cur();
    HOp o; o.kind = H_STAT; o.handle = h->gid; o.reset = reset;
    struct timeval *tv = nullptr;
    if (reset) { tv = (struct timeval *)h_alloc(sizeof *tv); u64 t = 1000000ull * 1700000000 + (W->clock_us += 3); tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; o.resetval = t; }
    begin(g, h->ring, o);
    arm(g, 'S'); p->owner = h->gid + 1;
    shr_stat *st = (shr_stat *)h_alloc(img()->sizes(0));
    int rc = img()->stat(h->s, st, tv);
    HOp &q = cop(g); q.rc = rc;
    if (rc == 0) {
      unsigned long long f[16]; img()->stat_fields(st, f);
      q.st.bw = f[0]; q.st.br = f[1]; q.st.mw = f[2]; q.st.mr = f[3]; q.st.md = f[4]; q.st.bd = f[5]; q.st.start = f[6];
      q.bn = f[7]; q.bu = f[8]; q.mu = f[9]; q.mm = f[10]; q.cm = f[12]; q.cb = f[13]; q.flags = (unsigned)f[14];
    }
    bool failed = rc < 0 && p->faults_fired;
    finish(g);
    h_free(st); if (tv) h_free(tv);
    disarm(g, "status query");
    if (failed && cfg("retry")) { p->nofault_next = true; do_stat(g, h, reset); }
  }
  // mode: 0 get into a library buffer, 1 get into ours, 2 set, 3 get and set
  void do_app(Prog &g, LH *h, int mode, u64 sz, int uid) {
    Proc *p = cur();
    HOp o; o.kind = mode < 2 ? H_APPGET : mode == 2 ? H_APPSET : H_APPSWAP; o.handle = h->gid; o.buflen = mode == 0 ? ~0ull : sz;
    char *in = nullptr, *out = nullptr; u64 al = rings[h->ring].h.init.applen;
    if (mode >= 2) { in = (char *)h_alloc(sz ? sz : 1); fill_msg(in, (2ull << 60) + uid, sz); o.value = hash_bytes(in, sz); }
    if (mode == 1 || mode == 3) { out = (char *)h_alloc(sz ? sz : 1); memset(out, 0x5C, sz ? sz : 1); }
    begin(g, h->ring, o);
    arm(g, 'A'); p->owner = h->gid + 1;
    size_t *psz = (size_t *)h_alloc(sizeof(size_t)); *psz = mode == 0 ? 777 : sz;
    void **pp = (void **)h_alloc(sizeof(void *)); *pp = out;
    int rc = img()->appdata(h->s, mode == 2 ? nullptr : pp, in, psz);
    HOp &q = cop(g); q.rc = rc;
    char *lib = nullptr;
    if (mode == 0 && *pp && rc == 0) lib = (char *)*pp;
    if (rc == 0 && mode != 2) {
      char *d = mode == 0 ? lib : out;
      if (!d) violation("appdata", "a successful get returned no data");
      if (*psz != al) violation("appdata", "a get reported %zu bytes, the area has %llu", *psz, (unsigned long long)al);
      if (mode != 0 && *pp != out) violation("appdata", "a get replaced the caller's buffer");
      u64 have = mode == 0 ? heap_block_size(p, lib) : sz;
      if (have < al) violation("appdata", "a get returned a buffer that is too small");
      q.out = hash_bytes(d, al);
      if (mode == 1) for (u64 k = al; k < sz; k++) if (out[k] != 0x5C) violation("appdata", "a get wrote beyond the application data into the caller's buffer");
    }
    if (rc < 0 && mode == 0 && *pp && !heap_block_size(p, *pp)) violation("appdata", "a failed get hands out a buffer that does not exist");
    if (rc < 0 && mode != 0 && mode != 2 && *pp != out) violation("appdata", "a failed get replaced the caller's buffer");
    bool failed = rc < 0 && p->faults_fired;
    finish(g);
    if (lib) { p->owner = h->gid + 1; heap_free(p, lib, "free"); }
    if (in) h_free(in);
    if (out) h_free(out);
    h_free(psz); h_free(pp);
    disarm(g, "application-data call");
    if (failed && cfg("retry")) { p->nofault_next = true; do_app(g, h, mode, sz, uid + 500000); }
  }
  int event_fd(int e) {
    Proc *p = cur(); Event &ev = events[e];
    if (!ev.f) { ev.f = std::make_shared<File>(); ev.f->type = T_EVENT; ev.f->num = 70000 + e; }
    for (auto &x : p->fds) if (x.second == ev.f) return x.first;
    return fd_install(p, ev.f, 0);
  }
  void set_event(int e, bool on) {
    Event &ev = events[e];
    if (!ev.f) { ev.f = std::make_shared<File>(); ev.f->type = T_EVENT; ev.f->num = 70000 + e; }
    ev.f->ready = on; if (on) ev.f->arrivals++; if (on) ev.lastset = ++W->seq; else ev.lastclear = ++W->seq;
  }
  void exec(Prog &g, const Op &o) {
    Proc *p = cur();
    sim_point(2);
    switch (o.k) {
    case 'O': {
      LH &h = g.h[(size_t)o.at(0) % 72];
      if (h.open) return;
      h.lost = false;
      do_open(g, o.at(0), o.at(1), o.at(2) == 1 ? "/ring/none" : o.at(2) == 2 ? "/ring" : "");
      return;
    }
    case 'C': { LH *h = handle(g, o.at(0), 0); if (h) do_close(g, h); else g.h[(size_t)o.at(0) % 72].lost = false; return; }
    case 'R': { LH *h = handle(g, o.at(0), F_R); if (h) do_read(g, h, (u64)o.at(1), o.at(2)); return; }
    case 'W': { LH *h = handle(g, o.at(0), F_W); if (h) { std::vector<long> l; 
        if (o.at(1) == -1) l.assign((size_t)o.at(2), o.at(3)); else l.assign(o.a.begin() + 1, o.a.end());
        do_write(g, h, l, o.uid, (o.uid & 1) != 0); } return; }
    case 'w': for (long k = 0; k < o.at(2); k++) { LH *h = handle(g, o.at(0), F_W); if (!h) return; do_write(g, h, {o.at(1)}, (u64)o.uid + 10000 * (k + 1), k & 1); } return;
    case 'F': { LH *h = handle(g, o.at(0), F_W); if (h) do_flush(g, h, o.at(1)); return; }
    case 'S': { LH *h = handle(g, o.at(0), 0); if (h) do_stat(g, h, o.at(1)); return; }
    case 'M': {
      LH *h = handle(g, o.at(0), F_R); if (!h || !rings[h->ring].h.init.farm) return;
      HOp q; q.kind = H_FARMSTAT; q.handle = h->gid; q.reset = o.at(1);
      begin(g, h->ring, q); arm(g, 'M'); p->owner = h->gid + 1;
      u64 r = img()->farm_stat(h->s, (int)o.at(1));
      cop(g).out = r; finish(g); disarm(g, "farm_stat"); return;
    }
    case 'A': { LH *h = handle(g, o.at(0), 0); if (h) do_app(g, h, (int)o.at(1), (u64)o.at(2), o.uid); return; }
    case 'P': {
      LH *h = handle(g, o.at(0), 0); if (!h) return;
      for (int e : h->evs) if (e == (int)o.at(1)) return;
      int fd = event_fd((int)o.at(1));
      arm(g, 'P'); p->owner = h->gid + 1;
      int rc = img()->ctl(h->s, (int)img()->sizes(24), fd);
      if (rc == 0 && p->faults_fired) violation("interrupt", "registering a caller's descriptor failed and is reported as done");
      if (o.uid % 4 == 0 && img()->ctl(h->s, (int)img()->sizes(24) ^ 0x4000, fd) == 0) violation("interrupt", "a control request that does not exist is reported as done");
      if (o.uid % 4 == 1 && ((h->flags & F_R) || (h->r2w && !rings[h->ring].h.init.drop)) && img()->ctl(h->s, (int)img()->sizes(24), 900) == 0) violation("interrupt", "registering a descriptor that is not open is reported as done");
      // a handle that never blocks has nothing to register the descriptor with: whether it counts later is left open
      if (rc == 0) { h->evs.push_back((int)o.at(1)); if ((h->flags & F_R) || h->r2w) h->sure.push_back((int)o.at(1)); }
      else if (!p->faults_fired && !p->natural) violation("interrupt", "registering a caller's descriptor failed without a cause");
      disarm(g, "shr_ctl"); return;
    }
    case 'E': set_event((int)o.at(0), o.at(1)); note(32); return;
    case 'G': { Prog &t = *progs[(size_t)o.at(0) % s.nprog]; if (t.p && t.p->st != P_DEAD && t.p->st != P_DYING && t.p != p) { t.p->sig_pending |= 1ull << 9; note(33); } return; }
    case 'K': { Prog &t = *progs[(size_t)o.at(0) % s.nprog]; if (!calm && kills_left > 0 && t.p && t.p != p && (t.p->st == P_RUN || t.p->st == P_BLOCK)) { kills_left--; note(34); proc_kill(t.p); } return; }
    case 'D': {
      LH *h = handle(g, o.at(0), F_R); if (!h || h->fd < 0) return;
      HOp q; q.kind = H_FDCHECK; q.handle = h->gid; begin(g, h->ring, q);
      FileP f = fd_file(p, h->fd);
      cop(g).rc = (f && file_readable(f.get())) || (faults & (FB_NOTIFY | FB_OPEN | FB_ALLOC)) ? 1 : 0;
      finish(g); return;
    }
    case 'V': {
      LH *h = handle(g, o.at(0), F_R); if (!h || h->fd < 0) return;
      HOp q; q.kind = H_FDWAIT; q.handle = h->gid; begin(g, h->ring, q);
      FileP f = fd_file(p, h->fd);
      p->in_op = true; p->waits = p->ewaits = 0; p->acc_first = p->acc_last = 0; p->commits.clear(); p->faults_fired = p->natural = 0;
      block_on("poll", [=] { return file_readable(f.get()); }, false);
      p->in_op = false;
      finish(g); return;
    }
    case 'B': { int ph = (int)o.at(0); idle_until([this, ph] { return phase >= ph; }); return; }
    case 'I': do_init(g, o.a, o.uid); return;
    case 'J': do_garbage((int)o.at(0), (u64)o.at(1)); return;
    case 'X': p->exit_code = 77; return;
    case 'Z': reap(); return;
    case 'L': { // fill the file system
      Inode *i = k_lookup("/ring/filler"); if (!i) i = k_create_file("/ring/filler", 0);
      u64 add = (u64)o.at(0) * PAGE; k_grow(i, i->size + add);
      for (u64 pg = 0; pg < i->alloc.size(); pg++) if (!i->alloc[pg] && (!K->space_pages || k_pages_used() < K->space_pages)) i->alloc[pg] = 1;
      return;
    }
    }
  }
  void reap() { for (auto &q : W->procs) q->zombie = false; }
  void do_garbage(int kind, u64 v) {
    if (k_lookup(path)) { if (kind < 5) return; if (init_running) return; }
    Inode *i = nullptr;
    note(35, kind); last_init_end = ++W->seq;
    switch (kind) {
    case 0: k_create_file(path, 0); return;
    case 1: i = k_create_file(path, 1 + v % 200); break;
    case 2: i = k_create_file(path, 2000 + v % 9000); break;
    case 3: i = k_create_file(path, 2000 + v % 9000); fill_msg(i->mem(), v, i->size); break;
    case 4: { Inode *d = k_create_file(path, 0); d->dir = true; return; }
    case 5: { // an existing ring cut short (as a new file: nobody has it mapped)
      Inode *o = k_lookup(path); if (!o || o->dir || o->size < 64 || !inits.count(o->creator)) return;
      u64 ns = o->size - 1 - v % (o->size - 1);
      std::string c(o->mem(), ns); k_unlink(path); i = k_create_file(path, ns); memcpy(i->mem(), c.data(), ns); break; }
    case 6: { // a ring whose first bytes are damaged
      Inode *o = k_lookup(path); if (!o || o->dir || o->size < 64 || !inits.count(o->creator)) return;
      std::string c(o->mem(), o->size); k_unlink(path); i = k_create_file(path, c.size()); c[v % 7] ^= 1 + v % 255; memcpy(i->mem(), c.data(), c.size()); break; }
    }
    if (i) std::fill(i->alloc.begin(), i->alloc.end(), 1);
  }

  // ------------------------------------------------ checks at quiescence
  bool pending_allowed(char k) { return k == 'R' || k == 'W' || k == 'F' || k == 'C' || k == 0; }
  void quiescent_checks(bool ex_poked, bool ex_other) {
    for (int i = 0; i < NPROC && !W->stop; i++) {
      Proc *p = W->slots[i]; if (!p || p->prog < 0) continue;
      if (p->st != P_BLOCK || p->idle) continue;
      Prog &g = *progs[p->prog];
      if (!strcmp(p->why, "fcntl")) { violation("deadlock", "%s waits for the ring lock forever", p->name.c_str()); return; }
      if (!pending_allowed(g.kind)) { violation("stuck", "%s never returns from operation %c (blocked in %s)", p->name.c_str(), g.kind, p->why); return; }
      if (p->eintr && (g.kind == 'R' || g.kind == 'W' || g.kind == 'F')) { violation("interrupt", "%s stays blocked although a signal interrupted its wait", p->name.c_str()); return; }
      if (g.cring < 0) continue;
      for (auto &h : g.h) if (h.open && h.gid == cop(g).handle) for (int e : h.sure) if (events[e].f->ready && (cop(g).kind != H_FDWAIT)) { violation("interrupt", "%s stays blocked although a descriptor it registered is readable", p->name.c_str()); return; }
    }
    for (size_t k = 0; k < rings.size(); k++) {
      auto &r = rings[k];
      if (W->stop) return;
      r.h.lenient_slots = lenient;
      CheckResult c = check_history(r.h, true, (int)k == poked_ring ? ex_poked : ex_other, &fin);
      res.dfs += c.dfs;
      if (g_verbose && c.v != CheckResult::OK) for (auto &o : r.h.ops) vlog("  %6llu..%-6llu from %-6llu %s", (unsigned long long)o.inv, (unsigned long long)o.ret, (unsigned long long)o.first, o.str().c_str());
      if (c.v == CheckResult::BAD) { W->cur = nullptr; violation("history", "%s", c.msg.c_str()); return; }
      if (c.v == CheckResult::UNDECIDED) res.undecided = true;
    }
  }
  RingState fin; bool missed = false; int poked_ring = -1;   // the ring a newcomer poked; a replaced one cannot be poked any more
  bool any_at_barrier() {
    for (int i = 0; i < NPROC; i++) { Proc *p = W->slots[i]; if (p && p->st == P_BLOCK && p->idle) return true; }
    return false;
  }
  void reboot(bool loss) {
    for (int i = 0; i < NPROC; i++) { Proc *p = W->slots[i]; if (p && p->st == P_DYING) { p->zombie = false; } }
    std::vector<Proc *> all; for (int i = 0; i < NPROC; i++) if (W->slots[i]) all.push_back(W->slots[i]);
    long z = W->cfg.get("zombie", 0), d = W->cfg.get("dying", 0);
    W->cfg.set("zombie", 0); W->cfg.set("dying", 0);
    for (Proc *p : all) if (p->st != P_DEAD && p->st != P_DYING) proc_die(p, "killed");
    W->cfg.set("zombie", z); W->cfg.set("dying", d);
    reap();
    if (loss) k_power_loss();
    K->names.clear(); K->socks.clear();
    if (W->cfg.get("rebootnames", 0)) K->next_name = 0x1a3;   // addresses are handed out again from the start
    fired("reboot");
    probe("reboot");
  }
  bool exempt() { return (faults & (FB_NOTIFY | FB_OPEN | FB_ALLOC | FB_OTHER)) != 0; }

  void auditor(Prog &g) {
    // poke: one write and one read by a newcomer, then drain
    do_open(g, 0, F_R | F_NB, "");
    do_open(g, 1, F_W | F_NB, "");
    bool w = false;
    for (int k = 0; k < 40 && g.h[1].open && !w; k++) {
      size_t n0 = rings[g.h[1].ring].h.ops.size();
      do_write(g, &g.h[1], {1}, 900000 + k, true);
      for (size_t j = n0; j < rings[g.h[1].ring].h.ops.size(); j++) { HOp &o = rings[g.h[1].ring].h.ops[j]; if (o.proc == cur()->id && o.kind == H_WRITE && o.rc > 0) w = true; }
      if (!w && g.h[0].open) do_read(g, &g.h[0], 1 << 20, 1);
    }
    if (g.h[0].open) do_read(g, &g.h[0], rings[g.h[0].ring].h.init.n + 1, 1);
    idle_until([this] { return auditor_round >= 1; });
    for (int round = 1; ; round++) {
      if (g.h[0].open) for (;;) {
        HOp *last = nullptr;
        do_read(g, &g.h[0], rings[g.h[0].ring].h.init.n + 1, rings[g.h[0].ring].h.init.mm > 20000 ? 200000 : 64);
        auto &v = rings[g.h[0].ring].h.ops; for (auto it = v.rbegin(); it != v.rend(); ++it) if (it->proc == cur()->id && it->kind == H_READ) { last = &*it; break; }
        if (last->rc <= 0) break;
        drained += last->got.size();
      }
      if (auditor_round >= 1000) break;
      idle_until([this, round] { return auditor_round > round; });
    }
    if (g.h[0].open) { do_stat(g, &g.h[0], false); if (rings[g.h[0].ring].h.init.applen) do_app(g, &g.h[0], 0, 0, 999999); do_close(g, &g.h[0]); }
    if (g.h[1].open) do_close(g, &g.h[1]);
  }

  void run() {
    create_mode = cfg("create");
    lenient = (cfg("zombie") && cfg("uid")) || cfg("uidmix") || cfg("alienpid") || cfg("dying") || cfg("pidreuse", 30) >= 50;
    if (cfg("strictpid")) lenient = false;
    kills_left = (int)cfg("maxkills", 4);
    W->kill_dirty = cfg("killdirty");
    W->fault_mask = (u32)cfg("fmask", 0xffff);
    W->on_dead = [this](Proc *p, int st) { on_dead(p, st); };
    for (int i = 0; i < s.nprog; i++) { progs.emplace_back(new Prog); progs.back()->id = i; }
    for (size_t k = 0; k < s.ops.size(); k++) { int q = s.ops[k].prog; if (q >= 0 && q < s.nprog) progs[q]->ops.push_back((int)k); }
    Prog setup; setup.id = -1;
    std::vector<long> ia{cfg("iflags"), cfg("isz", 100), cfg("imm"), cfg("iapp")};
    bool pre = !create_mode || cfg("preinit");
    proc_spawn("setup", -1, [&] { cur()->f_off = true; if (pre) do_init(setup, ia, 99999); });
    sim_run();
    if (W->stop) return;
    if (pre) {
      if (inits[599999].rc != 0) { res.nontrivial = true; if (!cfg("fspages") ) violation("create", "creation of the ring failed"); else { probe("creation_without_space"); } return; }
      if (!create_mode) { Inode *i = k_lookup(path); if (!i) { violation("create", "no ring file after creation"); return; } add_ring(i, ia, inits[599999].appval, 599999); }
      if (cfg("disk") && cfg("syncfs", 1)) { for (auto &i : K->inodes) if (!i->dir) { i->durable.assign(i->mem(), i->mem() + i->size); std::fill(i->dirty.begin(), i->dirty.end(), 0); i->dlinked = true; } }
    }
    for (auto &g : progs) spawn(*g);
    for (;;) {
      sim_run();
      if (W->stop) return;
      quiescent_checks(exempt(), exempt());
      if (W->stop) return;
      if (!any_at_barrier() || phase > 60) break;
      phase++;
      long act = cfg(("act" + std::to_string(phase)).c_str());
      if (act == 1 || act == 2) reboot(act == 1);
      if (act == 3) reap();
      if (act == 4) W->fault_mask = 0;
    }
    // faults stop; a newcomer pokes and drains
    calm = true; W->fault_mask = 0; kills_left = 0; W->cfg.set("nofile", 1024); W->cfg.set("memlock", 0);
    for (int i = 0; i < NPROC; i++) if (Proc *p = W->slots[i]) { p->f_off = true; p->nofile = 1024; p->kill_at = 0; p->kill_on_block = false; }
    if (!create_mode || (!rings.empty() && k_lookup(path) && ring_of(k_lookup(path)) >= 0 && !k_lookup(path)->dir)) {
      bool cm = create_mode; (void)cm;
      progs.emplace_back(new Prog); Prog *a = progs.back().get(); a->id = s.nprog;
      a->p = proc_spawn("audit", s.nprog, [this, a] { auditor(*a); });
      sim_run();
      if (W->stop) return;
      // a newcomer that cannot open the ring cannot make up for a wake that a fault prevented
      poked_ring = ring_of(k_lookup(path));
      bool poked = a->h[0].open && a->h[1].open;
      if (!poked) probe("newcomer_cannot_open");
      quiescent_checks(!poked && exempt(), exempt());
      if (W->stop) return;
      missed = !poked && exempt();
      for (int k = 0; k < 120; k++) {
        u64 d = drained; u64 n = nops;
        auditor_round++;
        sim_run();
        if (W->stop) return;
        if (d == drained && nops == n + 1) break;
        // programs waiting at a barrier after the end of the phases
        if (any_at_barrier()) phase = std::max(phase, 1000);
      }
      auditor_round = 1000;
      sim_run();
      if (W->stop) return;
    }
    quiescent_checks(missed, exempt());
    res.nontrivial = nops >= 3 && W->switches >= 3;
  }
};
}

void run_ring(const Scenario &s, RunResult &r) {
  RingRun q(s, r);
  q.run();
  r.ops = q.nops;
  W->on_dead = nullptr;
}
