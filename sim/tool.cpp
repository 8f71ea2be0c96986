// The command-line tool as a simulated process: publisher, subscriber, tee, read and write, with simulated peers.
#include "scenario.h"
#include <cerrno>
#include <signal.h>
#include <sys/socket.h>
#include <sys/epoll.h>

namespace {
enum { M_PUB = 1, M_SUB, M_TEE, M_READ, M_WRITE, M_CHAIN, M_ONCE };
constexpr int PORT = 5000;
struct Rec { u64 seq; std::string d; };
// one invocation of the tool
struct Inv {
  Proc *p = nullptr; char kind = 0; std::shared_ptr<PipeBuf> in, out; long n = 0; bool block = false, signalled = false; u64 start = 0, end = 0; bool faulted = false;
  bool alive() const { return p && p->st != P_DEAD; }
  const Op *op = nullptr; bool returned = false, valid = true; std::string body, outfile; u64 faults0 = 0;
  int ret = 0; int rc() const { return returned ? ret : p && p->exited ? p->exit_code : -1; }
  bool killed() const { return !alive() && !returned && !(p && p->exited); }
  bool in_write() const { return alive() && p->st == P_BLOCK && !strcmp(p->why, "write"); }
};
struct TP { int id = 0; std::vector<int> ops; size_t pc = 0; Proc *p = nullptr; FileP conn; std::shared_ptr<Conn> c; shr *w[3] = {}, *r[3] = {}; bool waiting = false, draining = false, in_write = false; Inv *inv = nullptr; };
struct Made { bool exists = false; u64 n = 0, mm = 0, flags = 0, mu = 0; std::string app; u64 later = 0; };

struct ToolRun {
  const Scenario &s; RunResult &res;
  std::vector<std::unique_ptr<TP>> progs;
  std::vector<std::unique_ptr<Inv>> invs;
  std::vector<Rec> wr[3], rd[3];
  std::vector<std::string> taken;            // what a competing reader took from the tool's input ring
  std::map<std::string, Made> made;          // rings of the create command
  std::vector<u64> resets; std::vector<Rec> apps;
  std::string app0; u64 flags0 = 0;           // app data and mode of the first ring
  int mode = 0; bool prefix = true; int phase = 0; bool finale = false, closing = false; u64 nops = 0;
  u64 isz[3] = {}, imm[3] = {};
  // subscriber input: what the far end means to send
  std::vector<std::string> frames; std::string stream; u64 fed = 0; std::shared_ptr<Conn> feed_conn; bool feed_closed = false, feed_reset = false; FileP feed_file, listener;
  // standard input of the write command
  std::string text; u64 text_fed = 0; 
  ToolRun(const Scenario &sc, RunResult &r) : s(sc), res(r) {}
  long cfg(const char *k, long d = 0) { return s.cfg.get(k, d); }
  SutImage *img() { return image_of(cur()); }
  std::string rpath(int k) { return std::string("/ring/") + (char)('a' + k); }

  // ------------------------------------------------ harness processes on the rings
  shr *handle(TP &g, int ring, bool w) {
    shr *&h = w ? g.w[ring] : g.r[ring];
    if (!h) {
      cur()->owner = 2;
      char *pc = (char *)h_alloc(16); strcpy(pc, rpath(ring).c_str());
      h = img()->open(pc, w ? img()->sizes(21) : img()->sizes(20) | (ring == 2 && false ? 0 : 0));
      h_free(pc);
      if (!h) violation("tool", "a ring cannot be opened");
    }
    return h;
  }
  std::string msg(u64 uid, u64 len) { std::string d(len, 0); fill_msg(&d[0], uid, len); return d; }
  void ring_write(TP &g, int ring, const std::vector<std::string> &b) {
    Proc *p = cur(); shr *h = handle(g, ring, true);
    p->in_op = true; p->f_off = true; p->commits.clear(); p->owner = 2; p->waits = 0;
    struct iovec { void *b; size_t n; } *v = (struct iovec *)h_alloc(b.size() * sizeof *v);
    std::vector<void *> bufs;
    for (size_t k = 0; k < b.size(); k++) { void *x = h_alloc(b[k].size()); memcpy(x, b[k].data(), b[k].size()); bufs.push_back(x); v[k].b = x; v[k].n = b[k].size(); }
    ssize_t rc = b.size() == 1 ? img()->write(h, (char *)v[0].b, v[0].n) : img()->writev(h, (struct ::iovec *)v, b.size());
    if (rc <= 0) violation("tool", "a write to ring %c returned %zd", 'a' + ring, rc);
    u64 seq = p->commits.empty() ? W->seq : p->commits.back();
    for (auto &x : b) wr[ring].push_back(Rec{seq, x});
    for (void *x : bufs) h_free(x);
    h_free(v);
    p->in_op = false; done();
  }
  // one blocking read
  void ring_read(TP &g, int ring) {
    Proc *p = cur(); shr *h = handle(g, ring, false);
    p->in_op = true; p->f_off = true; p->commits.clear(); p->owner = 2;
    char *b = (char *)h_alloc(isz[ring]);
    ssize_t rc = img()->read(h, b, isz[ring]);
    if (rc <= 0) violation("tool", "a read from ring %c returned %zd", 'a' + ring, rc);
    u64 seq = p->commits.empty() ? W->seq : p->commits.back();
    rd[ring].push_back(Rec{seq, std::string(b, rc)});
    h_free(b);
    p->in_op = false; done();
  }
  // counters set to zero, app-data replaced
  void ring_reset(TP &g) {
    Proc *p = cur(); shr *h = handle(g, 0, true); auto z = img()->sizes;
    p->in_op = true; p->f_off = true; p->commits.clear(); p->owner = 2;
    shr_stat *st = (shr_stat *)h_alloc(z(0)); struct ::timeval *tv = (struct ::timeval *)h_alloc(sizeof *tv); tv->tv_sec = 1700000000; tv->tv_usec = 5;
    if (img()->stat(h, st, tv)) violation("tool", "statistics cannot be reset");
    resets.push_back(p->commits.empty() ? W->seq : p->commits.back());
    h_free(st); h_free(tv); p->in_op = false; done();
  }
  void ring_app(TP &g, u64 uid) {
    Proc *p = cur(); shr *h = handle(g, 0, true);
    if (app0.empty()) return;
    std::string v = msg(uid, app0.size());
    p->in_op = true; p->f_off = true; p->commits.clear(); p->owner = 2;
    char *b = (char *)h_alloc(v.size()); memcpy(b, v.data(), v.size()); size_t *sz = (size_t *)h_alloc(sizeof *sz); *sz = v.size();
    if (img()->appdata(h, nullptr, b, sz)) violation("tool", "app-data cannot be set");
    apps.push_back(Rec{p->commits.empty() ? W->seq : p->commits.back(), v});
    h_free(b); h_free(sz); p->in_op = false; done();
  }
  void done() { nops++; W->progress = W->steps; note(40); }
  static std::vector<const std::string *> sorted(std::vector<Rec> &v) {
    std::stable_sort(v.begin(), v.end(), [](const Rec &a, const Rec &b) { return a.seq < b.seq; });
    std::vector<const std::string *> r; for (auto &x : v) r.push_back(&x.d);
    return r;
  }

  // what was left to the tool: everything written to its input ring that no competitor took (contents are unique then)
  std::vector<const Rec *> input() {
    sorted(wr[0]);
    std::multiset<std::string> t(taken.begin(), taken.end());
    std::vector<const Rec *> r;
    for (auto &x : wr[0]) { auto i = t.find(x.d); if (i != t.end()) { t.erase(i); continue; } r.push_back(&x); }
    if (!t.empty()) bad("tool_content", "a competing reader got a message nobody wrote, or one twice");
    return r;
  }
  std::vector<const std::string *> inputs() { std::vector<const std::string *> r; for (auto *x : input()) r.push_back(&x->d); return r; }

  // ------------------------------------------------ the tool
  Inv *current() { for (auto &i : invs) if (i->alive()) return i.get(); return nullptr; }
  void file(const std::string &path, const std::string &c) {
    if (k_lookup(path)) k_unlink(path);
    Inode *i = k_create_file(path, c.size()); memcpy(i->mem(), c.data(), c.size()); std::fill(i->alloc.begin(), i->alloc.end(), 1);
  }
  static const char *mode_letters(long f, char *b) { char *q = b; for (int k = 0; k < 5; k++) if (f >> k & 1) *q++ = "dfksl"[k]; *q = 0; return b; }
  // a command that ends by itself
  void once_args(Inv *i, const Op &o, std::vector<std::string> &a) {
    std::string f = "/ring/f" + std::to_string(o.uid);
    i->op = &o;
    switch (i->kind) {
    case 'x': {
      long v = o.at(2); i->body = msg((u64)o.uid << 8, (u64)o.at(1)); std::string h;
      for (size_t k = 0; k < i->body.size(); k++) { char b[3]; snprintf(b, 3, v == 1 || (v == 2 && k & 1) ? "%02X" : "%02x", (unsigned char)i->body[k]); h += b; }
      if (v == 3) h.pop_back();
      if (v == 4) h[(size_t)o.at(3) % h.size()] = "gz -+x/:@`"[o.at(3) / 7 % 10];
      if (v == 5) h = "";
      i->valid = v < 3 && i->body.size() <= isz[0];
      a.insert(a.end(), {"writehex", h, rpath(0)}); break; }
    case 'l': {
      long v = o.at(2); i->body = msg((u64)o.uid << 8, (u64)o.at(1));
      if (v == 2) i->body.clear();
      if (v != 1) file(f, i->body);
      i->valid = v == 0 && i->body.size() <= isz[0];
      a.insert(a.end(), {"writefile", f, rpath(0)}); break; }
    case 'u':
      a.push_back("status");
      if (o.at(1)) { i->outfile = "/ring/o" + std::to_string(o.uid); if (o.at(1) == 2) file(i->outfile, std::string((size_t)o.at(2), 'Q')); a.push_back("-A"); a.push_back(i->outfile); }
      a.push_back(rpath(0)); break;
    case 'n': {
      // size, unit, flags, messages (-1: not given), app data (0 none, 1 file, 2 missing, 3 empty), its length, rings
      char b[40]; const char *u[] = {"", "k", "K", "m", "g", "G", "M", "t"};
      snprintf(b, sizeof b, "%ld%s", o.at(1), u[o.at(2) & 7]);
      a.insert(a.end(), {"create", "-s", b});
      if (o.at(3)) { char m[8]; mode_letters(o.at(3), m); if (o.at(3) & 64) { for (char *q = m; *q; q++) { a.push_back("-m"); a.push_back(std::string(1, *q)); } } else if (*m) { a.push_back("-m"); a.push_back(m); } }
      if (o.at(4) >= 0) { a.push_back("-N"); a.push_back(std::to_string(o.at(4))); }
      if (o.at(5)) { i->body = msg((u64)o.uid << 8, (u64)o.at(6)); if (o.at(5) != 2) file(f, o.at(5) == 3 ? "" : i->body); a.push_back("-A"); a.push_back(f); }
      i->valid = o.at(1) > 0 && o.at(5) < 2;
      for (size_t k = 7; k < o.a.size(); k++) a.push_back(std::string("/ring/") + (char)('k' + o.at(k)));
      break; }
    }
  }
  Made spec(const Op &o, const Inv &i) {
    Made m; m.exists = true; static const int sh[] = {0, 10, 10, 20, 30, 30, 20, 40}; m.n = (u64)o.at(1) << sh[o.at(2) & 7];
    m.mm = o.at(4) > 0 ? (u64)o.at(4) : 100 + m.n / 100;
    auto z = image_of(nullptr == cur() ? i.p : cur())->sizes; long f = o.at(3);
    if (f & 1) m.flags |= z(11);
    if (f & 2) m.flags |= z(13) | z(11);
    if (f & 8) m.flags |= z(15);
    if (f & 16) m.flags |= z(16);
    if (o.at(5) == 1) m.app = i.body;
    return m;
  }
  // compares a ring with what it may be; writes a message into it
  void verify(TP &g) {
    Inv *i = g.inv; if (!i || i->kind != 'n') return;
    const Op &o = *i->op; Proc *p = cur(); p->f_off = true; p->owner = 2;
    bool ok = i->returned && i->rc() == 0, clean = !i->faulted && !i->killed();
    if (clean && i->valid && !ok && o.at(2) != 7) { violation("tool_create", "the create command failed"); return; }
    if (ok && !i->valid) { violation("tool_create", "the create command reports success although it cannot have succeeded"); return; }
    Made want = spec(o, *i); bool keep = o.at(3) & 4;
    for (size_t k = 7; k < o.a.size(); k++) {
      std::string path = std::string("/ring/") + (char)('k' + o.at(k));
      Made old = made[path]; Inode *ino = k_lookup(path); bool dup = false;
      for (size_t q = 7; q < k; q++) dup |= o.at(q) == o.at(k);
      if (dup) continue;
      if (!i->valid && (ino != nullptr) != old.exists) { violation("tool_create", "a create command with invalid arguments %s a ring", ino ? "made" : "removed"); return; }
      if (keep && old.exists && !ino) { violation("tool_create", "a ring that was to be kept is gone"); return; }
      if (!ino) { if (ok) { violation("tool_create", "the create command reports success but a ring is missing"); return; } made[path] = Made(); continue; }
      Made now; std::string err = look(path, now);
      if (!err.empty()) { violation("tool_create", "%s", err.c_str()); return; }
      bool may_old = old.exists && (keep || !ok || !i->valid), may_new = i->valid && !(keep && old.exists);
      bool is_old = may_old && same(now, old), is_new = may_new && same(now, want);
      if (!is_old && !is_new) { violation("tool_create", "the ring is not what was asked for: %s", (old.exists && keep ? diff(now, old) : diff(now, want)).c_str()); return; }
      made[path] = now; made[path].mu = now.later;
    }
  }
  static bool same(const Made &a, const Made &b) { return a.n == b.n && a.mm == b.mm && a.flags == b.flags && a.mu == b.mu && a.app == b.app; }
  static std::string diff(const Made &a, const Made &b) {
    char t[300]; snprintf(t, sizeof t, "size %llu (%llu), messages %llu (%llu), flags %llx (%llx), unread %llu (%llu), app data %zu bytes (%zu)%s", (unsigned long long)a.n, (unsigned long long)b.n, (unsigned long long)a.mm, (unsigned long long)b.mm,
      (unsigned long long)a.flags, (unsigned long long)b.flags, (unsigned long long)a.mu, (unsigned long long)b.mu, a.app.size(), b.app.size(), a.app.size() == b.app.size() && a.app != b.app ? " of other content" : "");
    return t;
  }
  std::string look(const std::string &path, Made &m) {
    cur()->owner = 2; auto z = img()->sizes;
    char *pc = (char *)h_alloc(path.size() + 1); strcpy(pc, path.c_str());
    shr *h = img()->open(pc, (unsigned)(z(21) | z(22)));
    h_free(pc);
    if (!h) return "a ring left by the create command cannot be opened";
    shr_stat *st = (shr_stat *)h_alloc(z(0)); u64 f[16] = {};
    int rc = img()->stat(h, st, nullptr); img()->stat_fields(st, (unsigned long long *)f); h_free(st);
    if (rc) return "statistics of a created ring are not available";
    m.exists = true; m.n = f[7]; m.mm = f[10]; m.mu = f[9]; m.flags = f[14];
    size_t *sz = (size_t *)h_alloc(sizeof(size_t)); void **pp = (void **)h_alloc(sizeof(void *)); *sz = 0; *pp = nullptr;
    rc = img()->appdata(h, pp, nullptr, sz);
    if (rc == 0) { m.app.assign((char *)*pp, *sz); h_free(*pp); }
    h_free(sz); h_free(pp);
    char *x = (char *)h_alloc(1); *x = 'm'; ssize_t w = img()->write(h, x, 1); h_free(x);
    if (w != 1) { if (!(m.mu >= m.mm || m.mu >= m.n)) return "a created ring does not take a message"; }
    st = (shr_stat *)h_alloc(z(0)); f[9] = 0; rc = img()->stat(h, st, nullptr); img()->stat_fields(st, (unsigned long long *)f); h_free(st); m.later = f[9];
    img()->close(h);
    return "";
  }
  // the counters a status query may show: those of one instant while it ran
  void check_status(Inv *i, bool fin) {
    (void)fin;
    if (!i->p || i->alive()) return;
    bool clean = !i->faulted && !i->killed();
    if (i->killed()) return;
    int rc = i->rc();
    if (clean && rc) { bad("tool_status", "the status command failed"); return; }
    if (rc) return;
    if (!i->outfile.empty() && !app0.empty()) {
      Inode *f = k_lookup(i->outfile);
      std::stable_sort(apps.begin(), apps.end(), [](const Rec &a, const Rec &b) { return a.seq < b.seq; });
      bool ok = f && (apps.empty() || apps[0].seq >= i->start) && f->size == app0.size() && !memcmp(f->mem(), app0.data(), app0.size());
      for (size_t k = 0; k < apps.size(); k++) if (f && apps[k].seq <= i->end && (k + 1 == apps.size() || apps[k + 1].seq >= i->start)) ok |= f->size == app0.size() && !memcmp(f->mem(), apps[k].d.data(), app0.size());
      if (!ok) { bad("tool_status", "the status command reports success but its copy of the app-data is not the app-data"); return; }
    }
    if (i->out->fails) { bad("tool_status", "the status command reports success but its output failed"); return; }
    unsigned long long v[10]; size_t al = 0; int used = 0;
    const std::string &t = i->out->log;
    int k = sscanf(t.c_str(), " bytes-written %llu bytes-read %llu bytes-dropped %llu messages-written %llu messages-read %llu messages-dropped %llu ring-size %llu bytes-ready %llu max-messages %llu messages-ready %llu attributes%n", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8, v + 9, &used);
    if (k != 10 || !used) { bad("tool_status", "the status command does not print the counters"); return; }
    std::string rest = t.substr(used); size_t nl = rest.find('\n'); std::string attr = " " + rest.substr(0, nl) + " ";
    auto z = image_of(i->p)->sizes;
    auto has = [&](const char *w) { return attr.find(std::string(" ") + w + " ") != std::string::npos; };
    if (has("drop") != !!(flags0 & z(11)) || has("farm") != !!(flags0 & z(13)) || has("mlock") != !!(flags0 & z(16)) || has("sync") != !!(flags0 & z(15)) || has("none") != !flags0) { bad("tool_status", "the status command prints wrong attributes:" + attr); return; }
    if (nl == std::string::npos || sscanf(rest.c_str() + nl, " app-data %zu", &al) != 1 || al != app0.size()) { bad("tool_status", "the status command prints a wrong size of the app-data"); return; }
    if (v[6] != isz[0] || v[8] != imm[0]) { bad("tool_status", "the status command prints a wrong capacity"); return; }
    struct E { u64 seq; const Rec *w, *r; };
    std::vector<E> ev; for (auto &x : wr[0]) ev.push_back({x.seq, &x, nullptr}); for (auto &x : rd[0]) ev.push_back({x.seq, nullptr, &x});
    for (u64 x : resets) ev.push_back({x, nullptr, nullptr});
    std::stable_sort(ev.begin(), ev.end(), [](const E &a, const E &b) { return a.seq < b.seq; });
    u64 bw = 0, br = 0, bd = 0, mw = 0, mr = 0, md = 0, bu = 0, mu = 0; std::deque<u64> q; bool drop = flags0 & z(11);
    u64 from = 0;                                                  // the state holds from here on
    for (size_t e = 0; e <= ev.size();) {
      u64 till = e < ev.size() ? ev[e].seq : ~0ull;
      if (till >= i->start && from <= i->end && v[0] == bw && v[1] == br && v[2] == bd && v[3] == mw && v[4] == mr && v[5] == md && v[7] == bu && v[9] == mu) return;
      if (e == ev.size()) break;
      u64 sq = ev[e].seq, tot = 0, c = 0;
      if (!ev[e].r && !ev[e].w) { bw = br = bd = mw = mr = md = 0; e++; }
      else if (ev[e].r) { br += ev[e].r->d.size(); mr++; bu -= ev[e].r->d.size(); mu--; if (!q.empty()) q.pop_front(); e++; }
      else {
        std::vector<u64> b; while (e < ev.size() && ev[e].w && ev[e].seq == sq) { b.push_back(ev[e].w->d.size()); tot += b.back(); c++; e++; }
        while (drop && !q.empty() && (bu + tot > isz[0] || mu + c > imm[0])) { bd += q.front(); md++; bu -= q.front(); mu--; q.pop_front(); }
        for (u64 x : b) q.push_back(x);
        bw += tot; mw += c; bu += tot; mu += c;
      }
      from = sq;
    }
    bad("tool_status", "the status command prints counters the ring never had while it ran");
  }
  void check_once(bool fin) {
    for (auto &i : invs) {
      if (i->kind == 'u') { check_status(i.get(), fin); if (W->stop) return; }
      if (fin && i->alive()) { bad("tool_exit", "a command does not end although nothing holds it up"); return; }
    }
    if (cfg("once") != 1) return;
    struct X { u64 from, to; int min, max; };
    std::multimap<std::string, X> want;
    for (auto &x : wr[0]) want.emplace(x.d, X{x.seq, x.seq, 1, 1});
    for (auto &i : invs) {
      if (i->kind != 'x' && i->kind != 'l') continue;
      if (!i->p || i->alive()) { if (i->valid) want.emplace(i->body, X{i->start, ~0ull, 0, 1}); continue; }
      bool ok = !i->killed() && i->rc() == 0, clean = !i->faulted && !i->killed();
      if (ok && !i->valid) { bad("tool_write", "a write command reports success although its argument cannot be stored"); return; }
      if (clean && i->valid && !ok) { bad("tool_write", "a write command failed"); return; }
      if (i->valid && (ok || i->killed())) want.emplace(i->body, X{i->start, i->end, ok ? 1 : 0, 1});
    }
    auto got = sorted(rd[0]); u64 latest = 0;
    std::vector<X> seen;
    for (auto *g : got) {
      auto w = want.find(*g);
      if (w == want.end()) { bad("tool_content", "the ring holds a message that nobody wrote, or one twice (" + std::to_string(g->size()) + " bytes)"); return; }
      seen.push_back(w->second); want.erase(w);
    }
    for (auto &x : seen) { if (x.to < latest) { bad("tool_order", "messages are not in the order they were written in"); return; } latest = std::max(latest, x.from); }
    if (fin) for (auto &w : want) if (w.second.min) { bad("tool_lost", "a message stored by a write command is not in the ring"); return; }
  }

  void start_tool(char kind, long n, bool block, const Op *op = nullptr, TP *by = nullptr) {
    std::vector<std::string> a{"shr-tool"};
    std::string port = std::to_string(PORT), hostport = "localhost:" + port;
    switch (kind) {
    case 'p': a.insert(a.end(), {"pub", (cfg("host") ? hostport : port)}); if (!prefix) a.push_back("-P"); a.push_back(rpath(0)); break;
    case 's': a.insert(a.end(), {"sub", hostport, rpath(mode == M_CHAIN ? 1 : 0)}); break;
    case 't': a.insert(a.end(), {"tee", rpath(0), rpath(1), rpath(2)}); break;
    case 'h': case 'r': a.push_back(kind == 'r' ? "read" : "readhex"); if (block) a.push_back("-b"); if (n) { a.push_back("-N"); a.push_back(std::to_string(n)); } a.push_back(rpath(0)); break;
    case 'w': a.insert(a.end(), {"write", rpath(0)}); break;
    }
    invs.emplace_back(new Inv); Inv *i = invs.back().get();
    if (by) by->inv = i;
    i->kind = kind; if (mode == M_ONCE) once_args(i, *op, a);
    i->kind = kind; i->n = n; i->block = block; i->start = ++W->seq;
    i->in = std::make_shared<PipeBuf>(); i->out = std::make_shared<PipeBuf>();
    i->out->cap = (u64)cfg("outcap", 65536);
    i->in->cap = 1 << 30;
    W->deferred.push_back([this, i, a] {
      i->p = proc_spawn(std::string("tool:") + i->kind, 20 + (int)invs.size(), [this, i, a] {
        Proc *p = cur();
        FileP fi = std::make_shared<File>(), fo = std::make_shared<File>();
        fi->type = T_PIPE_R; fi->pipe = i->in; fi->num = 80000; fo->type = T_PIPE_W; fo->pipe = i->out; fo->num = 80001;
        p->fds[0] = fi; p->fd_owner[0] = 0; p->fds[1] = fo; p->fd_owner[1] = 0;
        p->owner = 1;
        char **av = (char **)h_alloc((a.size() + 1) * sizeof(char *));
        for (size_t k = 0; k < a.size(); k++) { av[k] = (char *)h_alloc(a[k].size() + 1); memcpy(av[k], a[k].c_str(), a[k].size() + 1); }
        av[a.size()] = nullptr;
        p->in_op = true;
        if (cfg("fault") && i->kind != 'h') {
          p->f_nth = decide(K_FNTH, 60, [&](Rng &r) { return r.chance(cfg("fault") / 100.0) ? r.logrange(1, 60) : 0; });
          p->f_sel = decide(K_FSEL, 60, [&](Rng &r) { return (int)r.below(8); });
        } else p->f_off = true;
        int rc = img()->tool_main((int)a.size(), av);
        i->returned = true; i->ret = rc;
        k_exit_flush();
        p->in_op = false; p->exit_code = rc;
        vlog("tool returns %d", rc);
      });
      i->p->weight = (int)cfg("wtool", 10);
    });
  }
  void on_dead(Proc *p, int st) { if (st == 1) for (auto &i : invs) if (i->p == p) { i->end = ++W->seq; i->faulted = p->faults_fired; if (p->exit_code >= 128 && !i->signalled) i->end = i->end; } }

  // ------------------------------------------------ programs
  void wait_or_phase(TP &g, std::function<bool()> pr) {
    int ph = phase; g.waiting = true;
    idle_until([=] { return pr() || phase > ph || finale; });
    g.waiting = false;
  }
  void client_read(TP &g, u64 n) {
    ConnEnd &e = g.c->e[0];
    u64 c = std::min<u64>(n, e.rx.size());
    e.rx.erase(e.rx.begin(), e.rx.begin() + c);
    note(41, c); W->progress = W->steps;
  }
  void drop_conn(TP &g, bool rst) { if (!g.c) return; k_conn_close(g.c.get(), 0, rst); g.c.reset(); g.conn.reset(); note(42, rst); }
  void feed(u64 n) {
    while (n && feed_conn && fed < stream.size()) {
      // the tool's end is 0, this end is 1
      ConnEnd &o = feed_conn->e[0], &m = feed_conn->e[1];
      if (m.reset || o.closed) return;
      int ph = phase;
      if (o.rx.size() >= o.cap) {
        Conn *c = feed_conn.get(); TP *g = nullptr;
        for (auto &x : progs) if (x->p == cur()) g = x.get();
        if (g) g->waiting = true;
        idle_until([=] { return c->e[0].rx.size() < c->e[0].cap || c->e[0].closed || phase > ph || finale; });
        if (g) g->waiting = false;
        if (c->e[0].rx.size() >= c->e[0].cap) return;
        continue;
      }
      u64 k = std::min<u64>({n, o.cap - o.rx.size(), stream.size() - fed});
      o.arr++; o.rx.insert(o.rx.end(), stream.begin() + fed, stream.begin() + fed + k);
      fed += k; n -= k; W->progress = W->steps;
      note(43, k);
    }
  }
  void exec(TP &g, const Op &o) {
    sim_point(2);
    switch (o.k) {
    case 'B': { int ph = (int)o.at(0); g.waiting = true; idle_until([=] { return phase >= ph || finale; }); g.waiting = false; return; }
    case 'T': if (mode == M_ONCE) {
      Inv *j = g.inv; if (j) wait_or_phase(g, [=] { return j->p && !j->alive(); });
      if ((j && j->alive()) || finale) return;
      start_tool((char)o.at(0), 0, false, &o, &g); Inv *i = g.inv; idle_until([=] { return i->p != nullptr; }); return; }
      { if (mode == M_CHAIN && o.at(0) == 's') idle_until([this] { auto i = K->listeners.find(PORT); return i != K->listeners.end() && !i->second.expired(); }); else if (current()) { Inv *i = current(); wait_or_phase(g, [=] { return !i->alive(); }); if (current() && mode != M_CHAIN) return; } if (finale) return;
      start_tool((char)o.at(0), o.at(1), o.at(2)); Inv *i = invs.back().get(); idle_until([=] { return i->p != nullptr; }); return; }
    case 'G': { Inv *i = current(); if (!i || i->kind == 'w') return; i->signalled = true; i->p->sig_pending |= 1ull << ((o.at(0) ? SIGINT : SIGTERM) - 1); fired("signal_to_tool"); note(44); return; }
    case 'W': { std::vector<std::string> b; u64 tot = 0; bool uniq = cfg("compete");
      for (size_t k = 1; k < o.a.size(); k++) { u64 l = uniq ? std::max(4l, o.at(k)) : (u64)o.at(k); if (uniq && tot + l > isz[0] && k > 1) break; tot += l; b.push_back(msg((u64)o.uid << 8 | k, l)); } ring_write(g, (int)o.at(0), b); return; }
    case 'R': for (long k = 0; k < o.at(1); k++) ring_read(g, (int)o.at(0)); return;
    case 'Y': { Inv *j = g.inv; if (!j) return; wait_or_phase(g, [=] { return j->p && !j->alive(); }); if (!j->alive()) verify(g); return; }
    case 'U': {                                    // suspend and resume: ends a wait of epoll or poll
      std::vector<Inv *> v; for (auto &i : invs) if (i->alive() && i->p->st == P_BLOCK && (!strcmp(i->p->why, "epoll_wait") || !strcmp(i->p->why, "poll"))) v.push_back(i.get());
      if (v.empty()) return;
      v[(size_t)o.at(0) % v.size()]->p->resumed = true; fired("suspend_resume"); return; }
    case 'Z': ring_reset(g); return;
    case 'A': ring_app(g, (u64)o.uid << 8); return;
    case 'k': { Inv *j = progs[(size_t)o.at(0) % s.nprog]->inv; if (j && j->alive() && j->kind != 'n' && !finale) proc_kill(j->p); return; }
    case 'K': for (long k = 0; k < o.at(0); k++) { ring_read(g, 0); taken.push_back(rd[0].back().d); } return;
    case 'D': for (;;) ring_read(g, (int)o.at(0)); return;
    // TCP client
    case 'c': {
      if (g.c) return;
      wait_or_phase(g, [this] { auto i = K->listeners.find(PORT); return i != K->listeners.end() && !i->second.expired(); });
      g.conn = k_tcp_connect(PORT); if (g.conn) g.c = g.conn->conn; return;
    }
    case 'r': { if (!g.c) return; auto c = g.c; u64 n = (u64)o.at(0); while (n) { wait_or_phase(g, [=] { return !c->e[0].rx.empty() || c->e[0].eof || c->e[0].reset; }); u64 k = std::min<u64>(n, c->e[0].rx.size()); if (!k) return; client_read(g, k); n -= k; sim_point(3); } return; }
    case 'q': { if (!g.c) return; auto c = g.c; g.draining = true; for (;;) { idle_until([=] { return !c->e[0].rx.empty() || c->e[0].eof || c->e[0].reset || closing; }); if (c->e[0].rx.empty()) break; client_read(g, 1 << 20); } g.draining = false; drop_conn(g, false); return; }
    case 'x': drop_conn(g, o.at(0)); return;
    case 'j': if (g.c && !g.c->e[1].closed) { for (long k = 0; k < o.at(0); k++) if (g.c->e[1].rx.size() < g.c->e[1].cap) { g.c->e[1].rx.push_back((char)k); g.c->e[1].arr++; } note(45); } return;
    // TCP server
    case 'a': { if (feed_conn || !listener) return; wait_or_phase(g, [this] { return !listener->backlog.empty(); }); if (listener->backlog.empty()) return; feed_conn = listener->backlog.front(); listener->backlog.pop_front(); feed_conn->accepted = true; note(46); return; }
    case 'f': if (feed_conn && !feed_closed) feed(o.at(0) ? (u64)o.at(0) : ~0ull); return;
    case 'X': if (feed_conn && !feed_closed) { feed_closed = true; feed_reset = o.at(0); k_conn_close(feed_conn.get(), 1, o.at(0)); note(47); } return;
    // standard streams
    case 'i': { Inv *i = current(); if (!i || i->kind != 'w' || i->in->weof) return; u64 k = std::min<u64>((u64)o.at(0), text.size() - text_fed); i->in->q.insert(i->in->q.end(), text.begin() + text_fed, text.begin() + text_fed + k); i->in->log.append(text, text_fed, k); text_fed += k; note(48, k); return; }
    case 'e': { Inv *i = current(); if (!i || i->in->weof) return; i->in->weof = true; note(49); return; }
    case 'o': { Inv *i = current(); if (!i) return; u64 n = (u64)o.at(0); while (n) { wait_or_phase(g, [=] { return !i->out->q.empty() || !i->alive(); }); u64 k = std::min<u64>(n, i->out->q.size()); if (!k) return; i->out->q.erase(i->out->q.begin(), i->out->q.begin() + k); n -= k; note(50, k); sim_point(3); } return; }
    case 'd': { for (;;) { idle_until([=] { Inv *i = current(); return closing || (i && !i->out->q.empty()); }); Inv *i = current(); if (!i || i->out->q.empty()) return; note(51, i->out->q.size()); i->out->q.clear(); W->progress = W->steps; } }
    case 'E': { Inv *i = current(); if (!i) return; if (o.at(0)) i->out->werr = o.at(0) == 1 ? ENOSPC : EIO; else i->out->rgone = true; note(52); fired("output_breaks"); return; }
    }
  }

  // ------------------------------------------------ checks
  struct Match { size_t end; size_t part; bool ok; std::string why; };
  Match match(const std::string &S, const std::vector<const std::string *> &M, size_t from, bool pre, size_t max) {
    size_t o = 0, i = from;
    while (o < S.size()) {
      if (i >= M.size()) return {i, 0, false, "carries bytes beyond the last message"};
      if (i - from >= max) return {i, 0, false, "carries more messages than asked for"};
      std::string f; if (pre) { u32 l = (u32)M[i]->size(); f.assign((char *)&l, 4); }
      f += *M[i];
      size_t c = std::min(f.size(), S.size() - o);
      if (S.compare(o, c, f, 0, c)) return {i, 0, false, "carries wrong bytes at offset " + std::to_string(o) + " (message " + std::to_string(i - from + 1) + " of this stream)"};
      if (c < f.size()) return {i, c, true, ""};
      o += c; i++;
    }
    return {i, 0, true, ""};
  }
  void bad(const char *cls, const std::string &m) { W->cur = nullptr; violation(cls, "%s", m.c_str()); }
  bool starts(const std::string &what, const std::vector<const std::string *> &got, const std::vector<const std::string *> &want, size_t off = 0) {
    if (got.size() > want.size() - std::min(off, want.size())) { bad("tool_content", what + ": more messages than were sent"); return false; }
    for (size_t k = 0; k < got.size(); k++) if (*got[k] != *want[off + k]) { bad("tool_content", what + ": message " + std::to_string(k + 1) + " is not the one that was sent"); return false; }
    return true;
  }
  // whether the tool may have ended
  void check_alive() {
    for (auto &i : invs) if (i->p && !i->alive() && !i->signalled) {
      bool ok = i->kind == 'r' || i->kind == 'h' || i->kind == 'w' || (i->kind == 's' && (feed_closed || mode == M_CHAIN)) ;
      if (!ok) { bad("tool_exit", std::string("the ") + (i->kind == 'p' ? "publisher" : i->kind == 't' ? "tee command" : "subscriber") + " ended although nobody stopped it"); return; }
    }
  }
  void check_pub(bool remain, const std::vector<const std::string *> &R) {
    auto M = inputs(); if (W->stop) return;
    // open connections
    int open = 0;
    std::vector<Conn *> cs;
    for (auto &c : K->conns) if (c->accepted) { if (!c->e[1].closed && current()) open++; cs.push_back(c.get()); }
    if (open > 1) { bad("tool_client", "the publisher holds more than one client connection"); return; }
    std::sort(cs.begin(), cs.end(), [](Conn *a, Conn *b) { return a->acc_seq < b->acc_seq; });
    std::set<size_t> cand{0};
    Conn *live = nullptr; Inv *t = current();
    for (Conn *c : cs) {
      if (c->second && c->sent[1].empty()) { if (!c->e[1].closed && t && !c->e[0].closed) { live = c; continue; } continue; }
      if (c->second && !c->sent[1].empty()) {
        bool other = false; for (Conn *d : cs) if (d != c && !d->second && d->acc_seq < c->acc_seq && !d->e[1].closed) other = true;
        if (other) { bad("tool_client", "a second simultaneous client was sent data"); return; }
      }
      std::set<size_t> nc; std::string why;
      for (size_t f : cand) {
        Match m = match(c->sent[1], M, f, prefix, ~0ull);
        if (!m.ok) { why = m.why; continue; }
        bool broke = c->fails[1] || c->broken || c->e[1].reset || c->e[0].closed;
        bool stuck = !c->e[1].closed && t && t->in_write();
        if (m.part) { if (!broke && !stuck) { why = "ends inside a message"; continue; } nc.insert(m.end + 1); }
        else { nc.insert(m.end); if ((broke || stuck) && m.end < M.size()) nc.insert(m.end + 1); }
      }
      if (nc.empty()) { bad("tool_stream", "the stream of client connection " + std::to_string(c->id) + " " + why); return; }
      cand = nc;
      if (!c->e[1].closed && t) live = c;
      if (c->e[1].closed && !c->second && !c->e[0].closed && !c->broken && !c->e[0].eof ) {}
    }
    for (Conn *c : cs) if (!c->second && c->e[1].closed && !c->e[0].closed && !c->broken && !c->fails[1]) {
      bool ended = true; for (auto &i : invs) if (i->kind == 'p' && i->alive() && i->start < c->acc_seq) ended = false;
      if (!ended) { bad("tool_client", "the publisher closed the connection of a client that was still there"); return; }
    }
    if (remain) {
      bool ok = false;
      for (size_t f : cand) if (f + R.size() == M.size()) { ok = true; for (size_t k = 0; k < R.size(); k++) if (*R[k] != *M[f + k]) ok = false; }
      if (!ok) { bad("tool_lost", "what is left in the ring does not continue where the clients' streams end"); return; }
      return;
    }
    // progress
    if (t && t->p->st == P_BLOCK && live && !live->e[0].closed && !live->e[0].eof && !t->in_write()) {
      if (!cand.count(M.size())) { bad("tool_progress", "messages stay in the ring although a client is connected and reading"); return; }
    }
    if (t && t->in_write() && live && !live->e[0].closed && live->e[0].rx.size() < live->e[0].cap) { bad("tool_progress", "the publisher waits although its client accepts data"); return; }
    if (t && t->p->st == P_BLOCK && !t->in_write()) {
      auto l = K->listeners.find(PORT); FileP lf = l == K->listeners.end() ? nullptr : l->second.lock();
      if (!lf || !lf->backlog.empty()) { bad("tool_client", "the publisher does not accept a client that is connecting"); return; }
      for (Conn *c : cs) if (!c->second && !c->e[1].closed && c->e[0].closed) { bad("tool_client", "the publisher keeps the connection of a client that is gone"); return; }
    }
  }
  void check_quiet(bool fin) {
    if (W->stop) return;
    for (int k = 0; k < NPROC; k++) { Proc *p = W->slots[k]; if (p && p->st == P_BLOCK && !p->idle && !strcmp(p->why, "fcntl")) { bad("deadlock", p->name + " waits for the ring lock forever"); return; } }
    if (mode == M_ONCE) { check_once(fin); return; }
    check_alive(); if (W->stop) return;
    Inv *t = current();
    switch (mode) {
    case M_PUB: check_pub(false, {}); break;
    case M_SUB: {
      std::vector<const std::string *> F; u64 o = 0; for (auto &f : frames) { o += 4 + f.size(); if (o > fed) break; F.push_back(&f); }
      auto got = sorted(rd[0]);
      if (!starts("ring written by the subscriber", got, F)) return;
      if (fin && !feed_reset) {
        bool any = feed_conn != nullptr;
        if (any && got.size() != F.size() && !signalled()) { bad("tool_progress", "the subscriber has not stored " + std::to_string(F.size() - got.size()) + " complete frame(s)"); return; }
        if (t && feed_closed && t->p->st == P_BLOCK && !t->signalled && any) { bad("tool_exit", "the subscriber does not notice the end of its stream"); return; }
      }
      break;
    }
    case M_CHAIN: {
      auto M = sorted(wr[0]); auto got = sorted(rd[1]);
      if (!starts("ring written by the subscriber", got, M)) return;
      if (fin) { bool s = false; for (auto &i : invs) if (i->kind == 's' && i->alive()) s = true; if (s && got.size() != M.size()) { bad("tool_progress", "messages did not arrive through publisher and subscriber"); return; } }
      break;
    }
    case M_TEE: {
      auto M = inputs(); if (W->stop) return;
      auto g1 = sorted(rd[1]), g2 = sorted(rd[2]);
      if (!starts("first output of tee", g1, M) || !starts("second output of tee", g2, M)) return;
      if (fin && t) {
        if (g1.size() != M.size() || g2.size() != M.size()) { bad("tool_progress", "tee did not deliver every message to both outputs"); return; }
      }
      if (fin && !invs.empty() && g1.size() != g2.size()) { bad("tool_lost", "tee delivered a message to one output only"); return; }
      break;
    }
    case M_READ: check_read(false, {}, fin); break;
    case M_WRITE: {
      std::vector<std::string> L; std::vector<const std::string *> LP;
      for (auto &i : invs) { std::string l; for (char c : i->in->log) if (c == '\n') { if (!l.empty()) L.push_back(l); l.clear(); } else l.push_back(c); if (i->in->weof && !l.empty()) L.push_back(l); }
      for (auto &l : L) LP.push_back(&l);
      auto got = sorted(rd[0]);
      if (!starts("ring written by the write command", got, LP)) return;
      if (fin) {
        if (got.size() != LP.size()) { bad("tool_progress", "the write command has not stored " + std::to_string(LP.size() - got.size()) + " line(s)"); return; }
        for (auto &i : invs) { if (i->alive() && i->in->weof) { bad("tool_exit", "the write command does not end at the end of its input"); return; } }
      }
      for (auto &i : invs) if (i->p && !i->alive() && !i->in->weof) { bad("tool_exit", "the write command ended before the end of its input"); return; }
      break;
    }
    }
  }
  bool signalled() { for (auto &i : invs) if (i->signalled) return true; return false; }
  static std::string hexdump(const std::string &m) {
    std::string t; char b[16];
    for (size_t o = 0; o < m.size(); o += 16) {
      std::string line = m.substr(o, 16), right = line; snprintf(b, sizeof b, "%08x ", (unsigned)o); t += b;
      for (unsigned char c : line) { snprintf(b, sizeof b, "%02x ", c); t += b; }
      t.append(3 * (16 - line.size()), ' ');
      for (char &c : right) if (c < 32 || c > 126) c = '.';
      right.resize(16, ' '); t += right + "\n";
    }
    return t;
  }
  void check_read(bool remain, const std::vector<const std::string *> &R, bool fin) {
    auto I = input(); if (W->stop) return;
    auto M = inputs();
    std::vector<std::string> H; std::vector<const std::string *> HM;
    std::set<size_t> cand{0};
    for (auto &i : invs) {
      if (!i->p) continue;
      std::set<size_t> nc; std::string why;
      bool failed = i->out->fails > 0, stuck = i->in_write();
      size_t N = i->n ? (size_t)i->n : ~0ull;
      bool hex = i->kind == 'h'; std::string text;
      if (hex) {                                    // what is still in the command's output buffer counts as written
        if (H.empty()) { for (auto *x : M) H.push_back(hexdump(*x)); for (auto &x : H) HM.push_back(&x); }
        text = i->out->log; size_t id = (size_t)i->p->id; if (id < K->stdout_of.size() && i->alive()) text += K->stdout_of[id];
      }
      for (size_t f : cand) {
        Match m = match(hex ? text : i->out->log, hex ? HM : M, f, false, N);
        if (!m.ok) { why = m.why; continue; }
        bool mid = i->alive() && i->p->st != P_BLOCK;
        if (m.part) { if (!failed && !stuck && !mid) { why = "ends inside a message although no write failed"; continue; } nc.insert(m.end + 1); continue; }
        if (!failed && !stuck && !i->alive() && !i->signalled) {
          if (m.end - f < N) {
            if (i->block) { why = "ends although more messages were asked for"; continue; }
            if (m.end < M.size() && I[m.end]->seq < i->start) { why = "ends although the ring is not empty"; continue; }
          }
        }
        if (!failed && !stuck && i->alive() && i->p->st == P_BLOCK) {
          if (m.end - f >= N) { why = "has all it was asked for but the command does not end"; continue; }
          if (!i->block) { why = "is complete but the command does not end"; continue; }
          if (m.end < M.size()) { why = "stops although messages are waiting in the ring"; continue; }
        }
        nc.insert(m.end);
        if ((failed || stuck) && m.end < M.size() && m.end - f < N) nc.insert(m.end + 1);
      }
      if (nc.empty()) { bad("tool_output", "the output of the read command " + why); return; }
      if (stuck && i->out->q.size() < i->out->cap && !i->out->rgone && !i->out->werr) { bad("tool_progress", "the read command waits although its output accepts data"); return; }
      if (fin && stuck) { bad("tool_progress", "the read command waits for its output forever"); return; }
      cand = nc;
    }
    if (remain) {
      bool ok = false;
      for (size_t f : cand) if (f + R.size() == M.size()) { ok = true; for (size_t k = 0; k < R.size(); k++) if (*R[k] != *M[f + k]) ok = false; }
      if (!ok) bad("tool_lost", "what is left in the ring does not continue where the output of the read command ends");
    }
  }

  void spawn(TP &g) {
    TP *gp = &g;
    g.p = proc_spawn("P" + std::to_string(g.id), g.id, [this, gp] {
      while (gp->pc < gp->ops.size() && !finale) { const Op &o = s.ops[gp->ops[gp->pc++]]; exec(*gp, o); done(); }
    });
  }
  bool waiting() { for (auto &g : progs) if (g->waiting && g->p && g->p->st == P_BLOCK) return true; return false; }
  TP *helper(const char *name, std::function<void(TP &)> f) {
    progs.emplace_back(new TP); TP *g = progs.back().get(); g->id = 30 + (int)progs.size();
    g->p = proc_spawn(name, g->id, [=] { f(*g); });
    return g;
  }

  void run() {
    mode = (int)cfg("mode"); prefix = !cfg("noprefix");
    W->on_dead = [this](Proc *p, int st) { on_dead(p, st); };
    W->fault_mask = mode == M_ONCE ? FB_IO | FB_OPEN : FB_IO;
    int nring = mode == M_TEE ? 3 : mode == M_CHAIN ? 2 : 1;
    for (int k = 0; k < nring; k++) { std::string q(1, (char)('0' + k)); isz[k] = (u64)cfg(("sz" + q).c_str(), 100); imm[k] = (u64)cfg(("mm" + q).c_str(), 0); }
    if (mode == M_SUB) for (auto &o : s.ops) if (o.k == 'M') for (long k = 0; k < std::max(1l, o.at(1)); k++) { frames.push_back(msg((u64)k << 32 | (u64)o.uid << 8, (u64)o.at(0))); u32 l = (u32)o.at(0); stream.append((char *)&l, 4); stream += frames.back(); }
    if (mode == M_SUB) { u64 cut = (u64)cfg("tail"); if (cut) { u32 l = (u32)cut + 5; stream.append((char *)&l, 4); stream.append(cut, 'z'); if (cut < 4) stream.resize(stream.size() - 4); } }
    if (mode == M_WRITE) for (auto &o : s.ops) if (o.k == 'M') {
      std::string l = msg((u64)o.uid << 8, (u64)o.at(0));
      for (char &c : l) { if (!o.at(1)) c = (char)(33 + (unsigned char)c % 90); if (c == '\n') c = ' '; }
      text += l; if (!o.at(2)) text += '\n';
    }
    proc_spawn("setup", -1, [&] {
      cur()->f_off = true; auto z = img()->sizes;
      for (int k = 0; k < nring; k++) {
        cur()->owner = 2; char *pc = (char *)h_alloc(16); strcpy(pc, rpath(k).c_str());
        int rc;
        if (mode == M_ONCE) {
          long f = cfg("flags"); flags0 = (f & 1 ? z(11) : 0) | (f & 2 ? z(13) | z(11) : 0) | (f & 8 ? z(15) : 0) | (f & 16 ? z(16) : 0);
          app0 = msg(777, (u64)cfg("app")); char *ac = (char *)h_alloc(app0.size() + 1); memcpy(ac, app0.data(), app0.size());
          unsigned fl = (unsigned)flags0 | (unsigned)z(14);
          rc = app0.empty() ? img()->init(pc, isz[k], fl, (size_t)imm[k]) : img()->init(pc, isz[k], fl | (unsigned)z(12), ac, app0.size(), (size_t)imm[k]);
          if (!imm[k]) imm[k] = 100 + isz[k] / 100;
          h_free(ac);
        } else
        rc = imm[k] ? img()->init(pc, isz[k], (unsigned)z(14), (size_t)imm[k]) : img()->init(pc, isz[k], 0);
        h_free(pc);
        if (rc) violation("create", "creation of a ring failed");
      }
    });
    sim_run();
    if (W->stop) return;
    if (mode == M_SUB) { listener = std::make_shared<File>(); listener->type = T_LISTEN; listener->port = PORT; K->listeners[PORT] = listener; }
    for (int i = 0; i < s.nprog; i++) { progs.emplace_back(new TP); progs.back()->id = i; }
    for (size_t k = 0; k < s.ops.size(); k++) { int q = s.ops[k].prog; if (q >= 0 && q < s.nprog && s.ops[k].k != 'M') progs[q]->ops.push_back((int)k); }
    for (auto &g : progs) spawn(*g);
    for (;;) {
      sim_run();
      check_quiet(false);
      if (W->stop) return;
      if (!waiting() || phase > 60) break;
      phase++;
    }
    // the peers that held things up resume: everything must now get through
    W->fault_mask = 0; finale = true;
    if (mode == M_PUB) {
      Conn *live = nullptr; for (auto &c : K->conns) if (!c->e[0].closed && !c->second && (!c->accepted || !c->e[1].closed)) live = c.get();
      bool newc = !live;
      helper("client", [this, newc](TP &g) {
        if (newc && current()) { g.conn = k_tcp_connect(PORT); if (g.conn) g.c = g.conn->conn; }
        for (;;) {
          auto some = [this] { for (auto &c : K->conns) if (!c->e[0].closed && !c->e[0].rx.empty()) return true; return false; };
          idle_until([=] { return closing || some(); });
          if (!some()) return;
          for (auto &c : K->conns) if (!c->e[0].closed) c->e[0].rx.clear();
          W->progress = W->steps;
        }
      });
    }
    if (mode == M_SUB) helper("drain", [this](TP &g) { for (;;) ring_read(g, 0); });
    if (mode == M_CHAIN) helper("drain", [this](TP &g) { for (;;) ring_read(g, 1); });
    if (mode == M_TEE) { helper("drain1", [this](TP &g) { for (;;) ring_read(g, 1); }); helper("drain2", [this](TP &g) { for (;;) ring_read(g, 2); }); }
    if (mode == M_READ) helper("drain", [this](TP &) { for (;;) { idle_until([this] { Inv *i = current(); return closing || (i && !i->out->q.empty()); }); Inv *i = current(); if (!i || i->out->q.empty()) return; i->out->q.clear(); W->progress = W->steps; } });
    if (mode == M_ONCE) helper("drain", [this](TP &g) { for (;;) ring_read(g, 0); });
    if (mode == M_WRITE) helper("drain", [this](TP &g) { for (;;) ring_read(g, 0); });
    sim_run();
    check_quiet(true);
    if (W->stop) return;
    // a polite end, then what is left
    if (mode == M_ONCE) {}
    else if (Inv *i = current()) {
      if (i->kind == 'w') i->in->weof = true;
      else { for (auto &x : invs) if (x->alive()) { x->signalled = true; x->p->sig_pending |= 1ull << (SIGTERM - 1); } }
      sim_run();
      if (W->stop) return;
      if (current()) { Inv *x = current(); bad("tool_exit", std::string("the tool (") + x->kind + ") does not end when told to"); return; }
    }
    check_quiet(true);
    if (W->stop) return;
    closing = true;
    if (mode == M_PUB || mode == M_READ || mode == M_TEE) {
      for (int k = 0; k < NPROC; k++) { Proc *p = W->slots[k]; if (p && p->st == P_BLOCK && !p->idle) { for (auto &g : progs) if (g->p == p) g->in_write = true; } }
      rd[0].clear();
      helper("audit", [this](TP &g) { for (;;) ring_read(g, 0); });
      sim_run();
      if (W->stop) return;
      auto R = sorted(rd[0]);
      if (mode == M_PUB) check_pub(true, R);
      if (mode == M_READ) check_read(true, R, true);
      if (mode == M_TEE) {
        auto M = inputs(); if (W->stop) return;
        size_t n = rd[1].size();
        if (n + R.size() != M.size()) { bad("tool_lost", "tee took a message from its input without delivering it"); return; }
        for (size_t k = 0; k < R.size(); k++) if (*R[k] != *M[n + k]) { bad("tool_lost", "tee took messages from its input without delivering them"); return; }
      }
    }
    res.nontrivial = nops >= 4 && W->switches >= 4;
  }
};
}
void run_tool(const Scenario &s, RunResult &r) {
  ToolRun q(s, r);
  q.run();
  r.ops = q.nops;
  W->on_dead = nullptr;
}
