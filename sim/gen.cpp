// Scenario generation: from (property, seed) to a complete scenario.
#include "scenario.h"
#include <cmath>

namespace {
enum { F_R = 1, F_W = 2, F_NB = 4, F_BUF = 8 };
enum { I_KEEP = 1, I_DROP = 2, I_APP = 4, I_FARM = 8, I_MM = 16, I_SYNC = 32, I_MLOCK = 64, I_BAD = 128 };
struct Gen {
  Rng &r; Scenario &s; long n = 0, mm = 0, app = 0, fl = 0; int uid = 1;
  Gen(Rng &rr, Scenario &sc) : r(rr), s(sc) {}
  void cfg(const char *k, long v) { s.cfg.set(k, v); }
  void op(int prog, char k, std::vector<long> a = {}) { Op o; o.prog = prog; o.uid = uid++; o.k = k; o.a = std::move(a); s.ops.push_back(o); }
  bool ch(double p) { return r.chance(p); }
  int rg(int a, int b) { return r.range(a, b); }
  void sched(int nprog) {
    s.nprog = nprog;
    static const std::vector<long> gm{2, 8, 30, 120, 400, 1500};
    cfg("gapmax", r.pick(gm));
    cfg("gapinf", ch(0.3) ? 0 : ch(0.5) ? 15 : 45);
    cfg("shmpt", ch(0.85));
    for (int i = 0; i < nprog; i++) if (ch(0.3)) s.cfg.set("w" + std::to_string(i), ch(0.5) ? 2 : 40);
  }
  void geometry(long flags, double big = 0.03) {
    int k = rg(0, 9);
    if (ch(big)) n = r.logrange(20000, 300000);
    else n = k < 3 ? rg(1, 40) : k < 7 ? rg(20, 300) : r.logrange(100, 6000);
    mm = 0;
    if (ch(0.55)) { flags |= I_MM; mm = ch(0.6) ? rg(1, 9) : ch(0.1) ? 0 : rg(2, 60); }
    app = 0;                                    // every property also holds of rings with features it is not about
    if (ch(0.06)) flags |= I_APP;
    if (ch(0.06)) flags |= I_SYNC;
    if (ch(0.06)) flags |= I_MLOCK;
    if (ch(0.05)) flags |= I_KEEP;
    if (flags & I_APP) app = ch(0.8) ? rg(1, 90) : rg(1, 9000);
    fl = flags;
    cfg("iflags", flags); cfg("isz", n); cfg("imm", mm); cfg("iapp", app);
  }
  long emm() { return (fl & I_MM) && mm ? mm : 100 + n / 100; }
  long len() {
    int k = rg(0, 19);
    if (k < 9) return r.logrange(1, (int)std::max(1l, n / 3));
    if (k < 13) return rg(1, (int)std::max(1l, std::min(n, 12l)));
    if (k < 16) return rg(1, (int)std::max(1l, n));
    if (k == 16) return n;
    if (k == 17) return std::max(1l, n - rg(0, 3));
    if (k == 18) return std::max(1l, n / 2);
    return 1;
  }
  std::vector<long> batch(bool wild) {
    std::vector<long> b;
    if (ch(0.45)) { b.push_back(len()); if (wild && ch(0.05)) b[0] = ch(0.5) ? n + rg(1, 40) : 0; return b; }
    int c = ch(0.8) ? rg(1, (int)std::min(emm(), 6l)) : (int)std::min(emm() + (wild && ch(0.3)), 40l);
    long left = n;
    for (int i = 0; i < c; i++) {
      long l = ch(0.3) ? len() : r.logrange(1, (int)std::max(1l, n / (c + 1)));
      if (!wild || ch(0.9)) { if (left < 1) break; if (l > left) l = left; }
      left -= l; b.push_back(l);
    }
    if (b.empty()) b.push_back(1);
    if (wild && ch(0.06)) b[r.below(b.size())] = 0;
    if (wild && ch(0.02)) b.clear();
    return b;
  }
  void wr(int p, long h, bool wild) { auto b = batch(wild); b.insert(b.begin(), h); op(p, 'W', b); }
  void rd(int p, long h, bool small = true) {
    long bl = ch(0.55) ? n : small ? len() : n + rg(0, 20);
    if (small && ch(0.02)) bl = 0;
    if (ch(0.5)) op(p, 'R', {h, bl, -1});
    else op(p, 'R', {h, bl, ch(0.9) ? r.logrange(1, (int)std::min(emm() + 2, 400l)) : ch(0.1) ? 0 : 1});
  }
};

// what the generic workload is made of
struct Mix {
  double pr = 4, pw = 4, pflush = 0, pstat = 0, papp = 0, pclose = 0.3, pfd = 0, pint = 0, pfarm = 0, pexit = 0, pmulti = 0;
  double nbr = 0.4, nbw = 0.5, buf = 0; bool wild = true; int maxops = 14, maxprog = 5; bool roles = true;
};
void workload(Gen &g, const Mix &mix, int nprog, int nops_scale = 1) {
  Rng &r = g.r;
  Mix m = mix;
  if (g.ch(0.3)) {                              // what the property is not about goes on at the same time
    if (g.ch(0.6)) m.pstat += 0.5;
    if (g.app && g.ch(0.5)) m.papp += 0.4;
    if ((g.fl & I_FARM) && g.ch(0.5)) m.pfarm += 0.4;
    if (g.ch(0.3)) m.pfd += 0.4;
    if (g.ch(0.15)) m.pint += 0.3;
    if (g.ch(0.15)) m.pexit += 0.2;
    if (g.ch(0.15) && m.buf == 0) { m.buf = 0.3; m.pflush = 0.6; }
  }
  for (int p = 0; p < nprog; p++) {
    int nh = g.ch(m.pmulti) ? g.rg(2, 4) : 1;
    if (g.ch(0.35)) nh++;
    std::vector<int> kind(nh);
    auto opn = [&](int h) {
      bool rd = nh == 1 && m.roles ? (p % 2 == 0 ? g.ch(0.8) : g.ch(0.2)) : g.ch(0.5);
      int f = rd ? F_R : F_W;
      if (g.ch(rd ? m.nbr : m.nbw)) f |= F_NB;
      if (!rd && g.ch(m.buf)) f |= F_BUF;
      if (rd && m.buf > 0 && g.ch(0.05)) f |= F_BUF;
      kind[h] = f;
      g.op(p, 'O', {h, f, 0});
    };
    for (int h = 0; h < nh; h++) opn(h);
    int n = g.rg(3, m.maxops) * nops_scale;
    for (int i = 0; i < n; i++) {
      int h = (int)r.below(nh);
      bool rd = kind[h] & F_R;
      double tot = (rd ? m.pr + m.pfd + m.pfarm : m.pw + m.pflush) + m.pstat + m.papp + m.pclose + m.pint + m.pexit;
      double x = r.unit() * tot;
      auto take = [&](double w) { if (w <= 0) return false; x -= w; return x < 0; };
      if (rd) {
        if (take(m.pr)) { g.rd(p, h); continue; }
        if (take(m.pfd)) { if (kind[h] & F_NB) { g.op(p, g.ch(0.6) ? 'D' : 'V', {h}); if (g.ch(0.5)) g.rd(p, h); } else g.rd(p, h); continue; }
        if (take(m.pfarm)) { g.op(p, 'M', {h, g.ch(0.3)}); continue; }
      } else {
        if (take(m.pw)) { g.wr(p, h, m.wild); continue; }
        if (take(m.pflush)) { g.op(p, 'F', {h, g.ch(0.4)}); continue; }
      }
      if (take(m.pstat)) { g.op(p, 'S', {h, g.ch(0.25)}); continue; }
      if (take(m.papp)) {
        int mode = g.rg(0, 3); long sz = g.app;
        if (g.ch(0.15)) sz = std::max(0l, g.app + g.rg(-3, 40));
        if (mode == 1 && g.ch(0.3)) sz = g.app + g.rg(1, 100);
        if (g.app == 0) sz = g.rg(1, 20);
        g.op(p, 'A', {h, mode, sz}); continue;
      }
      if (take(m.pclose)) { g.op(p, 'C', {h}); if (g.ch(0.85)) { if (g.ch(0.5)) opn(h); else g.op(p, 'O', {h, kind[h], 0}); } continue; }
      if (take(m.pint)) { if (g.ch(0.5)) g.op(p, 'P', {h, g.rg(0, 1)}); else if (g.ch(0.6)) g.op(p, 'E', {g.rg(0, 1), g.ch(0.6)}); else g.op(p, 'G', {(long)r.below(nprog)}); continue; }
      if (take(m.pexit)) { g.op(p, 'X'); continue; }
    }
  }
}
void faulty(Gen &g, long pct, long fmask = 0xffff) { g.cfg("fault", pct); g.cfg("faultmax", g.ch(0.5) ? 40 : g.ch(0.5) ? 12 : 120); g.cfg("fmask", fmask); }
void killy(Gen &g) {
  g.cfg("kill", g.ch(0.5) ? 8 : 25); g.cfg("killmax", g.ch(0.5) ? 60 : 300); g.cfg("maxkills", g.rg(1, 6));
  if (g.ch(0.35)) g.cfg("zombie", g.ch(0.5) ? 100 : 50);
  if (g.ch(0.35)) g.cfg("dying", 1);
  if (g.ch(0.4)) { g.cfg("uid", 1000); if (g.ch(0.5)) g.cfg("uidmix", 1); }
  if (g.ch(0.3)) g.cfg("pidreuse", 90);
  if (g.ch(0.04)) g.cfg("bgsock", g.rg(85, 140));
}
long any_mode(Gen &g) { int k = g.rg(0, 9); return k < 5 ? 0 : k < 8 ? I_DROP : I_FARM; }
}

// every place taken, step by step: all are woken, the last as the first, and any that dies or closes is replaced
static void places(Gen &g, Rng &r, int &np, bool dies) {
  g.geometry(g.ch(0.5) ? I_FARM | (g.ch(0.5) ? I_DROP : 0) : 0, 0); np = 3; g.sched(np); g.cfg("shmpt", 0); g.cfg("gapmax", g.ch(0.5) ? 400 : 3000);
  bool farm = g.fl & I_FARM, wside = !farm && g.ch(0.3);
  bool kills = dies || g.ch(0.4); if (kills) { g.cfg("kill", 0); g.cfg("maxkills", 1); g.cfg("zombie", g.ch(0.3) ? 100 : 0); if (g.ch(0.5)) { g.cfg("zombie", 0); g.cfg("strictpid", 1); if (g.ch(0.3)) g.cfg("pidreuse", 100); else g.cfg("alienpid", g.ch(0.7) ? 3 : 1); } }
  int k = g.rg(1, 3), b = g.ch(0.6) ? g.rg(1, k) : 0;        // places of the second program; the one that blocks
  long f0 = wside ? F_W : F_R | F_NB;
  int first = g.ch(0.75) ? 0 : 1, second = 1 - first;         // usually the second program's places are the last ones
  g.op(first, 'B', {1}); g.op(second, 'B', {2});
  int cnt[2] = {64 - k, k};
  for (int h = 0; h < 64 - k; h++) g.op(0, 'O', {h, f0, 0});
  for (int h = 0; h < k; h++) g.op(1, 'O', {h, h == b - 1 ? f0 & ~F_NB : f0, 0});
  g.op(0, 'B', {3}); g.op(2, 'B', {3});
  if (g.ch(0.5)) g.op(2, 'O', {66, f0, 0});                   // no place left
  g.op(2, 'O', {70, wside ? F_R | F_NB : F_W | F_NB, 0});
  if (wside) { g.op(2, 'O', {71, F_W | F_NB, 0}); for (int i = 0; i < 3; i++) g.op(2, 'W', {71, std::max(1l, g.n / 2)}); g.op(2, 'W', {71, std::max(1l, g.n - 2 * (g.n / 2))}); }
  g.op(1, 'B', {4}); if (b) g.op(1, wside ? 'W' : 'R', wside ? std::vector<long>{b - 1, g.rg(1, (int)std::max(1l, g.n / 2))} : std::vector<long>{b - 1, g.n, -1});
  g.op(2, 'B', {5}); if (wside) { g.op(2, 'R', {70, g.n, g.ch(0.5) ? 1 : -1}); } else g.op(2, 'W', {70, 1});
  for (int p = 0; p < 2; p++) {
    g.op(p, 'B', {6});
    if (wside) continue;
    int q = g.rg(0, 3);
    for (int i = 0; i < q + 1; i++) g.op(p, g.ch(0.6) ? 'D' : 'V', {i == 0 ? cnt[p] - 1 : (long)r.below(cnt[p])});
    if (g.ch(0.5)) g.op(p, 'R', {g.ch(0.5) ? cnt[p] - 1 : (long)r.below(cnt[p]), g.n, -1});
  }
  int freed = 0, who = g.ch(0.7) ? second == 0 ? 0 : 1 : (int)r.below(2);
  g.op(who, 'B', {7});
  if (kills && (dies || g.ch(0.7))) { g.op(2, 'B', {7}); g.op(2, 'K', {who}); freed = cnt[who]; }
  else if (g.ch(0.5)) { g.op(who, 'X'); freed = cnt[who]; }
  else { freed = g.rg(1, std::min(cnt[who], 3)); for (int i = 0; i < freed; i++) g.op(who, 'C', {cnt[who] - 1 - i}); }
  if (g.ch(0.3)) { g.op(2, 'B', {8}); g.op(2, wside ? 'R' : 'W', wside ? std::vector<long>{70, g.n, -1} : std::vector<long>{70, 1}); }
  g.op(2, 'B', {9});
  for (int i = 0; i < std::min(freed, 6) + (g.ch(0.3) && freed < 6); i++) g.op(2, 'O', {i, g.ch(0.5) ? f0 : f0 & ~F_NB, 0});
  if (!wside) { g.op(2, 'W', {70, 1}); for (int i = 0; i < std::min(freed, 3); i++) g.op(2, 'D', {i}); }
  for (int p = 0; p < np; p++) g.op(p, 'B', {11});            // nobody leaves before
}
void gen_ring(const std::string &prop, Rng &r, Scenario &s) {
  Gen g(r, s);
  Mix m;
  int np = r.range(2, 5);
  int id = atoi(prop.c_str() + 1);
  s.family = "ring";
  switch (id) {
  case 1: {
    g.geometry(any_mode(g) | (g.ch(0.2) ? I_APP : 0), 0.08); g.sched(np);
    m.pclose = 0.5; m.buf = 0.2; m.pflush = 0.5; m.pmulti = 0.3; m.papp = g.app ? 0.5 : 0; m.maxops = 20; m.wild = false;
    workload(g, m, np); break;
  }
  case 2: {
    g.geometry(0); g.sched(np); m.maxops = 16; m.pmulti = 0.2; m.pclose = 0.2;
    workload(g, m, np); break;
  }
  case 3: {
    g.geometry(0); g.sched(np); m.pw = 6; m.pr = 3; m.nbw = 0.75; m.pclose = 0.15; m.maxops = 22; m.pmulti = 0.2; m.pstat = 0.4; m.buf = g.ch(0.2) ? 0.3 : 0;
    workload(g, m, np); break;
  }
  case 4: {
    g.geometry(I_DROP); g.sched(np); m.pw = 6; m.pr = 3; m.pstat = 0.8; m.maxops = 20; m.buf = g.ch(0.25) ? 0.4 : 0; m.pflush = m.buf > 0;
    workload(g, m, np); break;
  }
  case 5: {
    g.geometry(I_FARM); np = r.range(2, 6); g.sched(np); m.pw = 6; m.pr = 4; m.pfarm = 1; m.maxops = 22; m.pclose = 0.5; m.nbr = 0.6; m.pmulti = 0.4;
    workload(g, m, np); break;
  }
  case 6: {
    g.geometry(g.ch(0.15) ? any_mode(g) : 0); np = r.range(2, 6); g.sched(np);
    m.nbr = 0.2; m.nbw = 0.25; m.pclose = g.ch(0.5) ? 1.5 : 0.5; m.wild = false; m.maxops = 16; m.pmulti = 0.5; m.buf = g.ch(0.25) ? 0.4 : 0; m.pflush = m.buf > 0; m.pexit = g.ch(0.3) ? 0.3 : 0;
    workload(g, m, np);
    if (g.ch(0.15)) for (int p = 0; p < np; p++) { g.op(p, 'O', {9, F_W | F_NB, 0}); g.op(p, 'w', {9, 1, g.rg(8, 30)}); }
    break;
  }
  case 7: {
    g.geometry(any_mode(g)); g.sched(np); m.nbr = 0.95; m.pfd = 5; m.pr = 3; m.wild = false; m.maxops = 18; m.pclose = 0.4; m.buf = g.ch(0.15) ? 0.4 : 0; m.pflush = m.buf > 0; m.pmulti = 0.3;
    workload(g, m, np); break;
  }
  case 8: {
    g.geometry(g.ch(0.25) ? I_DROP : g.ch(0.1) ? I_FARM : 0); g.sched(np); m.buf = 0.85; m.pflush = 2; m.pw = 6; m.pstat = 0.5; m.pclose = 0.8; m.maxops = 20; m.wild = g.ch(0.5);
    if (g.ch(0.3)) { m.pint = 0.5; }
    workload(g, m, np);
    if (g.ch(0.01)) { // more small messages than the cache has elements
      g.geometry(I_MM, 1.0); g.cfg("imm", g.mm = g.ch(0.5) ? 20000 : 9000); g.cfg("shmpt", 0);
      g.op(0, 'O', {20, F_W | F_BUF | F_NB, 0}); g.op(0, 'w', {20, 1, g.rg(9990, 10010)}); g.op(0, 'F', {20, 0}); g.op(0, 'W', {20, 3, 4}); g.op(0, 'C', {20});
    }
    break;
  }
  case 9: {
    g.geometry(any_mode(g) | (g.ch(0.2) ? I_APP : 0)); g.sched(np); m.pstat = 3; m.maxops = 18; m.buf = g.ch(0.3) ? 0.4 : 0; m.pflush = m.buf > 0; m.papp = g.app ? 0.5 : 0;
    workload(g, m, np); break;
  }
  case 10: {
    g.geometry(any_mode(g) | (g.ch(0.93) ? I_APP : 0)); g.sched(np); m.papp = 6; m.pr = 2; m.pw = 2; m.maxops = 14; m.pstat = 0.2;
    workload(g, m, np); break;
  }
  case 11: {
    s.cfg.set("create", 1);
    g.geometry(any_mode(g) | (g.ch(0.3) ? I_APP : 0) | (g.ch(0.6) ? I_KEEP : 0), 0.0);
    np = r.range(2, 5); g.sched(np);
    bool keep = g.ch(0.6); bool faults = g.ch(0.4);
    if (g.ch(0.35)) g.cfg("preinit", 1);
    if (faults) { faulty(g, g.ch(0.5) ? 25 : 60, 0xffff & ~FB_LOCK); if (!keep || g.ch(0.5)) {} }
    int creators = faults && !keep ? 1 : np;
    for (int p = 0; p < np; p++) {
      bool cr = creators == 1 ? p == 0 : g.ch(0.6);
      int k = g.rg(1, 5);
      for (int i = 0; i < k; i++) {
        if (cr && g.ch(0.6)) {
          long f = any_mode(g) | (g.ch(0.3) ? I_APP : 0) | (g.ch(0.4) ? I_MM : 0) | (g.ch(0.1) ? I_SYNC : 0) | (g.ch(0.1) ? I_MLOCK : 0) | (keep ? I_KEEP : g.ch(0.1) ? I_KEEP : 0);
          if (g.ch(0.05)) f |= I_BAD;
          long sz = g.ch(0.04) ? 0 : r.logrange(1, 3000);
          g.op(p, 'I', {f, sz, g.ch(0.8) ? g.rg(1, 20) : 0, g.rg(1, 60)});
        }
        if (g.ch(0.12)) g.op(p, 'J', {g.rg(0, 6), (long)r.below(100000)});
        int h = i % 3;
        int of = g.ch(0.5) ? F_R | F_NB : F_W | F_NB;
        if (g.ch(0.06)) of = g.rg(0, 63);
        g.op(p, 'O', {h, of, g.ch(0.03) ? g.rg(1, 2) : 0});
        if (g.ch(0.7)) g.op(p, of & F_R ? 'R' : 'W', of & F_R ? std::vector<long>{h, 4000, -1} : std::vector<long>{h, 1 + (long)r.below(30)});
        if (g.ch(0.2)) g.op(p, 'S', {h, 0});
        if (g.ch(0.3)) g.op(p, of & F_R ? 'R' : 'W', of & F_R ? std::vector<long>{h, 4000, 5} : std::vector<long>{h, 1 + (long)r.below(30)});
        if (g.ch(0.5)) g.op(p, 'C', {h});
      }
    }
    if (g.ch(0.3)) { killy(g); g.cfg("maxkills", 2); }
    break;
  }
  case 12: {
    g.geometry(any_mode(g) | (g.ch(0.4) ? I_APP : 0)); g.sched(np);
    m.pclose = 2; m.pexit = 0.5; m.pstat = 0.7; m.papp = g.app ? 0.5 : 0; m.pfarm = 0.3; m.maxops = 12; m.nbr = 0.8; m.nbw = 0.85; m.buf = g.ch(0.3) ? 0.4 : 0; m.pflush = m.buf > 0; m.wild = false;
    int ph = r.range(1, 4);
    for (int k = 1; k <= ph; k++) {
      workload(g, m, np);
      if (g.ch(0.7)) { for (int p = 0; p < np; p++) { if (g.ch(0.8)) for (int h = 0; h < 5; h++) g.op(p, 'C', {h}); if (g.ch(0.3)) g.op(p, 'X'); } }
      for (int p = 0; p < np; p++) g.op(p, 'B', {k});
      if (g.ch(0.3)) s.cfg.set("act" + std::to_string(k), 2);
    }
    break;
  }
  case 13: if (g.ch(0.012)) { places(g, r, np, true); break; } else {
    g.geometry(any_mode(g) | (g.ch(0.2) ? I_APP : 0)); np = r.range(2, 6); g.sched(np); killy(g);
    m.nbr = 0.3; m.nbw = 0.3; m.wild = false; m.pclose = 0.7; m.pmulti = 0.4; m.maxops = 14; m.papp = g.app ? 0.5 : 0; m.pstat = 0.3; m.buf = g.ch(0.2) ? 0.4 : 0; m.pflush = m.buf > 0; m.pfd = 0.4;
    int ph = g.ch(0.4) ? r.range(1, 3) : 0;
    for (int k = 1; k <= ph + 1; k++) {
      workload(g, m, np);
      for (int p = 0; p < np; p++) if (g.ch(0.4)) g.op(p, 'K', {(long)r.below(np)});
      if (k <= ph) { for (int p = 0; p < np; p++) g.op(p, 'B', {k}); s.cfg.set("act" + std::to_string(k), g.ch(0.6) ? 2 : 3); }
    }
    if (g.ch(0.4)) g.cfg("rebootnames", 1);
    if (g.ch(0.15)) g.cfg("alienpid", 1);
    break;
  }
  case 14: if (g.ch(0.4)) {
    places(g, r, np, false);
    break;
  } else {
    g.geometry(g.ch(0.3) ? any_mode(g) : 0); np = r.range(2, 4); g.sched(np); g.cfg("shmpt", g.ch(0.2)); g.cfg("gapmax", g.ch(0.5) ? 400 : 3000);
    bool kills = g.ch(0.5);
    if (kills) { killy(g); g.cfg("kill", 1); g.cfg("maxkills", 2); g.cfg("zombie", g.ch(0.3) ? 100 : 0); }
    bool plain = !(g.fl & (I_DROP | I_FARM));
    bool wside = g.ch(0.45);
    double nb = !wside ? 0.6 : g.ch(0.5) ? 0 : g.ch(0.4) ? 1 : 0.3;    // writers that never block need no place
    auto of = [&]() -> long { return wside ? F_W | (g.ch(nb) ? F_NB | (g.ch(0.2) ? F_BUF : 0) : 0) : F_R | (g.ch(nb) ? F_NB : 0); };
    int share = (g.rg(62, plain && !wside ? 66 : 68) + np - 1) / np;
    for (int p = 0; p < np; p++) {
      for (int h = 0; h < share; h++) g.op(p, 'O', {h, of(), 0});
      int k = g.rg(2, 12);
      for (int i = 0; i < k; i++) {
        long h = (long)r.below(share);
        if (g.ch(0.5)) g.op(p, 'C', {h});
        if (g.ch(0.7)) g.op(p, 'O', {(long)r.below(share + 3), of(), 0});
        if (g.ch(0.3)) { g.op(p, 'O', {70, wside ? F_R | F_NB : F_W | F_NB, 0}); if (!wside) g.op(p, 'W', {70, 1}); }
        if (wside && nb > 0 && g.ch(0.4)) { g.op(p, 'W', {h, 1}); if (g.ch(0.3)) g.op(p, 'F', {h, g.ch(0.6)}); }
        if (g.ch(0.3)) { if (wside) g.op(p, 'R', {70, 100, -1}); else g.op(p, g.ch(0.5) ? 'D' : 'V', {h}); }
        if (kills && g.ch(0.1)) g.op(p, 'K', {(long)r.below(np)});
        if (g.ch(0.06)) g.op(p, 'X');
      }
    }
    break;
  }
  case 15: {
    g.geometry(any_mode(g) | (g.ch(0.3) ? I_APP : 0) | (g.ch(0.35) ? I_SYNC : 0), 0.01); np = r.range(1, 4); g.sched(np);
    faulty(g, g.ch(0.5) ? 20 : g.ch(0.5) ? 50 : 6); if (g.ch(0.75)) g.cfg("retry", 1);
    m.pclose = 0.8; m.wild = false; m.pmulti = 0.4; m.maxops = 14; m.papp = g.app ? 0.7 : 0; m.pstat = 0.6; m.buf = g.ch(0.4) ? 0.5 : 0; m.pflush = m.buf > 0 ? 1.5 : 0; m.pfarm = 0.3; m.pfd = 0.5; m.nbr = 0.6; m.nbw = 0.6;
    if (g.ch(0.15)) m.pint = 0.5;
    workload(g, m, np); break;
  }
  case 16: {
    g.geometry(any_mode(g) | (g.ch(0.3) ? I_APP : 0) | (g.ch(0.2) ? I_SYNC : 0), 0.01); np = r.range(1, 3); g.sched(np);
    if (g.ch(0.8)) faulty(g, g.ch(0.5) ? 35 : 70);
    if (g.ch(0.3)) g.cfg("nofile", g.rg(3, 24));
    if (g.ch(0.2)) { g.cfg("kill", 6); g.cfg("killmax", 300); g.cfg("maxkills", 2); if (g.ch(0.5)) g.cfg("uid", 1000); if (g.ch(0.5)) g.cfg("zombie", 100); }
    m.pclose = 3; m.wild = false; m.pmulti = 0.6; m.maxops = 18; m.papp = g.app ? 0.7 : 0; m.pstat = 0.2; m.buf = g.ch(0.4) ? 0.5 : 0; m.pflush = m.buf > 0; m.nbr = 0.7; m.nbw = 0.7; if (g.ch(0.2)) m.pint = 0.6;
    workload(g, m, np); break;
  }
  case 17: {
    g.geometry(any_mode(g) | I_SYNC | (g.ch(0.4) ? I_APP : 0), g.ch(0.2) ? 0.4 : 0.02); g.sched(np); g.cfg("disk", 1);
    m.nbr = 0.9; m.nbw = 0.9; m.pstat = 0.8; m.papp = g.app ? 1.5 : 0; m.maxops = 8; m.wild = false; m.buf = g.ch(0.25) ? 0.4 : 0; m.pflush = m.buf > 0 ? 1.5 : 0; m.pclose = 0.4;
    int ph = r.range(1, 4);
    for (int k = 1; k <= ph; k++) {
      workload(g, m, np);
      for (int p = 0; p < np; p++) g.op(p, 'B', {k});
      s.cfg.set("act" + std::to_string(k), 1);
    }
    break;
  }
  case 18: {
    g.geometry(g.ch(0.15) ? any_mode(g) : 0); g.sched(np); m.pint = 3; m.nbr = 0.15; m.nbw = 0.2; m.wild = false; m.maxops = 16; m.buf = g.ch(0.3) ? 0.5 : 0; m.pflush = m.buf > 0; m.pclose = 0.3;
    workload(g, m, np); break;
  }
  case 24: {
    bool ml = g.ch(0.5);
    g.geometry(any_mode(g) | (g.ch(0.3) ? I_APP : 0) | (ml ? I_MLOCK : 0), 0.5); g.sched(np);
    long pages = (g.n + g.emm() * 16 + g.app) / 4096 + 1;
    s.cfg.set("create", 1); g.cfg("preinit", g.ch(0.6));
    if (g.ch(0.8)) g.cfg("fspages", std::max(1l, pages + g.rg(-3, 4)));
    if (g.ch(0.3)) { faulty(g, 30, FB_OPEN | FB_ALLOC | FB_OTHER | FB_IO); }
    if (ml && g.ch(0.4)) g.cfg("memlock", std::max(1l, pages * 4096 * g.rg(0, 3) / 2));
    m.maxops = 12; m.wild = false; m.nbr = 0.8; m.nbw = 0.8; m.pclose = 0.4; m.papp = g.app ? 0.4 : 0;
    if (!s.cfg.get("preinit", 0) || g.ch(0.3)) g.op(0, 'I', {(g.fl & ~(long)I_KEEP) | (g.ch(0.4) ? I_KEEP : 0), g.n, g.mm, g.app});
    if (g.ch(0.7)) g.op((int)r.below(np), 'L', {g.ch(0.5) ? 200 : g.rg(1, 12)});
    workload(g, m, np); break;
  }
  default: break;
  }
}

// Rings beyond 2 and 4 GiB: positions, lengths and totals that do not fit 32 bits.
static void gen_huge(int id, Rng &r, Scenario &s) {
  Gen g(r, s);
  s.family = "ring"; s.cfg.set("huge", 1);
  long G = 1l << 30, fl = I_MM | (id == 4 ? I_DROP : id == 5 ? I_FARM : id == 1 && g.ch(0.5) ? g.ch(0.5) ? I_DROP : I_FARM : 0);
  g.fl = fl; g.n = (g.ch(0.5) ? 4 * G : 2 * G) + (g.ch(0.6) ? g.rg(1, 100000) : -g.rg(1, 100000)); g.mm = g.rg(6, 40);
  g.cfg("iflags", fl); g.cfg("isz", g.n); g.cfg("imm", g.mm); g.cfg("iapp", 0);
  g.sched(2); g.cfg("shmpt", 0);
  s.nprog = 2;
  g.op(0, 'O', {0, F_W | F_NB, 0}); g.op(0, 'O', {1, F_R | F_NB, 0});
  g.op(1, 'O', {0, F_R | (g.ch(0.5) ? F_NB : 0), 0});
  long big = g.n > 3 * G ? G + g.rg(1, 90000000) : G / 2 + g.rg(1, 90000000);
  g.op(0, 'W', {0, big, g.rg(1, 9000)});
  g.op(0, 'W', {0, big - g.rg(0, 9000), g.rg(1, 9000)});
  g.op(0, 'S', {0, 0});
  if (g.ch(0.5)) g.op(0, 'W', {0, big, big - g.rg(1, 5000), g.rg(1, 90)}); else { g.op(0, 'W', {0, g.n - 2 * big - g.rg(30000, 90000)}); g.op(0, 'W', {0, g.rg(1, 60000)}); }
  g.op(0, 'S', {1, 0});
  g.op(1, 'R', {0, g.ch(0.5) ? 2 * G + 500000000 : big + 50000, g.rg(1, 9)});
  for (int i = g.rg(1, 4); i > 0; i--) g.op(0, 'R', {1, g.ch(0.6) ? 2 * G + 400000000 : g.n, g.rg(1, 12)});
  g.op(0, 'W', {0, g.rg(1, 9000), g.rg(1, 90000), big / 2});
  g.op(0, 'W', {0, g.n / 2 - g.rg(0, 3), g.rg(1, 500)});
  if (g.ch(0.3)) g.op(0, 'W', {0, g.n + g.rg(0, 1)});
  g.op(0, 'R', {1, g.n, g.rg(3, 40)}); g.op(0, 'S', {0, 0});
  for (int i = g.rg(1, 5); i > 0; i--) { g.op(0, 'W', {0, g.rg(1, 900), g.rg(1, 900)}); g.op(0, 'R', {1, 4000, g.rg(1, 9)}); }
  g.op(0, 'R', {1, g.n, 64}); g.op(0, 'C', {0});
}

// More messages than 16 bits count.
static void gen_many(int id, Rng &r, Scenario &s) {
  Gen g(r, s);
  s.family = "ring";
  long fl = id == 4 ? I_DROP : id == 5 ? I_FARM : id != 2 && id != 3 && g.ch(0.4) ? g.ch(0.5) ? I_DROP : I_FARM : 0;
  g.mm = g.ch(0.2) ? g.rg(70000, 140000) : g.ch(0.5) ? 65536 + g.rg(-2, 40) : g.rg(65000, 67000);
  g.n = g.ch(0.5) ? g.mm + g.rg(-500, 2000) : g.mm * 2;
  if (g.ch(0.8)) fl |= I_MM; else { g.n = 6560000 + g.rg(0, 20000); g.mm = 100 + g.n / 100; }
  g.fl = fl; g.cfg("iflags", fl); g.cfg("isz", g.n); g.cfg("imm", g.mm); g.cfg("iapp", 0);
  g.sched(2); g.cfg("shmpt", 0); g.cfg("gapmax", 1500000);
  s.nprog = 2;
  bool buf = id == 8 || g.ch(0.1);
  g.op(0, 'O', {0, F_W | F_NB | (buf ? F_BUF : 0), 0}); g.op(0, 'O', {1, F_R | F_NB, 0}); g.op(1, 'O', {0, F_R | F_NB, 0});
  bool farm = fl & I_FARM;
  long tot = 0, cap = g.mm + (farm && g.ch(0.5) ? g.rg(70000, 160000) : g.rg(20000, 70000)); double often = farm ? 0.2 : 0.5;
  for (int i = 0; i < 9 && tot < cap; i++) {
    long c = g.ch(0.3) ? g.rg(1, 40) : g.rg(15000, 66000); if (g.ch(0.1)) c = g.mm;
    tot += c;
    g.op(0, 'W', {0, -1, c, 1}); if (g.ch(0.3)) g.op(0, 'W', {0, g.rg(1, 9), g.rg(1, 9)});
    if (g.ch(0.3)) g.op(0, 'S', {1, 0});
    if (buf && g.ch(0.5)) g.op(0, 'F', {0, 0});
    if (g.ch(0.7)) g.op(0, 'R', {1, g.ch(0.5) ? g.n : g.rg(1, 70000), g.ch(0.5) ? g.mm : g.rg(1, 70000)});
    if (g.ch(often)) g.op(1, 'R', {0, g.n, g.ch(0.5) ? g.mm : g.rg(1, 70000)});
    if (farm && g.ch(0.4)) { int q = g.ch(0.5); g.op(q, 'M', {!q, g.ch(0.3)}); }
  }
  if (farm) { g.op(1, 'R', {0, g.n, g.rg(1, 9)}); g.op(1, 'M', {0, 1}); g.op(1, 'M', {0, 0}); g.op(0, 'M', {1, g.ch(0.5)}); }
  g.op(0, 'S', {1, 0}); g.op(0, 'R', {1, g.n, g.mm});
  for (int i = g.rg(1, 4); i > 0; i--) { g.op(0, 'W', {0, g.rg(1, 9), g.rg(1, 9)}); g.op(0, 'R', {1, 40, g.rg(1, 9)}); }
}
// The same workload on a ring of gigabytes: every size is multiplied, some with a little added or taken away.
static void scale_up(Scenario &s, Rng r) {
  long n = s.cfg.get("isz", 0);
  if (n < 2 || n > 5000 || s.cfg.get("disk", 0) || s.cfg.get("fspages", 0) || s.cfg.get("nofalloc", 0)) return;
  for (auto &o : s.ops) if (o.k == 'I' || o.k == 'J' || o.k == 'L') return;
  static const std::vector<long> at{1l << 31, 1l << 32, 1l << 32, 11l << 30};
  long N = r.pick(at) + (r.chance(0.2) ? 0 : r.chance(0.5) ? r.range(1, 3000) : -r.range(1, 3000)), F = N / n;
  if (N * 1.0 / n < 2e5) return;
  auto up = [&](long l) -> long { if (l <= 0) return l; if (l == n) return N; if (l > n) return N + (l - n); return r.chance(0.15) ? l : l * F + (r.chance(0.5) ? 0 : r.range(-3, 3)); };
  s.cfg.set("huge", 1); s.cfg.set("isz", N); s.cfg.set("shmpt", 0);
  for (auto &o : s.ops) {
    if (o.k == 'R' && o.a.size() > 1) o.a[1] = up(o.a[1]);
    else if (o.k == 'W' && o.at(1) != -1) { long t = 0; for (size_t k = 1; k < o.a.size(); k++) { long v = up(o.a[k]); if (t + v > 2 * N) v = r.range(1, 90); t += v; o.a[k] = v; } }
    else if (o.k == 'W') o.a[3] = o.at(2) * up(o.at(3)) <= 2 * N ? up(o.at(3)) : o.at(3);
    else if (o.k == 'w') o.a[1] = up(o.at(1));
  }
}

bool gen_scenario(const std::string &prop, u64 seed, Scenario &s) {
  int id = atoi(prop.c_str() + 1);
  s.prop = prop; s.seed = seed;
  Rng r(mix(seed, id * 1000 + 17));
  if ((id >= 19 && id <= 22) || id == 25) gen_tool(prop, r, s);
  else if (id <= 5 && mix(seed, 4241) % 4000 == 0) gen_huge(id, r, s);
  else if ((id <= 5 || id == 8 || id == 9 || id == 12) && mix(seed, 4244) % 3500 == 0) gen_many(id, r, s);
  else if (id == 23) gen_bw(prop, r, s);
  else if (id == 26) gen_mnt(prop, r, s);
  else if (id == 27) gen_bwt(prop, r, s);
  else { gen_ring(prop, r, s); if (id != 11 && id != 14 && id != 16 && id != 17 && id != 24 && mix(seed, 4242) % 1200 == 0) scale_up(s, Rng(mix(seed, 4243))); }
  // numbers the system hands out
  Rng q(mix(seed, 4250 + id));
  if (q.chance(0.15)) { static const std::vector<long> v{2, 250, 32760, 65530, 99990, 999990, 4100000}; s.cfg.set("pid0", q.pick(v)); if (q.chance(0.6)) s.cfg.set("pidstep", q.pick(std::vector<long>{1, 256, 999})); }
  else if (q.chance(0.1)) { s.cfg.set("pid0", q.range(300, 900)); s.cfg.set("pidstep", 65536); }
  if (q.chance(0.15)) { static const std::vector<long> v{65530, 99990, 999990, 2147483640, 4294900000}; s.cfg.set("ino0", q.pick(v)); }
  else if (q.chance(0.1)) { s.cfg.set("ino0", 20000); s.cfg.set("inostep", 65536); }
  if (q.chance(0.1) && !((id >= 19 && id <= 22) || id >= 25)) s.cfg.set("lowfd", 1);
  return true;
}

// ---------------------------------------------------------------- the command-line tool
static long tool_ring(Gen &g, int k, double big) {
  std::string q(1, (char)('0' + k));
  int t = g.rg(0, 9);
  long n = g.ch(big) ? g.rg(1000000, 2200000) : t < 3 ? g.rg(4, 60) : t < 7 ? g.rg(40, 600) : g.r.logrange(200, 20000);
  g.s.cfg.set("sz" + q, n);
  if (g.ch(0.4)) g.s.cfg.set("mm" + q, g.ch(0.5) ? g.rg(1, 4) : g.rg(1, 30));
  return n;
}
static long mmof(Gen &g, int k, long n) { std::string q = "mm" + std::string(1, (char)('0' + k)); long m = g.s.cfg.get(q.c_str(), 0); return m ? m : 100 + n / 100; }
static void feeder(Gen &g, int p, long n, long mm, long maxlen, int count) {
  g.n = std::min(n, maxlen);
  for (int i = 0; i < count; i++) {
    std::vector<long> b{0};
    if (g.ch(0.75)) b.push_back(std::min(g.len(), g.n));
    else { long left = n; int c = g.rg(1, (int)std::min(mm, 6l)); for (int k = 0; k < c && left > 0; k++) { long l = std::min({g.len(), left, g.n}); b.push_back(l); left -= l; } }
    g.op(p, 'W', b);
    if (g.ch(0.06)) g.op(p, 'B', {(long)g.rg(1, 4)});
  }
}
// somebody else who reads the tool's input ring
static void rival(Gen &g, int p) {
  g.s.nprog = p + 1; g.cfg("compete", 1);
  int k = g.rg(1, 4);
  for (int i = 0; i < k; i++) { if (g.ch(0.5)) g.op(p, 'B', {(long)g.rg(1, 5)}); g.op(p, 'K', {(long)g.rg(1, 4)}); }
}
void gen_tool(const std::string &prop, Rng &r, Scenario &s) {
  Gen g(r, s);
  s.family = "tool";
  int id = atoi(prop.c_str() + 1);
  double big = 0.02;
  if (g.ch(0.3)) g.cfg("wtool", g.ch(0.5) ? 2 : 40);
  g.cfg("tcpcap", g.ch(0.5) ? r.logrange(1, 400) : r.logrange(200, 65536));
  if (g.ch(0.2)) g.cfg("tcpcut", 30);
  if (id == 19) {
    g.cfg("mode", 1); int np = g.rg(3, 5); g.sched(np);
    long n = tool_ring(g, 0, big), mm = mmof(g, 0, n);
    if (n > 500000) g.cfg("tcpcap", 65536);
    if (g.ch(0.4)) g.cfg("noprefix", 1);
    if (g.ch(0.3)) g.cfg("host", 1);
    if (g.ch(0.25)) g.cfg("fault", 60);
    g.op(0, 'T', {'p', 0, 0});
    if (g.ch(0.25)) { g.op(0, 'B', {(long)g.rg(1, 3)}); g.op(0, 'G', {g.ch(0.5)}); g.op(0, 'T', {'p', 0, 0}); }
    int nf = g.rg(1, std::min(2, np - 2));
    for (int p = 1; p <= nf; p++) feeder(g, p, n, mm, 1000000, g.rg(2, n > 500000 ? 5 : 16));
    for (int p = nf + 1; p < np; p++) {
      int k = g.rg(1, 4);
      for (int i = 0; i < k; i++) {
        if (g.ch(0.3)) g.op(p, 'B', {(long)g.rg(1, 4)});
        g.op(p, 'c');
        int m = g.rg(0, 5);
        for (int j = 0; j < m; j++) { if (g.ch(0.8)) g.op(p, 'r', {(long)r.logrange(1, (int)std::max(2l, std::min(n * 4, 3000000l)))}); else if (g.ch(0.5)) g.op(p, 'B', {(long)g.rg(1, 5)}); else g.op(p, 'j', {(long)g.rg(1, 300)}); }
        if (i == k - 1 && g.ch(0.4)) g.op(p, 'q');
        else g.op(p, 'x', {g.ch(0.4)});
      }
    }
    if (n >= 8 && n < 500000 && g.ch(0.15)) rival(g, np);
  } else if (id == 20 && g.ch(0.15)) {
    g.cfg("mode", 6); g.sched(3); g.cfg("tcpcut", 0);
    long n = tool_ring(g, 0, big), mm = mmof(g, 0, n);
    std::string q; long n1 = std::max(n, tool_ring(g, 1, 0)); g.cfg("sz1", n1);
    if (n > 500000) g.cfg("tcpcap", 65536);
    g.op(0, 'T', {'p', 0, 0}); g.op(0, 'T', {'s', 0, 0});
    feeder(g, 1, n, mm, 1000000, g.rg(2, n > 500000 ? 5 : 20));
    g.op(2, 'R', {1, (long)g.rg(0, 6)});
    if (g.ch(0.4)) g.op(2, 'D', {1}); else g.op(2, 'B', {2});
    g.op(2, 'R', {1, (long)g.rg(0, 6)});
  } else if (id == 20) {
    g.cfg("mode", 2); g.sched(3);
    long n = tool_ring(g, 0, big * 2), maxf = std::min(n, 1024l * 1024);
    if (n > 500000) g.cfg("tcpcap", 65536);
    bool burst = g.ch(0.008);                      // more tiny frames than a whole ring holds
    if (burst) { g.cfg("tcpcap", 65536); g.cfg("mm0", g.rg(700, 1600)); g.cfg("sz0", n = g.rg(1000, 9000)); maxf = n; g.op(0, 'M', {(long)g.rg(1, 3), (long)g.rg(900, 4000)}); }
    int nf = n > 500000 ? g.rg(1, 5) : g.ch(0.3) ? g.rg(1, 4) : g.rg(2, 40);
    for (int i = 0; i < nf; i++) {
      g.n = maxf; long l = g.len();
      if (g.ch(0.3)) l = g.rg(1, (int)std::min(maxf, 9l));
      if (n > 500000 && g.ch(0.5)) l = std::min(maxf, (long)g.rg(999000, 1048576));
      g.op(0, 'M', {l});
    }
    if (g.ch(0.3)) g.cfg("tail", g.rg(1, 40));
    g.op(0, 'T', {'s', 0, 0});
    if (g.ch(0.15)) { g.op(0, 'B', {(long)g.rg(1, 3)}); g.op(0, 'G', {0}); }
    g.op(1, 'a');
    int k = g.rg(0, 12);
    for (int i = 0; i < k; i++) { g.op(1, 'f', {(long)r.logrange(1, (int)std::max(2l, std::min(3 * n, 200000l)))}); if (g.ch(0.3)) g.op(1, 'B', {(long)g.rg(1, 6)}); }
    if (g.ch(0.7) || burst) g.op(1, 'f', {0});
    if (g.ch(0.5)) g.op(1, 'X', {g.ch(0.3)});
    int c = g.rg(0, 3);
    for (int i = 0; i < c; i++) { g.op(2, 'R', {0, (long)g.rg(1, 8)}); if (g.ch(0.5)) g.op(2, 'B', {(long)g.rg(1, 6)}); }
    if (g.ch(0.5)) g.op(2, 'D', {0});
  } else if (id == 21) {
    g.cfg("mode", 3); int np = g.rg(4, 5); g.sched(np);
    long n = tool_ring(g, 0, big), mm = mmof(g, 0, n), n1 = tool_ring(g, 1, 0), n2 = tool_ring(g, 2, 0);
    if (n > 500000) { g.cfg("sz1", n1 = 1100000); g.cfg("sz2", n2 = 1000000); }
    g.op(0, 'T', {'t', 0, 0});
    if (g.ch(0.3)) { g.op(0, 'B', {(long)g.rg(1, 4)}); g.op(0, 'G', {g.ch(0.5)}); if (g.ch(0.6)) g.op(0, 'T', {'t', 0, 0}); }
    for (int p = 3; p < np; p++) feeder(g, p, n, mm, std::min({1000000l, n1, n2}), g.rg(2, n > 500000 ? 4 : 18));
    for (int p = 1; p <= 2; p++) {
      int c = g.rg(0, 3);
      for (int i = 0; i < c; i++) { g.op(p, 'R', {(long)p, (long)g.rg(1, 8)}); if (g.ch(0.5)) g.op(p, 'B', {(long)g.rg(1, 6)}); }
      if (g.ch(0.5)) g.op(p, 'D', {(long)p});
    }
    if (std::min({n, n1, n2}) >= 8 && n < 500000 && g.ch(0.2)) rival(g, np);
  } else if (id == 25) {
    g.cfg("mode", 7); int np = g.rg(3, 5); g.sched(np);
    long n = tool_ring(g, 0, 0); if (n < 16) g.cfg("sz0", n = g.rg(16, 80));
    long mm = mmof(g, 0, n);
    bool stat = g.ch(0.5); g.cfg("once", stat ? 2 : 1);
    bool huge = g.ch(0.012); if (huge) g.cfg("sz0", n = r.logrange(60000, 400000));
    if (stat) g.cfg("flags", (g.ch(0.35) ? 1 : g.ch(0.1) ? 0 : 0) | (g.ch(0.1) ? 8 : 0) | (g.ch(0.1) ? 16 : 0));
    if (g.ch(stat ? 0.6 : 0.2)) g.cfg("app", g.ch(0.015) ? r.logrange(60000, 400000) : r.logrange(1, 6000));
    g.cfg("compete", 1);
    if (g.ch(0.3)) g.cfg("fault", 60);
    g.cfg("outcap", 65536);
    int runners = stat ? g.rg(1, 2) : g.rg(1, std::min(3, np - 1));
    bool kills = !stat && g.ch(0.3);
    bool giant = stat && g.ch(0.02); u64 room = 50ull << 30; if (giant) { g.cfg("huge", 1); g.cfg("fault", 0); }
    for (int p = 0; p < runners; p++) {
      int k = g.rg(1, 6);
      bool creates = stat && p == 1;
      for (int i = 0; i < k; i++) {
        if (g.ch(0.15)) g.op(p, 'B', {(long)g.rg(1, 4)});
        if (creates || (stat && g.ch(0.2))) {
          int unit = g.ch(0.8) ? 0 : g.ch(0.9) ? g.rg(1, 2) : 3;
          std::vector<long> a{'n', g.ch(0.04) ? 0 : unit == 3 ? 1 : unit ? g.rg(1, 9) : r.logrange(1, 4000), unit, (g.ch(0.25) ? 1 : 0) | (g.ch(0.15) ? 2 : 0) | (g.ch(0.45) ? 4 : 0) | (g.ch(0.15) ? 8 : 0) | (g.ch(0.15) ? 16 : 0) | (g.ch(0.3) ? 64 : 0),
            g.ch(0.5) ? (g.ch(0.1) ? 0 : g.rg(1, 50)) : -1, g.ch(0.6) ? 0 : g.ch(0.8) ? 1 : g.rg(2, 3), g.ch(0.02) ? r.logrange(60000, 400000) : r.logrange(1, 5000)};
          int c = g.ch(0.6) ? 1 : g.rg(2, 3);
          if (!giant && g.ch(0.02)) a[4] = r.logrange(100, 100000);
          if (giant && g.ch(0.7)) {                     // sizes and counts beyond 32 bits
            int un = g.ch(0.1) ? 7 : g.ch(0.5) ? g.rg(4, 5) : g.ch(0.5) ? 0 : g.ch(0.5) ? 6 : g.rg(1, 2); u64 kk = un == 7 ? 40 : un == 6 ? 20 : un == 0 ? 0 : un > 3 ? 30 : 10;
            u64 sz = un > 3 && un < 6 ? (u64)g.rg(1, 9) << 30 : (g.ch(0.5) ? 1ull << 31 : 1ull << 32) + (g.ch(0.5) ? (u64)r.below(1ull << 31) : -(u64)r.logrange(1, 4096));
            long mm = a[4] >= 0 && g.ch(0.7) ? r.logrange(100000, 300000000) : a[4];
            u64 need = (sz + sz / 4 + (mm > 0 ? (u64)mm * 24 : 0)) * 17 / 16 * (u64)c;
            if (un == 7) { a[1] = g.rg(1, 3); a[2] = 7; }
            else if (need < room) { room -= need; a[1] = (long)(sz >> kk); a[2] = un; a[4] = mm; }
          }
          for (int q = 0; q < c; q++) a.push_back(p * 3 + g.rg(0, 2));
          g.op(p, 'T', a); g.op(p, 'Y'); continue;
        }
        if (stat) { g.op(p, 'T', {'u', g.ch(0.5) ? 0 : g.rg(1, 2), r.logrange(1, 9000)}); if (g.ch(0.3)) g.op(p, 'Y'); continue; }
        g.n = n; long l = std::max(4l, std::min(g.len(), huge ? n : 4000l)); if (g.ch(0.05)) l = n + g.rg(1, 9);
        if (g.ch(0.5)) g.op(p, 'T', {'x', std::min(l, 4001l), g.ch(0.8) ? g.rg(0, 2) : g.rg(3, 5), (long)r.below(100000)});
        else g.op(p, 'T', {'l', l, g.ch(0.85) ? 0 : g.rg(1, 2)});
        if (kills && g.ch(0.3)) g.op((p + 1) % np, 'k', {p});
      }
    }
    if (stat) for (int p = runners; p < np; p++) if (g.ch(0.35)) { int c = g.rg(1, 4); for (int i = 0; i < c; i++) { if (g.ch(0.3)) g.op(p, 'B', {(long)g.rg(1, 4)}); g.op(p, g.ch(0.5) ? 'A' : 'Z'); } }
    for (int p = runners; p < np; p++) {
      if (p == runners || g.ch(0.5)) feeder(g, p, n, mm, 1000000, g.rg(1, 14));
      else { int c = g.rg(1, 5); for (int i = 0; i < c; i++) { g.op(p, 'R', {0, (long)g.rg(1, 5)}); if (g.ch(0.4)) g.op(p, 'B', {(long)g.rg(1, 5)}); } if (kills && g.ch(0.5)) g.op(p, 'k', {0}); }
    }
  } else if (g.ch(0.6)) {
    g.cfg("mode", 4); g.sched(3); g.cfg("outcap", g.ch(0.6) ? r.logrange(1, 600) : 65536);
    if (g.ch(0.25)) g.cfg("fault", 60);
    long n = tool_ring(g, 0, big), mm = mmof(g, 0, n);
    if (n > 500000) g.cfg("outcap", 65536);
    int k = g.rg(1, 4);
    bool many = n < 500000 && g.ch(0.05);              // more messages than a small counter holds
    if (many) { if (n < 3000) g.cfg("sz0", n = r.logrange(3000, 20000)); if (mm < 400) g.cfg("mm0", mm = r.logrange(200, 1000)); g.cfg("outcap", 65536); }
    for (int i = 0; i < k; i++) {
      bool blk = g.ch(0.45);
      g.op(0, 'T', {n < 20000 && n < 300 * s.cfg.get("outcap", 1) && g.ch(0.25) ? 'h' : 'r', g.ch(0.6) ? many ? r.logrange(8, 400) : (long)g.rg(1, 8) : 0, blk});
      if (g.ch(0.15)) g.op(0, 'B', {(long)g.rg(1, 4)});
      if (g.ch(0.15)) g.op(0, 'E', {(long)g.rg(0, 2)});
      if (blk && g.ch(0.5)) { g.op(0, 'B', {(long)g.rg(1, 5)}); g.op(0, 'G', {0}); }
    }
    if (many) { feeder(g, 1, n, mm, n / mm + 1, (int)r.logrange(20, 300)); }
    else feeder(g, 1, n, mm, 1000000, g.rg(2, n > 500000 ? 5 : 16));
    int c = g.rg(0, 4);
    for (int i = 0; i < c; i++) { g.op(2, 'o', {(long)r.logrange(1, (int)std::max(2l, std::min(n * 2, 100000l)))}); if (g.ch(0.3)) g.op(2, 'B', {(long)g.rg(1, 5)}); }
    if (g.ch(0.5)) g.op(2, 'd');
    if (n >= 8 && g.ch(0.3)) rival(g, 3);
  } else {
    g.cfg("mode", 5); g.sched(3);
    long n = tool_ring(g, 0, 0);
    int nl = g.rg(1, 16); long tot = 0;
    bool wide = g.ch(0.02); if (wide) { g.cfg("sz0", n = r.logrange(60000, 400000)); nl = g.rg(1, 3); }     // lines longer than a pipe holds
    for (int i = 0; i < nl; i++) {
      g.n = n; long l = g.ch(0.1) ? 0 : wide && g.ch(0.6) ? g.rg((int)n / 2, (int)n) : g.len();
      if (n > 998 && g.ch(0.4)) l = std::min(n, (long)g.rg(990, 3000));
      g.op(0, 'M', {l, g.ch(0.1), i == nl - 1 && g.ch(0.3)}); tot += l + 1;
    }
    int k = g.rg(1, 3);
    for (int i = 0; i < k; i++) {
      g.op(0, 'T', {'w', 0, 0});
      int m = g.rg(1, 6);
      for (int j = 0; j < m; j++) { g.op(0, 'i', {wide && g.ch(0.6) ? tot : (long)r.logrange(1, (int)tot + 1)}); if (g.ch(0.3)) g.op(0, 'B', {(long)g.rg(1, 5)}); }
      if (i == k - 1 && g.ch(0.7)) g.op(0, 'i', {tot});
      if (i < k - 1 || g.ch(0.7)) g.op(0, 'e');
    }
    int c = g.rg(0, 4);
    for (int i = 0; i < c; i++) { g.op(1, 'R', {0, (long)g.rg(1, 6)}); if (g.ch(0.4)) g.op(1, 'B', {(long)g.rg(1, 5)}); }
    if (g.ch(0.5)) g.op(2, 'D', {0});
  }
  if (g.ch(0.3)) {                                 // the tool is suspended and resumed now and then
    int c = g.rg(1, 5);
    for (int i = 0; i < c; i++) {
      g.op(g.rg(0, s.nprog - 1), 'U', {(long)r.below(8)});
      std::rotate(s.ops.begin() + (long)r.below(s.ops.size()), s.ops.end() - 1, s.ops.end());
    }
  }
}

// ---------------------------------------------------------------- the block/wake library by itself
void gen_bw(const std::string &, Rng &r, Scenario &s) {
  Gen g(r, s);
  s.family = "bw";
  int np = g.rg(2, 6); g.sched(np);
  if (g.ch(0.55)) { g.cfg("kill", g.ch(0.5) ? 6 : 18); g.cfg("killmax", g.ch(0.5) ? 40 : 160); g.cfg("maxkills", g.rg(1, 8)); if (g.ch(0.3)) g.cfg("zombie", g.ch(0.5) ? 100 : 50); if (g.ch(0.25)) g.cfg("dying", 1); if (g.ch(0.3)) { g.cfg("uid", 1000); if (g.ch(0.5)) g.cfg("uidmix", 1); } if (g.ch(0.25)) g.cfg("pidreuse", 90); }
  if (g.ch(0.35)) { g.cfg("fault", g.ch(0.5) ? 8 : 30); g.cfg("faultmax", g.ch(0.5) ? 8 : 60); }
  if (g.ch(0.3)) g.cfg("namereuse", g.ch(0.5) ? 60 : 100);
  if (g.ch(0.3)) g.cfg("qlen", g.rg(1, 4));
  if (g.ch(0.2)) g.cfg("bgsock", g.ch(0.8) ? g.rg(0, 12) : g.rg(85, 140));
  if (g.ch(0.1)) g.cfg("alienpid", 1);
  g.cfg("nev", 2);
  if (g.ch(0.04)) g.cfg("cap", 1);
  if (g.ch(0.4)) g.cfg(("act" + std::to_string(g.rg(1, 4))).c_str(), 3);
  int one = g.ch(0.7) ? 0 : -1;
  if (g.ch(0.02)) { int p = g.rg(0, np - 1); g.op(p, 'N', {0, (long)g.rg(8, 64)}); if (g.ch(0.7)) { g.op(p, 'B', {(long)g.rg(1, 3)}); if (g.ch(0.5)) g.op(p, 'x'); g.op(p, 'M', {0, 64}); } }
  for (int p = 0; p < np; p++) {
    int role = g.rg(0, 3);                         // mostly waiters, mostly wakers, mixed
    long kind[4] = {-1, -1, -1, -1};
    int k = g.rg(2, 18);
    for (int i = 0; i < k; i++) {
      long h = g.rg(0, g.ch(0.7) ? 1 : 3);
      int t = one == 0 ? 0 : (int)g.rg(0, 1);
      if (kind[h] < 0) { kind[h] = role == 0 ? g.ch(0.9) : role == 1 ? g.ch(0.15) : g.ch(0.5); g.op(p, 'o', {h, t, kind[h], g.ch(0.1)}); continue; }
      int q = g.rg(0, 99);
      if (q < 10) { g.op(p, 'c', {h}); kind[h] = -1; continue; }
      if (q < 14) { g.op(p, 'x'); continue; }
      if (q < 19) { g.op(p, 'B', {(long)g.rg(1, 5)}); continue; }
      if (q < 22) { g.op(p, 'e', {(long)g.rg(0, 1), g.ch(0.6)}); continue; }
      if (kind[h] == 0) { g.op(p, 'k', {h}); continue; }
      if (q < 45) g.op(p, 'w', {h});
      else if (q < 60) g.op(p, 's', {h});
      else if (q < 72) g.op(p, 'r', {h});
      else if (q < 92) g.op(p, 'f', {h, g.ch(0.5)});
      else g.op(p, 'p', {h, (long)g.rg(0, 1)});
    }
  }
}

// ---------------------------------------------------------------- mount points and delegates
void gen_mnt(const std::string &, Rng &r, Scenario &s) {
  Gen g(r, s);
  s.family = "mnt";
  int np = g.ch(0.4) ? 1 : g.rg(2, 4); g.sched(np);
  if (g.ch(0.3)) g.cfg("fault", 60);
  if (g.ch(0.2)) g.cfg("exelen", g.rg(4070, 4095));
  if (g.ch(0.2)) g.cfg("plot", 0);
  if (g.ch(0.3)) g.cfg("ram", r.logrange(2, 1 << 24));
  bool kills = np > 1 && g.ch(0.3);
  auto dir = [&] { return (long)(g.ch(0.75) ? g.rg(0, 3) : g.rg(0, 11)); };
  for (int p = 0; p < np; p++) {
    int k = g.rg(1, np == 1 ? 10 : 6);
    for (int i = 0; i < k; i++) {
      if (g.ch(0.35)) {                            // others use the machine too
        int w = g.rg(0, 9);
        if (w < 3) g.op(p, 'm', {dir(), g.ch(0.7) ? g.rg(0, 2) : 3, g.ch(0.1) ? 0 : g.ch(0.1) ? -1 : (long)r.below(2) ? (long)r.logrange(1, 1 << 30) : (long)r.logrange(1, 1 << 30) * 1000});
        else if (w < 5) g.op(p, 'u', {dir()});
        else if (w < 6) g.op(p, 'd', {dir(), g.ch(0.5)});
        else if (w < 8) g.op(p, 'F', {dir(), g.ch(0.2) ? 10000 : (long)r.below(10001)});
        else g.op(p, 'C', {dir()});
        continue;
      }
      if (kills && g.ch(0.2)) { g.op(p, 'k', {(long)g.rg(0, np - 1)}); continue; }
      int t = g.rg(0, 19);
      long kind = t < 10 ? 0 : t < 14 ? 1 : t < 17 ? 2 : t < 19 ? 3 : 4;
      int form = g.ch(0.55) ? 0 : g.ch(0.5) ? 3 : g.ch(0.3) ? 4 : g.rg(1, 2);
      if (kind == 3) { std::vector<long> a{3, g.ch(0.5) ? 0 : (long)g.rg(0, 12), 0, 0, 0, 0, 0, 0}; int c = g.ch(0.2) ? g.rg(5, 12) : g.rg(0, 4); for (int q = 0; q < c; q++) a.push_back(g.rg(0, 9)); g.op(p, 'T', a); continue; }
      if (kind == 4) { g.op(p, 'T', {4, (long)g.rg(0, 6)}); continue; }
      std::vector<long> a{kind, form == 3 ? (long)g.rg(0, 12) : dir(), form, (long)g.rg(0, 13), g.ch(0.3) ? 0 : g.ch(0.08) ? 4 : g.ch(0.6) ? 1 : g.rg(2, 3),
        g.ch(0.3) ? 0 : (long)r.logrange(1, 100000), (long)g.rg(0, 7), g.ch(0.12) ? (long)r.logrange(1, 2000000000) : 0};
      if (g.ch(0.35)) { int c = g.rg(1, 4); for (int q = 0; q < c; q++) a.push_back(g.ch(0.6) ? g.rg(0, 3) : g.rg(0, 8)); }
      g.op(p, 'T', a);
    }
  }
}

// ---------------------------------------------------------------- the bw-tool program
void gen_bwt(const std::string &, Rng &r, Scenario &s) {
  Gen g(r, s);
  s.family = "bwt";
  int np = g.rg(1, 5); g.sched(np);
  g.cfg("sleepblock", 1);
  g.cfg("file", g.ch(0.75) ? 2 : g.rg(0, 1));
  if (g.ch(0.25)) g.cfg("fault", g.ch(0.5) ? 15 : 50);
  if (g.ch(0.35)) { g.cfg("kill", g.ch(0.5) ? 10 : 35); g.cfg("killmax", g.ch(0.5) ? 40 : 200); if (g.ch(0.3)) g.cfg("zombie", g.ch(0.5) ? 100 : 50); }
  if (g.ch(0.3)) g.cfg("namereuse", g.ch(0.5) ? 60 : 100);
  if (g.ch(0.3)) g.cfg("qlen", g.rg(1, 4));
  if (g.ch(0.15)) g.cfg("bgsock", g.ch(0.8) ? g.rg(0, 12) : g.rg(85, 140));
  bool sigs = g.ch(0.5), slots = g.ch(0.002);
  for (int p = 0; p < np; p++) {
    int k = g.rg(1, np == 1 ? 10 : 6);
    int role = g.rg(0, 2);
    if (slots && p == 0) g.op(p, 'N', {(long)g.rg(58, 64)});
    else if (g.ch(0.05)) g.op(p, 'N', {(long)g.rg(1, 4)});
    for (int i = 0; i < k; i++) {
      int q = g.rg(0, 99);
      if (q < 8) { g.op(p, 'A'); continue; }
      if (q < 15 && sigs) { g.op(p, 'U', {(long)g.rg(0, 7)}); continue; }
      if (q < 24 && sigs) { g.op(p, 'G', {(long)g.rg(0, 7), (long)g.rg(0, 5)}); continue; }
      if (q < 28) { g.op(p, 'k', {(long)g.rg(0, 7)}); continue; }
      if (q < 30) { g.op(p, 'Z'); continue; }
      if (q < 32) { g.op(p, 'M'); continue; }
      int kind = g.ch(0.1) ? 0 : role == 0 ? 2 : role == 1 ? 1 : g.rg(1, 2);
      // kind, in the background, option order, -d, -f/-c, -w, -a
      g.op(p, 'T', {(long)kind, g.ch(0.5), (long)g.rg(0, 3), g.ch(0.3) ? (long)g.rg(1, 3) : 0, (long)(g.ch(0.4) ? g.rg(1, 3) : 0), g.ch(0.5), g.ch(0.2) ? (long)g.rg(1, 5) : 0});
    }
  }
}
