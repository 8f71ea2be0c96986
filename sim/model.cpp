#include "model.h"
#include <sys/types.h>
#define SHR_DROP (1U << 1)
#define SHR_FARM (1U << 3)

static inline u64 hc(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xBF58476D1CE4E5B9ull; }
u64 RingState::hash() const {
  u64 x = 7;
  for (auto &m : msgs) { x = hc(x, m.h); x = hc(x, m.len); }
  x = hc(x, q0);
  for (u64 v : {st.bw, st.br, st.mw, st.mr, st.md, st.bd, st.start, app, (u64)rslots, (u64)wslots}) x = hc(x, v);
  for (auto &i : h) {
    auto &e = i.second;
    x = hc(x, i.first); x = hc(x, e.open * 16 + e.r2w); x = hc(x, e.q); x = hc(x, e.missed);
    for (auto &m : e.pend) { x = hc(x, m.h); x = hc(x, m.len); }
  }
  return x;
}
static const char *kn[] = {"open", "close", "read", "write", "flush", "stat", "farm_stat", "appget", "appset", "appswap", "fdcheck", "fdwait", "die"};
std::string HOp::str() const {
  char b[400]; std::string s;
  snprintf(b, sizeof b, "%s proc=%d handle=%d rc=%ld", kn[kind], proc, handle, rc); s = b;
  if (kind == H_READ) { snprintf(b, sizeof b, " buf=%llu niov=%llu got=", (unsigned long long)buflen, (unsigned long long)niov); s += b; for (size_t i = 0; i < got.size() && i < 12; i++) { snprintf(b, sizeof b, "%llu:%04x ", (unsigned long long)got[i].len, (unsigned)(got[i].h & 0xffff)); s += b; } }
  if (kind == H_WRITE) { s += " batch="; for (size_t i = 0; i < batch.size() && i < 12; i++) { snprintf(b, sizeof b, "%llu:%04x ", (unsigned long long)batch[i].len, (unsigned)(batch[i].h & 0xffff)); s += b; } }
  if (kind == H_STAT && rc == 0) { snprintf(b, sizeof b, " w=%llu/%llu r=%llu/%llu d=%llu/%llu unread=%llu/%llu cache=%llu/%llu", (unsigned long long)st.mw, (unsigned long long)st.bw, (unsigned long long)st.mr, (unsigned long long)st.br, (unsigned long long)st.md, (unsigned long long)st.bd, (unsigned long long)mu, (unsigned long long)bu, (unsigned long long)cm, (unsigned long long)cb); s += b; }
  if (kind == H_FARMSTAT || kind == H_APPGET || kind == H_APPSWAP) { snprintf(b, sizeof b, " out=%llx", (unsigned long long)out); s += b; }
  if (killed) s += " (killed)";
  if (faults) { snprintf(b, sizeof b, " faults=%x", faults); s += b; }
  if (ret == ~0ull) s += " (pending)";
  return s;
}

// ---------------------------------------------------------------- sequential semantics
static bool fits(const RingState &s, u64 bytes, u64 n) { return s.n - s.u >= bytes && s.mm - s.msgs.size() >= n; }
static u64 total(const std::vector<MMsg> &b) { u64 t = 0; for (auto &m : b) t += m.len; return t; }
static bool possible(const RingState &s, const std::vector<MMsg> &b) {
  if (b.empty() || b.size() > s.mm) return false;
  u64 t = 0; for (auto &m : b) { if (!m.len) return false; t += m.len; if (t > s.n) return false; }
  return true;
}
static void push(RingState &s, const std::vector<MMsg> &b, bool stats = true) {
  u64 t = total(b);
  while (!fits(s, t, b.size())) {          // drop mode only: oldest first, as few as suffice
    MMsg m = s.msgs.front(); s.msgs.pop_front(); s.q0++; s.u -= m.len;
    s.st.md++; s.st.bd += m.len;
  }
  for (auto &m : b) { s.msgs.push_back(m); s.u += m.len; }
  if (stats) { s.st.bw += t; s.st.mw += b.size(); }
}
static bool room(const RingState &s, const std::vector<MMsg> &b) { return s.drop || fits(s, total(b), b.size()); }
static u64 avail(const RingState &s, const MHandle &e) { return s.farm ? (e.q < s.q0 ? s.msgs.size() : s.q0 + s.msgs.size() - e.q) : s.msgs.size(); }
static void catchup(RingState &s, MHandle &e) { if (s.farm && e.q < s.q0) { e.missed += s.q0 - e.q; e.q = s.q0; } }
// consume the longest run that fits; returns number of messages
static u64 run_of(const RingState &s, const MHandle &e, u64 buflen, u64 niov, u64 *bytes) {
  u64 off = s.farm ? e.q - s.q0 : 0, k = 0, b = 0;
  while (k < niov && off + k < s.msgs.size() && b + s.msgs[off + k].len <= buflen) { b += s.msgs[off + k].len; k++; }
  *bytes = b; return k;
}
static void consume(RingState &s, MHandle &e, u64 k, u64 bytes, bool stats = true) {
  if (s.farm) e.q += k;
  else for (u64 i = 0; i < k; i++) { s.u -= s.msgs.front().len; s.msgs.pop_front(); s.q0++; }
  if (stats) { s.st.br += bytes; s.st.mr += k; }
}
static void do_flush(RingState &s, MHandle &e, bool stats = true) { if (!e.pend.empty()) { push(s, e.pend, stats); e.pend.clear(); e.pbytes = 0; } }

enum Res { R_NO, R_DONE, R_STAGE };   // not consistent / operation complete / first half done
// Applies variant v of op at the given stage. why: explanation on failure.
struct Why { std::string s; };
#define NO(...) do { if (why) { char b_[300]; snprintf(b_, sizeof b_, __VA_ARGS__); why->s = b_; } return R_NO; } while (0)
#define ULL unsigned long long
constexpr int MAXVAR = 6;
static Res apply(RingState &s, const HOp &o, int stage, int v, Why *why) {
  MHandle &e = s.h[o.handle];
  bool done = o.ret != ~0ull && !o.killed;
  bool err_ok = o.faults != 0 || o.natural != 0;
  bool sync_err = o.faults & FB_MSYNC;
  switch (o.kind) {
  case H_DIE: {
    if (v) return R_NO;
    for (int k : o.dead) { MHandle &d = s.h[k]; if (d.open) { if (d.rd) { s.rslots--; s.rmaybe += s.lenient; } if (d.r2w) { s.wslots--; s.wmaybe += s.lenient; } d.open = false; d.pend.clear(); d.pbytes = 0; } }
    return R_DONE;
  }
  case H_OPEN: {
    if (v) return R_NO;
    bool needw = !o.rd && !o.nb && !s.drop;
    bool slot_ok = o.rd ? s.rslots < s.maxslots : needw ? s.wslots < s.maxslots : true;
    if (o.killed) return R_DONE;                           // nothing the others can see
    if (o.rc < 0) {
      if (!err_ok && slot_ok && (o.rd ? s.rslots + s.rmaybe : s.wslots + s.wmaybe) < s.maxslots) NO("open failed although a waiting slot is free (%d readers, %d waiting writers)", s.rslots, s.wslots);
      return R_DONE;
    }
    if (!slot_ok) NO("open succeeded beyond the limit of waiting slots");
    e.open = true; e.rd = o.rd; e.nb = o.nb; e.buf = o.buf; e.r2w = needw; e.q = s.q0; e.missed = 0; e.pend.clear(); e.pbytes = 0;
    if (o.rd) s.rslots++;
    if (needw) s.wslots++;
    return R_DONE;
  }
  case H_CLOSE: {
    if (stage == 0) {
      if (v == 0) {                                        // flush what is buffered
        if (!e.pend.empty()) {
          if (!room(s, e.pend)) { if (!e.nb) { NO("close of a blocking writer finished although its buffered data does not fit"); } return R_NO; }
          do_flush(s, e);
        }
        return R_STAGE;
      }
      if (v == 1) {                                        // buffered data lost
        if (e.pend.empty()) return R_NO;
        if (!(o.killed || err_ok || (e.nb && !room(s, e.pend)))) NO("close lost buffered data");
        e.pend.clear(); e.pbytes = 0; return R_STAGE;
      }
      if (v == 2 && o.killed && !e.pend.empty() && room(s, e.pend)) { do_flush(s, e, false); return R_STAGE; }
      return R_NO;
    }
    if (v) return R_NO;
    if (o.killed) return R_DONE;
    if (e.open) { if (e.rd) s.rslots--; if (e.r2w) s.wslots--; e.open = false; }
    return R_DONE;
  }
  case H_READ: {
    if (o.killed || !done) {
      if (!o.killed) return R_NO;
      if (v == 0) return R_DONE;                           // no effect
      if (v > 2) return R_NO;
      catchup(s, e);
      if (!avail(s, e)) return R_NO;
      u64 b, k = run_of(s, e, o.buflen, o.niov, &b); if (!k) return R_NO;
      consume(s, e, k, b, v == 1); return R_DONE;
    }
    bool bad = o.buflen == 0 || o.niov == 0;
    if (o.rc > 0) {
      if (v) return R_NO;
      catchup(s, e);
      u64 a = avail(s, e); if (!a) NO("read delivered %zu message(s) although none is available", o.got.size());
      u64 b, k = run_of(s, e, o.buflen, o.niov, &b);
      if (k != o.got.size()) NO("read delivered %zu message(s), the longest run that fits has %llu", o.got.size(), (ULL)k);
      u64 off = s.farm ? e.q - s.q0 : 0;
      for (u64 i = 0; i < k; i++) if (!(s.msgs[off + i] == o.got[i])) NO("read delivered a message (len %llu id %04x) that is not the next one (len %llu id %04x)", (unsigned long long)o.got[i].len, (unsigned)(o.got[i].h & 0xffff), (unsigned long long)s.msgs[off + i].len, (unsigned)(s.msgs[off + i].h & 0xffff));
      if ((u64)o.rc != b) NO("read returned %ld, messages have %llu bytes", o.rc, (ULL)b);
      consume(s, e, k, b);
      if (o.stale && !avail(s, e)) NO("descriptor left readable by a read that emptied the ring");
      return R_DONE;
    }
    if (o.rc == 0) {
      if (v) return R_NO;
      if (!e.nb) NO("blocking read returned 0");
      if (bad) NO("read with an empty buffer returned 0");
      if (avail(s, e)) NO("non-blocking read returned 0 although %llu message(s) are available", (ULL)avail(s, e));
      if (o.stale) NO("descriptor left readable by a read that found nothing");
      return R_DONE;
    }
    if (o.rc == -2) {
      if (v) return R_NO;
      catchup(s, e);
      if (!avail(s, e)) NO("read reported -2 with no message available");
      u64 b, k = run_of(s, e, o.buflen, o.niov, &b);
      if (k || bad) NO("read reported -2 although the next message fits");
      return R_DONE;
    }
    if (o.rc == -3) { if (v > 1 || e.nb) return R_NO; if (v == 1 || s.farm) catchup(s, e); if (avail(s, e)) NO("a read returned -3 although %llu message(s) were available all along", (ULL)avail(s, e)); return R_DONE; }
    if (o.rc == -1) {
      if (!bad && !err_ok) NO("read failed without a cause");
      if (v == 0) return R_DONE;
      if (v == 1) { if (!s.farm) return R_NO; catchup(s, e); return R_DONE; }
      if (v == 2 && sync_err) { catchup(s, e); u64 b, k = run_of(s, e, o.buflen, o.niov, &b); if (!k) return R_NO; consume(s, e, k, b); return R_DONE; }
      return R_NO;
    }
    NO("read returned unexpected %ld", o.rc);
  }
  case H_WRITE: {
    bool ok = possible(s, o.batch);
    if (!e.buf) {
      if (o.killed) {
        if (v == 0) return R_DONE;
        if (v > 2 || !ok || !room(s, o.batch)) return R_NO;
        push(s, o.batch, v == 1); return R_DONE;
      }
      if (!done) return R_NO;
      if (o.rc > 0) {
        if (v) return R_NO;
        if (!ok) NO("a write that must be refused was accepted");
        if ((u64)o.rc != total(o.batch)) NO("write returned %ld for %llu bytes", o.rc, (ULL)total(o.batch));
        if (!room(s, o.batch)) NO("write was accepted although it does not fit: %llu of %llu bytes and %zu of %llu messages unread", (ULL)s.u, (ULL)s.n, s.msgs.size(), (ULL)s.mm);
        push(s, o.batch); return R_DONE;
      }
      if (o.rc == 0) {
        if (v) return R_NO;
        if (!ok) NO("an impossible write returned 0 instead of -1");
        if (!e.nb || s.drop) NO("write returned 0 on a handle that must not");
        if (room(s, o.batch)) NO("non-blocking write returned 0 although it fits: %llu of %llu bytes and %zu of %llu messages unread", (ULL)s.u, (ULL)s.n, s.msgs.size(), (ULL)s.mm);
        return R_DONE;
      }
      if (o.rc == -3) { if (v || !ok || e.nb) return R_NO; if (room(s, o.batch)) NO("a write returned -3 although it fits"); return R_DONE; }
      if (o.rc != -1) NO("write returned unexpected %ld", o.rc);
      if (ok && !err_ok) NO("write failed without a cause");
      if (v == 0) return R_DONE;
      if (v == 1 && sync_err && ok && room(s, o.batch)) { push(s, o.batch); return R_DONE; }
      return R_NO;
    }
    // buffered handle; the size of the cache is not assumed
    if (stage == 0) {
      if (o.killed || !done) {
        if (v == 0) { if (o.killed) return R_DONE; return R_NO; }
        if (v == 1 || v == 2) { if (!ok || e.pend.empty() || !room(s, e.pend)) return R_NO; do_flush(s, e, v == 1); return R_STAGE; }
        if (v == 3 || v == 4) { if (!o.killed || !e.pend.empty() || !ok || !room(s, o.batch)) return R_NO; push(s, o.batch, v == 3); return R_DONE; }
        return R_NO;
      }
      if (o.rc > 0) {
        if (!ok) NO("a write that must be refused was accepted");
        if ((u64)o.rc != total(o.batch)) NO("write returned %ld for %llu bytes", o.rc, (ULL)total(o.batch));
        if (v == 0) { e.pend.insert(e.pend.end(), o.batch.begin(), o.batch.end()); e.pbytes += total(o.batch); if (e.pbytes > s.n || e.pend.size() > s.mm) NO("more was buffered than can ever be flushed"); return R_DONE; }
        if (v == 1) { if (e.pend.empty() || !room(s, e.pend)) return R_NO; do_flush(s, e); e.pend = o.batch; e.pbytes = total(o.batch); return R_DONE; }
        if (v == 2) { if (e.pend.empty() || !room(s, e.pend)) return R_NO; do_flush(s, e); return R_STAGE; }
        if (v == 3) { if (!e.pend.empty() || !room(s, o.batch)) return R_NO; push(s, o.batch); return R_DONE; }
        return R_NO;
      }
      if (v == 0) {                                        // refused or interrupted with nothing flushed
        if (o.rc == 0) { if (!ok || !e.nb || s.drop) NO("buffered write returned 0 on a handle that must not"); if (e.pend.empty() ? room(s, o.batch) : room(s, e.pend)) NO("non-blocking buffered write returned 0 although there is room"); return R_DONE; }
        if (o.rc == -3) { if (!ok || e.nb) return R_NO; if (e.pend.empty() ? room(s, o.batch) : room(s, e.pend)) NO("a buffered write returned -3 although there is room"); return R_DONE; }
        if (o.rc == -1) { if (ok && !err_ok) NO("buffered write failed without a cause"); return R_DONE; }
        NO("write returned unexpected %ld", o.rc);
      }
      if (v == 1) { if (!ok || e.pend.empty() || !room(s, e.pend)) return R_NO; do_flush(s, e); return R_STAGE; }
      if (v == 2 && sync_err && ok && e.pend.empty() && room(s, o.batch)) { push(s, o.batch); return R_DONE; }
      return R_NO;
    }
    // stage 1: the buffered data is flushed, the batch itself goes directly to the ring
    if (o.killed || !done) {
      if (!o.killed) return R_NO;
      if (v == 0) return R_DONE;
      if (v > 2 || !room(s, o.batch)) return R_NO;
      push(s, o.batch, v == 1); return R_DONE;
    }
    if (o.rc > 0) { if (v) return R_NO; if (!room(s, o.batch)) return R_NO; push(s, o.batch); return R_DONE; }
    if (o.rc == 0) { if (v || !e.nb || s.drop) return R_NO; if (room(s, o.batch)) NO("non-blocking buffered write returned 0 although it fits"); return R_DONE; }
    if (o.rc == -3) { if (v || e.nb) return R_NO; if (room(s, o.batch)) NO("a buffered write returned -3 although it fits"); return R_DONE; }
    if (!err_ok) return R_NO;
    if (v == 0) return R_DONE;
    if (v == 1 && sync_err && room(s, o.batch)) { push(s, o.batch); return R_DONE; }
    return R_NO;
  }
  case H_FLUSH: {
    if (o.killed || !done) {
      if (!o.killed) return R_NO;
      if (v == 0) return R_DONE;
      if (v > 2 || e.pend.empty() || !room(s, e.pend)) return R_NO;
      do_flush(s, e, v == 1); return R_DONE;
    }
    if (stage == 0) {
      // a waiting flush on a non-blocking writer first takes a waiting slot, once
      if (v == 1) {
        if (!(e.nb && o.wait && !e.r2w && !e.pend.empty())) return R_NO;
        if (s.wslots >= s.maxslots) return R_NO;
        s.wslots++; e.r2w = true; return R_STAGE;
      }
      if (v > 2) return R_NO;
      if (e.pend.empty()) { if (o.rc != 0) NO("flush of an empty buffer returned %ld", o.rc); return R_DONE; }
      if (e.nb && o.wait && !e.r2w) {
        if (o.rc == -1 && (err_ok || s.wslots + s.wmaybe >= s.maxslots)) return R_DONE;
        NO("a waiting flush finished without a waiting slot");
      }
    } else if (v > 2) return R_NO;
    if (o.rc > 0) {
      if (v) return R_NO;
      if ((u64)o.rc != e.pbytes) NO("flush returned %ld, %llu bytes were buffered", o.rc, (ULL)e.pbytes);
      if (!room(s, e.pend)) NO("flush succeeded although the data does not fit");
      do_flush(s, e); return R_DONE;
    }
    if (o.rc == 0) {
      if (v) return R_NO;
      if (!e.nb || o.wait || s.drop) NO("flush returned 0 with data buffered");
      if (room(s, e.pend)) NO("flush returned 0 although the data fits");
      return R_DONE;
    }
    if (o.rc == -3) { if (v || (e.nb && !o.wait)) return R_NO; if (room(s, e.pend)) NO("a flush returned -3 although the data fits"); return R_DONE; }
    if (o.rc != -1) NO("flush returned unexpected %ld", o.rc);
    if (!err_ok) NO("flush failed without a cause");
    if (v == 0) return R_DONE;
    if (v == 2 && sync_err && room(s, e.pend)) { do_flush(s, e); return R_DONE; }
    return R_NO;
  }
  case H_STAT: {
    if (o.killed) { if (v > 1) return R_NO; if (v == 1) { if (!o.reset) return R_NO; s.st = MStat(); s.st.start = o.resetval; } return R_DONE; }
    if (o.rc < 0) {
      if (!err_ok) NO("status query failed without a cause");
      if (v == 0) return R_DONE;
      if (v == 1 && sync_err && o.reset) { s.st = MStat(); s.st.start = o.resetval; return R_DONE; }
      return R_NO;
    }
    if (v) return R_NO;
    const MStat &a = o.st, &b = s.st;
    if (a.mw != b.mw || a.bw != b.bw) NO("status: written %llu msgs/%llu bytes, expected %llu/%llu", (ULL)a.mw, (ULL)a.bw, (ULL)b.mw, (ULL)b.bw);
    if (a.mr != b.mr || a.br != b.br) NO("status: read %llu msgs/%llu bytes, expected %llu/%llu", (ULL)a.mr, (ULL)a.br, (ULL)b.mr, (ULL)b.br);
    if (a.md != b.md || a.bd != b.bd) NO("status: dropped %llu msgs/%llu bytes, expected %llu/%llu", (ULL)a.md, (ULL)a.bd, (ULL)b.md, (ULL)b.bd);
    if (a.start != b.start) NO("status: period start %llu, expected %llu", (ULL)a.start, (ULL)b.start);
    if (o.mu != s.msgs.size() || o.bu != s.u) NO("status: unread %llu msgs/%llu bytes, expected %zu/%llu", (ULL)o.mu, (ULL)o.bu, s.msgs.size(), (ULL)s.u);
    if (o.bn != s.n || o.mm != s.mm) NO("status: capacity %llu bytes/%llu msgs, expected %llu/%llu", (ULL)o.bn, (ULL)o.mm, (ULL)s.n, (ULL)s.mm);
    if (o.flags != s.gflags) NO("status: mode flags %x, expected %x", o.flags, s.gflags);
    if (o.cm != e.pend.size() || o.cb != e.pbytes) NO("status: %llu messages/%llu bytes buffered, expected %zu/%llu", (ULL)o.cm, (ULL)o.cb, e.pend.size(), (ULL)e.pbytes);
    if (o.reset) { s.st = MStat(); s.st.start = o.resetval; }
    return R_DONE;
  }
  case H_FARMSTAT:
    if (v) return R_NO;
    if (o.killed) return R_DONE;
    if (o.out != e.missed) NO("missed-message count %llu, expected %llu", (ULL)o.out, (ULL)e.missed);
    if (o.reset) e.missed = 0;
    return R_DONE;
  case H_APPGET: case H_APPSET: case H_APPSWAP: {
    bool set = o.kind != H_APPGET, get = o.kind != H_APPSET;
    bool bad = s.applen == 0 || (set ? o.buflen != s.applen : o.buflen < s.applen);
    if (o.killed) { if (v > 1) return R_NO; if (v == 1) { if (!set || bad) return R_NO; s.app = o.value; } return R_DONE; }
    if (o.rc == 0) {
      if (v) return R_NO;
      if (bad) NO("application-data call with a wrong size succeeded");
      if (get && o.out != s.app) NO("application data read is not the value last stored");
      if (set) s.app = o.value;
      return R_DONE;
    }
    if (!bad && !err_ok) NO("application-data call failed without a cause");
    if (v == 0) return R_DONE;
    if (v == 1 && sync_err && set && !bad) { s.app = o.value; return R_DONE; }
    return R_NO;
  }
  case H_FDCHECK:
    if (v) return R_NO;
    if (o.killed) return R_DONE;
    if (o.rc == 0 && avail(s, e)) NO("selectable descriptor not readable although %llu message(s) are available", (ULL)avail(s, e));
    return R_DONE;
  case H_FDWAIT:
    if (v || (!done && !o.killed)) return R_NO;
    return R_DONE;
  }
  return R_NO;
}

static bool pending_blocked_ok(RingState &s, const HOp &o, int stage, std::string *msg) {
  MHandle &e = s.h[o.handle];
  char b[300];
  if (o.kind == H_READ) {
    if (!avail(s, e)) return true;
    snprintf(b, sizeof b, "a reader stays blocked although %llu message(s) are available to it", (ULL)avail(s, e)); *msg = b; return false;
  }
  if (o.kind == H_FDWAIT) {
    if (!avail(s, e)) return true;
    snprintf(b, sizeof b, "the selectable descriptor stays unreadable although %llu message(s) are available", (ULL)avail(s, e)); *msg = b; return false;
  }
  const std::vector<MMsg> *need = nullptr;
  if (o.kind == H_WRITE) need = (e.buf && stage == 0 && !e.pend.empty()) ? &e.pend : &o.batch;
  if (o.kind == H_FLUSH || o.kind == H_CLOSE) need = &e.pend;
  if (need) {
    if (!need->empty() && !room(s, *need)) return true;
    snprintf(b, sizeof b, "a writer stays blocked in %s although its %llu bytes/%zu message(s) fit (%llu of %llu bytes, %zu of %llu messages unread)", kn[o.kind], (ULL)total(*need), need->size(), (ULL)s.u, (ULL)s.n, s.msgs.size(), (ULL)s.mm); *msg = b; return false;
  }
  snprintf(b, sizeof b, "an operation (%s) never returns", kn[o.kind]); *msg = b; return false;
}

// ---------------------------------------------------------------- search
struct Searcher {
  const History &h; bool quiescent, exempt;
  std::vector<std::vector<int>> perproc; std::vector<int> procs;
  std::unordered_set<u64> seen; u64 nodes = 0, budget = 150000, work = 0;
  std::string lastmsg; u64 best = 0; bool has_stat = false, distinct = true;
  Searcher(const History &hh, bool q, bool x) : h(hh), quiescent(q), exempt(x) {
    std::map<int, int> ix; std::unordered_set<u64> ids;
    for (size_t i = 0; i < h.ops.size(); i++) {
      int p = h.ops[i].proc; has_stat |= h.ops[i].kind == H_STAT;
      for (auto &m : h.ops[i].batch) distinct &= ids.insert(hc(m.h, m.len)).second;
      if (!ix.count(p)) { ix[p] = (int)perproc.size(); perproc.emplace_back(); procs.push_back(p); }
      perproc[ix[p]].push_back((int)i);
    }
  }
  bool final_ok(RingState &s, const std::vector<int> &pos, const std::vector<int> &stage, std::string *msg) {
    if (!quiescent) return true;
    for (size_t p = 0; p < perproc.size(); p++) {
      if (pos[p] >= (int)perproc[p].size()) continue;
      const HOp &o = h.ops[perproc[p][pos[p]]];
      if (o.killed) continue;
      if (exempt && (o.kind == H_READ || o.kind == H_FDWAIT || o.kind == H_WRITE || o.kind == H_FLUSH || o.kind == H_CLOSE)) continue;
      if (!pending_blocked_ok(s, o, stage[p], msg)) { *msg += " [" + o.str() + "]"; return false; }
    }
    return true;
  }
  bool all_done(const std::vector<int> &pos) {
    for (size_t p = 0; p < perproc.size(); p++) if (pos[p] < (int)perproc[p].size()) { const HOp &o = h.ops[perproc[p][pos[p]]]; if (o.ret != ~0ull) return false; }
    return true;
  }
  static bool sync_err(const HOp &o) { return o.faults & FB_MSYNC; }
  static bool pure(RingState &s, const HOp &o) {
    switch (o.kind) {
    case H_READ: return !s.farm || o.rc == 0;
    case H_WRITE: return !s.h[o.handle].buf;
    case H_STAT: return !o.reset;
    case H_APPGET: case H_FDCHECK: return true;
    default: return false;
    }
  }
  RingState fin;
  int dfs(RingState &s, std::vector<int> &pos, std::vector<int> &stage) {   // 1 ok, 0 no, -1 budget
    nodes++; work += 1 + s.msgs.size() / 16;
    if (nodes > budget || work > 2000000) return -1;
    u64 k = s.hash();
    for (size_t p = 0; p < pos.size(); p++) k = hc(k, pos[p] * 4 + stage[p]);
    if (!seen.insert(k).second) return 0;
    u64 depth = 0; for (int x : pos) depth += x;
    if (all_done(pos)) { std::string m; if (final_ok(s, pos, stage, &m)) { fin = s; return 1; } if (depth >= best) { best = depth; lastmsg = m; } }
    u64 minret = ~0ull;
    for (size_t p = 0; p < perproc.size(); p++) if (pos[p] < (int)perproc[p].size()) minret = std::min(minret, h.ops[perproc[p][pos[p]]].ret);
    for (size_t p = 0; p < perproc.size(); p++) {
      if (pos[p] >= (int)perproc[p].size()) continue;
      const HOp &o = h.ops[perproc[p][pos[p]]];
      if (std::max(o.inv, o.first) > minret) continue;
      for (int v = 0; v < MAXVAR; v++) {
        RingState t = s; Why w;
        Res r = apply(t, o, stage[p], v, &w);
        if (r == R_NO) { if (depth >= best && !w.s.empty()) { best = depth; lastmsg = w.s + " [" + o.str() + "]"; } continue; }
        int sp = stage[p], pp = pos[p];
        if (r == R_DONE) { pos[p]++; stage[p] = 0; } else stage[p] = 1;
        // An operation that changes nothing others can see, wherever it is placed, and is possible now, can move here from
        // anywhere later: no need to try other orders. (A farm read that is possible now would take other messages later.)
        bool now = r == R_DONE && !o.killed && o.rc <= 0 && !sync_err(o) && pure(s, o) && t.hash() == s.hash();
        if (s.farm && !has_stat && distinct && o.kind == H_READ && o.rc > 0 && !o.killed) now = true;
        int x = dfs(t, pos, stage);
        pos[p] = pp; stage[p] = sp;
        if (x || now) return x;
      }
    }
    return 0;
  }
};

// The order in which the critical sections were left is almost always a valid order: try it first, in place.
// early: take this operation (-1: none, -2: every open) at its first access to shared memory instead.
static bool guided(const History &h, bool quiescent, bool exempt, std::string *msg, RingState *fin, int early = -1) {
  struct Ev { u64 at; int op; int half; };
  std::vector<Ev> ev;
  for (size_t i = 0; i < h.ops.size(); i++) {
    const HOp &o = h.ops[i];
    u64 end = o.ret;
    u64 last = o.commits.empty() ? (o.lastunlock > o.inv ? o.lastunlock : o.inv) : o.commits.back();
    if (o.kind == H_FARMSTAT) last = o.ret;
    if (early == (int)i || (early == -2 && o.kind == H_OPEN)) last = std::max(o.inv, o.first);
    if (end == ~0ull) { if (!o.commits.empty() && o.kind == H_WRITE) ev.push_back({o.commits[0], (int)i, 0}); continue; }
    ev.push_back({last, (int)i, 1});
    bool two = false;
    if (o.kind == H_CLOSE) two = true;
    if (o.kind == H_WRITE && o.commits.size() >= (o.rc > 0 ? 2u : 1u)) two = true;
    if (two) ev.push_back({o.commits.empty() ? last : o.commits[0], (int)i, 0});
    if (o.kind == H_FLUSH && o.commits.size() >= 2) ev.push_back({o.commits[0], (int)i, 0});
  }
  std::stable_sort(ev.begin(), ev.end(), [](const Ev &a, const Ev &b) { return a.at != b.at ? a.at < b.at : a.op != b.op ? a.op < b.op : a.half < b.half; });
  RingState s = h.init;
  std::vector<int> stage(h.ops.size()), fin_(h.ops.size());
  Why why;
  for (auto &x : ev) {
    const HOp &o = h.ops[x.op];
    if (fin_[x.op]) continue;
    MHandle &e = s.h[o.handle];
    int st = stage[x.op];
    std::vector<int> vs{0};
    if (o.kind == H_CLOSE && x.half == 0) vs = {0, 1, 2};
    else if (o.kind == H_WRITE && e.buf && st == 0) {
      if (x.half == 0) { if (e.pend.empty()) continue; vs = o.rc > 0 && !o.killed ? std::vector<int>{2} : std::vector<int>{1, 2}; }
      else if (o.killed) vs = o.commits.empty() ? std::vector<int>{0} : e.pend.empty() ? std::vector<int>{3, 4, 0} : std::vector<int>{1, 2, 0};
      else if (o.rc > 0) vs = o.commits.empty() ? std::vector<int>{0} : e.pend.empty() ? std::vector<int>{3} : std::vector<int>{1};
      else vs = (o.commits.empty() || !(o.faults & FB_MSYNC)) ? std::vector<int>{0} : std::vector<int>{2, 0};
    } else if (o.kind == H_FLUSH && x.half == 0) vs = {1};
    else if (o.kind == H_FLUSH && x.half == 1 && st == 0 && e.nb && o.wait && !e.r2w && o.rc != -1) {
      Why w; if (apply(s, o, 0, 1, &w) == R_STAGE) st = stage[x.op] = 1;
    } else if (o.killed) vs = o.commits.empty() ? std::vector<int>{0} : std::vector<int>{1, 2, 0};
    else if (o.rc == -1 && (o.faults & FB_MSYNC) && !o.commits.empty()) vs = {o.kind == H_READ || o.kind == H_FLUSH ? 2 : 1, 0};
    if (o.killed && o.kind == H_WRITE && st == 1) vs = {1, 2, 0};
    Res r = R_NO;
    for (int v : vs) { r = apply(s, o, st, v, &why); if (r != R_NO) break; }
    if (r == R_NO) { *msg = why.s + " [" + o.str() + "]"; return false; }
    if (r == R_STAGE) { stage[x.op] = 1; if (x.half == 1) { // complete the second half now
        r = R_NO; for (int v = 0; v < 3 && r == R_NO; v++) r = apply(s, o, 1, v, &why);
        if (r != R_DONE) { *msg = why.s + " [" + o.str() + "]"; return false; } fin_[x.op] = 1; } }
    else fin_[x.op] = 1;
  }
  if (quiescent) for (size_t i = 0; i < h.ops.size(); i++) {
    const HOp &o = h.ops[i];
    if (o.ret != ~0ull || o.killed || exempt) continue;
    std::string m;
    if (!pending_blocked_ok(s, o, stage[i], &m)) { *msg = m + " [" + o.str() + "]"; return false; }
  }
  if (fin) *fin = s;
  return true;
}

CheckResult check_history(const History &h, bool quiescent, bool exempt, RingState *fin) {
  CheckResult r;
  std::string m;
  if (guided(h, quiescent, exempt, &m, fin)) return r;
  r.dfs = true;
  std::string m2;
  if (guided(h, quiescent, exempt, &m2, fin, -2)) return r;
  for (size_t i = 0; i < h.ops.size() && i < 300; i++) if (h.ops[i].first && h.ops[i].commits.size() < 2 && guided(h, quiescent, exempt, &m2, fin, (int)i)) return r;
  Searcher se(h, quiescent, exempt);
  RingState s = h.init;
  std::vector<int> pos(se.perproc.size()), st(se.perproc.size());
  int x = se.dfs(s, pos, st);
  r.nodes = se.nodes;
  if (x == 1) { if (fin) *fin = se.fin; return r; }
  r.v = x == 0 ? CheckResult::BAD : CheckResult::UNDECIDED;
  r.msg = m.empty() ? se.lastmsg : m;
  return r;
}
