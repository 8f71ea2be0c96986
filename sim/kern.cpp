#include "kern.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/mount.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <sys/vfs.h>
#include <sys/signalfd.h>
#include <sys/time.h>
#include <sys/file.h>
#include <netinet/in.h>
#include <netdb.h>
#include <poll.h>
#include <dirent.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <fcntl.h>

Kernel *K = nullptr;
char *Inode::mem() const { return (char *)(SHM_BASE + ext); }
static int next_file = 1;

File::~File() {
  if (!K) return;
  if (type == T_DGRAM && !name.empty()) {
    auto i = K->names.find(name);
    if (i != K->names.end() && i->second.expired()) { K->names.erase(i); K->freed_names.push_back(name); }
  }
}
void k_world_begin() {
  K = new Kernel; next_file = 1;
  K->space_pages = (u64)W->cfg.get("fspages", 0);
  Inode *d = new Inode; d->dir = true; d->num = 2; d->path = "/"; d->linked = true; d->mode = 0755;
  K->inodes.emplace_back(d); K->paths["/"] = d; K->paths["."] = d; K->paths["/ring"] = d;
  // other programs' sockets, visible in /proc/net/unix
}
void k_world_end() {
  for (auto &p : W->procs) { p->fds.clear(); }
  Kernel *k = K; K = nullptr;
  if (k->ext_top > (128ull << 20)) { fallocate(g_shm_fd, FALLOC_FL_PUNCH_HOLE | FALLOC_FL_KEEP_SIZE, 0, SHM_SIZE); g_shm_used = 0; }
  else g_shm_used = std::max(g_shm_used, k->ext_top);
  delete k;
}

// ---------------------------------------------------------------- files
Inode *k_lookup(const std::string &path) { auto i = K->paths.find(path); return i == K->paths.end() ? nullptr : i->second; }
static bool ino_used(Inode *i) {
  if (i->linked) return true;
  for (auto &p : W->procs) {
    if (p->st == P_DEAD) continue;
    for (auto &m : p->maps) if (m.ino == i) return true;
    for (auto &f : p->fds) if (f.second->ino == i) return true;
  }
  return false;
}
u64 k_pages_used() {
  u64 n = 0;
  for (auto &i : K->inodes) if (!i->dir && ino_used(i.get())) for (u8 a : i->alloc) n += a;
  return n;
}
static bool page_alloc(Inode *i, u64 pg) {
  if (pg >= i->alloc.size()) i->alloc.resize(pg + 1);
  if (i->alloc[pg]) return true;
  if (K->space_pages && k_pages_used() + 1 > K->space_pages) return false;
  i->alloc[pg] = 1;
  return true;
}
static void shm_zero(u64 o, u64 n) { if (o < g_shm_used) memset((char *)(SHM_BASE + o), 0, std::min(n, g_shm_used - o)); }
void k_grow(Inode *i, u64 size) {
  u64 need = (size + PAGE - 1) / PAGE * PAGE;
  if (need > i->cap) {
    u64 room = need + (need > (1ull << 30) ? need / 16 : need / 2) / PAGE * PAGE + 16 * PAGE;      // address space to grow in: a mapped file cannot move
    u64 cap = room + PAGE;                       // one page of gap
    u64 ext = K->ext_top;
    if (ext + cap > SHM_SIZE) { fprintf(stderr, "simulator: backing store exhausted\n"); _exit(70); }
    K->ext_top += cap;
    shm_zero(ext, need);
    if (i->cap) {
      for (auto &p : W->procs) for (auto &m : p->maps) if (m.ino == i) { fprintf(stderr, "simulator: growth of a mapped file\n"); _exit(70); }
      memcpy((char *)(SHM_BASE + ext), i->mem(), i->size);
    }
    i->ext = ext; i->cap = room; i->zeroed = need;
  }
  if (need > i->zeroed) { shm_zero(i->ext + i->zeroed, need - i->zeroed); i->zeroed = need; }
  if (size < i->size) memset(i->mem() + size, 0, i->size - size);
  i->size = size;
  i->alloc.resize(need / PAGE);
  i->dirty.resize(need / PAGE);
}
Inode *k_create_file(const std::string &path, u64 size) {
  Inode *i = new Inode; i->num = K->next_ino++; i->path = path; i->linked = true;
  i->track = W->cfg.get("disk", 0);
  K->inodes.emplace_back(i); K->paths[path] = i;
  if (size) k_grow(i, size);
  return i;
}
void k_unlink(const std::string &path) {
  auto i = K->paths.find(path);
  if (i == K->paths.end()) return;
  i->second->linked = false;
  K->paths.erase(i);
}

// shared memory access by the code under test
void k_shm_access(u64 a, u64 n, bool w) {
  Proc *p = W->cur;
  u64 alias = (a - SHM_BASE) / SHM_SIZE;
  if ((int)(alias / 2) != p->slot) { violation("memory", "access to an address of another process"); return; }
  Mapping *m = p->mcache;
  if (!m || a < m->base || a + n > m->base + m->len) {
    m = nullptr;
    for (auto &x : p->maps) if (!x.priv && a >= x.base && a + n <= x.base + x.len) { m = &x; break; }
    if (!m) { violation("memory", "access to unmapped memory (%s of %llu bytes)", w ? "write" : "read", (unsigned long long)n); return; }
    p->mcache = m;
  }
  Inode *i = m->ino;
  u64 off = a - m->base + m->fileoff;
  if (off + n > (i->size + PAGE - 1) / PAGE * PAGE) { violation("sigbus", "access beyond the end of the file"); return; }
  if (off + n > i->size) { violation("memory", "access beyond the end of the ring file"); return; }
  for (u64 pg = off / PAGE; pg <= (off + n - 1) / PAGE; pg++) {
    if (!i->alloc[pg] && !page_alloc(i, pg)) { violation("sigbus", "no storage left for a page of the ring: the process would be killed by SIGBUS"); return; }
    if (w) i->dirty[pg] = 1;
  }
  p->acc_last = ++W->seq; if (!p->acc_first) p->acc_first = p->acc_last;
  if (w && p->nlocks) { p->dirty = true; p->section_wrote = true; }
}

void k_writeback() {
  for (auto &i : K->inodes) if (i->track && !i->dir) {
    if (i->durable.size() < i->size) i->durable.resize(i->size);
    for (u64 pg = 0; pg < i->dirty.size(); pg++) if (i->dirty[pg]) {
      u64 e = std::min(i->size, (pg + 1) * PAGE);
      for (u64 s = pg * PAGE; s < e; s += 512)
        if (decide(K_DISK, 1, [&](Rng &r) { return r.chance(0.5) ? 1 : 0; })) {
          memcpy(&i->durable[s], i->mem() + s, std::min<u64>(512, e - s)); fired("writeback");
        }
    }
  }
}
void k_power_loss() {
  k_writeback();
  for (auto &i : K->inodes) if (i->track && !i->dir && i->linked) {
    i->durable.resize(i->size);
    if (!i->dlinked) { probe("power_loss_before_first_sync"); }
    memcpy(i->mem(), i->durable.data(), i->size);
    std::fill(i->dirty.begin(), i->dirty.end(), 0);
    i->locks.clear();
  }
  fired("power_loss");
}

// ---------------------------------------------------------------- descriptors
FileP fd_file(Proc *p, int fd) { auto i = p->fds.find(fd); return i == p->fds.end() ? nullptr : i->second; }
static FileP get(int fd) { return fd_file(cur(), fd); }
int fd_install(Proc *p, FileP f, int owner) {
  int fd = W->cfg.get("lowfd", 0) ? 0 : 3;           // 0-2 are the standard streams, unless the process closed the first two
  for (auto &x : p->fds) { if (x.first < fd) continue; if (x.first == fd) fd++; else break; if (fd == 2) fd = 3; }
  p->fds[fd] = f; p->fd_owner[fd] = owner;
  return fd;
}
static int new_fd(FileP f) {
  Proc *p = cur();
  if ((int)p->fds.size() >= p->nofile) return -1;
  return fd_install(p, f, p->owner);
}
static FileP mk(int type) { FileP f = std::make_shared<File>(); f->type = type; f->num = next_file++; return f; }
static int err(int e) { cur()->err = e; return -1; }

static void drop_locks(Proc *p, Inode *i) {
  size_t n = i->locks.size();
  i->locks.erase(std::remove_if(i->locks.begin(), i->locks.end(), [&](LockRange &l) { return l.p == p; }), i->locks.end());
  if (i->locks.size() != n) {
    p->nlocks = 0;
    for (auto &x : K->inodes) for (auto &l : x->locks) if (l.p == p) p->nlocks++;
    W->seq++; p->unlock_seq = W->seq;
    if (p->section_wrote) p->commits.push_back(W->seq);
    p->section_wrote = false; p->dirty = false;
  }
}
static void conn_close(Conn *c, int side, bool rst) {
  ConnEnd &me = c->e[side], &pe = c->e[1 - side];
  if (me.closed) return;
  me.closed = true;
  if (rst || !me.rx.empty()) pe.reset = true;      // unread data: reset
  pe.eof = true;
}
void k_conn_close(Conn *c, int side, bool rst) { conn_close(c, side, rst); }
static void file_closed(FileP f) {                 // called when a descriptor goes away
  if (f.use_count() > 1) {
    // still referenced by another descriptor? (epoll holds weak references only)
    for (auto &p : W->procs) for (auto &x : p->fds) if (x.second == f) return;
  }
  if (f->type == T_DGRAM) { f->dead = true; f->q.clear(); if (!f->name.empty()) { K->names.erase(f->name); K->freed_names.push_back(f->name); } }
  if (f->type == T_TCP && f->conn) conn_close(f->conn.get(), f->side, false);
  if (f->type == T_LISTEN) for (auto &c : f->backlog) { c->e[0].reset = c->e[0].eof = true; }
  if (f->type == T_PIPE_W && f->pipe) f->pipe->weof = true;
  if (f->type == T_PIPE_R && f->pipe) f->pipe->rgone = true;
}
void k_release(Proc *p, bool locks, bool fds) {
  if (locks) for (auto &i : K->inodes) drop_locks(p, i.get());
  if (fds) {
    while (!p->fds.empty()) {
      auto it = p->fds.begin(); FileP f = it->second; p->fds.erase(it);
      file_closed(f);
    }
    p->fd_owner.clear();
  }
}

bool file_readable(File *f) {
  switch (f->type) {
  case T_DGRAM: return !f->q.empty();
  case T_TCP: { ConnEnd &e = f->conn->e[f->side]; return !e.rx.empty() || e.eof || e.reset; }
  case T_LISTEN: return !f->backlog.empty();
  case T_PIPE_R: return !f->pipe->q.empty() || f->pipe->weof;
  case T_SIGFD: return (f->owner->sig_pending & f->sigs) != 0;
  case T_EVENT: return f->ready;
  case T_EPOLL: for (auto &e : f->ep) { auto x = e.f.lock(); if (x && (e.events & EPOLLIN) && file_readable(x.get())) return true; } return false;
  default: return true;
  }
}
bool file_writable(File *f) {
  switch (f->type) {
  case T_TCP: { ConnEnd &o = f->conn->e[1 - f->side], &m = f->conn->e[f->side]; return m.reset || o.closed || o.rx.size() < o.cap; }
  case T_PIPE_W: return f->pipe->rgone || f->pipe->werr || f->pipe->q.size() < f->pipe->cap;
  default: return true;
  }
}
int sock_fd_queue(Proc *p, int fd, u64 *last) {
  FileP f = fd_file(p, fd);
  if (!f || f->type != T_DGRAM) return -1;
  if (last) *last = f->q.empty() ? 0 : f->q.back().seq;
  return (int)f->q.size();
}

// ---------------------------------------------------------------- signals and time
static u64 bit(int s) { return 1ull << (s - 1); }
bool signal_deliverable(Proc *p) { return (p->sig_pending & ~p->sig_mask) != 0; }
// consumes one deliverable signal; handlers of the simulated program do nothing (installed without SA_RESTART)
static void take_signal(Proc *p) {
  u64 d = p->sig_pending & ~p->sig_mask;
  for (int s = 1; s < 64; s++) if (d & bit(s)) {
    p->sig_pending &= ~bit(s);
    p->natural |= FB_SIG;
    fired("signal_interrupts");
    if (s == SIGALRM || s == SIGPIPE || s == SIGTERM) { p->exit_code = 128 + s; proc_die(p, "signal"); }
    return;
  }
}
bool k_next_alarm(u64 *t) {
  bool r = false;
  for (int i = 0; i < NPROC; i++) {
    Proc *p = W->slots[i];
    if (p && p->st == P_BLOCK) for (u64 a : {p->alarm_at, p->wake_at}) if (a) { if (!r || a < *t) *t = a; r = true; }
  }
  return r;
}
void k_deliver_alarms() {
  for (int i = 0; i < NPROC; i++) { Proc *p = W->slots[i]; if (p && p->alarm_at && p->alarm_at <= W->clock_us) { p->alarm_at = 0; p->sig_pending |= bit(SIGALRM); fired("timer"); } }
}

// ---------------------------------------------------------------- TCP client used by the harness
FileP k_tcp_connect(int port) {
  auto i = K->listeners.find(port);
  if (i == K->listeners.end()) return nullptr;
  FileP l = i->second.lock();
  if (!l || l->backlog.size() > l->backmax) return nullptr;
  auto c = std::make_shared<Conn>(); c->id = K->next_conn++;
  c->e[0].cap = c->e[1].cap = (u64)W->cfg.get("tcpcap", 65536);
  K->conns.push_back(c);
  l->backlog.push_back(c); l->arrivals++;
  FileP f = mk(T_TCP); f->conn = c; f->side = 0;
  note(20, c->id);
  return f;
}

#define EXP __attribute__((visibility("default")))
#define ENTER(n) sys_enter(n)
#define FAULT(n, cls, ...) do { int fe_ = fault(n, cls, {__VA_ARGS__}); if (fe_) return err(fe_); } while (0)

static std::string pid_fd_dir(const char *p, int *pid, int *fd) {
  int n = 0; *fd = -1;
  if (sscanf(p, "/proc/%d/fd%n", pid, &n) < 1 || n == 0) return "";
  if (p[n] == 0) return "dir";
  if (p[n] == '/' && sscanf(p + n + 1, "%d", fd) == 1) return "link";
  return "";
}
static Proc *by_pid(int pid, bool *zombie) {
  Proc *z = nullptr;
  for (auto &p : W->procs) if (p->pid == pid) {
    if (p->st != P_DEAD) { *zombie = false; return p.get(); }
    if (p->zombie) z = p.get();
  }
  *zombie = z != nullptr;
  return z;
}
// ---------------------------------------------------------------- mount namespace
MNode *NS::node(MNode *parent, const std::string &name, bool dir) {
  nodes.emplace_back(new MNode); MNode *n = nodes.back().get(); n->name = name; n->dir = dir; n->parent = parent; n->ino = next_ino++;
  if (parent) parent->kids[name] = n;
  return n;
}
MFs *NS::make_fs(const std::string &type, const std::string &opts, int *e) {
  long t = type == "tmpfs" ? 0x01021994 : type == "ramfs" ? 0x858458F6 : type == "hugetlbfs" ? 0x958458F6 : type == "ext4" ? 0xEF53 : 0;
  if (!t) { *e = ENODEV; return nullptr; }
  u64 sz = 0; bool given = false;
  if (!opts.empty()) {
    char *end = nullptr;
    if (opts.compare(0, 5, "size=")) { if (type == "tmpfs" || type == "hugetlbfs") { *e = EINVAL; return nullptr; } }
    else { sz = strtoull(opts.c_str() + 5, &end, 10); given = true; if (*end) { if (type == "tmpfs" || type == "hugetlbfs") { *e = EINVAL; return nullptr; } } }
  }
  fss.emplace_back(new MFs); MFs *f = fss.back().get();
  f->dev = next_dev++; f->type = t; f->name = type;
  if (type == "tmpfs") f->blocks = given ? (sz + PAGE - 1) / PAGE : ram_pages / 2;
  if (type == "ext4") f->blocks = 100000;
  if (type == "hugetlbfs") f->bsize = 2 << 20;
  f->bfree = f->blocks;
  f->root = node(nullptr, "", true);
  return f;
}
MMount *NS::attach(MFs *fs, MLoc at, int by) {
  mounts.emplace_back(new MMount); MMount *m = mounts.back().get();
  m->fs = fs; m->parent = at.m; m->at = at.n; m->by = by;
  return m;
}
MMount *NS::find(MLoc at) const { for (auto &m : mounts) if (!m->gone && m->parent == at.m && m->at == at.n && m->parent) return m.get(); return nullptr; }
MLoc NS::top(MLoc l) const { while (MMount *m = find(l)) l = MLoc{m, m->fs->root}; return l; }
int NS::walk(const std::string &path, int proc, bool follow, MLoc *out, int depth) const {
  if (path.empty()) return ENOENT;
  if (path.size() >= 4096) return ENAMETOOLONG;
  MLoc l = root; auto c = cwd.find(proc);
  if (path[0] != '/' && c != cwd.end()) l = c->second;
  size_t i = 0;
  while (i < path.size()) {
    if (path[i] == '/') { i++; continue; }
    size_t e = path.find('/', i); if (e == std::string::npos) e = path.size();
    std::string s = path.substr(i, e - i); i = e;
    if (!l.n->dir) return ENOTDIR;
    if (s.size() > 255) return ENAMETOOLONG;
    if (s == ".") continue;
    if (s == "..") {
      while (l.n == l.m->fs->root && l.m->parent && !(l == root)) l = MLoc{l.m->parent, l.m->at};
      if (!(l == root) && l.n->parent) l.n = l.n->parent;
      l = top(l); continue;
    }
    auto k = l.n->kids.find(s); if (k == l.n->kids.end()) return ENOENT;
    MNode *n = k->second;
    if (!n->link.empty() && (follow || e < path.size())) {
      if (depth > 8) return ELOOP;
      // links of the simulated machine are absolute
      MLoc t; int r = walk(n->link, proc, true, &t, depth + 1); if (r) return r;
      l = t; continue;
    }
    l = top(MLoc{l.m, n});
  }
  if (path.back() == '/' && !l.n->dir) return ENOTDIR;
  *out = l; return 0;
}
std::string NS::name_of(MLoc l) const {
  std::string s;
  for (;;) {
    while (l.n == l.m->fs->root && l.m->parent) l = MLoc{l.m->parent, l.m->at};
    if (!l.n->parent) break;
    s = "/" + l.n->name + s; l.n = l.n->parent;
  }
  return s.empty() ? "/" : s;
}
int NS::mount(const std::string &type, const std::string &opts, MLoc at, int by) {
  int e = 0; MFs *f = make_fs(type, opts, &e); if (!f) return e;
  at = top(at);
  if (!at.n->dir) return ENOTDIR;
  MMount *m = attach(f, at, by); m->opts = opts;
  MEv v{'M', by, ++W->seq, m, at, type, {}}; v.stacked = is_mount_root(at) && ram(at.m->fs) && ram(f);
  log.push_back(v);
  vlog("    %s mounted on %s%s", type.c_str(), name_of(at).c_str(), v.stacked ? " (stacked)" : "");
  return 0;
}
int NS::umount(MLoc at, int by, bool detach) {
  if (!is_mount_root(at)) return EINVAL;
  if (detach) {                                   // busy or not, with all that is mounted below
    if (!at.m->parent) return EINVAL;
    for (auto &m : mounts) for (MMount *q = m.get(); q; q = q->parent) if (q == at.m) { m->gone = true; break; }
    log.push_back(MEv{'U', by, ++W->seq, at.m, MLoc{at.m->parent, at.m->at}, "", {}});
    return 0;
  }
  for (auto &m : mounts) if (!m->gone && m->parent == at.m) return EBUSY;
  for (auto &p : W->procs) if (p->st != P_DEAD) { auto c = cwd.find(p->id); if (c != cwd.end() && c->second.m == at.m) return EBUSY; }
  at.m->gone = true;
  log.push_back(MEv{'U', by, ++W->seq, at.m, MLoc{at.m->parent, at.m->at}, "", {}});
  vlog("    unmounted %s", name_of(at).c_str());
  return 0;
}
static int ns_walk(const char *path, bool follow, MLoc *l) { check_range(path, strlen(path) + 1, false); return K->ns->walk(path, cur()->id, follow, l); }
static int ns_stat(const MLoc &l, struct stat *st) {
  check_range(st, sizeof *st, true); memset(st, 0, sizeof *st);
  st->st_mode = !l.n->link.empty() ? S_IFLNK | 0777 : l.n->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_nlink = 1; st->st_dev = l.m->fs->dev; st->st_ino = l.n->ino; st->st_blksize = 4096;
  return 0;
}
static int ns_statfs(const MLoc &l, struct statfs *s) {
  check_range(s, sizeof *s, true); memset(s, 0, sizeof *s);
  MFs *f = l.m->fs; s->f_type = f->type; s->f_bsize = f->bsize; s->f_frsize = f->bsize; s->f_blocks = f->blocks; s->f_bfree = s->f_bavail = f->bfree; s->f_fsid.__val[0] = f->dev;
  return 0;
}
struct SimDir { int pid; std::vector<int> fds; size_t i; struct dirent de; };
static std::string norm(const char *p) { std::string s(p); while (s.size() > 1 && s[0] == '.' && s[1] == '/') s = s.substr(2); return s; }
static long sock_ino(const File *f) { return f->num * W->cfg.get("inostep", 1) + W->cfg.get("ino0", 40000); }
static std::string unix_table() {
  std::string s = "Num       RefCount Protocol Flags    Type St Inode Path\n";
  char b[200];
  struct L { std::string t; bool named; };
  std::vector<L> v;
  auto line = [&](long ino, const std::string &path, int type) {
    snprintf(b, sizeof b, "0000000000000000: 00000002 00000000 00000000 %04d 01 %5ld%s%s\n", type, ino, path.empty() ? "" : " ", path.c_str());
    v.push_back({b, !path.empty()});
  };
  int bg = (int)W->cfg.get("bgsock", 2);
  for (int i = 0; i < bg; i++) line(13000 + i, i & 1 ? "" : "/run/svc" + std::to_string(i), 1);
  for (auto &w : K->socks) { FileP f = w.lock(); if (f && !f->dead) line(sock_ino(f.get()), f->name.empty() ? "" : "@" + f->name, 2); }
  for (int i = 0; i < bg; i++) line(13100 + i, i & 1 ? "" : "@/tmp/.X11-unix/X" + std::to_string(i), 1);
  int ord = (int)W->cfg.get("unixord", 0);
  if (ord == 1) std::stable_sort(v.begin(), v.end(), [](const L &a, const L &b) { return a.named > b.named; });
  if (ord == 2) std::reverse(v.begin(), v.end());
  for (auto &l : v) s += l.t;
  return s;
}

extern "C" {
// ---------------------------------------------------------------- files
static int do_open(const char *path, int flags) {
  ENTER("open");
  if (!path) return err(EFAULT);
  std::string ps = norm(path);
  if (flags & O_CREAT) FAULT("open", FB_OPEN, EMFILE, ENFILE, ENOSPC, EACCES); else FAULT("open", FB_OPEN, EMFILE, ENFILE, ENOMEM);
  Proc *p = cur();
  if ((int)p->fds.size() >= p->nofile) { p->natural |= FB_OPEN; return err(EMFILE); }
  if (ps == "/proc/net/unix") { FileP f = mk(T_PROC); f->content = unix_table(); return new_fd(f); }
  if (K->ns) {
    if (ps.compare(0, 6, "/proc/") == 0) { if (ps != "/proc/sys/vm/nr_hugepages") return err(ENOENT); FileP f = mk(T_PROC); f->flags = flags; f->name = ps; f->content = "0\n"; return new_fd(f); }
    MLoc l; int e = ns_walk(path, true, &l);
    if (e && !(e == ENOENT && (flags & O_CREAT))) return err(e);
    if (!e && !l.n->dir && (flags & O_ACCMODE) == O_RDONLY) { FileP f = mk(T_PROC); f->flags = flags; f->name = ps; return new_fd(f); }
    if (!e && l.n->dir && (flags & O_ACCMODE) == O_RDONLY) { FileP f = mk(T_DIR); f->flags = flags; f->name = ps; return new_fd(f); }
    K->ns->log.push_back(MEv{'O', cur()->id, ++W->seq, nullptr, MLoc(), ps, {}}); return err(EACCES);
  }
  if (ps.compare(0, 6, "/proc/") == 0) { FileP f = mk(T_PROC); K->syslog.push_back("open " + ps); return new_fd(f); }
  Inode *i = k_lookup(ps);
  if (!i) {
    if (!(flags & O_CREAT)) return err(ENOENT);
    i = k_create_file(ps, 0);
    i->creator = cur()->owner;
    vlog("    creates %s", ps.c_str());
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) return err(EEXIST);
    if (i->dir && (flags & O_ACCMODE) != O_RDONLY) return err(EISDIR);
    if (flags & O_TRUNC) k_grow(i, 0);
  }
  FileP f = mk(i->dir ? T_DIR : T_FILE); f->ino = i; f->flags = flags;
  int fd = new_fd(f);
  return fd;
}
EXP long sx_unsupported() { fprintf(stderr, "simulator: the code makes a call that is not simulated\n"); _exit(71); }
EXP int sx_open(const char *path, int flags, ...) { return do_open(path, flags); }
EXP int sx_open64(const char *path, int flags, ...) { return do_open(path, flags); }
EXP int sx_openat(int, const char *path, int flags, ...) { return do_open(path, flags); }
EXP int sx_creat(const char *path, mode_t) { return do_open(path, O_CREAT | O_TRUNC | O_WRONLY); }
EXP int sx_close(int fd) {
  ENTER("close");
  Proc *p = cur();
  auto it = p->fds.find(fd);
  if (it == p->fds.end()) { violation("badclose", "close of descriptor %d, which is not open", fd); return err(EBADF); }
  if (p->fd_owner[fd] == 0) { violation("badclose", "close of descriptor %d, which belongs to the caller", fd); return err(EBADF); }
  FileP f = it->second;
  note(7, fd);
  p->fds.erase(it); p->fd_owner.erase(fd);
  if (f->ino && !f->ino->dir) drop_locks(p, f->ino);     // POSIX: any close drops the process's locks
  file_closed(f);
  return 0;
}
EXP int sx_access(const char *path, int) {
  ENTER("access");
  if (K->ns) { FAULT("access", FB_IO, EACCES, EIO, ENOMEM); check_range(path, strlen(path) + 1, false); if (strlen(path) >= 4096) return err(ENAMETOOLONG); if (K->ns->exes.count(path)) return 0; MLoc l; int e = ns_walk(path, true, &l); return e ? err(e) : 0; }
  if (k_lookup(norm(path))) return 0;
  return err(ENOENT);
}
EXP int sx_faccessat(int, const char *path, int m, int) { return sx_access(path, m); }
EXP int sx_unlink(const char *path) {
  ENTER("unlink");
  FAULT("unlink", FB_OPEN, EPERM, EROFS, EIO);
  std::string s = norm(path);
  if (!k_lookup(s)) return err(ENOENT);
  vlog("    unlinks %s", s.c_str());
  K->unlinks.push_back({k_lookup(s), cur()->owner});
  k_unlink(s);
  return 0;
}
EXP int sx_remove(const char *path) { return sx_unlink(path); }
EXP int sx_rename(const char *a, const char *b) {
  ENTER("rename"); FAULT("rename", FB_OPEN, EPERM, EIO);
  std::string x = norm(a), y = norm(b); Inode *i = k_lookup(x);
  if (!i) return err(ENOENT);
  K->paths.erase(x); k_unlink(y); K->paths[y] = i; i->path = y; return 0;
}
EXP int sx_link(const char *a, const char *b) {
  ENTER("link"); FAULT("link", FB_OPEN, EPERM, EIO);
  std::string x = norm(a), y = norm(b); Inode *i = k_lookup(x);
  if (!i) return err(ENOENT);
  if (k_lookup(y)) return err(EEXIST);
  K->paths[y] = i; return 0;
}
static void fill_stat(Inode *i, struct stat *st) {
  check_range(st, sizeof *st, true);
  memset(st, 0, sizeof *st);
  st->st_ino = i->num; st->st_size = i->size; st->st_mode = (i->dir ? S_IFDIR : S_IFREG) | i->mode; st->st_nlink = i->linked; st->st_dev = 5; st->st_blksize = 4096;
  for (u8 a : i->alloc) st->st_blocks += a * 8;
}
EXP int sx_fstat(int fd, struct stat *st) {
  ENTER("fstat"); FAULT("fstat", FB_OPEN, ENOMEM, EIO);
  FileP f = get(fd); if (!f) return err(EBADF);
  if (!f->ino) { memset(st, 0, sizeof *st); return 0; }
  fill_stat(f->ino, st); return 0;
}
static int do_stat(const char *path, struct stat *st, bool follow) {
  ENTER("stat");
  if (K->ns) { FAULT("stat", FB_IO, EIO, EACCES, ENOMEM); MLoc l; int e = ns_walk(path, follow, &l); if (e) return err(e); return ns_stat(l, st); }
  std::string s = norm(path);
  if (s.size() > 3 && s.substr(s.size() - 3) == "/..") { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; st->st_dev = 1; return 0; }
  Inode *i = k_lookup(s); if (!i) return err(ENOENT);
  fill_stat(i, st); return 0;
}
EXP int sx_stat(const char *p, struct stat *st) { return do_stat(p, st, true); }
EXP int sx_lstat(const char *p, struct stat *st) { return do_stat(p, st, false); }
EXP int sx_fstat64(int fd, struct stat *st) { return sx_fstat(fd, st); }
EXP int sx_stat64(const char *p, struct stat *st) { return sx_stat(p, st); }
EXP int sx_lstat64(const char *p, struct stat *st) { return sx_lstat(p, st); }
static u64 file_max() { return W->huge ? SHM_SIZE / 3 : 32ull << 20; }
static int do_trunc(Inode *i, off_t sz) { if (sz < 0) return err(EINVAL); if ((u64)sz > file_max()) return err(EFBIG); k_grow(i, (u64)sz); return 0; }
EXP int sx_ftruncate(int fd, off_t sz) {
  ENTER("ftruncate"); FAULT("ftruncate", FB_OPEN, EFBIG, EIO, ENOSPC);
  FileP f = get(fd); if (!f || !f->ino) return err(EBADF);
  return do_trunc(f->ino, sz);
}
EXP int sx_ftruncate64(int fd, off_t sz) { return sx_ftruncate(fd, sz); }
EXP int sx_truncate(const char *p, off_t sz) { ENTER("truncate"); Inode *i = k_lookup(norm(p)); if (!i) return err(ENOENT); return do_trunc(i, sz); }
static int do_falloc(int fd, u64 off, u64 len, bool keep) {
  FileP f = get(fd); if (!f || !f->ino) return EBADF;
  if (!len) return EINVAL;
  if (W->cfg.get("nofalloc", 0)) return EOPNOTSUPP;
  int e = fault("fallocate", FB_OPEN, {ENOSPC, EIO, EINTR}); if (e) return e;
  Inode *i = f->ino;
  if (off + len > file_max()) return EFBIG;
  std::vector<u8> save = i->alloc;
  u64 pgs = (off + len + PAGE - 1) / PAGE;
  if (i->alloc.size() < pgs) i->alloc.resize(pgs);
  for (u64 p = off / PAGE; p < pgs; p++) if (!page_alloc(i, p)) { i->alloc = save; cur()->natural |= FB_OPEN; fired("disk_full"); return ENOSPC; }
  if (!keep && off + len > i->size) { auto a = i->alloc; k_grow(i, off + len); i->alloc = a; }
  return 0;
}
EXP int sx_posix_fallocate(int fd, off_t o, off_t l) { ENTER("fallocate"); int e = do_falloc(fd, o, l, false); if (e == EOPNOTSUPP) e = EINVAL; return e; }
EXP int sx_posix_fallocate64(int fd, off_t o, off_t l) { return sx_posix_fallocate(fd, o, l); }
EXP int sx_fallocate(int fd, int mode, off_t o, off_t l) { ENTER("fallocate"); int e = do_falloc(fd, o, l, mode & 1); return e ? err(e) : 0; }
EXP int sx_fallocate64(int fd, int mode, off_t o, off_t l) { return sx_fallocate(fd, mode, o, l); }

EXP void *sx_mmap(void *, size_t len, int prot, int flags, int fd, off_t off) {
  ENTER("mmap");
  Proc *p = cur();
  { int e = fault("mmap", FB_OPEN, {ENOMEM, EAGAIN, ENFILE}); if (e) { p->err = e; return MAP_FAILED; } }
  if (!len) { p->err = EINVAL; return MAP_FAILED; }
  FileP f = fd >= 0 ? get(fd) : nullptr;
  if (!(flags & MAP_ANONYMOUS) && (!f || !f->ino)) { p->err = EBADF; return MAP_FAILED; }
  if ((flags & MAP_ANONYMOUS) || (flags & MAP_PRIVATE)) {
    u64 n = (len + PAGE - 1) / PAGE * PAGE;
    char *b = (char *)heap_alloc(p, n, p->owner, false);
    if (!b) { p->err = ENOMEM; return MAP_FAILED; }
    memset(b, 0, n);
    if (f) { u64 c = (u64)off < f->ino->size ? std::min<u64>(len, f->ino->size - off) : 0; memcpy(b, f->ino->mem() + off, c); }
    p->live.erase((u64)b);
    p->maps.push_back(Mapping{(u64)b, n, nullptr, 0, true, p->owner}); p->mcache = nullptr;
    return b;
  }
  if (off % PAGE) { p->err = EINVAL; return MAP_FAILED; }
  Inode *i = f->ino;
  if ((prot & PROT_WRITE) && (f->flags & O_ACCMODE) != O_RDWR) { p->err = EACCES; return MAP_FAILED; }
  u64 n = (len + PAGE - 1) / PAGE * PAGE;
  if (i->zeroed < off + n) { // mapping beyond the end: keep address space for it
    u64 s = i->size; k_grow(i, off + n); i->size = s;
  }
  u64 base = SHM_BASE + (u64)(p->slot * 2 + (p->alias_toggle++ & 1)) * SHM_SIZE + i->ext + off;
  for (auto &m : p->maps) if (!m.priv && m.base == base) { base = SHM_BASE + (u64)(p->slot * 2 + (p->alias_toggle & 1)) * SHM_SIZE + i->ext + off; }
  p->maps.push_back(Mapping{base, len, i, (u64)off, false, p->owner}); p->mcache = nullptr;
  return (void *)base;
}
EXP void *sx_mmap64(void *a, size_t l, int pr, int fl, int fd, off_t o) { return sx_mmap(a, l, pr, fl, fd, o); }
EXP int sx_munmap(void *a, size_t len) {
  ENTER("munmap");
  Proc *p = cur();
  // a process with several handles on one ring sees it at no more than two addresses: take the mapping of the calling handle
  size_t which = p->maps.size(), same = 0;
  for (size_t k = 0; k < p->maps.size(); k++) if (p->maps[k].base == (u64)a) { same++; if (which == p->maps.size() || (p->maps[k].owner == p->owner && p->maps[which].owner != p->owner)) which = k; }
  for (size_t k = which; k < p->maps.size() && k == which; k++) {
    Mapping &m = p->maps[k];
    u64 r = (len + PAGE - 1) / PAGE, t = (m.len + PAGE - 1) / PAGE;
    if (r < t) { // part stays mapped
      m.base += r * PAGE; m.len -= r * PAGE; m.fileoff += r * PAGE; p->mcache = nullptr; return 0;
    }
    u64 b = m.base;
    if (same == 1) p->mlocks.erase(std::remove_if(p->mlocks.begin(), p->mlocks.end(), [&](std::pair<u64, u64> &x) { return x.first >= b && x.first < b + t * PAGE; }), p->mlocks.end());
    p->maps.erase(p->maps.begin() + k); p->mcache = nullptr;
    return 0;
  }
  if (!len || ((u64)a & (PAGE - 1))) return err(EINVAL);
  violation("memory", "munmap of an address that is not mapped");
  return 0;
}
static Mapping *find_map(Proc *p, u64 a, u64 len) {
  for (auto &m : p->maps) if (a >= m.base && a + len <= m.base + (m.len + PAGE - 1) / PAGE * PAGE) return &m;
  return nullptr;
}
EXP int sx_msync(void *a, size_t len, int fl) {
  ENTER("msync"); FAULT("msync", FB_MSYNC, EIO);
  if ((u64)a & (PAGE - 1)) return err(EINVAL);
  Mapping *m = find_map(cur(), (u64)a, len); if (!m || !m->ino) return err(ENOMEM);
  if (!(fl & MS_SYNC)) return 0;
  probe("msync");
  Inode *i = m->ino;
  if (!i->track) return 0;
  u64 o = (u64)a - m->base + m->fileoff, e = std::min(i->size, (o + len + PAGE - 1) / PAGE * PAGE);
  if (i->durable.size() < i->size) i->durable.resize(i->size);
  if (e > o) memcpy(&i->durable[o], i->mem() + o, e - o);
  for (u64 pg = o / PAGE; pg * PAGE < e; pg++) i->dirty[pg] = 0;
  i->dlinked = true;
  return 0;
}
EXP int sx_fsync(int fd) {
  ENTER("fsync"); FAULT("fsync", FB_MSYNC, EIO);
  FileP f = get(fd); if (!f || !f->ino) return err(EBADF);
  Inode *i = f->ino; if (!i->track || i->dir) return 0;
  i->durable.assign(i->mem(), i->mem() + i->size); std::fill(i->dirty.begin(), i->dirty.end(), 0); i->dlinked = true;
  return 0;
}
EXP int sx_fdatasync(int fd) { return sx_fsync(fd); }
EXP int sx_mlock(const void *a, size_t len) {
  ENTER("mlock"); FAULT("mlock", FB_OPEN, ENOMEM, EAGAIN, EPERM);
  if (!find_map(cur(), (u64)a, len)) return err(ENOMEM);
  Proc *p = cur();
  u64 tot = len; for (auto &x : p->mlocks) tot += x.second;
  long lim = W->cfg.get("memlock", 0);
  if (lim && tot > (u64)lim) { p->natural |= FB_OPEN; fired("memlock_limit"); return err(ENOMEM); }
  Mapping *m = find_map(p, (u64)a, len);
  if (m->ino) for (u64 o = (u64)a - m->base + m->fileoff, e = o + len; o < e; o += PAGE) if (o / PAGE < m->ino->alloc.size() && !page_alloc(m->ino, o / PAGE)) { p->natural |= FB_OPEN; return err(ENOMEM); }
  p->mlocks.push_back({(u64)a, len});
  return 0;
}
EXP int sx_mlock2(const void *a, size_t l, int) { return sx_mlock(a, l); }
EXP int sx_munlock(const void *a, size_t) {
  ENTER("munlock"); Proc *p = cur();
  p->mlocks.erase(std::remove_if(p->mlocks.begin(), p->mlocks.end(), [&](std::pair<u64, u64> &x) { return x.first == (u64)a; }), p->mlocks.end());
  return 0;
}
EXP int sx_madvise(void *, size_t, int) { ENTER("madvise"); return 0; }

// POSIX record locks
static void lock_trim(Proc *p, Inode *i, u64 a, u64 b) {
  std::vector<LockRange> r;
  for (auto &l : i->locks) {
    if (l.p != p || l.b <= a || l.a >= b) { r.push_back(l); continue; }
    if (l.a < a) r.push_back({p, l.a, a, l.type});
    if (l.b > b) r.push_back({p, b, l.b, l.type});
  }
  i->locks.swap(r);
}
static bool lock_free(Proc *p, Inode *i, u64 a, u64 b, int type) {
  for (auto &l : i->locks) if (l.p != p && l.a < b && a < l.b && (type == F_WRLCK || l.type == F_WRLCK)) return false;
  return true;
}
static int do_lock(FileP f, int cmd, struct flock *fl) {
  Proc *p = cur();
  Inode *i = f->ino;
  if (!i) return err(EBADF);
  u64 a = fl->l_start + (fl->l_whence == SEEK_END ? i->size : fl->l_whence == SEEK_CUR ? f->pos : 0), b = fl->l_len ? a + fl->l_len : ~0ull;
  if (fl->l_type == F_UNLCK) {
    bool had = false; for (auto &l : i->locks) if (l.p == p) had = true;
    lock_trim(p, i, a, b);
    p->nlocks = 0; for (auto &x : K->inodes) for (auto &l : x->locks) if (l.p == p) p->nlocks++;
    if (had) { W->seq++; p->unlock_seq = W->seq; if (p->section_wrote) p->commits.push_back(W->seq); p->section_wrote = false; p->dirty = false; vlog("    unlock"); }
    return 0;
  }
  if (fl->l_type == F_WRLCK && (f->flags & O_ACCMODE) == O_RDONLY) return err(EBADF);
  if (fl->l_type == F_RDLCK && (f->flags & O_ACCMODE) == O_WRONLY) return err(EBADF);
  int ty = fl->l_type;
  if (cmd == F_GETLK) { fl->l_type = lock_free(p, i, a, b, ty) ? F_UNLCK : F_WRLCK; return 0; }
  if (cmd == F_SETLK && !lock_free(p, i, a, b, ty)) return err(EAGAIN);
  if (cmd == F_SETLKW) {
    if (!lock_free(p, i, a, b, ty)) probe("lock_contention");
    if (!block_on("fcntl", [=] { return lock_free(p, i, a, b, ty); }, true)) { take_signal(p); return err(EINTR); }
  }
  lock_trim(p, i, a, b);
  i->locks.push_back({p, a, b, ty});
  p->nlocks = 0; for (auto &x : K->inodes) for (auto &l : x->locks) if (l.p == p) p->nlocks++;
  W->seq++; p->lock_seq = W->seq; p->section_wrote = false;
  note(8, i->num);
  vlog("    lock");
  return 0;
}
EXP int sx_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
  bool lk = cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW;
  Proc *p = cur();
  bool un = lk && ((struct flock *)arg)->l_type == F_UNLCK;
  ENTER(un ? "unlock" : "fcntl");
  FileP f = get(fd);
  if (!f) return err(EBADF);
  if (lk) {
    if (!un) FAULT("lock", FB_LOCK, EINTR, ENOLCK, EDEADLK);
    check_range(arg, sizeof(struct flock), false);
    return do_lock(f, cmd, (struct flock *)arg);
  }
  switch (cmd) {
  case F_GETFL: return f->flags;
  case F_SETFL: f->flags = (f->flags & O_ACCMODE) | ((int)(long)arg & ~O_ACCMODE); return 0;
  case F_GETFD: case F_SETFD: return 0;
  case F_DUPFD: case F_DUPFD_CLOEXEC: return fd_install(p, f, p->owner);
  default: return err(EINVAL);
  }
}
EXP int sx_fcntl64(int fd, int cmd, void *arg) { return sx_fcntl(fd, cmd, arg); }
EXP int sx_lockf(int fd, int cmd, off_t len) {
  struct flock fl{}; fl.l_whence = SEEK_CUR; fl.l_len = len; fl.l_type = cmd == F_ULOCK ? F_UNLCK : F_WRLCK;
  ENTER("lockf"); FileP f = get(fd); if (!f) return err(EBADF);
  if (cmd != F_ULOCK) FAULT("lock", FB_LOCK, EINTR, ENOLCK, EDEADLK);
  return do_lock(f, cmd == F_LOCK ? F_SETLKW : F_SETLK, &fl);
}
EXP int sx_flock(int fd, int op) {   // approximated by a whole-file lock of the process
  struct flock fl{}; fl.l_whence = SEEK_SET; fl.l_type = (op & LOCK_UN) ? F_UNLCK : (op & LOCK_SH) ? F_RDLCK : F_WRLCK;
  ENTER("flock"); FileP f = get(fd); if (!f) return err(EBADF);
  if (!(op & LOCK_UN)) FAULT("lock", FB_LOCK, EINTR, ENOLCK);
  return do_lock(f, (op & LOCK_NB) ? F_SETLK : F_SETLKW, &fl);
}
EXP int sx_dup(int fd) { ENTER("dup"); FAULT("dup", FB_OPEN, EMFILE); FileP f = get(fd); if (!f) return err(EBADF); return fd_install(cur(), f, cur()->owner); }

// ---------------------------------------------------------------- read and write
static ssize_t seg(u64 n, int who) {             // how much of a transfer is done at once
  if (n <= 1 || !W->cfg.get("seg", 1)) return n;
  int v = decide(K_SEG, who, [&](Rng &r) { return r.chance(0.5) ? 0 : r.logrange(1, (int)std::min<u64>(n, 1u << 20)); });
  if (v > 0 && (u64)v < n) { fired("short_transfer"); return v; }
  return n;
}
static ssize_t do_read(int fd, void *buf, size_t n, int mflags) {
  Proc *p = cur();
  FileP f = get(fd); if (!f) return err(EBADF);
  bool nb = (f->flags & O_NONBLOCK) || (mflags & MSG_DONTWAIT);
  switch (f->type) {
  case T_PROC: {
    FAULT("read", FB_OTHER, ENOMEM, EIO);
    u64 c = f->pos < f->content.size() ? std::min<u64>(n, f->content.size() - f->pos) : 0;
    c = seg(c, 60);
    check_range(buf, c, true); memcpy(buf, f->content.data() + f->pos, c); f->pos += c; return c;
  }
  case T_FILE: {
    FAULT("read", FB_IO, EIO);
    u64 c = f->pos < f->ino->size ? std::min<u64>(n, f->ino->size - f->pos) : 0;
    check_range(buf, c, true); memcpy(buf, f->ino->mem() + f->pos, c); f->pos += c; return c;
  }
  case T_TCP: {
    if (nb && !file_readable(f.get())) return err(EAGAIN);
    if (!block_on("read", [=] { return file_readable(f.get()); }, true)) { take_signal(p); return err(EINTR); }
    ConnEnd &e = f->conn->e[f->side];
    if (e.reset) { e.reset = false; e.eof = true; e.rx.clear(); fired("tcp_reset_seen"); return err(ECONNRESET); }
    if (e.rx.empty()) return 0;
    u64 c = seg(std::min<u64>(n, e.rx.size()), 61);
    check_range(buf, c, true);
    for (u64 k = 0; k < c; k++) { ((char *)buf)[k] = e.rx.front(); e.rx.pop_front(); }
    note(21, c);
    return c;
  }
  case T_PIPE_R: {
    if (nb && !file_readable(f.get())) return err(EAGAIN);
    if (!block_on("read", [=] { return file_readable(f.get()); }, true)) { take_signal(p); return err(EINTR); }
    if (f->pipe->q.empty()) return 0;
    u64 c = seg(std::min<u64>(n, f->pipe->q.size()), 62);
    check_range(buf, c, true);
    for (u64 k = 0; k < c; k++) { ((char *)buf)[k] = f->pipe->q.front(); f->pipe->q.pop_front(); }
    return c;
  }
  case T_SIGFD: {
    if (nb && !file_readable(f.get())) return err(EAGAIN);
    if (!block_on("read", [=] { return file_readable(f.get()); }, false)) return err(EINTR);
    if (n < sizeof(struct signalfd_siginfo)) return err(EINVAL);
    for (int s = 1; s < 64; s++) if (p->sig_pending & f->sigs & bit(s)) {
      p->sig_pending &= ~bit(s);
      struct signalfd_siginfo si; memset(&si, 0, sizeof si); si.ssi_signo = s;
      check_range(buf, sizeof si, true); memcpy(buf, &si, sizeof si); return sizeof si;
    }
    return err(EAGAIN);
  }
  case T_EVENT: f->ready = false; return std::min<size_t>(n, 8);
  default: return err(EINVAL);
  }
}
static void sigpipe(Proc *p) {
  if (!(p->sig_mask & bit(SIGPIPE))) { p->exit_code = 128 + SIGPIPE; fired("sigpipe"); proc_die(p, "SIGPIPE"); }
}
static ssize_t do_write(int fd, const void *buf, size_t n, int mflags) {
  Proc *p = cur();
  FileP f = get(fd); if (!f) return err(EBADF);
  bool nb = (f->flags & O_NONBLOCK) || (mflags & MSG_DONTWAIT);
  check_range(buf, n, false);
  switch (f->type) {
  case T_FILE: {
    FAULT("write", FB_IO, ENOSPC, EIO);
    if (!n) return 0;
    if (n > 1 && fault("write", FB_IO, {ENOSPC})) { n = 1 + n / 3; fired("short_transfer"); }   // the disk fills up in between
    if (f->pos + n > f->ino->size) k_grow(f->ino, f->pos + n);
    for (u64 pg = f->pos / PAGE; pg <= (f->pos + n - 1) / PAGE; pg++) if (!page_alloc(f->ino, pg)) { if (pg * PAGE <= (u64)f->pos) return err(ENOSPC); n = pg * PAGE - f->pos; break; }
    memcpy(f->ino->mem() + f->pos, buf, n); f->pos += n; return n;
  }
  case T_TCP: {
    if (!n) return 0;
    Conn *cn = f->conn.get();
    { int e = fault("write", FB_IO, {ECONNRESET, ETIMEDOUT, EPIPE}); if (e) { cn->fails[f->side]++; cn->broken = true; conn_close(cn, 1 - f->side, true); cn->e[f->side].reset = false; cn->e[1 - f->side].reset = cn->e[1 - f->side].eof = true; return err(e); } }
    u64 want = n, done = 0;
    // a blocking send returns early only when the connection breaks or a signal arrives
    int cut = decide(K_SEG, 63, [&](Rng &r) { return r.chance(W->cfg.get("tcpcut", 0) / 100.0) ? r.logrange(1, (int)std::min<u64>(n, 1u << 20)) : 0; });
    while (done < want) {
      ConnEnd &o = f->conn->e[1 - f->side], &m = f->conn->e[f->side];
      if (o.closed || m.reset) {
        if (done) { fired("short_transfer"); probe("send_cut_by_reset"); cn->broken = true; return done; }
        if (!m.reset && !m.lost && decide(K_SEG, 66, [](Rng &r) { return (int)r.below(2); })) {
          // the peer is gone but its answer is still on the way: the bytes are accepted and lost
          m.lost = true; m.reset = true; cn->sent[f->side].append((const char *)buf, n); fired("tcp_sent_into_void"); return n;
        }
        m.reset = false; cn->fails[f->side]++; sigpipe(p); fired("tcp_epipe");
        return err(o.closed && decide(K_SEG, 64, [](Rng &r) { return (int)r.below(2); }) ? ECONNRESET : EPIPE);
      }
      if (o.rx.size() >= o.cap) {
        if (nb) { if (done) return done; return err(EAGAIN); }
        if (done && cut > 0 && (u64)cut <= done) { fired("short_transfer"); return done; }
        probe("send_blocks");
        if (!block_on("write", [=] { return file_writable(f.get()); }, true)) { take_signal(p); if (done) return done; return err(EINTR); }
        continue;
      }
      u64 c = std::min<u64>(want - done, o.cap - o.rx.size());
      o.rx.insert(o.rx.end(), (const char *)buf + done, (const char *)buf + done + c); o.arr++;
      cn->sent[f->side].append((const char *)buf + done, c);
      W->progress = W->steps;
      done += c;
    }
    note(22, done);
    return done;
  }
  case T_PIPE_W: {
    if (f->pipe->werr) { fired("write_error"); f->pipe->fails++; return err(f->pipe->werr); }
    { int e = fault("write", FB_IO, {EINTR, EIO, ENOSPC}); if (e) { f->pipe->fails++; return err(e); } }
    if (!n) return 0;
    if (f->pipe->rgone) { f->pipe->fails++; sigpipe(p); return err(EPIPE); }
    if (nb && !file_writable(f.get())) return err(EAGAIN);
    if (!block_on("write", [=] { return file_writable(f.get()); }, true)) { take_signal(p); return err(EINTR); }
    if (f->pipe->werr) { fired("write_error"); f->pipe->fails++; return err(f->pipe->werr); }
    if (f->pipe->rgone) { f->pipe->fails++; sigpipe(p); return err(EPIPE); }
    u64 c = std::min<u64>(n, f->pipe->cap - f->pipe->q.size());
    c = seg(c, 65);
    f->pipe->q.insert(f->pipe->q.end(), (const char *)buf, (const char *)buf + c);
    f->pipe->log.append((const char *)buf, c);
    W->progress = W->steps;
    return c;
  }
  case T_PROC:
    if (K->ns) {
      FAULT("write", FB_IO, EINVAL, ENOMEM, EIO);
      if ((f->flags & O_ACCMODE) == O_RDONLY) return err(EBADF);
      K->ns->log.push_back(MEv{'W', cur()->id, ++W->seq, nullptr, MLoc(), std::string((const char *)buf, n), {}}); return n;
    }
    K->syslog.push_back("write " + std::string((const char *)buf, n)); return n;
  default: return err(EINVAL);
  }
}
EXP ssize_t sx_read(int fd, void *b, size_t n) { ENTER("read"); return do_read(fd, b, n, 0); }
EXP ssize_t sx_write(int fd, const void *b, size_t n) { ENTER("write"); return do_write(fd, b, n, 0); }
EXP ssize_t sx_pread(int fd, void *b, size_t n, off_t o) {
  ENTER("pread"); FileP f = get(fd); if (!f || !f->ino) return err(EBADF);
  u64 c = (u64)o < f->ino->size ? std::min<u64>(n, f->ino->size - o) : 0; check_range(b, c, true); memcpy(b, f->ino->mem() + o, c); return c;
}
EXP ssize_t sx_pwrite(int fd, const void *b, size_t n, off_t o) {
  ENTER("pwrite"); FAULT("write", FB_IO, ENOSPC, EIO); FileP f = get(fd); if (!f || !f->ino) return err(EBADF);
  if (o + n > f->ino->size) k_grow(f->ino, o + n);
  check_range(b, n, false); memcpy(f->ino->mem() + o, b, n); if (n) for (u64 pg = o / PAGE; pg <= (o + n - 1) / PAGE; pg++) page_alloc(f->ino, pg); return n;
}
EXP ssize_t sx_pread64(int fd, void *b, size_t n, off_t at) { return sx_pread(fd, b, n, at); }
EXP ssize_t sx_pwrite64(int fd, const void *b, size_t n, off_t at) { return sx_pwrite(fd, b, n, at); }
EXP off_t sx_lseek(int fd, off_t o, int wh) { ENTER("lseek"); FileP f = get(fd); if (!f || !f->ino) return err(EBADF); f->pos = wh == SEEK_SET ? o : wh == SEEK_CUR ? f->pos + o : f->ino->size + o; return f->pos; }
EXP ssize_t sx_writev(int fd, const struct iovec *iov, int n) {
  ENTER("writev"); ssize_t t = 0;
  for (int i = 0; i < n; i++) { ssize_t r = do_write(fd, iov[i].iov_base, iov[i].iov_len, 0); if (r < 0) return t ? t : r; t += r; if ((size_t)r < iov[i].iov_len) break; }
  return t;
}
EXP ssize_t sx_readv(int fd, const struct iovec *iov, int n) { ENTER("readv"); if (n < 1) return err(EINVAL); return do_read(fd, iov[0].iov_base, iov[0].iov_len, 0); }

// ---------------------------------------------------------------- sockets
EXP int sx_socket(int dom, int type, int) {
  ENTER("socket"); FAULT("socket", FB_OPEN, EMFILE, ENFILE, ENOBUFS, ENOMEM);
  int t = type & 0xf;
  FileP f = mk(dom == AF_UNIX ? T_DGRAM : T_TCPNEW);
  if (dom == AF_UNIX && t != SOCK_DGRAM) { fprintf(stderr, "simulator: unsupported UNIX socket type\n"); return err(EPROTONOSUPPORT); }
  if (type & SOCK_NONBLOCK) f->flags |= O_NONBLOCK;
  int fd = new_fd(f);
  if (fd < 0) { cur()->natural |= FB_OPEN; return err(EMFILE); }
  if (dom == AF_UNIX) { K->socks.push_back(f); f->owner = cur(); }
  return fd;
}
EXP int sx_bind(int fd, const struct sockaddr *sa, socklen_t len) {
  ENTER("bind"); FAULT("bind", FB_OPEN, ENOMEM, ENOBUFS);
  FileP f = get(fd); if (!f) return err(EBADF);
  if (f->type == T_DGRAM) {
    if (!f->name.empty()) return err(EINVAL);
    const struct sockaddr_un *un = (const struct sockaddr_un *)sa;
    if (len > sizeof(sa_family_t)) {
      std::string nm(un->sun_path + 1, len - sizeof(sa_family_t) - 1);
      if (un->sun_path[0] != 0) nm = "path:" + std::string(un->sun_path);
      auto i = K->names.find(nm); if (i != K->names.end() && i->second.lock()) return err(EADDRINUSE);
      f->name = nm; K->names[nm] = f; return 0;
    }
    // autobind: five hexadecimal digits, unused; may be one that was in use before
    std::vector<std::string> old;
    for (auto it = K->freed_names.rbegin(); it != K->freed_names.rend() && old.size() < 8; ++it) {
      auto j = K->names.find(*it);
      if ((j == K->names.end() || j->second.expired()) && std::find(old.begin(), old.end(), *it) == old.end()) old.push_back(*it);
    }
    int v = 0;
    if (!old.empty()) v = decide(K_PROC, 901, [&](Rng &r) { return r.chance(W->cfg.get("namereuse", 10) / 100.0) ? 1 + (int)r.below(old.size()) : 0; });
    std::string nm;
    if (v > 0) { nm = old[(v - 1) % old.size()]; fired("address_reuse"); }
    else do { char b[8]; snprintf(b, sizeof b, "%05x", K->next_name); K->next_name = (K->next_name + 1) & 0xfffff; nm = b; } while (K->names.count(nm));
    f->name = nm; K->names[nm] = f;
    note(9, strtoul(nm.c_str(), nullptr, 16));
    vlog("    bound to @%s", nm.c_str());
    return 0;
  }
  if (len >= sizeof(struct sockaddr_in)) {
    int port = ntohs(((const struct sockaddr_in *)sa)->sin_port);
    auto i = K->listeners.find(port); if (i != K->listeners.end() && !i->second.expired()) return err(EADDRINUSE);
    f->port = port; return 0;
  }
  return err(EINVAL);
}
EXP int sx_getsockname(int fd, struct sockaddr *sa, socklen_t *len) {
  ENTER("getsockname"); FAULT("getsockname", FB_OPEN, ENOBUFS);
  FileP f = get(fd); if (!f) return err(EBADF);
  struct sockaddr_un un; memset(&un, 0, sizeof un); un.sun_family = AF_UNIX;
  memcpy(un.sun_path + 1, f->name.data(), f->name.size());
  socklen_t l = sizeof(sa_family_t) + (f->name.empty() ? 0 : 1 + f->name.size());
  memcpy(sa, &un, std::min(*len, l)); *len = l; return 0;
}
EXP int sx_connect(int fd, const struct sockaddr *sa, socklen_t len) {
  ENTER("connect"); FAULT("connect", FB_OPEN, ENOMEM, EAGAIN, EINTR);
  FileP f = get(fd); if (!f) return err(EBADF);
  if (f->type == T_DGRAM) {
    const struct sockaddr_un *un = (const struct sockaddr_un *)sa;
    if (len <= sizeof(sa_family_t)) { f->has_peer = false; return 0; }
    std::string nm(un->sun_path + 1, len - sizeof(sa_family_t) - 1);
    auto i = K->names.find(nm);
    FileP p = i == K->names.end() ? nullptr : i->second.lock();
    if (!p || p->dead) { probe("connect_refused"); return err(ECONNREFUSED); }
    f->peer = p; f->has_peer = true; return 0;
  }
  int port = ntohs(((const struct sockaddr_in *)sa)->sin_port);
  FileP c = k_tcp_connect(port);
  if (!c) return err(ECONNREFUSED);
  f->type = T_TCP; f->conn = c->conn; f->side = 0; c->conn.reset();
  return 0;
}
static ssize_t dgram_send(FileP f, const char *d, size_t n, int mflags, const struct sockaddr *to, socklen_t tolen) {
  W->nsent++; W->cur->nsent++;
  Proc *p = cur();
  FileP peer;
  if (to && tolen > sizeof(sa_family_t)) {
    const struct sockaddr_un *un = (const struct sockaddr_un *)to;
    auto i = K->names.find(std::string(un->sun_path + 1, tolen - sizeof(sa_family_t) - 1));
    if (i != K->names.end()) peer = i->second.lock();
    if (!peer || peer->dead) return err(ECONNREFUSED);
  } else {
    if (!f->has_peer) return err(ENOTCONN);
    peer = f->peer.lock();
    if (!peer || peer->dead) { f->has_peer = false; probe("send_refused"); return err(ECONNREFUSED); }
  }
  long qmax = W->cfg.get("qlen", 10);
  bool nb = (f->flags & O_NONBLOCK) || (mflags & MSG_DONTWAIT);
  if ((long)peer->q.size() > qmax) {
    probe("wake_queue_full");
    if (nb) { if (K->log_sends && peer->owner) K->sends.push_back({p->id, peer->owner->id, ++W->seq, false}); return err(EAGAIN); }
    if (!block_on("send", [=] { return peer->dead || (long)peer->q.size() <= qmax; }, true)) { take_signal(p); return err(EINTR); }
    if (peer->dead) return err(ECONNREFUSED);
  }
  W->seq++;
  peer->q.push_back(Msg{std::string(d, n), W->seq, p->pid}); peer->arrivals++;
  if (K->log_sends && peer->owner) K->sends.push_back({p->id, peer->owner->id, W->seq, true});
  if (peer->q.size() > 1024) probe("wake_queue_over_1024");
  return n;
}
EXP ssize_t sx_sendmsg(int fd, const struct msghdr *m, int fl) {
  ENTER("sendmsg"); FAULT("send", FB_NOTIFY, ENOBUFS, ENOMEM);
  FileP f = get(fd); if (!f) return err(EBADF);
  std::string d; for (size_t i = 0; i < m->msg_iovlen; i++) { check_range(m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, false); d.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); }
  if (f->type == T_DGRAM) return dgram_send(f, d.data(), d.size(), fl, (const struct sockaddr *)m->msg_name, m->msg_namelen);
  return do_write(fd, d.data(), d.size(), fl);
}
EXP ssize_t sx_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *to, socklen_t tl) {
  ENTER("send"); 
  FileP f = get(fd); if (!f) return err(EBADF);
  if (f->type == T_DGRAM) { FAULT("send", FB_NOTIFY, ENOBUFS, ENOMEM); check_range(b, n, false); return dgram_send(f, (const char *)b, n, fl, to, tl); }
  if (fl & MSG_NOSIGNAL) { Proc *p = cur(); u64 m = p->sig_mask; p->sig_mask |= bit(SIGPIPE); ssize_t r = do_write(fd, b, n, fl); p->sig_mask = m; return r; }
  return do_write(fd, b, n, fl);
}
EXP ssize_t sx_send(int fd, const void *b, size_t n, int fl) { return sx_sendto(fd, b, n, fl, nullptr, 0); }
static ssize_t dgram_recv(FileP f, const struct iovec *iov, size_t niov, int mflags, int *flags_out) {
  Proc *p = cur();
  bool nb = (f->flags & O_NONBLOCK) || (mflags & MSG_DONTWAIT);
  if (f->q.empty()) {
    if (nb) return err(EAGAIN);
    if (!block_on("recv", [=] { return !f->q.empty(); }, true)) { take_signal(p); return err(EINTR); }
  }
  Msg m = f->q.front();
  if (!(mflags & MSG_PEEK)) f->q.pop_front();
  size_t o = 0;
  for (size_t i = 0; i < niov && o < m.d.size(); i++) {
    size_t c = std::min(iov[i].iov_len, m.d.size() - o);
    check_range(iov[i].iov_base, c, true); memcpy(iov[i].iov_base, m.d.data() + o, c); o += c;
  }
  if (flags_out) *flags_out = o < m.d.size() ? MSG_TRUNC : 0;
  return o;
}
EXP ssize_t sx_recvmsg(int fd, struct msghdr *m, int fl) {
  ENTER("recvmsg"); FAULT("recvmsg", FB_NOTIFY, ENOMEM, ENOBUFS);
  FileP f = get(fd); if (!f) return err(EBADF);
  check_range(m, sizeof *m, true);
  if (f->type != T_DGRAM) return m->msg_iovlen ? do_read(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl) : 0;
  ssize_t r = dgram_recv(f, m->msg_iov, m->msg_iovlen, fl, &m->msg_flags);
  if (r >= 0) { m->msg_namelen = 0; m->msg_controllen = 0; }
  return r;
}
EXP int sx_recvmmsg(int fd, struct mmsghdr *v, unsigned n, int fl, struct timespec *) {
  ENTER("recvmmsg"); FAULT("recvmsg", FB_NOTIFY, ENOMEM, ENOBUFS);
  FileP f = get(fd); if (!f) return err(EBADF);
  check_range(v, n * sizeof *v, true);
  unsigned k = 0;
  for (; k < n; k++) {
    if (f->q.empty() && (k || (fl & MSG_DONTWAIT))) break;
    ssize_t r = dgram_recv(f, v[k].msg_hdr.msg_iov, v[k].msg_hdr.msg_iovlen, fl, &v[k].msg_hdr.msg_flags);
    if (r < 0) break;
    v[k].msg_len = r;
  }
  if (k == 0) return err(EAGAIN);
  return k;
}
EXP ssize_t sx_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) {
  ENTER("recv"); FileP f = get(fd); if (!f) return err(EBADF);
  if (f->type == T_DGRAM) { FAULT("recvmsg", FB_NOTIFY, ENOMEM, ENOBUFS); struct iovec io{b, n}; return dgram_recv(f, &io, 1, fl, nullptr); }
  return do_read(fd, b, n, fl);
}
EXP ssize_t sx_recv(int fd, void *b, size_t n, int fl) { return sx_recvfrom(fd, b, n, fl, nullptr, nullptr); }
EXP int sx_setsockopt(int fd, int, int, const void *, socklen_t) { ENTER("setsockopt"); FAULT("setsockopt", FB_OPEN, ENOMEM); if (!get(fd)) return err(EBADF); return 0; }
EXP int sx_getsockopt(int fd, int, int, void *v, socklen_t *) { ENTER("getsockopt"); if (!get(fd)) return err(EBADF); *(int *)v = 0; return 0; }
EXP int sx_listen(int fd, int) {
  ENTER("listen"); FAULT("listen", FB_OPEN, EADDRINUSE);
  FileP f = get(fd); if (!f) return err(EBADF);
  f->type = T_LISTEN; K->listeners[f->port] = f; return 0;
}
static int do_accept(int fd, struct sockaddr *sa, socklen_t *len) {
  ENTER("accept");
  Proc *p = cur();
  FileP f = get(fd); if (!f || f->type != T_LISTEN) return err(EBADF);
  if (!f->backlog.empty()) { int e = fault("accept", FB_IO, {ECONNABORTED, EPROTO, ENETDOWN}); if (e) { auto c = f->backlog.front(); f->backlog.pop_front(); c->broken = true; c->e[1].closed = true; c->e[0].reset = c->e[0].eof = true; return err(e); } }
  if (f->backlog.empty() && (f->flags & O_NONBLOCK)) return err(EAGAIN);
  if (!block_on("accept", [=] { return !f->backlog.empty(); }, true)) { take_signal(p); return err(EINTR); }
  auto c = f->backlog.front();
  FileP n = mk(T_TCP); n->conn = c; n->side = 1;
  int r = new_fd(n);
  if (r < 0) return err(EMFILE);
  f->backlog.pop_front();
  for (auto &o : K->conns) if (o->accepted && !o->e[1].closed) c->second = true;
  c->accepted = true; c->acc_seq = ++W->seq;
  if (sa && len) { struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(INADDR_LOOPBACK); memcpy(sa, &in, std::min<size_t>(*len, sizeof in)); *len = sizeof in; }
  note(23, c->id);
  return r;
}
EXP int sx_accept(int fd, struct sockaddr *sa, socklen_t *len) { return do_accept(fd, sa, len); }
EXP int sx_accept4(int fd, struct sockaddr *sa, socklen_t *len, int) { return do_accept(fd, sa, len); }
EXP int sx_shutdown(int fd, int how) {
  ENTER("shutdown"); FileP f = get(fd); if (!f) return err(EBADF);
  if (f->type == T_TCP && how != SHUT_RD) f->conn->e[1 - f->side].eof = true;
  return 0;
}
EXP struct hostent *sx_gethostbyname(const char *) {
  static struct hostent h; static char addr[4] = {127, 0, 0, 1}; static char *al[2] = {addr, nullptr}; static char nm[] = "localhost"; static char *als[1] = {nullptr};
  h.h_name = nm; h.h_aliases = als; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = al; return &h;
}
EXP int sx_ioctl(int fd, unsigned long req, void *arg) {
  ENTER("ioctl"); FileP f = get(fd); if (!f) return err(EBADF);
  if (req == FIONREAD) { check_range(arg, sizeof(int), true); *(int *)arg = f->type == T_DGRAM ? (f->q.empty() ? 0 : (int)f->q.front().d.size()) : f->type == T_TCP ? (int)f->conn->e[f->side].rx.size() : 0; return 0; }
  if (req == FIONBIO) { if (*(int *)arg) f->flags |= O_NONBLOCK; else f->flags &= ~O_NONBLOCK; return 0; }
  return err(ENOTTY);
}

// ---------------------------------------------------------------- epoll and poll
EXP int sx_epoll_create(int) {
  ENTER("epoll_create"); FAULT("epoll_create", FB_OPEN, EMFILE, ENFILE, ENOMEM);
  int fd = new_fd(mk(T_EPOLL));
  if (fd < 0) { cur()->natural |= FB_OPEN; return err(EMFILE); }
  return fd;
}
EXP int sx_epoll_create1(int) { return sx_epoll_create(1); }
EXP int sx_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
  ENTER("epoll_ctl"); FAULT("epoll_ctl", FB_OPEN, ENOMEM, ENOSPC);
  FileP e = get(ep), f = get(fd);
  if (!e || !f || e->type != T_EPOLL) return err(EBADF);
  if (f->type == T_FILE) return err(EPERM);
  auto i = std::find_if(e->ep.begin(), e->ep.end(), [&](EpEnt &x) { return x.fd == fd && x.f.lock() == f; });
  if (op == EPOLL_CTL_ADD) { if (i != e->ep.end()) return err(EEXIST); e->ep.push_back(EpEnt{fd, f, ev->events, ev->data.u64, 0}); return 0; }
  if (i == e->ep.end()) return err(ENOENT);
  if (op == EPOLL_CTL_DEL) { e->ep.erase(i); return 0; }
  i->events = ev->events; i->data = ev->data.u64; i->seen = ~0ull; return 0;
}
// what an edge-triggered entry compares with: changes whenever something arrives
static u64 edge_mark(File *f) {
  switch (f->type) {
  case T_TCP: { ConnEnd &m = f->conn->e[f->side]; return m.arr * 4 + m.eof + 2 * m.reset; }
  case T_PIPE_R: return f->pipe->log.size() * 2 + f->pipe->weof;
  case T_LISTEN: return f->arrivals;
  case T_SIGFD: return f->owner->sig_pending & f->sigs;
  default: return f->arrivals;
  }
}
static u32 ep_ready(EpEnt &e) {
  FileP f = e.f.lock(); if (!f) return 0;
  if ((e.events & EPOLLET) && e.seen == edge_mark(f.get())) return 0;
  if (!(e.events & ~(u32)(EPOLLET | EPOLLONESHOT)) && (e.events & EPOLLONESHOT)) return 0;
  u32 r = 0;
  if (file_readable(f.get())) r |= EPOLLIN;
  if (file_writable(f.get())) r |= EPOLLOUT;
  u32 always = 0;
  if (f->type == T_TCP) { ConnEnd &m = f->conn->e[f->side]; if (m.reset) always |= EPOLLERR | EPOLLHUP; }
  if (f->type == T_DGRAM && f->dead) return 0;
  return (r & e.events) | always;
}
static int do_epoll_wait(int ep, struct epoll_event *ev, int max, int tmo) {
  ENTER("epoll_wait"); FAULT("epoll_wait", FB_WAIT, EINTR);
  Proc *p = cur();
  FileP e = get(ep); if (!e || e->type != T_EPOLL) return err(EBADF);
  auto any = [=] { for (auto &x : e->ep) if (ep_ready(x)) return true; return false; };
  if (p->nlocks && tmo != 0 && !any()) { violation("wait_locked", "waits in epoll_wait while holding the ring lock"); }
  if (tmo < 0) { if (!block_on("epoll_wait", any, true)) { take_signal(p); p->eintr = true; return err(EINTR); } }
  else if (!any() && tmo > 0) { W->clock_us += tmo * 1000ull; probe("epoll_timeout"); }
  std::vector<EpEnt *> r;
  for (auto &x : e->ep) if (ep_ready(x)) r.push_back(&x);
  std::stable_sort(r.begin(), r.end(), [](EpEnt *a, EpEnt *b) { return a->last < b->last; });
  int n = 0;
  while (!r.empty() && n < max) {
    size_t k = 0;
    if (r.size() > 1) k = (size_t)decide(K_EPOLL, p->prog >= 0 ? p->prog : 50, [&](Rng &g) { return (int)g.below(r.size()); }) % r.size();
    EpEnt *x = r[k]; r.erase(r.begin() + k);
    check_range(&ev[n], sizeof *ev, true);
    ev[n].events = ep_ready(*x); ev[n].data.u64 = x->data; n++;
    x->last = ++W->seq;
    if (FileP f = x->f.lock()) if (x->events & EPOLLET) x->seen = edge_mark(f.get());
    if (x->events & EPOLLONESHOT) x->events = EPOLLONESHOT;
  }
  return n;
}
EXP int sx_epoll_wait(int ep, struct epoll_event *ev, int max, int tmo) { return do_epoll_wait(ep, ev, max, tmo); }
EXP int sx_epoll_pwait(int ep, struct epoll_event *ev, int max, int tmo, const sigset_t *) { return do_epoll_wait(ep, ev, max, tmo); }
EXP int sx_poll(struct pollfd *pf, nfds_t n, int tmo) {
  ENTER("poll"); FAULT("epoll_wait", FB_WAIT, EINTR);
  Proc *p = cur();
  auto cnt = [=] { int k = 0; for (nfds_t i = 0; i < n; i++) { FileP f = fd_file(p, pf[i].fd); pf[i].revents = 0; if (!f) continue; if ((pf[i].events & POLLIN) && file_readable(f.get())) pf[i].revents |= POLLIN; if ((pf[i].events & POLLOUT) && file_writable(f.get())) pf[i].revents |= POLLOUT; if (pf[i].revents) k++; } return k; };
  if (p->nlocks && tmo != 0 && !cnt()) violation("wait_locked", "waits in poll while holding the ring lock");
  if (tmo < 0) { if (!block_on("poll", [=] { return cnt() > 0; }, true)) { take_signal(p); p->eintr = true; return err(EINTR); } }
  return cnt();
}

EXP int sx_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
  ENTER("select"); FAULT("epoll_wait", FB_WAIT, EINTR);
  Proc *p = cur();
  fd_set r0, w0; FD_ZERO(&r0); FD_ZERO(&w0);
  if (r) { check_range(r, sizeof *r, true); r0 = *r; } if (w) { check_range(w, sizeof *w, true); w0 = *w; }
  for (int i = 0; i < n; i++) if (((r && FD_ISSET(i, &r0)) || (w && FD_ISSET(i, &w0))) && !fd_file(p, i)) return err(EBADF);
  auto cnt = [=](fd_set *ro, fd_set *wo) {
    int k = 0; if (ro) FD_ZERO(ro); if (wo) FD_ZERO(wo);
    for (int i = 0; i < n; i++) {
      FileP f = fd_file(p, i); if (!f) continue;
      if (r && FD_ISSET(i, &r0) && file_readable(f.get())) { if (ro) FD_SET(i, ro); k++; }
      if (w && FD_ISSET(i, &w0) && file_writable(f.get())) { if (wo) FD_SET(i, wo); k++; }
    }
    return k;
  };
  bool poll = tv && !tv->tv_sec && !tv->tv_usec;
  if (p->nlocks && !poll && !cnt(nullptr, nullptr)) violation("wait_locked", "waits in select while holding the lock");
  if (!poll) {
    if (tv) p->wake_at = W->clock_us + tv->tv_sec * 1000000ull + tv->tv_usec;
    bool ok = block_on("select", [=] { return cnt(nullptr, nullptr) > 0 || (p->wake_at && W->clock_us >= p->wake_at); }, true);
    p->wake_at = 0;
    if (!ok) { take_signal(p); if (!cnt(nullptr, nullptr)) { p->eintr = true; return err(EINTR); } }
  }
  if (x) FD_ZERO(x);
  return cnt(r, w);
}

// ---------------------------------------------------------------- processes and /proc
EXP pid_t sx_getpid() { return cur()->pid; }
EXP pid_t sx_getppid() { return 1; }
EXP uid_t sx_getuid() { return cur()->uid; }
EXP int sx_kill(pid_t pid, int sig) {
  ENTER("kill");
  bool z; Proc *t = by_pid(pid, &z);
  if (!t) { if (W->cfg.get("alienpid", 0) && pid >= W->cfg.get("pid0", 1000)) { probe("alien_pid"); return W->cfg.get("alienpid", 0) == 2 ? err(EPERM) : 0; } return err(ESRCH); }
  if (cur()->uid && t->uid != cur()->uid) { probe("kill_denied"); return err(EPERM); }
  if (sig == 0) { if (z) probe("zombie_seen"); return 0; }
  t->sig_pending |= bit(sig); return 0;
}
EXP DIR *sx_opendir(const char *path) {
  ENTER("opendir");
  Proc *p = cur();
  { int e = fault("opendir", FB_OTHER, {EMFILE, ENFILE, ENOMEM}); if (e) { p->err = e; return nullptr; } }
  int pid, fd;
  if (pid_fd_dir(path, &pid, &fd) != "dir") { p->err = ENOENT; return nullptr; }
  bool z; Proc *t = by_pid(pid, &z);
  long alien = t ? 0 : W->cfg.get("alienpid", 0);
  if (alien) { if (alien == 2) { p->err = EACCES; return nullptr; } z = true; t = p; }
  else if (!t) { p->err = ENOENT; return nullptr; }
  else if (p->uid && (z || t->uid != p->uid)) { p->err = EACCES; probe("proc_denied"); return nullptr; }
  if ((int)(p->fds.size() + p->dirs.size()) >= p->nofile) { p->natural |= FB_OTHER; p->err = EMFILE; return nullptr; }
  SimDir *d = (SimDir *)heap_alloc(p, sizeof(SimDir), p->owner, false);
  if (!d) { p->err = ENOMEM; return nullptr; }
  p->live.erase((u64)d);                         // accounted as a directory, not as memory
  new (d) SimDir{}; d->pid = pid; d->i = 0;
  d->fds.push_back(-1); d->fds.push_back(-2);
  if (!z) for (auto &x : t->fds) d->fds.push_back(x.first);
  if (alien == 3) for (int x : {0, 1, 5, 12, 13, 14, 255}) d->fds.push_back(x);
  p->dirs[(u64)d] = p->owner;
  return (DIR *)d;
}
EXP struct dirent *sx_readdir(DIR *dp) {
  ENTER("readdir");
  SimDir *d = (SimDir *)dp;
  if (!cur()->dirs.count((u64)dp)) { violation("memory", "readdir on a directory stream that is not open"); return nullptr; }
  if (d->i >= d->fds.size()) return nullptr;
  int f = d->fds[d->i++];
  memset(&d->de, 0, sizeof d->de);
  d->de.d_type = f < 0 ? DT_DIR : DT_LNK;
  snprintf(d->de.d_name, sizeof d->de.d_name, "%s", f == -1 ? "." : f == -2 ? ".." : std::to_string(f).c_str());
  return &d->de;
}
EXP struct dirent *sx_readdir64(DIR *d) { return sx_readdir(d); }
EXP int sx_closedir(DIR *dp) {
  ENTER("closedir");
  auto i = cur()->dirs.find((u64)dp);
  if (i == cur()->dirs.end()) { violation("badclose", "closedir of a directory stream that is not open"); return -1; }
  cur()->dirs.erase(i);
  SimDir *d = (SimDir *)dp; std::vector<int>().swap(d->fds);
  return 0;
}
EXP ssize_t sx_readlink(const char *path, char *buf, size_t n) {
  ENTER("readlink"); FAULT("readlink", FB_OTHER, ENOMEM, EIO);
  int pid, fd;
  if (!strcmp(path, "/proc/self/exe")) { std::string s = K->ns ? K->ns->exe : "/usr/bin/shr-tool"; check_range(buf, std::min(n, s.size()), true); size_t c = std::min(n, s.size()); memcpy(buf, s.data(), c); return c; }
  if (pid_fd_dir(path, &pid, &fd) != "link") return err(ENOENT);
  bool z; Proc *t = by_pid(pid, &z);
  if (!t && W->cfg.get("alienpid", 0) == 3) {          // an unrelated program that has the number now
    std::string s = fd < 2 ? "/dev/pts/3" : fd == 5 ? "socket:[77]" : fd == 12 ? "socket:[" + std::to_string(4000000000u + pid) + "]" : fd == 13 ? "/" + std::string(150, 'd') : fd == 14 ? "pipe:[4711]" : "anon_inode:[eventpoll]";
    size_t c = std::min(n, s.size()); check_range(buf, c, true); memcpy(buf, s.data(), c); return c;
  }
  if (!t || z) { probe("proc_race"); return err(ENOENT); }
  FileP f = fd_file(t, fd); if (!f) { probe("proc_race"); return err(ENOENT); }
  std::string s;
  switch (f->type) {
  case T_DGRAM: case T_TCP: case T_LISTEN: case T_TCPNEW: s = "socket:[" + std::to_string(sock_ino(f.get())) + "]"; break;
  case T_EPOLL: s = "anon_inode:[eventpoll]"; break;
  case T_PIPE_R: case T_PIPE_W: s = "pipe:[" + std::to_string(f->num + 90000) + "]"; break;
  case T_FILE: s = f->ino->path; break;
  default: s = "anon_inode:[x]";
  }
  size_t c = std::min(n, s.size()); check_range(buf, c, true); memcpy(buf, s.data(), c); return c;
}
EXP int sx_sigprocmask(int how, const sigset_t *set, sigset_t *old) {
  ENTER("sigprocmask"); Proc *p = cur(); (void)old;
  if (set) {
    u64 m = 0; for (int s = 1; s < 64; s++) if (sigismember(set, s)) m |= bit(s);
    if (how == SIG_SETMASK) p->sig_mask = m; else if (how == SIG_BLOCK) p->sig_mask |= m; else p->sig_mask &= ~m;
  }
  return 0;
}
EXP int sx_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { return sx_sigprocmask(how, s, o); }
EXP int sx_signalfd(int old, const sigset_t *set, int flags) {
  ENTER("signalfd"); FAULT("signalfd", FB_OPEN, EMFILE);
  if (old >= 0) { FileP f = get(old); if (!f || f->type != T_SIGFD) return err(EINVAL); f->sigs = 0; for (int s = 1; s < 64; s++) if (sigismember(set, s)) f->sigs |= bit(s); return old; }
  FileP f = mk(T_SIGFD); f->owner = cur(); if (flags & SFD_NONBLOCK) f->flags |= O_NONBLOCK;
  for (int s = 1; s < 64; s++) if (sigismember(set, s)) f->sigs |= bit(s);
  return new_fd(f);
}
static u64 arm(u64 us) { Proc *p = cur(); u64 left = p->alarm_at > W->clock_us ? p->alarm_at - W->clock_us : 0; p->alarm_at = us ? W->clock_us + us : 0; return left; }
EXP unsigned sx_alarm(unsigned s) { ENTER("alarm"); u64 l = arm(s * 1000000ull); return (unsigned)((l + 999999) / 1000000); }
EXP int sx_setitimer(int which, const struct itimerval *n, struct itimerval *o) {
  ENTER("setitimer");
  if (which != ITIMER_REAL || n->it_interval.tv_sec || n->it_interval.tv_usec) sx_unsupported();
  check_range(n, sizeof *n, false);
  u64 l = arm(n->it_value.tv_sec * 1000000ull + n->it_value.tv_usec);
  if (o) { check_range(o, sizeof *o, true); memset(o, 0, sizeof *o); o->it_value.tv_sec = l / 1000000; o->it_value.tv_usec = l % 1000000; }
  return 0;
}
static void disposition(int s, bool ign) { if (s > 0 && s < 64) { if (ign) cur()->sig_ign |= bit(s); else cur()->sig_ign &= ~bit(s); } }
EXP void (*sx_signal(int s, void (*h)(int)))(int) { ENTER("signal"); disposition(s, h == SIG_IGN); return h; }
EXP int sx_sigaction(int s, const struct sigaction *a, struct sigaction *) { ENTER("sigaction"); if (a) disposition(s, a->sa_handler == SIG_IGN); return 0; }
EXP int sx_usleep(unsigned us) {
  ENTER("usleep");
  if (us && W->cfg.get("sleepblock", 0)) { Proc *p = cur(); p->wake_at = W->clock_us + us; block_on("sleep", [p] { return W->clock_us >= p->wake_at; }, false); p->wake_at = 0; return 0; }
  W->clock_us += us; cur()->gap = 0; cur()->gap_inf = false; sim_point(1); return 0; }
EXP unsigned sx_sleep(unsigned s) { sx_usleep(s * 1000000u); return 0; }
EXP int sx_nanosleep(const struct timespec *t, struct timespec *) { return sx_usleep((unsigned)(t->tv_sec * 1000000 + t->tv_nsec / 1000)); }
EXP int sx_clock_nanosleep(clockid_t, int flags, const struct timespec *t, struct timespec *) {
  u64 us = t->tv_sec * 1000000ull + t->tv_nsec / 1000, now = 1700000000000000ull + W->clock_us;
  if (flags & TIMER_ABSTIME) us = us > now ? us - now : 0;
  return sx_usleep((unsigned)us);
}
EXP int sx_sched_yield() { return sx_usleep(0); }
EXP int sx_gettimeofday(struct timeval *tv, void *) { check_range(tv, sizeof *tv, true); tv->tv_sec = 1700000000 + W->clock_us / 1000000; tv->tv_usec = W->clock_us % 1000000; return 0; }
EXP int sx_clock_gettime(clockid_t, struct timespec *t) { t->tv_sec = 1700000000 + W->clock_us / 1000000; t->tv_nsec = W->clock_us % 1000000 * 1000; return 0; }
EXP time_t sx_time(time_t *t) { time_t r = 1700000000 + W->clock_us / 1000000; if (t) *t = r; return r; }
EXP int sx_fflush(FILE *f);
EXP void sx_exit(int rc) { ENTER("exit"); Proc *p = cur(); sx_fflush(stdout); p->exit_code = rc; p->exited = true; proc_die(p, "exit"); __builtin_trap(); }
EXP void sx__exit(int rc) { sx_exit(rc); }
EXP void sx___stack_chk_fail() { violation("overflow", "a buffer on the stack was overrun"); __builtin_trap(); }
EXP void sx_abort() { violation("abort", "abort() called"); __builtin_trap(); }
EXP void sx___assert_fail(const char *e, const char *, unsigned, const char *fn) { violation("assert", "assertion `%s' failed in %s", e, fn ? fn : "?"); __builtin_trap(); }
EXP int *sx___errno_location() { static int dummy; return W && W->cur ? &W->cur->err : &dummy; }
EXP int sx_mount(const char *, const char *dir, const char *t, unsigned long, const void *data) {
  ENTER("mount");
  if (!K->ns) return err(EPERM);
  FAULT("mount", FB_IO, EPERM, ENOMEM, EBUSY);
  MLoc l; int e = ns_walk(dir, true, &l); if (e) return err(e);
  if (!t) return err(EINVAL);
  check_range(t, strlen(t) + 1, false); if (data) check_range(data, strlen((const char *)data) + 1, false);
  e = K->ns->mount(t, data ? (const char *)data : "", l, cur()->id);
  return e ? err(e) : 0;
}
static int ns_umount(const char *a, bool detach) {
  ENTER("umount");
  if (!K->ns) return err(EPERM);
  FAULT("umount", FB_IO, EPERM, EBUSY);
  MLoc l; int e = ns_walk(a, true, &l); if (e) return err(e);
  e = K->ns->umount(l, cur()->id, detach); return e ? err(e) : 0;
}
EXP int sx_umount(const char *a) { return ns_umount(a, false); }
EXP int sx_umount2(const char *a, int flags) { return ns_umount(a, (flags & (MNT_DETACH | MNT_FORCE)) != 0); }
EXP int sx_mkdir(const char *a, mode_t) {
  ENTER("mkdir");
  if (!K->ns) return err(EPERM);
  FAULT("mkdir", FB_IO, ENOSPC, ENOMEM, EIO);
  std::string s = a; while (s.size() > 1 && s.back() == '/') s.pop_back();
  MLoc l; if (!ns_walk(s.c_str(), false, &l)) return err(EEXIST);
  size_t q = s.rfind('/'); std::string dir = q == std::string::npos ? "." : q ? s.substr(0, q) : "/", nm = q == std::string::npos ? s : s.substr(q + 1);
  int e = K->ns->walk(dir, cur()->id, true, &l); if (e) return err(e);
  if (!l.n->dir) return err(ENOTDIR);
  if (nm.empty()) return err(ENOENT);
  if (nm.size() > 255) return err(ENAMETOOLONG);
  MNode *n = K->ns->node(l.n, nm, true);
  K->ns->log.push_back(MEv{'D', cur()->id, ++W->seq, l.m, MLoc{l.m, n}, a, {}});
  return 0;
}
EXP int sx_chdir(const char *a) {
  ENTER("chdir");
  if (!K->ns) return err(ENOENT);
  FAULT("chdir", FB_IO, EIO, EACCES, ENOMEM);
  MLoc l; int e = ns_walk(a, true, &l); if (e) return err(e);
  if (!l.n->dir) return err(ENOTDIR);
  K->ns->cwd[cur()->id] = l; K->ns->log.push_back(MEv{'C', cur()->id, ++W->seq, nullptr, MLoc(), "", {}}); return 0;
}
EXP char *sx_getcwd(char *b, size_t n) {
  ENTER("getcwd");
  if (!K->ns) { cur()->err = ENOENT; return nullptr; }
  std::string s = K->ns->name_of(K->ns->cwd[cur()->id]); if (s.size() + 1 > n && b) { cur()->err = ERANGE; return nullptr; }
  if (!b) { b = (char *)heap_alloc(cur(), std::max(n, s.size() + 1), cur()->owner, false); if (!b) { cur()->err = ENOMEM; return nullptr; } }
  check_range(b, s.size() + 1, true); memcpy(b, s.c_str(), s.size() + 1); return b;
}
EXP char *sx_realpath(const char *a, char *b) {
  ENTER("realpath");
  if (!K->ns) { cur()->err = ENOENT; return nullptr; }
  { int fe = fault("realpath", FB_IO, {EIO, EACCES, ENOMEM}); if (fe) { cur()->err = fe; return nullptr; } }
  // the way to the working directory is known by name: what is mounted over it since is found
  std::string p = a; check_range(a, p.size() + 1, false);
  if (p.empty()) { cur()->err = ENOENT; return nullptr; }
  if (p[0] != '/') { std::string c = K->ns->name_of(K->ns->cwd[cur()->id]); p = (c == "/" ? "" : c) + "/" + p; }
  MLoc l; int e = p.size() >= 4096 && a[0] != '/' ? ENAMETOOLONG : K->ns->walk(p, cur()->id, true, &l); if (e) { cur()->err = e; return nullptr; }
  std::string s = K->ns->name_of(l);
  if (!b) { b = (char *)heap_alloc(cur(), s.size() + 1, cur()->owner, false); if (!b) { cur()->err = ENOMEM; return nullptr; } check_range(b, s.size() + 1, true); } else check_range(b, 4096, true);
  memcpy(b, s.c_str(), s.size() + 1); return b;
}
EXP char *sx_canonicalize_file_name(const char *a) { return sx_realpath(a, nullptr); }
EXP int sx_execve(const char *a, char *const *av, char *const *env) {
  ENTER("execve");
  if (!K->ns) return err(ENOENT);
  FAULT("execve", FB_IO, ENOMEM, E2BIG, EACCES);
  MEv v{'E', cur()->id, ++W->seq, nullptr, MLoc(), a, {}};
  for (size_t i = 0;; i++) { check_range(av + i, sizeof *av, false); if (!av[i]) break; check_range(av[i], strlen(av[i]) + 1, false); v.args.push_back(av[i]); }
  if (!env) return err(EFAULT);
  auto i = K->ns->exes.find(a);
  if (i == K->ns->exes.end()) return err(ENOENT);
  if (i->second) { fired("not_executable"); return err(i->second); }
  K->ns->log.push_back(v); vlog("    executes %s", a);
  Proc *p = cur(); p->exit_code = 0; p->exited = true; proc_die(p, "exec"); __builtin_trap();
}
EXP int sx_execv(const char *a, char *const *av) { return sx_execve(a, av, environ); }
EXP int sx_statfs(const char *a, struct statfs *s) {
  ENTER("statfs");
  if (!K->ns) return err(ENOSYS);
  FAULT("statfs", FB_IO, EIO, EACCES, ENOMEM);
  MLoc l; int e = ns_walk(a, true, &l); if (e) return err(e);
  return ns_statfs(l, s);
}
EXP int sx_statfs64(const char *a, struct statfs *s) { return sx_statfs(a, s); }

// ---------------------------------------------------------------- memory
static void *do_malloc(size_t n, bool zero) {
  Proc *p = cur();
  sim_point(1);
  if (fault("malloc", FB_ALLOC, {ENOMEM})) { p->err = ENOMEM; return nullptr; }
  void *r = heap_alloc(p, n, p->owner, false);
  if (!r) { p->err = ENOMEM; p->natural |= FB_ALLOC; return nullptr; }
  if (zero) memset(r, 0, n);
  return r;
}
EXP void *sx_malloc(size_t n) { return do_malloc(n, false); }
EXP void *sx_calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) { cur()->err = ENOMEM; return nullptr; } return do_malloc(a * b, true); }
EXP void sx_free(void *p) { heap_free(cur(), p, "free"); }
EXP void *sx_realloc(void *o, size_t n) {
  if (!o) return do_malloc(n, false);
  Proc *p = cur();
  auto i = p->live.find((u64)o);
  if (i == p->live.end()) { violation("memory", "realloc of a pointer that is not an allocated block"); return nullptr; }
  u64 on = i->second.size;
  void *r = do_malloc(n, false); if (!r) return nullptr;
  memcpy(r, o, std::min<u64>(on, n)); heap_free(p, o, "realloc"); return r;
}
EXP void *sx_reallocarray(void *o, size_t a, size_t b) { return sx_realloc(o, a * b); }
EXP void *sx_aligned_alloc(size_t, size_t n) { return do_malloc(n, false); }
EXP int sx_posix_memalign(void **r, size_t, size_t n) { *r = do_malloc(n, false); return *r ? 0 : ENOMEM; }
EXP char *sx_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)do_malloc(n, false); if (r) memcpy(r, s, n); return r; }
EXP char *sx_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = (char *)do_malloc(n + 1, false); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }

// block copies happen in pieces, with scheduling points in between when shared memory is involved
static inline bool is_shm(const void *p) { return (u64)p - SHM_BASE < SHM_SPAN; }
static bool all_zero(const char *p, u64 n) { return n == 0 || (p[0] == 0 && !memcmp(p, p + 1, n - 1)); }
static void copy_sparse(char *d, const char *s, size_t n) {
  for (u64 o = 0; o < n;) {
    u64 c = std::min<u64>(n - o, CHUNK - (u64)(s + o) % CHUNK);
    c = std::min<u64>(c, CHUNK - (u64)(d + o) % CHUNK);
    bool ts = is_touched(s + o) && !all_zero(s + o, c);
    if (ts) { touch(d + o, c); memcpy(d + o, s + o, c); }
    else if (is_touched(d + o)) memset(d + o, 0, c);
    o += c;
  }
}
static void copy(char *d, const char *s, size_t n, bool back) {
  if (!n) return;
  if (W->huge && n > CHUNK && !back) { check_range(s, n, false); check_range(d, n, true, false); W->steps += n / (4 * CHUNK); if (W->shm_pt) sim_point(1); copy_sparse(d, s, n); return; }
  bool shd = is_shm(d), shs = is_shm(s);
  if (!shd && !shs) { check_range(s, n, false); check_range(d, n, true); if (n > 4096) W->steps += n / 4096; memmove(d, s, n); return; }
  size_t piece = n <= 16 ? 8 : n / 3 + 1;
  if (back) { check_range(s, n, false); check_range(d, n, true); if (W->shm_pt) sim_point(1); memmove(d, s, n); return; }
  for (size_t o = 0; o < n; o += piece) {
    size_t c = std::min(piece, n - o);
    if (W->shm_pt) sim_point(1);
    check_range(s + o, c, false); check_range(d + o, c, true);
    memcpy(d + o, s + o, c);
  }
}
EXP void *sx_memcpy(void *d, const void *s, size_t n) {
  if (n && (char *)d < (char *)s + n && (char *)s < (char *)d + n && d != s) violation("memory", "memcpy of overlapping ranges");
  copy((char *)d, (const char *)s, n, false); return d;
}
EXP void *sx_mempcpy(void *d, const void *s, size_t n) { sx_memcpy(d, s, n); return (char *)d + n; }
EXP void *sx_memmove(void *d, const void *s, size_t n) { bool ov = (char *)d < (char *)s + n && (char *)s < (char *)d + n; copy((char *)d, (const char *)s, n, ov); return d; }
EXP void *sx_memset(void *d, int c, size_t n) {
  if (!n) return d;
  if (is_shm(d)) { size_t h = n / 2; if (W->shm_pt) sim_point(1); if (h) { check_range(d, h, true); memset(d, c, h); if (W->shm_pt) sim_point(1); } check_range((char *)d + h, n - h, true); memset((char *)d + h, c, n - h); return d; }
  check_range(d, n, true); memset(d, c, n); return d;
}
EXP void sx_bzero(void *d, size_t n) { sx_memset(d, 0, n); }
EXP int sx_memcmp(const void *a, const void *b, size_t n) { if (is_shm(a) || is_shm(b)) { if (W->shm_pt) sim_point(1); } check_range(a, n, false); check_range(b, n, false); return memcmp(a, b, n); }
EXP size_t sx_strlen(const char *s) { size_t n = strlen(s); if (is_shm(s) && W->shm_pt) sim_point(1); check_range(s, n + 1, false); return n; }
EXP char *sx_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; check_range(s, n, false); copy(d, s, n, false); return d; }
EXP char *sx_strncpy(char *d, const char *s, size_t n) { check_range(d, n, true); return strncpy(d, s, n); }
EXP int sx_snprintf(char *d, size_t n, const char *f, ...) {
  va_list ap; va_start(ap, f); va_list cp; va_copy(cp, ap);
  int r = vsnprintf(nullptr, 0, f, cp); va_end(cp);
  if (n && r >= 0) check_range(d, std::min<size_t>(n, r + 1), true);
  r = vsnprintf(d, n, f, ap); va_end(ap); return r;
}
EXP int sx_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); va_list cp; va_copy(cp, ap); int r = vsnprintf(nullptr, 0, f, cp); va_end(cp); if (r >= 0) check_range(d, r + 1, true); r = vsprintf(d, f, ap); va_end(ap); return r; }

// ---------------------------------------------------------------- standard streams
static Stream *stream(FILE *f) { auto it = K->streams.find(f); return it == K->streams.end() ? nullptr : &it->second; }
static int stream_flush(Stream *t) {
  if (t->wb.empty()) return 0;
  std::string s; s.swap(t->wb);
  char *b = (char *)h_alloc(4096); int r = 0;
  for (size_t o = 0; o < s.size();) { ENTER("write"); size_t k = std::min<size_t>(s.size() - o, 4096); memcpy(b, s.data() + o, k); ssize_t n = do_write(t->fd, b, k, 0); if (n <= 0) { t->er = true; r = -1; break; } o += n; }
  h_free(b);
  return r;
}
static FILE *stream_new(int fd, const char *m) {
  FILE *f = (FILE *)h_alloc(16);
  Stream &t = K->streams[f]; t.fd = fd; t.proc = cur()->id; t.app = *m == 'a';
  return f;
}
static int stream_mode(const char *m) {
  int f = strchr(m, '+') ? O_RDWR : *m == 'r' ? O_RDONLY : O_WRONLY;
  if (*m != 'r') f |= O_CREAT | (*m == 'a' ? O_APPEND : O_TRUNC);
  if (strchr(m, 'e')) f |= O_CLOEXEC;
  if (strchr(m, 'x')) f |= O_EXCL;
  return f;
}
EXP FILE *sx_fopen(const char *path, const char *m) { int fd = sx_open(path, stream_mode(m), 0666); return fd < 0 ? nullptr : stream_new(fd, m); }
EXP FILE *sx_fopen64(const char *path, const char *m) { return sx_fopen(path, m); }
EXP FILE *sx_fdopen(int fd, const char *m) { if (!get(fd)) { err(EBADF); return nullptr; } return stream_new(fd, m); }
EXP int sx_fclose(FILE *f) {
  Stream *t = stream(f);
  if (!t) return 0;
  int r = stream_flush(t), fd = stream(f)->fd;
  K->streams.erase(f); h_free(f);
  return sx_close(fd) < 0 ? -1 : r;
}
EXP int sx_fflush(FILE *f);
static bool out_err() { return K->stdout_bad.count(cur()->id); }
static void out_text(FILE *f, const char *b, size_t n) {
  Proc *p = cur();
  if (Stream *t = stream(f)) { t->wb.append(b, n); if (t->wb.size() >= 4096) stream_flush(t); return; }
  if (f == stderr) { if (K->log_sends) { if ((int)K->stderr_of.size() <= p->id) K->stderr_of.resize(p->id + 1); K->stderr_of[p->id].append(b, n); } if (g_verbose) { std::string s(b, n); while (!s.empty() && s.back() == '\n') s.pop_back(); vlog("  stderr: %s", s.c_str()); } return; }
  if (f == stdout) { if ((int)K->stdout_of.size() <= p->id) K->stdout_of.resize(p->id + 1); K->stdout_of[p->id].append(b, n); if (K->stdout_of[p->id].size() >= 4096) sx_fflush(stdout); return; }
}
static int vout(FILE *f, const char *fmt, va_list ap) { char *s = nullptr; int n = vasprintf(&s, fmt, ap); if (n > 0) out_text(f, s, n); free(s); Stream *t = stream(f); return (t && t->er) || (f == stdout && out_err()) ? -1 : n; }
EXP int sx_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vout(f, fmt, ap); va_end(ap); return n; }
EXP int sx_vfprintf(FILE *f, const char *fmt, va_list ap) { return vout(f, fmt, ap); }
EXP int sx_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vout(stdout, fmt, ap); va_end(ap); return n; }
// written straight to a descriptor, as often as it takes
static int fd_text(int fd, const char *b, int n) {
  if (fd == 2 || n <= 0) { if (n > 0) out_text(stderr, b, n); return n; }
  char *t = (char *)h_alloc(n); memcpy(t, b, n); int r = n;
  for (int o = 0; o < n;) { ENTER("write"); ssize_t k = do_write(fd, t + o, n - o, 0); if (k < 0) { r = -1; break; } o += k; }
  h_free(t); return r;
}
EXP int sx_vdprintf(int fd, const char *fmt, va_list ap) { char *s = nullptr; int n = vasprintf(&s, fmt, ap); n = fd_text(fd, s, n); free(s); return n; }
EXP int sx_dprintf(int fd, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sx_vdprintf(fd, fmt, ap); va_end(ap); return n; }
EXP int sx_vprintf(const char *fmt, va_list ap) { return vout(stdout, fmt, ap); }
EXP int sx_vsnprintf(char *d, size_t n, const char *f, va_list ap) {
  va_list cp; va_copy(cp, ap); int r = vsnprintf(nullptr, 0, f, cp); va_end(cp);
  if (n && r >= 0) check_range(d, std::min<size_t>(n, r + 1), true);
  return vsnprintf(d, n, f, ap);
}
EXP int sx_vsprintf(char *d, const char *f, va_list ap) { va_list cp; va_copy(cp, ap); int r = vsnprintf(nullptr, 0, f, cp); va_end(cp); if (r >= 0) check_range(d, r + 1, true); return vsprintf(d, f, ap); }
EXP int sx_vasprintf(char **out, const char *f, va_list ap) {
  char *s = nullptr; int n = vasprintf(&s, f, ap); if (n < 0) return -1;
  char *r = (char *)do_malloc(n + 1, false);
  if (r) memcpy(r, s, n + 1);
  free(s); check_range(out, sizeof *out, true);
  if (!r) { cur()->err = ENOMEM; return -1; }
  *out = r; return n;
}
EXP int sx_asprintf(char **out, const char *f, ...) { va_list ap; va_start(ap, f); int n = sx_vasprintf(out, f, ap); va_end(ap); return n; }
EXP char *sx_strcat(char *d, const char *s) { size_t a = strlen(d), n = strlen(s) + 1; check_range(d, a + 1, false); check_range(s, n, false); check_range(d + a, n, true); memcpy(d + a, s, n); return d; }
EXP char *sx_strncat(char *d, const char *s, size_t m) { size_t a = strlen(d), n = strnlen(s, m); check_range(d + a, n + 1, true); memcpy(d + a, s, n); d[a + n] = 0; return d; }
EXP char *sx_stpcpy(char *d, const char *s) { size_t n = strlen(s); check_range(s, n + 1, false); copy(d, s, n + 1, false); return d + n; }
EXP void sx_bcopy(const void *s, void *d, size_t n) { copy((char *)d, (const char *)s, n, (char *)d < (const char *)s + n && (const char *)s < (char *)d + n); }
EXP int sx_setvbuf(FILE *, char *, int, size_t) { return 0; }
EXP void sx_setbuf(FILE *, char *) {}
EXP void sx_setlinebuf(FILE *) {}
EXP void sx_clearerr(FILE *f) { if (f == stdout) K->stdout_bad.erase(cur()->id); if (Stream *t = stream(f)) t->er = t->eof = false; }
EXP int sx_fileno(FILE *f) { if (Stream *t = stream(f)) return t->fd; return f == stdin ? 0 : f == stdout ? 1 : 2; }
EXP int sx_isatty(int) { cur()->err = ENOTTY; return 0; }
EXP void sx_warn(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vout(stderr, fmt, ap); va_end(ap); }
EXP void sx_warnx(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vout(stderr, fmt, ap); va_end(ap); }
EXP void sx_err(int rc, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vout(stderr, fmt, ap); va_end(ap); sx_exit(rc); }
EXP void sx_errx(int rc, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vout(stderr, fmt, ap); va_end(ap); sx_exit(rc); }
EXP void sx__Exit(int rc) { sx__exit(rc); }
EXP uid_t sx_geteuid() { return cur()->uid; }
EXP gid_t sx_getgid() { return 0; }
EXP gid_t sx_getegid() { return 0; }
EXP pid_t sx_gettid() { return cur()->pid; }
EXP int sx_fstatat(int dir, const char *p, struct stat *st, int flags) { if (dir != AT_FDCWD && *p != '/') { violation("unsupported", "fstatat relative to a directory"); return -1; } return flags & AT_SYMLINK_NOFOLLOW ? sx_lstat(p, st) : sx_stat(p, st); }
EXP int sx_fstatat64(int dir, const char *p, struct stat *st, int flags) { return sx_fstatat(dir, p, st, flags); }
EXP ssize_t sx_readlinkat(int dir, const char *p, char *b, size_t n) { if (dir != AT_FDCWD && *p != '/') { violation("unsupported", "readlinkat relative to a directory"); return -1; } return sx_readlink(p, b, n); }
EXP int sx_eaccess(const char *p, int m) { return sx_access(p, m); }
EXP int sx_euidaccess(const char *p, int m) { return sx_access(p, m); }
EXP int sx_puts(const char *s) { out_text(stdout, s, strlen(s)); out_text(stdout, "\n", 1); return 1; }
EXP int sx_fputs(const char *s, FILE *f) { out_text(f, s, strlen(s)); Stream *t = stream(f); return t && t->er ? -1 : 1; }
EXP int sx_putchar(int c) { char b = (char)c; out_text(stdout, &b, 1); return c; }
EXP int sx_fputc(int c, FILE *f) { char b = (char)c; out_text(f, &b, 1); return c; }
EXP int sx_putc(int c, FILE *f) { return sx_fputc(c, f); }
EXP void sx_perror(const char *s) { sx_fprintf(stderr, "%s: %s\n", s, strerror(cur()->err)); }
EXP int sx_fflush(FILE *f) {         // buffered text goes to descriptor 1, if there is one
  Proc *p = cur();
  if (f) if (Stream *t = stream(f)) return stream_flush(t);
  if (f && f != stdout) return 0;
  if ((int)K->stdout_of.size() > p->id && get(1) && !K->stdout_of[p->id].empty()) {
    std::string s; s.swap(K->stdout_of[p->id]);
    char *t = (char *)h_alloc(4096);
    for (size_t o = 0; o < s.size();) { ENTER("write"); size_t k = std::min<size_t>(s.size() - o, 4096); memcpy(t, s.data() + o, k); ssize_t r = do_write(1, t, k, 0); if (r <= 0) { h_free(t); K->stdout_bad.insert(p->id); return -1; } o += r; }
    h_free(t);
  }
  return 0;
}
EXP size_t sx_fwrite(const void *b, size_t s, size_t n, FILE *f) {
  check_range(b, s * n, false); out_text(f, (const char *)b, s * n);
  Stream *t = stream(f); return t && t->er ? 0 : n;
}
static int in_char(FILE *from) {                  // next byte of a stream or of standard input, or -1
  if (Stream *t = stream(from)) {
    if (t->rp == t->rb.size()) {
      if (t->eof) return -1;
      char *b = (char *)h_alloc(4096); ssize_t n; { ENTER("read"); n = do_read(t->fd, b, 4096, 0); }
      t->rp = 0; t->rb.assign(b, n > 0 ? n : 0); h_free(b);
      if (n <= 0) { (n ? t->er : t->eof) = true; return -1; }
    }
    return (unsigned char)t->rb[t->rp++];
  }
  FileP f = get(0);
  if (!f || f->type != T_PIPE_R) return -1;
  block_on("read", [=] { return file_readable(f.get()); }, false);
  if (f->pipe->q.empty()) return -1;
  int c = (unsigned char)f->pipe->q.front(); f->pipe->q.pop_front();
  return c;
}
EXP ssize_t sx_getdelim(char **lp, size_t *cap, int delim, FILE *in) {
  ENTER("getline");
  std::string l; int c;
  while ((c = in_char(in)) >= 0) { l.push_back((char)c); if (c == delim) break; }
  if (l.empty()) return -1;
  check_range(lp, sizeof *lp, true); check_range(cap, sizeof *cap, true);
  if (!*lp || *cap < l.size() + 1) {
    size_t n = std::max<size_t>(120, l.size() + 1);
    char *r = (char *)heap_alloc(cur(), n, cur()->owner, false); if (!r) { cur()->err = ENOMEM; return -1; }
    if (*lp) heap_free(cur(), *lp, "realloc");
    *lp = r; *cap = n;
  }
  memcpy(*lp, l.c_str(), l.size() + 1);
  return (ssize_t)l.size();
}
EXP ssize_t sx___getdelim(char **lp, size_t *cap, int d, FILE *f) { return sx_getdelim(lp, cap, d, f); }
EXP ssize_t sx_getline(char **lp, size_t *cap, FILE *f) { return sx_getdelim(lp, cap, '\n', f); }
EXP int sx_fgetc(FILE *f) { ENTER("getc"); return in_char(f); }
EXP int sx_getc(FILE *f) { return sx_fgetc(f); }
EXP int sx_getchar() { return sx_fgetc(stdin); }
EXP int sx_feof(FILE *s) { if (Stream *t = stream(s)) return t->eof; FileP f = get(0); return !f || (f->pipe && f->pipe->weof && f->pipe->q.empty()); }
EXP int sx_ferror(FILE *s) { Stream *t = stream(s); return (t && t->er) || (s == stdout && out_err()); }
EXP size_t sx_fread(void *b, size_t s, size_t n, FILE *in) {
  ENTER("fread"); size_t k = 0; int c;
  while (k < s * n && (c = in_char(in)) >= 0) ((char *)b)[k++] = (char)c;
  check_range(b, k, true);
  return s ? k / s : 0;
}
EXP char *sx_fgets(char *b, int n, FILE *in) {
  ENTER("fgets");
  int k = 0, c;
  while (k < n - 1 && (c = in_char(in)) >= 0) { b[k++] = (char)c; if (c == '\n') break; }
  if (!k) return nullptr;
  check_range(b, k + 1, true); b[k] = 0;
  return b;
}
EXP size_t sx_fwrite_unlocked(const void *b, size_t s, size_t n, FILE *f) { return sx_fwrite(b, s, n, f); }
}
void k_exit_flush() { for (auto &x : K->streams) if (x.second.proc == cur()->id) stream_flush(&x.second); sx_fflush(stdout); }
