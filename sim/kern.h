// Simulated kernel objects.
#pragma once
#include "core.h"

struct LockRange { Proc *p; u64 a, b; int type; };  // [a,b)
struct Inode {
  int num = 0; bool dir = false; bool linked = false; int creator = 0;
  std::string path;
  u64 size = 0, ext = 0, cap = 0, zeroed = 0; // extent in the backing store
  std::vector<u8> alloc;                   // page has storage
  std::vector<LockRange> locks;
  bool track = false;                      // durable image kept
  std::vector<char> durable; u64 dsize = 0; bool dlinked = false;
  std::vector<u8> dirty;                   // per page: changed since last sync
  int mode = 0644;
  char *mem() const;
};
enum FT { T_FILE, T_DIR, T_PROC, T_DGRAM, T_TCP, T_TCPNEW, T_LISTEN, T_EPOLL, T_PIPE_R, T_PIPE_W, T_SIGFD, T_EVENT };
struct Conn;
struct PipeBuf { std::deque<char> q; u64 cap = 65536; bool weof = false, rgone = false; int werr = 0; int readers = 0; std::string log; u64 fails = 0; };
struct ConnEnd { u64 arr = 0; std::deque<char> rx; bool eof = false, reset = false, closed = false, lost = false; u64 cap = 65536; };
struct Conn { ConnEnd e[2]; bool accepted = false; int id = 0; u64 acc_seq = 0; bool second = false, broken = false; std::string sent[2]; u64 fails[2] = {0, 0}; };
struct EpEnt { int fd; std::weak_ptr<File> f; u32 events; u64 data; u64 last; u64 seen = ~0ull; };
struct Msg { std::string d; u64 seq; int pid; };
struct File {
  int type = T_FILE; int num = 0; int flags = 0;
  Inode *ino = nullptr; u64 pos = 0; std::string content;
  // datagram
  std::string name; std::weak_ptr<File> peer; bool has_peer = false; std::deque<Msg> q; bool dead = false; bool owner_ok = true; u64 arrivals = 0;
  // tcp
  std::shared_ptr<Conn> conn; int side = 0; int port = 0; std::deque<std::shared_ptr<Conn>> backlog; u64 backmax = 16;
  // epoll
  std::vector<EpEnt> ep;
  // pipe / event
  std::shared_ptr<PipeBuf> pipe; bool ready = false;
  u64 sigs = 0; Proc *owner = nullptr;
  ~File();
};
typedef std::shared_ptr<File> FileP;

// The mount namespace of the simulated machine; present only in the runs that use it.
struct MNode { std::string name; bool dir = true; std::string link; MNode *parent = nullptr; std::map<std::string, MNode *> kids; int ino = 0; };
struct MFs { int dev = 0; long type = 0; u64 bsize = 4096, blocks = 0, bfree = 0; MNode *root = nullptr; std::string name; };
struct MMount { MFs *fs = nullptr; MMount *parent = nullptr; MNode *at = nullptr; bool gone = false; int by = -1; std::string opts; };
struct MLoc { MMount *m = nullptr; MNode *n = nullptr; bool operator==(const MLoc &o) const { return m == o.m && n == o.n; } };
struct MEv { char kind; int by; u64 seq; MMount *m; MLoc at; std::string text; std::vector<std::string> args; bool stacked = false; };
struct NS {
  std::vector<std::unique_ptr<MNode>> nodes; std::vector<std::unique_ptr<MFs>> fss; std::vector<std::unique_ptr<MMount>> mounts;
  MLoc root; std::map<int, MLoc> cwd;                 // by Proc::id
  int next_dev = 1, next_ino = 2; u64 ram_pages = 1 << 20;
  std::string exe; std::map<std::string, int> exes;   // path of the running program; programs there are (value: error of execve)
  std::vector<MEv> log;
  MNode *node(MNode *parent, const std::string &name, bool dir);
  MFs *make_fs(const std::string &type, const std::string &opts, int *e);
  MMount *attach(MFs *fs, MLoc at, int by);
  MLoc top(MLoc l) const;
  int walk(const std::string &path, int proc, bool follow, MLoc *out, int depth = 0) const;
  std::string name_of(MLoc l) const;
  bool is_mount_root(MLoc l) const { return l.m->parent && l.n == l.m->fs->root; }
  static bool ram(const MFs *f) { return f->type == 0x01021994 || f->type == 0x858458F6 || f->type == 0x958458F6; }
  int mount(const std::string &type, const std::string &opts, MLoc at, int by);
  int umount(MLoc at, int by, bool detach = false);
  MMount *find(MLoc at) const;                        // what is mounted there
};
struct Stream { int fd = -1, proc = -1; bool app = false, eof = false, er = false; std::string rb, wb; size_t rp = 0; };
struct Kernel {
  std::unique_ptr<NS> ns;
  std::map<std::string, Inode *> paths;
  std::vector<std::unique_ptr<Inode>> inodes;
  std::map<std::string, std::weak_ptr<File>> names;   // bound datagram addresses
  std::map<int, std::weak_ptr<File>> listeners;
  std::vector<std::weak_ptr<File>> socks;             // all datagram sockets in creation order
  std::vector<std::string> freed_names;
  u64 ext_top = 0; int next_ino = 100, next_sock = 40000; u32 next_name = 0x1a3;
  u64 space_pages = 0;                                // 0: unlimited
  int next_conn = 0; std::vector<std::shared_ptr<Conn>> conns;   // every connection of the run
  std::map<void *, Stream> streams;                  // opened with fopen or fdopen
  std::vector<std::string> stdout_of;                 // by Proc::id
  std::set<int> stdout_bad;                           // processes whose standard output saw an error
  std::vector<std::string> stderr_of; bool log_sends = false;
  struct Send { int from, to; u64 seq; bool queued; }; std::vector<Send> sends;   // wakeups sent, by Proc::id; kept when log_sends is set
  std::set<std::string> mounted;
  std::vector<std::pair<Inode *, int>> unlinks;       // what was unlinked, by which owner tag
  std::vector<std::string> syslog;                    // recorded mount/umount/exec requests
};
extern Kernel *K;

bool file_readable(File *f);
bool file_writable(File *f);
FileP fd_file(Proc *p, int fd);
int fd_install(Proc *p, FileP f, int owner);
Inode *k_create_file(const std::string &path, u64 size);
Inode *k_lookup(const std::string &path);
void k_unlink(const std::string &path);
void k_grow(Inode *i, u64 size);
void k_power_loss();                                  // replace contents by the durable ones
void k_writeback();                                   // spontaneous write-back of some dirty sectors
int sock_fd_queue(Proc *p, int fd, u64 *last_seq);    // queued wakeups
FileP k_tcp_connect(int port);                        // harness client
void k_conn_close(Conn *c, int side, bool rst);
void k_exit_flush();
u64 k_pages_used();
