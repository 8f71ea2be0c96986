// Private copies of the code under test, one per simulated process slot.
#include "core.h"
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <unistd.h>

struct Seg { u64 a, n; std::vector<char> init; };
struct Image { void *h = nullptr; SutImage f{}; std::vector<Seg> rw; std::vector<std::pair<u64, u64>> bss; u64 lo = 0, hi = 0; };
static Image img[NPROC];

static int cb(struct dl_phdr_info *i, size_t, void *arg) {
  auto *a = (std::pair<std::string, Image *> *)arg;
  if (a->first != (i->dlpi_name ? i->dlpi_name : "")) return 0;
  Image *m = a->second; m->lo = ~0ull;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &ph = i->dlpi_phdr[k];
    if (ph.p_type != PT_LOAD) continue;
    u64 b = i->dlpi_addr + ph.p_vaddr;
    m->lo = std::min(m->lo, b); m->hi = std::max<u64>(m->hi, b + ph.p_memsz);
    if (!(ph.p_flags & PF_W)) continue;
    u64 e = b + ph.p_memsz, fe = b + ph.p_filesz;
    u64 pg = (fe + PAGE - 1) / PAGE * PAGE;          // first page that holds only zero-initialized data
    u64 ce = std::min(e, pg);
    m->rw.push_back(Seg{b, ce - b, std::vector<char>((char *)b, (char *)ce)});
    if (e > pg) m->bss.push_back({pg, (e - pg + PAGE - 1) / PAGE * PAGE});
  }
  return 1;
}
bool images_load(const std::string &dir, const std::string &kind, std::string *err) {
  for (int i = 0; i < NPROC; i++) {
    std::string p = dir + "/" + kind + std::to_string(i) + ".so";
    void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { *err = dlerror(); return false; }
    img[i].h = h;
    std::pair<std::string, Image *> a{p, &img[i]};
    dl_iterate_phdr(cb, &a);
    if (img[i].rw.empty()) { *err = "no writable segment in " + p; return false; }
    auto s = [&](const char *n) { void *r = dlsym(h, n); if (!r) *err += std::string("missing symbol ") + n + "; "; return r; };
    SutImage &f = img[i].f;
#define S(m, n) f.m = (decltype(f.m))s(n)
    S(init, "shr_init"); S(open, "shr_open"); S(selfd, "shr_get_selectable_fd"); S(read, "shr_read"); S(write, "shr_write");
    S(readv, "shr_readv"); S(writev, "shr_writev"); S(flush, "shr_flush"); S(close, "shr_close"); S(appdata, "shr_appdata");
    S(stat, "shr_stat"); S(farm_stat, "shr_farm_stat"); S(ctl, "shr_ctl");
    S(bopen, "bw_open"); S(bwake, "bw_wake"); S(bclose, "bw_close"); S(bforce, "bw_force"); S(bready, "bw_ready_ul"); S(bwait, "bw_wait_ul"); S(bctl, "bw_ctl");
    S(stat_fields, "sut_stat_fields"); S(sizes, "sut_sizes");
    if (kind != "lib") S(tool_main, "sut_main");
    if (!err->empty()) return false;
  }
  return true;
}
void image_reset(int s) {
  Image &m = img[s];
  for (auto &r : m.rw) memcpy((void *)r.a, r.init.data(), r.n);
  for (auto &b : m.bss) madvise((void *)b.first, b.second, MADV_DONTNEED);
}
SutImage *image_of(Proc *p) { return &img[p->slot].f; }
bool image_owns(int s, u64 a) { return a >= img[s].lo && a < img[s].hi; }
