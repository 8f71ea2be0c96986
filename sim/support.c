/* Linked into every simulated process's image: getopt with per-process state, and the public header's constants. */
#include <string.h>
#include <stddef.h>
#include "shr.h"
#include "bw.h"
char *optarg; int optind = 1, opterr = 1, optopt;
static int sp = 1;
int getopt(int argc, char *const argv[], const char *opts) {
  int c; const char *cp;
  if (sp == 1) {
    if (optind >= argc || argv[optind][0] != '-' || argv[optind][1] == '\0') return -1;
    if (argv[optind][0] == '-' && argv[optind][1] == '-' && argv[optind][2] == 0) { optind++; return -1; }
  }
  optopt = c = (unsigned char)argv[optind][sp];
  cp = 0;
  for (const char *q = opts; *q; q++) if (*q == c && c != ':') { cp = q; break; }
  if (!cp) { if (argv[optind][++sp] == '\0') { optind++; sp = 1; } return '?'; }
  if (cp[1] == ':') {
    if (argv[optind][sp + 1] != '\0') optarg = (char *)&argv[optind++][sp + 1];
    else if (++optind >= argc) { sp = 1; return '?'; }
    else optarg = argv[optind++];
    sp = 1;
  } else {
    if (argv[optind][++sp] == '\0') { sp = 1; optind++; }
    optarg = 0;
  }
  return c;
}
/* field order: bw br mw mr md bd start(us) bn bu mu mm cn cm cb flags */
void sut_stat_fields(const struct shr_stat *s, unsigned long long *o) {
  o[0] = s->bw; o[1] = s->br; o[2] = s->mw; o[3] = s->mr; o[4] = s->md; o[5] = s->bd;
  o[6] = (unsigned long long)s->start.tv_sec * 1000000ull + s->start.tv_usec;
  o[7] = s->bn; o[8] = s->bu; o[9] = s->mu; o[10] = s->mm; o[11] = s->cn; o[12] = s->cm; o[13] = s->cb; o[14] = s->flags;
}
unsigned long sut_sizes(int k) {
  switch (k) {
  case 0: return sizeof(struct shr_stat);
  case 1: return sizeof(bw_handle);
  case 10: return SHR_KEEPEXIST; case 11: return SHR_DROP; case 12: return SHR_APPDATA; case 13: return SHR_FARM;
  case 14: return SHR_MAXMSGS_2; case 15: return SHR_SYNC; case 16: return SHR_MLOCK;
  case 20: return SHR_RDONLY; case 21: return SHR_WRONLY; case 22: return SHR_NONBLOCK; case 23: return SHR_BUFFERED; case 24: return SHR_POLLFD;
  case 30: return BW_WAKE; case 31: return BW_WAIT; case 32: return BW_TRACE; case 33: return BW_POLLFD; case 34: return BW_WAITMAX;
  }
  return 0;
}
