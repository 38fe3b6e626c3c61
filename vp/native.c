/* Native side of the harnesses: the same contracts evaluated on the compiled code.
 *  - replay: recorded inputs of a counterexample (VP_INPUT) are fed back
 *  - grid (VP_GRID): every scenario runs in a child of its own, inputs come from a
 *    generator seeded by scenario and VERIF_SEED; an obligation that belongs to
 *    another property than VP_PROP is counted but does not decide. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
static FILE *in; static int opened;
static unsigned long long rng = 88172645463325252ull;
int vp_grid; static const char *prop; static int shard, nshards = 1; static long count, ran; char vp_scen[256];
#define scen vp_scen
unsigned int vp_u32(void)
{
  unsigned v = 0;
  if (vp_grid) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (unsigned)(rng * 2685821657736338717ull >> 32); }
  if (!opened) { const char *f = getenv("VP_INPUT"); opened = 1; if (f) in = fopen(f, "r"); }
  if (!in || fscanf(in, "%u", &v) != 1) v = 0;
  return v;
}
static int mine(const char *msg)
{
  const char *e; size_t n;
  if (!vp_grid || !prop || msg[0] != '[') return 1;
  e = strchr(msg, ']'); n = strlen(prop);
  for (const char *p = msg + 1; p < e; p++) if (!strncmp(p, prop, n) && (p[n] == ',' || p[n] == ']')) return 1;
  return 0;
}
void vp_fail(const char *msg, const char *file, int line)
{
  if (!mine(msg)) return;
  printf("VP-FAIL %s (%s:%d)%s%s\n", msg, file, line, vp_grid ? " scenario " : "", scen); fflush(stdout); _Exit(91);
}
void vp_skip(const char *what, const char *file, int line)
{ if (!vp_grid) printf("VP-SKIP assumption not met: %s (%s:%d)\n", what, file, line); fflush(stdout); _Exit(92); }
static int bad;
void vp_grid_init(void)
{
  const char *g = getenv("VP_GRID"); if (!g) return;
  vp_grid = 1; prop = getenv("VP_PROP"); if (prop && (!*prop || *prop == '-')) prop = 0; sscanf(g, "%d/%d", &shard, &nshards);
}
/* 1: run the scenario here (replay, or child); 0: skip */
int vp_begin(const char *name)
{
  if (!vp_grid) return 1;
  if (bad || count++ % nshards != shard) return 0;
  snprintf(scen, sizeof scen, "%s", name);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    const char *s = getenv("VERIF_SEED"); struct rlimit rl = {20, 120};
    setrlimit(RLIMIT_CPU, &rl);
    rng = 88172645463325252ull + (s ? strtoull(s, 0, 10) : 1) * 0x9e3779b97f4a7c15ull;
    for (const char *p = name; *p; p++) rng = (rng ^ (unsigned char)*p) * 1099511628211ull;
    if (!rng) rng = 1;
    for (int i = 0; i < 8; i++) vp_u32();
    return 1;
  }
  int st; waitpid(pid, &st, 0); ran++;
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 92)) return 0;
  bad = 1;
  if (WIFSIGNALED(st)) printf("VP-CRASH signal %d (%s) scenario %s\n", WTERMSIG(st), WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? "does not end" : strsignal(WTERMSIG(st)), scen);
  else if (WEXITSTATUS(st) != 91) printf("VP-CRASH exit %d scenario %s\n", WEXITSTATUS(st), scen);
  fflush(stdout);
  return 0;
}
void vp_end(void) { if (vp_grid) { fflush(stdout); _Exit(0); } }
void vp_grid_done(void) { if (vp_grid) { printf("VP-RAN %ld\n", ran); fflush(stdout); _Exit(bad ? 91 : 0); } }
