// simlaunch <scenario> <trace> <libsimos.so> <cpu seconds> <program> [args...]
// Starts the program under simos in a fixed environment: no address randomisation, bounded CPU
// and memory, no core files, stdio on /dev/null.
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
extern char **environ;
int main(int argc, char **argv) {
  if (argc < 6) return 98;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
  struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r);
  rlim_t cpu = (rlim_t)atoi(argv[4]);
  r.rlim_cur = cpu; r.rlim_max = cpu + 1; setrlimit(RLIMIT_CPU, &r);
  r.rlim_cur = r.rlim_max = 6ull << 30; setrlimit(RLIMIT_AS, &r);
  r.rlim_cur = r.rlim_max = 8u << 20; setrlimit(RLIMIT_STACK, &r);
  int n = open("/dev/null", O_RDWR);
  for (int i = 0; i < 3; i++) dup2(n, i);
  if (n > 2) close(n);
  setenv("SIMOS_SCENARIO", argv[1], 1);
  setenv("SIMOS_TRACE", argv[2], 1);
  setenv("LD_PRELOAD", argv[3], 1);
  execv(argv[5], argv + 5);
  return 97;
}
