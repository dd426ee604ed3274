// Batch protocol: requests are "CMD LEN\n" + LEN bytes on stdin, one JSON line
// per request on stdout.  A request that does not finish within the CPU limit
// is reported by a line starting with "!timeout" before the process exits.
#pragma once
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/time.h>
inline void onAlarm(int) {
  static const char M[] = "\n!timeout\n";
  (void)!write(1, M, sizeof(M) - 1);
  _exit(97);
}
template <class F> int batch(F Handle) {
  std::signal(SIGPROF, onAlarm);
  std::signal(SIGALRM, onAlarm);
  static char Cmd[1 << 16];
  unsigned long Len;
  while (scanf("%65535s %lu", Cmd, &Len) == 2) {
    if (getchar() != '\n')
      return 3;
    // exact-size allocation so that the sanitizer sees every out-of-range read
    char *Buf = (char *)malloc(Len ? Len : 1);
    if (fread(Buf, 1, Len, stdin) != Len)
      return 3;
    struct itimerval T = {{0, 0}, {10, 0}};
    setitimer(ITIMER_PROF, &T, nullptr);
    alarm(30);
    std::string R = Handle(std::string(Cmd), Buf, Len);
    alarm(0);
    T.it_value.tv_sec = 0;
    setitimer(ITIMER_PROF, &T, nullptr);
    free(Buf);
    fwrite(R.data(), 1, R.size(), stdout);
    fputc('\n', stdout);
    fflush(stdout);
  }
  return 0;
}
