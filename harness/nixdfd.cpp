// Concrete harness for descriptor ownership: AutoCloseFD, PipedProc, forkPiped.
// close() is interposed (-Wl,--wrap=close) so that every close is seen.
#include "nixd/Support/AutoCloseFD.h"
#include "nixd/Support/ForkPiped.h"
#include "nixd/Support/PipedProc.h"

#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <memory>
#include <set>
#include <sys/resource.h>
#include <sys/wait.h>

#include "batch.h"
#include "fields.h"
#include "json.h"

static std::vector<int> Closed;
static bool Record = false;
extern "C" int __real_close(int);
extern "C" int __wrap_close(int Fd) {
  if (Record) {
    Closed.push_back(Fd);
    return 0;
  }
  return __real_close(Fd);
}

namespace {
using nixd::util::AutoCloseFD;
std::set<int> open_() {
  std::set<int> R;
  for (int I = 0; I < 256; ++I)
    if (fcntl(I, F_GETFD) != -1)
      R.insert(I);
  return R;
}
std::string slurp(int Fd) {
  std::string R;
  char B[256];
  ssize_t N;
  while ((N = read(Fd, B, sizeof B)) > 0)
    R.append(B, N);
  return R;
}
void put(int Fd, const std::string &S) { (void)!write(Fd, S.data(), S.size()); }

// runs in a process of its own; writes one JSON object to Fd
void launch(int Report, const std::string &How, const std::string &Payload) {
  J O;
  O.ob();
  alarm(10);
  // move the report descriptor out of the way
  int Rep = fcntl(Report, F_DUPFD, 200);
  __real_close(Report);
  std::set<int> Before = open_();
  Before.erase(Rep);
  if (How.substr(0, 5) == "limit") {
    int Top = 0;
    // fill the holes so that only N more descriptors are available
    std::vector<int> Fill;
    int N = atoi(How.c_str() + 5);
    struct rlimit L = {64, 64};
    int D;
    while ((D = open("/dev/null", O_RDONLY)) >= 0 && D < 63)
      Fill.push_back(D);
    if (D >= 0)
      Fill.push_back(D);
    setrlimit(RLIMIT_NOFILE, &L);
    for (int I = 0; I < N && !Fill.empty(); ++I) {
      __real_close(Fill.back());
      Fill.pop_back();
    }
    Before = open_();
    Before.erase(Rep);
    (void)Top;
  }
  int In = -7, Out = -7, Err = -7;
  int Pid = -9;
  bool Thrown = false;
  try {
    Pid = nixd::forkPiped(In, Out, Err);
  } catch (...) {
    Thrown = true;
  }
  if (Pid == 0) {
    std::set<int> Mine = open_();
    std::string Got = slurp(0);
    std::string L;
    for (int F : Mine)
      if (F != Rep && !Before.count(F))
        L += std::to_string(F) + ",";
    put(1, "out(" + Got + ")" + L);
    put(2, "err(" + Got + ")");
    _exit(7);
  }
  std::set<int> After = open_();
  After.erase(Rep);
  O.k("thrown").b(Thrown).k("pid").b(Pid > 0);
  O.k("new").ab();
  for (int F : After)
    if (!Before.count(F))
      O.n(F);
  O.ae();
  O.k("lost").ab();
  for (int F : Before)
    if (!After.count(F))
      O.n(F);
  O.ae();
  O.k("fds").ab().n(In).n(Out).n(Err).ae();
  if (!Thrown && Pid > 0) {
    put(In, Payload);
    __real_close(In);
    O.k("out").s(slurp(Out));
    O.k("err").s(slurp(Err));
    int St = 0;
    waitpid(Pid, &St, 0);
    O.k("status").n(WIFEXITED(St) ? WEXITSTATUS(St) : -1);
  }
  O.oe();
  put(Rep, O.O);
}

std::string handle(const std::string &Cmd, const char *Data, size_t Len) {
  auto A = fields(Data, Len);
  if (Cmd == "fd") { // ops: "new" fd | "move" i "" | "rel" i | "drop" i | "piped" base | each with one argument
    J O;
    O.ob().k("r").ab();
    std::vector<std::unique_ptr<AutoCloseFD>> H;
    std::vector<std::unique_ptr<nixd::util::PipedProc>> P;
    auto Flush = [&](std::vector<int> Vals) {
      Record = false;
      O.ob().k("closed").ab();
      for (int C : Closed)
        O.n(C);
      O.ae().k("val").ab();
      for (int V : Vals)
        O.n(V);
      O.ae().oe();
      Closed.clear();
    };
    for (size_t I = 0; I + 1 < A.size(); I += 2) {
      int N = atoi(A[I + 1].c_str());
      Record = true;
      std::vector<int> V;
      if (A[I] == "new") {
        H.push_back(std::make_unique<AutoCloseFD>(N));
        V = {H.back()->get(), (int)H.back()->isReleased()};
      } else if (A[I] == "move") {
        H.push_back(std::make_unique<AutoCloseFD>(std::move(*H[N])));
        V = {H.back()->get(), (int)H.back()->isReleased(), (int)H[N]->isReleased()};
      } else if (A[I] == "rel") {
        H[N]->release();
        V = {(int)H[N]->isReleased(), (int)AutoCloseFD::isReleased(H[N]->get())};
      } else if (A[I] == "get")
        V = {H[N]->get(), (int)H[N]->isReleased()};
      else if (A[I] == "drop")
        H[N].reset();
      else if (A[I] == "piped") {
        P.push_back(std::make_unique<nixd::util::PipedProc>(1, N, N + 1, N + 2));
        V = {P.back()->Stdin.get(), P.back()->Stdout.get(), P.back()->Stderr.get()};
      } else if (A[I] == "pmove")
        P.push_back(std::make_unique<nixd::util::PipedProc>(std::move(*P[N])));
      else if (A[I] == "pdrop")
        P[N].reset();
      Flush(V);
    }
    Record = true;
    H.clear();
    P.clear();
    Flush({});
    O.ae().oe();
    return O.O;
  }
  if (Cmd == "launch") { // how, payload
    int R[2];
    if (pipe(R))
      abort();
    fflush(stdout);
    pid_t Pid = fork();
    if (Pid == 0) {
      __real_close(R[0]);
      launch(R[1], A[0], A[1]);
      _exit(0);
    }
    __real_close(R[1]);
    std::string S = slurp(R[0]);
    __real_close(R[0]);
    int St;
    waitpid(Pid, &St, 0);
    if (S.empty())
      S = "{\"died\":" + std::to_string(St) + "}";
    return S;
  }
  return "{}";
}
} // namespace
int main() {
  signal(SIGPIPE, SIG_IGN);
  return batch(handle);
}
