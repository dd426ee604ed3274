// Concrete harness for framing (Connection) and dispatch (LSPServer).
#include "lspserver/Connection.h"
#include "lspserver/LSPServer.h"
#include "lspserver/Logger.h"

#include <algorithm>
#include <fcntl.h>
#include <memory>
#include <pthread.h>
#include <thread>

#include "batch.h"
#include "fields.h"
#include "json.h"

using namespace lspserver;
namespace lj = llvm::json;

namespace {
std::string text(const lj::Value &V) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  OS << V;
  return S;
}

struct Typed {
  std::string S;
  int N = 0;
};
bool fromJSON(const lj::Value &V, Typed &T, lj::Path P) {
  lj::ObjectMapper O(V, P);
  return O && O.map("s", T.S) && O.map("n", T.N);
}
lj::Value toJSON(const Typed &T) { return lj::Object{{"s", T.S}, {"n", T.N}}; }

struct Server : LSPServer {
  std::vector<std::string> Ev;
  std::vector<std::pair<std::string, Callback<lj::Value>>> Later;
  llvm::unique_function<void(const lj::Value &, Callback<lj::Value>)> Ask;
  llvm::unique_function<void(const Typed &, Callback<Typed>)> AskTyped;
  llvm::unique_function<void(const lj::Value &)> Tell;
  int Asked = 0;
  Server(std::unique_ptr<InboundPort> I, std::unique_ptr<OutboundPort> O) : LSPServer(std::move(I), std::move(O)) {
    Registry.addMethod("echo", this, &Server::echo);
    Registry.addMethod("fail", this, &Server::fail);
    Registry.addMethod("later", this, &Server::later);
    Registry.addMethod("typed", this, &Server::typed);
    Registry.addNotification("note", this, &Server::note);
    Registry.addNotification("flush", this, &Server::flush);
    Registry.addNotification("tnote", this, &Server::tnote);
    Registry.addNotification("echo", this, &Server::echoNote);
    Ask = mkOutMethod<lj::Value, lj::Value>("client/ask");
    AskTyped = mkOutMethod<Typed, Typed>("client/typed");
    Tell = mkOutNotifiction<lj::Value>("client/tell");
  }
  void echo(const lj::Value &P, Callback<lj::Value> R) { Ev.push_back("echo " + text(P)); R(lj::Value(P)); }
  void fail(const lj::Value &P, Callback<lj::Value> R) {
    Ev.push_back("fail " + text(P));
    R(llvm::make_error<LSPError>("no good", ErrorCode::InvalidRequest));
  }
  void later(const lj::Value &P, Callback<lj::Value> R) { Ev.push_back("later " + text(P)); Later.emplace_back(text(P), std::move(R)); }
  void typed(const Typed &P, Callback<Typed> R) { Ev.push_back("typed " + text(toJSON(P))); R(Typed{P.S + "!", P.N + 1}); }
  void note(const lj::Value &P) { Ev.push_back("note " + text(P)); }
  void tnote(const Typed &P) { Ev.push_back("tnote " + text(toJSON(P))); }
  void echoNote(const lj::Value &P) { Ev.push_back("echonote " + text(P)); }
  void flush(const lj::Value &) {
    Ev.push_back("flush");
    auto L = std::move(Later);
    Later.clear();
    while (!L.empty()) {
      L.back().second(lj::Value(llvm::StringRef(L.back().first)));
      L.pop_back();
    }
  }
  void ask(const lj::Value &P) {
    int K = Asked++;
    Ask(P, [this, K](llvm::Expected<lj::Value> R) {
      if (R)
        Ev.push_back("answer " + std::to_string(K) + " " + text(*R));
      else
        Ev.push_back("failed " + std::to_string(K) + " " + llvm::toString(R.takeError()));
    });
  }
  void askTyped() {
    int K = Asked++;
    AskTyped(Typed{"q", 1}, [this, K](llvm::Expected<Typed> R) {
      if (R)
        Ev.push_back("answer " + std::to_string(K) + " " + text(toJSON(*R)));
      else
        Ev.push_back("failed " + std::to_string(K) + " " + llvm::toString(R.takeError()));
    });
  }
};

void onUsr1(int) {}

// writes a stream into a pipe in the given chunks
struct Feeder {
  int Fd[2];
  std::thread T;
  Feeder(const std::string &Data, std::vector<size_t> Chunks, int Mode) {
    if (pipe(Fd))
      abort();
    if (Mode & 2)
      fcntl(Fd[0], F_SETFL, O_NONBLOCK);
    auto Run = [this, Data, Chunks, Mode] {
      size_t P = 0, K = 0;
      while (P < Data.size()) {
        size_t N = Chunks.empty() ? Data.size() : Chunks[K++ % Chunks.size()];
        N = std::min(std::max<size_t>(N, 1), Data.size() - P);
        ssize_t W = write(Fd[1], Data.data() + P, N);
        if (W <= 0)
          break;
        P += W;
        if (!Chunks.empty() && !(Mode & 1))
          usleep(150);
      }
      if (!(Mode & 4))
        close(Fd[1]);
    };
    if (Mode & 1)
      Run(); // everything is written, and the end closed, before anyone reads
    else
      T = std::thread(Run);
  }
  ~Feeder() {
    close(Fd[0]);
    if (T.joinable())
      T.join();
  }
};
std::vector<size_t> nums(const std::string &S) {
  std::vector<size_t> R;
  for (size_t I = 0; I < S.size();) {
    char *Q;
    R.push_back(strtoull(S.c_str() + I, &Q, 10));
    I = Q - S.c_str() + 1;
  }
  return R;
}

std::string handle(const std::string &Cmd, const char *Data, size_t Len) {
  auto A = fields(Data, Len);
  J O;
  O.ob();
  if (Cmd == "frames") { // stream, chunks, mode, how many messages to read (0: until the end)
    Feeder F(A[0], nums(A[1]), atoi(A[2].c_str()));
    InboundPort In(F.Fd[0]);
    std::string Buf;
    size_t Want = atoi(A[3].c_str());
    O.k("m").ab();
    for (size_t I = 0; (Want == 0 || I < Want) && I < 10000; ++I) {
      auto M = In.readMessage(Buf);
      if (M) {
        O.s(text(*M));
        continue;
      }
      auto Err = M.takeError();
      bool Parse = Err.isA<lj::ParseError>();
      llvm::handleAllErrors(std::move(Err), [](const llvm::ErrorInfoBase &) {});
      if (Parse) {
        O.n(1); // not JSON
        continue;
      }
      O.n(0);
      break;
    }
    O.ae();
    if (Want) {
      std::string Rest;
      char B[4096];
      for (;;) {
        ssize_t N = read(F.Fd[0], B, sizeof(B));
        if (N > 0)
          Rest.append(B, N);
        else if (N < 0 && (errno == EAGAIN || errno == EINTR))
          usleep(100);
        else
          break;
      }
      O.k("rest").s(Rest);
    }
  } else if (Cmd == "badfd") { // reading from something that cannot be read
    int Fd = A[0] == "dir" ? open("/", O_RDONLY | O_DIRECTORY) : open("/dev/null", O_RDONLY);
    if (A[0] == "closed")
      close(Fd); // the number of a descriptor that is not open
    InboundPort In(Fd);
    std::string Buf;
    auto M = In.readMessage(Buf);
    O.k("ok").b(bool(M));
    if (!M)
      llvm::handleAllErrors(M.takeError(), [](const llvm::ErrorInfoBase &) {});
    if (A[0] != "closed")
      close(Fd);
  } else if (Cmd == "send") { // pretty, then kind and JSON texts
    std::string S;
    {
      llvm::raw_string_ostream OS(S);
      OutboundPort Out(OS, A[0] == "1");
      for (size_t I = 1; I + 3 < A.size(); I += 4) {
        auto V = lj::parse(A[I + 2]);
        auto D = lj::parse(A[I + 3]);
        if (!V || !D)
          abort();
        if (A[I] == "notify")
          Out.notify(A[I + 1], *V);
        else if (A[I] == "call")
          Out.call(A[I + 1], *V, *D);
        else if (A[I] == "raw")
          Out.sendMessage(*V);
        else if (A[I] == "reply")
          Out.reply(*D, *V);
        else
          Out.reply(*D, llvm::make_error<LSPError>(A[I + 1], ErrorCode::InvalidParams));
      }
    }
    O.k("out").s(S);
  } else if (Cmd == "sendmt") { // threads, messages each, size
    std::string S;
    {
      llvm::raw_string_ostream OS(S);
      OutboundPort Out(OS, false);
      std::vector<std::thread> Ts;
      for (int T = 0; T < atoi(A[0].c_str()); ++T)
        Ts.emplace_back([&, T] {
          for (int I = 0; I < atoi(A[1].c_str()); ++I)
            Out.notify("m", lj::Array{T, I, std::string(atoi(A[2].c_str()), 'x')});
        });
      for (auto &T : Ts)
        T.join();
    }
    O.k("out").s(S);
  } else if (Cmd == "serve") { // stream, chunks, mode: a server over a pipe
    Feeder F(A[0], nums(A[1]), atoi(A[2].c_str()));
    std::string S;
    llvm::raw_string_ostream OS(S);
    Server Srv(std::make_unique<InboundPort>(F.Fd[0]), std::make_unique<OutboundPort>(OS));
    Srv.run();
    O.k("out").s(OS.str());
    O.k("ev").ab();
    for (auto &E : Srv.Ev)
      O.s(E);
    O.ae();
  } else if (Cmd == "script") { // operations on a server, one message at a time
    std::string S;
    llvm::raw_string_ostream OS(S);
    auto InP = std::make_unique<InboundPort>(-1);
    InboundPort *In = InP.get();
    Server Srv(std::move(InP), std::make_unique<OutboundPort>(OS));
    O.k("r").ab();
    for (size_t I = 0; I + 1 < A.size(); I += 2) {
      size_t P = S.size(), E = Srv.Ev.size();
      bool Ret = true, Thrown = false;
      try {
        if (A[I] == "msg") {
          auto V = lj::parse(A[I + 1]);
          if (!V)
            abort();
          Ret = In->dispatch(*V, Srv);
        } else if (A[I] == "ask") {
          auto V = lj::parse(A[I + 1]);
          Srv.ask(*V);
        } else if (A[I] == "asktyped")
          Srv.askTyped();
        else if (A[I] == "tell") {
          auto V = lj::parse(A[I + 1]);
          Srv.Tell(*V);
        }
      } catch (...) {
        Thrown = true;
      }
      OS.flush();
      O.ob().k("ret").b(Ret).k("thrown").b(Thrown).k("out").s(S.substr(P)).k("ev").ab();
      for (; E < Srv.Ev.size(); ++E)
        O.s(Srv.Ev[E]);
      O.ae().oe();
    }
    O.ae();
  }
  O.oe();
  return O.O;
}
struct Quiet : Logger {
  void log(Level, const char *, const llvm::formatv_object_base &) override {}
};
} // namespace
int main() {
  signal(SIGUSR1, onUsr1);
  signal(SIGPIPE, SIG_IGN);
  Quiet Q;
  LoggingSession S(Q);
  return batch(handle);
}
