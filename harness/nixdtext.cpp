// Concrete harness for the text layer of the server: positions, edits, URIs,
// drafts.  Links the real sources of /repo/nixd/lspserver.
#include "lspserver/DraftStore.h"
#include "lspserver/Logger.h"
#include "lspserver/SourceCode.h"
#include "lspserver/URI.h"

#include <algorithm>
#include <memory>

#include "batch.h"
#include "fields.h"
#include "json.h"

using namespace lspserver;

namespace {
// a StringRef whose bytes are an exact-size heap block
struct Exact {
  char *P;
  size_t N;
  explicit Exact(const std::string &S) : P((char *)malloc(S.size() ? S.size() : 1)), N(S.size()) { memcpy(P, S.data(), N); }
  ~Exact() { free(P); }
  operator llvm::StringRef() const { return {P, N}; }
};
void pos(J &O, llvm::Expected<size_t> E) {
  if (E)
    O.n((long long)*E);
  else {
    llvm::consumeError(E.takeError());
    O.n(-1);
  }
}
std::string handle(const std::string &Cmd, const char *Data, size_t Len) {
  auto A = fields(Data, Len);
  J O;
  O.ob();
  if (Cmd == "o2p") { // text -> per offset 0..size+1: [line, char, back (strict)]
    Exact T(A[0]);
    O.k("p").ab();
    for (size_t I = 0; I <= A[0].size() + 1; ++I) {
      Position P = offsetToPosition(T, I);
      O.ab().n(P.line).n(P.character);
      pos(O, positionToOffset(T, P, false));
      O.ae();
    }
    O.ae();
    O.k("len").n((long long)lspLength(T));
  } else if (Cmd == "p2o") { // text, then line/char pairs -> [lenient, strict]
    Exact T(A[0]);
    O.k("p").ab();
    for (size_t I = 1; I + 1 < A.size(); I += 2) {
      Position P;
      P.line = atoll(A[I].c_str());
      P.character = atoll(A[I + 1].c_str());
      O.ab();
      pos(O, positionToOffset(T, P, true));
      pos(O, positionToOffset(T, P));
      pos(O, positionToOffset(T, P, false));
      O.ae();
    }
    O.ae();
  } else if (Cmd == "change") { // text, then per change: "full" or "range", sl, sc, el, ec, rangeLength or "", new text
    std::string T = A[0];
    O.k("r").ab();
    for (size_t I = 1; I + 6 < A.size(); I += 7) {
      TextDocumentContentChangeEvent C;
      C.text = A[I + 6];
      if (A[I] == "range") {
        Range R;
        R.start.line = atoll(A[I + 1].c_str());
        R.start.character = atoll(A[I + 2].c_str());
        R.end.line = atoll(A[I + 3].c_str());
        R.end.character = atoll(A[I + 4].c_str());
        C.range = R;
      }
      if (!A[I + 5].empty())
        C.rangeLength = (int)atoll(A[I + 5].c_str());
      llvm::Error Err = applyChange(T, C);
      bool Bad = bool(Err);
      if (Bad)
        llvm::consumeError(std::move(Err));
      O.ob().k("err").b(Bad).k("t").s(T).oe();
    }
    O.ae();
  } else if (Cmd == "enc") { // scheme, authority, body -> text and what parsing it gives
    URI U(A[0], A[1], A[2]);
    std::string S = U.toString();
    O.k("s").s(S);
    Exact X(S);
    auto B = URI::parse(X);
    if (B) {
      O.k("scheme").s(B->scheme()).k("auth").s(B->authority()).k("body").s(B->body());
    } else
      llvm::consumeError(B.takeError());
  } else if (Cmd == "parse") {
    Exact X(A[0]);
    auto B = URI::parse(X);
    O.k("ok").b(bool(B));
    if (B) {
      O.k("scheme").s(B->scheme()).k("auth").s(B->authority()).k("body").s(B->body());
      if (B->authority().empty() || B->body().starts_with("/"))
        O.k("s").s(B->toString());
    } else
      llvm::consumeError(B.takeError());
    auto R = URI::resolve(llvm::StringRef(X));
    if (R)
      O.k("path").s(*R);
    else {
      llvm::consumeError(R.takeError());
      O.k("path").nul();
    }
  } else if (Cmd == "file") { // absolute path -> URI text -> path
    for (int V = 0; V < 3; ++V) {
      O.k(std::string("v") + char('0' + V)).ob();
      Exact X(A[0]);
      std::string S;
      if (V == 0)
        S = URI::createFile(X).toString();
      else if (V == 1)
        S = URI::create(X).toString();
      else {
        auto U = URI::create(X, "file");
        if (!U) {
          llvm::consumeError(U.takeError());
          O.k("s").nul().oe();
          continue;
        }
        S = U->toString();
      }
      O.k("s").s(S);
      Exact Y(S);
      auto R = URI::resolve(llvm::StringRef(Y));
      if (R)
        O.k("path").s(*R);
      else {
        llvm::consumeError(R.takeError());
        O.k("path").nul();
      }
      O.oe();
    }
    auto R = URI::resolvePath(A[0]);
    if (R)
      O.k("rp").s(*R);
    else {
      llvm::consumeError(R.takeError());
      O.k("rp").nul();
    }
    URIForFile F = URIForFile::canonicalize(A[0], A[0]);
    O.k("canon").s(F.file()).k("uri").s(F.uri());
  } else if (Cmd == "draft") { // ops: "add" file version text | "get" file "" "" | "rm" file "" "" | "files" "" "" ""
    DraftStore S;
    O.k("r").ab();
    std::vector<DraftStore::Draft> Kept;
    for (size_t I = 0; I + 3 < A.size(); I += 4) {
      if (A[I] == "add")
        O.s(S.addDraft(A[I + 1], A[I + 2], A[I + 3]));
      else if (A[I] == "rm") {
        S.removeDraft(A[I + 1]);
        O.nul();
      } else if (A[I] == "files") {
        auto Fs = S.getActiveFiles();
        std::sort(Fs.begin(), Fs.end());
        O.ab();
        for (auto &F : Fs)
          O.s(F);
        O.ae();
      } else {
        auto D = S.getDraft(A[I + 1]);
        if (!D)
          O.nul();
        else {
          O.ab().s(*D->Contents).s(D->Version).ae();
          Kept.push_back(*D);
        }
      }
    }
    O.ae();
    O.k("kept").ab();
    for (auto &K : Kept)
      O.s(*K.Contents);
    O.ae();
  } else if (Cmd == "ver") { // decimal -> encode -> decode; and decode of the text itself
    std::optional<int64_t> V;
    if (!A[0].empty())
      V = strtoll(A[0].c_str(), nullptr, 10);
    std::string E = DraftStore::encodeVersion(V);
    O.k("e").s(E);
    auto D = DraftStore::decodeVersion(E);
    O.k("d");
    D ? O.s(std::to_string(*D)) : O.nul();
    auto R = DraftStore::decodeVersion(A[1]);
    O.k("r");
    R ? O.s(std::to_string(*R)) : O.nul();
  }
  O.oe();
  return O.O;
}
struct Quiet : Logger {
  void log(Level, const char *, const llvm::formatv_object_base &) override {}
};
} // namespace
int main() {
  Quiet Q;
  LoggingSession S(Q);
  return batch(handle);
}
