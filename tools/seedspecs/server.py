import os, sys
PRE = r'''#include "lspserver/Connection.h"
#include "lspserver/DraftStore.h"
#include "lspserver/LSPServer.h"
#include "lspserver/Protocol.h"
#include "lspserver/SourceCode.h"
#include "lspserver/URI.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <unistd.h>
#include <vector>
static void must(bool B, const char *What) {
  if (!B) {
    std::printf("FAILED: %s\n", What);
    std::exit(1);
  }
}
'''
SH = r'''#!/bin/bash
# Compiles demo.cpp with sources of the tree and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
G=_build/out/libnixf/src
I="-Inixd/lib -Inixd/include -Inixd/lspserver/include -Ilibnixf/include -Ilibnixf/src -Ilibnixf/src/Parse -I$G -I/usr/lib/llvm-18/include"
SRC=$(ls @SRC@ | grep -v -e Gen.cpp -e JSONDiagnostic)
for s in $SRC "$D/demo.cpp"; do
  ( g++ -std=gnu++20 -O0 -w $I -c "$s" -o "$T/$(echo "$s" | tr / _).o" || touch "$T/failed" ) &
done
wait
[ -e "$T/failed" ] && exit 2
g++ "$T"/*.o -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib -lpthread -o "$T/demo" || exit 2
timeout 100 "$T/demo"
'''
LSP = "nixd/lspserver/src/*.cpp"
ACT = LSP + " libnixf/src/{Basic,Parse,Sema}/*.cpp $G/Diagnostic.cpp nixd/lib/Controller/Convert.cpp nixd/lib/Controller/CodeActions/{Utils,JsonToNix,RewriteString}.cpp"
PRIM = '#include "nixf/Sema/PrimOpInfo.h"\nstd::map<std::string, nixf::PrimOpInfo> nixf::PrimOpsInfo = {{"abort", {{"s"}, 1, "", false}}};\n'

def demo(body, src=LSP, pre=PRE):
    return {"demo.sh": SH.replace("@SRC@", src), "demo.cpp": pre + body}

S = "nixd/lspserver/src/"
A = "nixd/lib/Controller/CodeActions/"
SEEDS = [
 dict(id="c01-crlf-column", prop="P15", edits=[(S + "SourceCode.cpp", "      Code.substr(StartOfLine).take_until([](char C) { return C == '\\n'; });", "      Code.substr(StartOfLine).take_until([](char C) {\n        return C == '\\n' || C == '\\r';\n      });")],
  needs="a carriage return in the line, and an offset after it", breaks="an offset behind a carriage return does not survive the conversion to a position and back",
  demo=demo(r'''int main() {
  std::string T = "a\r\nb";
  auto P = lspserver::offsetToPosition(T, 2);
  auto O = lspserver::positionToOffset(T, P, true);
  must(bool(O) && *O == 2, "offset 2 survives");
}''')),
 dict(id="c02-newline-anyline", prop="P16", edits=[(S + "SourceCode.cpp", "  if (Pos.line != llvm::count(Contents, '\\n') + 1)\n    return;", "  if (Pos.line < llvm::count(Contents, '\\n') + 1)\n    return;")],
  needs="a change that ends at column 0 of a line more than one past the end of a document without final newline", breaks="a change outside of the document is accepted",
  demo=demo(r'''int main() {
  std::string T = "ab";
  lspserver::TextDocumentContentChangeEvent C;
  C.range = lspserver::Range{{0, 1}, {7, 0}};
  C.text = "x";
  auto E = lspserver::applyChange(T, C);
  bool Bad = bool(E);
  llvm::consumeError(std::move(E));
  must(Bad, "line 7 of a one-line document is rejected");
}''')),
 dict(id="c03-keep-percent", prop="P17", edits=[(S + "URI.cpp", "  for (unsigned char C : Content)\n    if (shouldEscape(C)) {", "  for (size_t I = 0; I < Content.size(); ++I) {\n    unsigned char C = Content[I];\n    // Do not escape what is a percent sequence already.\n    if (shouldEscape(C) &&\n        !(C == '%' && I + 2 < Content.size() &&\n          llvm::isHexDigit(Content[I + 1]) && llvm::isHexDigit(Content[I + 2]))) {"),
   (S + "URI.cpp", "    } else {\n      Out.push_back(C);\n    }\n}", "    } else {\n      Out.push_back(C);\n    }\n  }\n}")],
  needs="a path that contains a percent sign followed by two hexadecimal digits", breaks="the path names another file after the trip through its URI",
  demo=demo(r'''int main() {
  std::string P = "/tmp/a%20b.nix";
  auto U = lspserver::URI::createFile(P).toString();
  auto R = lspserver::URI::resolve(U);
  must(bool(R) && *R == P, "the path survives");
}''')),
 dict(id="c04-dollar-pair", prop="P18", edits=[(A + "Utils.cpp", "      if (I + 1 < S.size() && S[I + 1] == '{') {", "      // (in $${ there is none)\n      if (I + 1 < S.size() && S[I + 1] == '{' &&\n          (I == 0 || S[I - 1] != '$')) {")],
  needs="an odd number of at least three dollars before a brace", breaks="the written string contains an interpolation",
  demo=demo('#include "Controller/CodeActions/Utils.h"\n#include "nixf/Parse/Parser.h"\n#include "nixf/Basic/Nodes/Simple.h"\n#include "nixf/Basic/Diagnostic.h"\n' + PRIM + r'''int main() {
  for (std::string S : {"${x}", "$${x}", "$$${x}", "$$$${x}", "a$$${b"}) {
    std::string T = "\"" + nixd::escapeNixString(S) + "\"";
    std::vector<nixf::Diagnostic> D;
    auto E = nixf::parse(T, D);
    must(E && D.empty() && E->kind() == nixf::Node::NK_ExprString, "a string");
    auto &P = static_cast<nixf::ExprString &>(*E).parts();
    std::string V;
    for (auto &F : P.fragments()) {
      must(F.kind() == nixf::InterpolablePart::SPK_Escaped, "no interpolation");
      V += F.escaped();
    }
    must(V == S, "the same bytes");
  }
}''', ACT)),
 dict(id="c05-backslash-indent", prop="P18", edits=[(A + "RewriteString.cpp", "    // Check for '' sequence that needs escaping\n", "    // Tabs are hard to see, write them as escapes\n    if (C == '\\t' && Result.ends_with('\\'')) {\n      Result += \"''\\\\t\";\n      continue;\n    }\n\n    // Check for '' sequence that needs escaping\n")],
  needs="a tab right after a quote in a string that is rewritten to the indented form", breaks="the quotes pair up with the escape: the text changes or the string ends early",
  demo=demo('#include "Controller/CodeActions/RewriteString.h"\n#include "nixf/Parse/Parser.h"\n#include "nixf/Sema/ParentMap.h"\n#include "nixf/Basic/Nodes/Simple.h"\n#include "nixf/Basic/Diagnostic.h"\n' + PRIM + r'''static std::string value(const std::string &T) {
  std::vector<nixf::Diagnostic> D;
  auto E = nixf::parse(T, D);
  must(E && D.empty() && E->kind() == nixf::Node::NK_ExprString, "a string");
  std::string V;
  for (auto &F : static_cast<nixf::ExprString &>(*E).parts().fragments()) {
    must(F.kind() == nixf::InterpolablePart::SPK_Escaped, "no interpolation");
    V += F.escaped();
  }
  return V;
}
int main() {
  std::string T = "\"it's'\tnice\"";
  std::vector<nixf::Diagnostic> D;
  auto E = nixf::parse(T, D);
  nixf::ParentMapAnalysis PM;
  PM.runOnAST(*E);
  std::vector<lspserver::CodeAction> Actions;
  nixd::addRewriteStringAction(*E, PM, "file:///a.nix", T, Actions);
  must(Actions.size() == 1, "one action");
  std::string N = (*Actions[0].edit->changes).begin()->second[0].newText;
  must(value(N) == value(T), "the same text");
}''', ACT)),
 dict(id="c06-int-53", prop="P19", edits=[(A + "JsonToNix.cpp", "  } else if (auto I = V.getAsInteger()) {", "  } else if (auto I = V.getAsInteger();\n             I && *I <= (1LL << 53) && *I >= -(1LL << 53)) {")],
  needs="an integer beyond 2^53 that no double equals", breaks="the integer becomes another number",
  demo=demo('#include "Controller/CodeActions/JsonToNix.h"\n' + PRIM + r"""int main() {
  std::string J = "[9007199254740993, 9223372036854775807]";
  std::vector<lspserver::CodeAction> Actions;
  nixd::addJsonToNixAction(J, {{0, 0}, {0, (int)J.size()}}, "file:///a.nix", Actions);
  must(Actions.size() == 1, "one action");
  std::string N = (*Actions[0].edit->changes).begin()->second[0].newText;
  must(N.find("9007199254740993\n") != N.npos && N.find("9223372036854775807\n") != N.npos, "the same numbers");
}""", ACT)),
 dict(id="c07-id-by-count", prop="P20", edits=[(S + "LSPServer.cpp", "  int Ret = TopID++;", "  // Small ids are easier to read in logs.\n  int Ret = PendingCalls.empty() ? TopID : static_cast<int>(PendingCalls.size()) + TopID;")],
  needs="replies that arrive out of order, and then another call", breaks="a new call takes the id of a pending one, whose callback is lost",
  demo=demo(r'''using namespace lspserver;
struct Srv : LSPServer {
  using LSPServer::LSPServer;
  void call(int K, int &N) {
    auto F = mkOutMethod<llvm::json::Value, llvm::json::Value>("m");
    F(llvm::json::Value(K), [&N](llvm::Expected<llvm::json::Value> R) {
      if (!R)
        llvm::consumeError(R.takeError());
      ++N;
    });
  }
};
static llvm::json::Value reply(int ID) { return llvm::json::Object{{"jsonrpc", "2.0"}, {"id", ID}, {"result", ID}}; }
int main() {
  std::string Buf;
  llvm::raw_string_ostream OS(Buf);
  auto In = std::make_unique<InboundPort>(0);
  InboundPort *P = In.get();
  Srv S(std::move(In), std::make_unique<OutboundPort>(OS));
  std::vector<int> N(4), IDs;
  auto Call = [&](int K) {
    Buf.clear();
    S.call(K, N[K]);
    OS.flush();
    auto V = llvm::cantFail(llvm::json::parse(Buf.substr(Buf.find("\r\n\r\n") + 4)));
    IDs.push_back(*V.getAsObject()->getInteger("id"));
  };
  Call(0); Call(1);
  P->dispatch(reply(IDs[0]), S);
  Call(2);
  P->dispatch(reply(IDs[1]), S);
  P->dispatch(reply(IDs[2]), S);
  must(N[0] == 1 && N[1] == 1 && N[2] == 1, "every callback ran once");
}''')),
 dict(id="c08-length-chars", prop="P21", edits=[(S + "Connection.cpp", '''  Outs << "Content-Length: " << OutputBuffer.size() << "\\r\\n\\r\\n"''', '''  size_t Length = 0;
  for (char C : OutputBuffer)
    Length += (C & 0xC0) != 0xC0 || (C & 0xF8) == 0xF0;
  Outs << "Content-Length: " << Length << "\\r\\n\\r\\n"''')],
  needs="a character of two or three UTF-8 bytes in the message", breaks="the declared length is not the number of bytes",
  demo=demo(r'''int main() {
  std::string Buf;
  llvm::raw_string_ostream OS(Buf);
  lspserver::OutboundPort O(OS);
  O.notify("m", llvm::json::Object{{"t", "caf\xC3\xA9"}});
  OS.flush();
  size_t B = Buf.find("\r\n\r\n") + 4;
  must(std::stoul(Buf.substr(16)) == Buf.size() - B, "the length of the body");
}''')),
 dict(id="c09-version-back", prop="P22", edits=[(S + "DraftStore.cpp", '''    if (SpecifiedVersion.compare_numeric(D.Version) <= 0)
      lspserver::log("File version went from {0} to {1}", D.Version,
                     SpecifiedVersion);
''', '''    if (SpecifiedVersion.compare_numeric(D.Version) <= 0) {
      lspserver::log("File version went from {0} to {1}", D.Version,
                     SpecifiedVersion);
      return;
    }
''')],
  needs="a document stored again with a smaller version than before", breaks="the store returns an older version than the last stored one",
  demo=demo(r'''int main() {
  lspserver::DraftStore S;
  S.addDraft("/a", "10", "x");
  S.addDraft("/a", "9", "y");
  auto D = S.getDraft("/a");
  must(D && D->Version == "9" && *D->Contents == "y", "the version last stored");
}''')),
 dict(id="c10-std-fds", prop="P24", edits=[("nixd/lib/Support/AutoCloseFD.cpp", "  if (FD != ReleasedFD) [[likely]]\n    close(FD);", "  // Standard streams are not ours.\n  if (FD > STDERR_FILENO) [[likely]]\n    close(FD);")],
  needs="a descriptor numbered 0, 1 or 2", breaks="the descriptor is never closed",
  demo=demo('#include "nixd/Support/AutoCloseFD.h"\n' + r'''int main() {
  close(0);
  int FD = open("/dev/null", O_RDONLY);
  must(FD == 0, "descriptor 0 is free");
  { nixd::util::AutoCloseFD F(FD); }
  must(fcntl(0, F_GETFD) == -1, "closed");
}''', LSP + " nixd/lib/Support/AutoCloseFD.cpp")),
 dict(id="c11-empty-range", prop="P25", edits=[("nixd/lib/Controller/Convert.cpp", '''  return lspserver::Range{toLSPPosition(Code, R.lCur()),
                          toLSPPosition(Code, R.rCur())};''', '''  lspserver::Range Ret{toLSPPosition(Code, R.lCur()),
                       toLSPPosition(Code, R.rCur())};
  // Editors show nothing for an empty range.
  if (Ret.start == Ret.end)
    ++Ret.end.character;
  return Ret;''')],
  needs="an empty range, as diagnostics about something missing have", breaks="the published range is another one than the diagnostic's",
  demo=demo('#include "Controller/Convert.h"\n#include "nixf/Parse/Parser.h"\n' + PRIM + r'''int main() {
  std::string T = "{ a = 1 }";
  std::vector<nixf::Diagnostic> D;
  nixf::parse(T, D);
  must(!D.empty(), "a diagnostic");
  for (auto &X : D)
    for (auto &F : X.fixes())
      for (auto &E : F.edits()) {
        auto R = nixd::toLSPRange(T, E.oldRange());
        auto A = lspserver::offsetToPosition(T, E.oldRange().lCur().offset());
        auto B = lspserver::offsetToPosition(T, E.oldRange().rCur().offset());
        must(R.start == A && R.end == B, "the same place");
      }
}''', ACT)),
]
