// Concrete harness for generated Nix text and for the conversion to LSP types.
#include "Controller/CodeActions/JsonToNix.h"
#include "Controller/CodeActions/RewriteString.h"
#include "Controller/CodeActions/Utils.h"
#include "Controller/Convert.h"

#include "lspserver/Logger.h"
#include "lspserver/SourceCode.h"
#include "nixf/Basic/Nodes/Simple.h"
#include "nixf/Parse/Parser.h"
#include "nixf/Sema/ParentMap.h"
#include "nixf/Sema/PrimOpInfo.h"

#include <algorithm>
#include <functional>
#include <map>

#include "batch.h"
#include "fields.h"
#include "json.h"

std::map<std::string, nixf::PrimOpInfo> nixf::PrimOpsInfo = {{"abort", {{"s"}, 1, "", false}}};

namespace {
void rng(J &O, lspserver::Range R) { O.ab().n(R.start.line).n(R.start.character).n(R.end.line).n(R.end.character).ae(); }
void actions(J &O, const std::vector<lspserver::CodeAction> &As) {
  O.ab();
  for (auto &A : As) {
    O.ob().k("title").s(A.title).k("edits").ab();
    if (A.edit && A.edit->changes)
      for (auto &[F, Es] : *A.edit->changes)
        for (auto &E : Es) {
          O.ab();
          O.s(F);
          rng(O, E.range);
          O.s(E.newText).ae();
        }
    O.ae().oe();
  }
  O.ae();
}
void parts(J &O, const nixf::InterpolatedParts &P, llvm::StringRef Src) {
  O.ab();
  for (const auto &F : P.fragments()) {
    if (F.kind() == nixf::InterpolablePart::SPK_Escaped)
      O.ab().s("t").s(F.escaped()).ae();
    else
      O.ab().s("i").s(F.interpolation().src(Src)).ae();
  }
  O.ae();
}
const nixf::Node *findString(const nixf::Node *N) {
  if (!N)
    return nullptr;
  if (N->kind() == nixf::Node::NK_ExprString)
    return N;
  for (const nixf::Node *C : N->children())
    if (auto *R = findString(C))
      return R;
  return nullptr;
}
std::string handle(const std::string &Cmd, const char *Data, size_t Len) {
  auto A = fields(Data, Len);
  J O;
  O.ob();
  if (Cmd == "esc") {
    O.k("esc").s(nixd::escapeNixString(A[0]));
    O.k("key").s(nixd::quoteNixAttrKey(A[0]));
    O.k("id").b(nixd::isValidNixIdentifier(A[0]));
  } else if (Cmd == "rewrite") { // source with a string: rewritten text, and its parts before and after
    const std::string &Src = A[0];
    std::vector<nixf::Diagnostic> Diags;
    std::shared_ptr<nixf::Node> Ast = nixf::parse(Src, Diags);
    const nixf::Node *S = findString(Ast.get());
    O.k("found").b(S);
    O.k("errs").n(Diags.size());
    if (S) {
      nixf::ParentMapAnalysis PM;
      PM.runOnAST(*Ast);
      auto P = static_cast<const nixf::ExprString *>(S);
      O.k("before");
      parts(O, P->parts(), Src);
      O.k("range").ab().n(S->lCur().offset()).n(S->rCur().offset()).ae();
      std::vector<lspserver::CodeAction> As;
      nixd::addRewriteStringAction(*S, PM, "file:///x", Src, As);
      O.k("acts");
      actions(O, As);
      if (As.size() == 1 && As[0].edit && As[0].edit->changes && As[0].edit->changes->begin()->second.size() == 1) {
        const auto &E = As[0].edit->changes->begin()->second[0];
        std::string New = Src;
        lspserver::TextDocumentContentChangeEvent C;
        C.range = E.range;
        C.text = E.newText;
        if (llvm::Error Err = lspserver::applyChange(New, C))
          llvm::consumeError(std::move(Err));
        else {
          O.k("new").s(New);
          std::vector<nixf::Diagnostic> D2;
          std::shared_ptr<nixf::Node> Ast2 = nixf::parse(New, D2);
          O.k("errs2").n(D2.size());
          const nixf::Node *S2 = findString(Ast2.get());
          O.k("after");
          if (S2) {
            parts(O, static_cast<const nixf::ExprString *>(S2)->parts(), New);
            O.k("range2").ab().n(S2->lCur().offset()).n(S2->rCur().offset()).ae();
          } else
            O.nul();
        }
      }
    }
  } else if (Cmd == "read") { // text of an expression that is a string: its parts
    std::vector<nixf::Diagnostic> Diags;
    std::shared_ptr<nixf::Node> Ast = nixf::parse(A[0], Diags);
    O.k("errs").n(Diags.size());
    O.k("parts");
    if (Ast && Ast->kind() == nixf::Node::NK_ExprString) {
      parts(O, static_cast<nixf::ExprString &>(*Ast).parts(), A[0]);
      O.k("all").b(Ast->lCur().offset() == 0 && Ast->rCur().offset() == A[0].size());
    } else
      O.nul();
  } else if (Cmd == "json") { // text, sl, sc, el, ec
    std::vector<lspserver::CodeAction> As;
    lspserver::Range R;
    R.start.line = atoi(A[1].c_str());
    R.start.character = atoi(A[2].c_str());
    R.end.line = atoi(A[3].c_str());
    R.end.character = atoi(A[4].c_str());
    nixd::addJsonToNixAction(A[0], R, "file:///x", As);
    O.k("acts");
    actions(O, As);
  } else if (Cmd == "sev") { // every diagnostic kind: name, class of severity, published severity
    O.k("k").ab();
    for (int I = 0, E = atoi(A[0].c_str()); I < E; ++I) {
      auto K = static_cast<nixf::Diagnostic::DiagnosticKind>(I);
      O.ab().s(nixf::Diagnostic::sname(K)).n((int)nixf::Diagnostic::severity(K)).n(nixd::getLSPSeverity(K)).ae();
    }
    O.ae();
    O.k("enum").ab().n(nixf::Diagnostic::DS_Fatal).n(nixf::Diagnostic::DS_Error).n(nixf::Diagnostic::DS_Warning).n(nixf::Diagnostic::DS_Info).n(nixf::Diagnostic::DS_Hint).ae();
    O.k("tags").ab();
    for (size_t WI = 1; WI < A.size(); ++WI) {
      const std::string &W = A[WI];
      std::vector<nixf::DiagnosticTag> Ts;
      for (char C : W)
        Ts.push_back(C == 'f' ? nixf::DiagnosticTag::Faded : nixf::DiagnosticTag::Striked);
      O.ab();
      for (auto T : nixd::toLSPTags(Ts))
        O.n((int)T);
      O.ae();
    }
    O.ae();
    O.k("tagvals").ab().n((int)lspserver::DiagnosticTag::Unnecessary).n((int)lspserver::DiagnosticTag::Deprecated).ae();
  } else if (Cmd == "diags") { // source: every diagnostic's byte range and its LSP range
    std::vector<nixf::Diagnostic> Diags;
    std::shared_ptr<nixf::Node> Ast = nixf::parse(A[0], Diags);
    O.k("d").ab();
    auto One = [&](const nixf::LexerCursorRange &R) {
      O.ab().n(R.lCur().offset()).n(R.rCur().offset());
      rng(O, nixd::toLSPRange(A[0], R));
      lspserver::Position P = nixd::toLSPPosition(A[0], R.lCur());
      O.n(P.line).n(P.character).ae();
    };
    for (const auto &D : Diags) {
      One(D.range());
      for (const auto &N : D.notes())
        One(N.range());
      for (const auto &F : D.fixes())
        for (const auto &E : F.edits())
          One(E.oldRange());
    }
    std::function<void(const nixf::Node *)> Walk = [&](const nixf::Node *N) {
      if (!N)
        return;
      One(N->range());
      for (const nixf::Node *C : N->children())
        Walk(C);
    };
    Walk(Ast.get());
    O.ae();
  }
  O.oe();
  return O.O;
}
struct Quiet : lspserver::Logger {
  void log(Level, const char *, const llvm::formatv_object_base &) override {}
};
} // namespace
int main() {
  Quiet Q;
  lspserver::LoggingSession S(Q);
  return batch(handle);
}
