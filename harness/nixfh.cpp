// Concrete replay harness for libnixf: links the real sources of /repo.
#include "Lexer.h"
#include "Parser.h"
#include "nixf/Basic/Diagnostic.h"
#include "nixf/Basic/Nodes/Attrs.h"
#include "nixf/Basic/Nodes/Expr.h"
#include "nixf/Basic/Nodes/Lambda.h"
#include "nixf/Basic/Nodes/Op.h"
#include "nixf/Basic/Nodes/Simple.h"
#include "nixf/Parse/Parser.h"
#include "nixf/Sema/ParentMap.h"
#include "nixf/Sema/PrimOpInfo.h"
#include "nixf/Sema/VariableLookup.h"

#include <map>
#include <set>

#include "batch.h"
#include "json.h"

using namespace nixf;

// Stand-in for the table generated from the Nix library (not installed here).
std::map<std::string, nixf::PrimOpInfo> nixf::PrimOpsInfo = {
    {"abort", {{"s"}, 1, "", false}},     {"map", {{"f", "list"}, 2, "", false}},
    {"import", {{"path"}, 1, "", false}}, {"toString", {{"e"}, 1, "", false}},
    {"__add", {{"a", "b"}, 2, "", false}}, {"__filter", {{"f", "list"}, 2, "", false}},
    {"fetchFinalTree", {{"input"}, 1, "", true}}, {"throw", {{"s"}, 1, "", false}},
    {"__length", {{"e"}, 1, "", false}},
};

namespace {

void cur(J &O, LexerCursor C) {
  O.n(C.offset()).n(C.line()).n(C.column());
}
void range(J &O, LexerCursorRange R) {
  O.ab();
  cur(O, R.lCur());
  cur(O, R.rCur());
  O.ae();
}

void diags(J &O, const std::vector<Diagnostic> &Diags) {
  O.ab();
  for (const auto &D : Diags) {
    O.ob();
    O.k("k").s(D.sname());
    O.k("r");
    range(O, D.range());
    O.k("sev").n((int)Diagnostic::severity(D.kind()));
    O.k("args").ab();
    for (const auto &A : D.args())
      O.s(A);
    O.ae();
    O.k("tmpl").s(D.message());
    unsigned PH = 0;
    for (const char *P = D.message(); *P; ++P)
      if (P[0] == '{' && P[1] == '}')
        ++PH;
    O.k("ph").n(PH);
    if (PH <= D.args().size())
      O.k("msg").s(D.format());
    O.k("notes").ab();
    for (const auto &N : D.notes()) {
      O.ob();
      O.k("k").s(N.sname());
      O.k("r");
      range(O, N.range());
      O.k("args").n(N.args().size());
      PH = 0;
      for (const char *P = N.message(); *P; ++P)
        if (P[0] == '{' && P[1] == '}')
          ++PH;
      O.k("ph").n(PH);
      O.oe();
    }
    O.ae();
    O.k("fixes").ab();
    for (const auto &F : D.fixes()) {
      O.ob();
      O.k("m").s(F.message());
      O.k("e").ab();
      for (const auto &E : F.edits()) {
        O.ab();
        range(O, E.oldRange());
        O.s(E.newText());
        O.ae();
      }
      O.ae();
      O.oe();
    }
    O.ae();
    O.oe();
  }
  O.ae();
}

struct Dumper {
  J &O;
  std::map<const Node *, int> Id;
  const VariableLookupAnalysis *VLA = nullptr;
  const ParentMapAnalysis *PMA = nullptr;

  int id(const Node *N) {
    if (!N)
      return -1;
    auto [It, _] = Id.insert({N, (int)Id.size()});
    return It->second;
  }

  void list(const char *K, auto &&V) {
    O.k(K).ab();
    for (const auto &X : V)
      node(X.get());
    O.ae();
  }
  void f(const char *K, const Node *N) {
    O.k(K);
    node(N);
  }

  void parts(const InterpolatedParts &P) {
    O.k("parts").ab();
    for (const auto &Fr : P.fragments()) {
      if (Fr.kind() == InterpolablePart::SPK_Escaped)
        O.s(Fr.escaped());
      else
        node(&Fr.interpolation());
    }
    O.ae();
    O.k("pr");
    range(O, P.range());
  }

  // how deep the semantic form is printed
  void sema(const SemaAttrs &SA, bool Values) {
    O.ob();
    O.k("rec").b(SA.isRecursive());
    O.k("static").ab();
    for (const auto &[N, A] : SA.staticAttrs())
      attribute(&N, A, Values);
    O.ae();
    O.k("dynamic").ab();
    for (const auto &A : SA.dynamicAttrs())
      attribute(nullptr, A, Values);
    O.ae();
    O.oe();
  }
  void attribute(const std::string *N, const Attribute &A, bool Values) {
    O.ob();
    if (N)
      O.k("n").s(*N);
    O.k("ik").n((int)A.kind());
    O.k("key");
    range(O, A.key().range());
    O.k("val");
    if (!A.value())
      O.nul();
    else if (!Values)
      range(O, A.value()->range());
    else
      node(A.value());
    O.oe();
  }

  void node(const Node *N) {
    if (!N) {
      O.nul();
      return;
    }
    O.ob();
    O.k("id").n(id(N));
    O.k("k").s(N->name());
    O.k("r");
    range(O, N->range());
    if (PMA) {
      const Node *Q = PMA->query(*N);
      O.k("up").n(Q ? id(Q) : -1);
    }
    O.k("ch").ab();
    for (const Node *C : N->children())
      if (C)
        O.n(id(C));
    O.ae();
    switch (N->kind()) {
    case Node::NK_Interpolation:
      f("e", static_cast<const Interpolation *>(N)->expr());
      break;
    case Node::NK_InterpolableParts:
      parts(*static_cast<const InterpolatedParts *>(N));
      break;
    case Node::NK_Identifier:
      O.k("name").s(static_cast<const Identifier *>(N)->name());
      break;
    case Node::NK_AttrName: {
      const auto *A = static_cast<const AttrName *>(N);
      O.k("ak").n(A->kind());
      if (A->kind() == AttrName::ANK_ID)
        f("n", A->id().get());
      else if (A->kind() == AttrName::ANK_String)
        f("n", &A->string());
      else
        f("n", &A->interpolation());
      break;
    }
    case Node::NK_AttrPath:
      list("names", static_cast<const AttrPath *>(N)->names());
      break;
    case Node::NK_Binding: {
      const auto *B = static_cast<const Binding *>(N);
      f("path", &B->path());
      f("eq", B->eq().get());
      f("val", B->value().get());
      break;
    }
    case Node::NK_Inherit: {
      const auto *B = static_cast<const Inherit *>(N);
      list("names", B->names());
      f("from", B->expr().get());
      break;
    }
    case Node::NK_Binds:
      list("b", static_cast<const Binds *>(N)->bindings());
      break;
    case Node::NK_LambdaArg: {
      const auto *A = static_cast<const LambdaArg *>(N);
      f("name", A->id());
      f("formals", A->formals());
      break;
    }
    case Node::NK_Formals: {
      const auto *A = static_cast<const Formals *>(N);
      list("m", A->members());
      O.k("dedup").ab();
      for (const auto &[K, V] : A->dedup()) {
        O.ab();
        O.s(K);
        O.n(V->lCur().offset());
        O.ae();
      }
      O.ae();
      break;
    }
    case Node::NK_Formal: {
      const auto *A = static_cast<const Formal *>(N);
      O.k("ell").b(A->isEllipsis());
      f("name", A->id());
      f("def", A->defaultExpr());
      f("comma", A->comma());
      break;
    }
    case Node::NK_Op:
      O.k("op").s(tok::spelling(static_cast<const Op *>(N)->op()));
      break;
    case Node::NK_ExprInt:
      O.k("v").s(std::to_string(static_cast<const ExprInt *>(N)->value()));
      break;
    case Node::NK_ExprFloat: {
      char B[64];
      snprintf(B, 64, "%a", static_cast<const ExprFloat *>(N)->value());
      O.k("v").s(B);
      break;
    }
    case Node::NK_ExprVar: {
      const auto *V = static_cast<const ExprVar *>(N);
      O.k("name").s(V->id().name());
      f("idn", &V->id());
      break;
    }
    case Node::NK_ExprString:
      parts(static_cast<const ExprString *>(N)->parts());
      break;
    case Node::NK_ExprPath:
      parts(static_cast<const ExprPath *>(N)->parts());
      break;
    case Node::NK_ExprSPath:
      O.k("t").s(static_cast<const ExprSPath *>(N)->text());
      break;
    case Node::NK_ExprParen: {
      const auto *P = static_cast<const ExprParen *>(N);
      f("e", P->expr());
      f("lp", P->lparen());
      f("rp", P->rparen());
      break;
    }
    case Node::NK_ExprAttrs: {
      const auto *A = static_cast<const ExprAttrs *>(N);
      f("b", A->binds());
      f("recm", A->rec());
      O.k("sa");
      sema(A->sema(), A->binds() == nullptr || SemaValues);
      break;
    }
    case Node::NK_ExprSelect: {
      const auto *S = static_cast<const ExprSelect *>(N);
      f("e", &S->expr());
      f("path", S->path());
      f("def", S->defaultExpr());
      O.k("desugared").b(S->desugaredFrom() != nullptr);
      break;
    }
    case Node::NK_ExprCall: {
      const auto *C = static_cast<const ExprCall *>(N);
      f("fn", &C->fn());
      list("args", C->args());
      break;
    }
    case Node::NK_ExprList:
      list("el", static_cast<const ExprList *>(N)->elements());
      break;
    case Node::NK_ExprLambda: {
      const auto *L = static_cast<const ExprLambda *>(N);
      f("arg", L->arg());
      f("body", L->body());
      break;
    }
    case Node::NK_ExprBinOp: {
      const auto *B = static_cast<const ExprBinOp *>(N);
      f("op", &B->op());
      f("l", B->lhs());
      f("rh", B->rhs());
      break;
    }
    case Node::NK_ExprUnaryOp: {
      const auto *B = static_cast<const ExprUnaryOp *>(N);
      f("op", &B->op());
      f("e", B->expr());
      break;
    }
    case Node::NK_ExprOpHasAttr: {
      const auto *B = static_cast<const ExprOpHasAttr *>(N);
      f("e", B->expr());
      f("path", B->attrpath());
      break;
    }
    case Node::NK_ExprIf: {
      const auto *B = static_cast<const ExprIf *>(N);
      f("c", B->cond());
      f("t", B->then());
      f("el", B->elseExpr());
      break;
    }
    case Node::NK_ExprAssert: {
      const auto *B = static_cast<const ExprAssert *>(N);
      f("c", B->cond());
      f("v", B->value());
      break;
    }
    case Node::NK_ExprLet: {
      const auto *B = static_cast<const ExprLet *>(N);
      f("let", &B->let());
      f("attrs", B->attrs());
      f("in", B->in());
      f("e", B->expr());
      break;
    }
    case Node::NK_ExprLegacyLet: {
      const auto *B = static_cast<const ExprLegacyLet *>(N);
      f("let", &B->let());
      f("attrs", B->attrs());
      break;
    }
    case Node::NK_ExprWith: {
      const auto *B = static_cast<const ExprWith *>(N);
      f("kw", &B->kwWith());
      f("semi", B->tokSemi());
      f("w", B->with());
      f("e", B->expr());
      break;
    }
    default:
      break;
    }
    O.oe();
  }
  bool SemaValues = false;

  // every node reachable from N, desugared values included
  std::set<const Node *> Seen;
  std::vector<const Node *> All;
  void collect(const Node *N) {
    if (!N || !Seen.insert(N).second)
      return;
    All.push_back(N);
    for (const Node *C : N->children())
      collect(C);
    if (N->kind() == Node::NK_ExprAttrs) {
      const SemaAttrs &SA = static_cast<const ExprAttrs *>(N)->sema();
      for (const auto &[_, A] : SA.staticAttrs()) {
        collect(&A.key());
        collect(A.value());
      }
      for (const auto &A : SA.dynamicAttrs()) {
        collect(&A.key());
        collect(A.value());
      }
    }
  }

  void analysis() {
    O.k("vars").ab();
    for (const Node *N : All) {
      if (N->kind() != Node::NK_ExprVar)
        continue;
      const auto *V = static_cast<const ExprVar *>(N);
      auto R = VLA->query(*V);
      O.ob();
      O.k("name").s(V->id().name());
      O.k("r");
      range(O, V->range());
      O.k("look").n((int)R.Kind);
      if (R.Def) {
        O.k("dsrc").n(R.Def->source());
        O.k("dsyn");
        if (R.Def->syntax())
          range(O, R.Def->syntax()->range());
        else
          O.nul();
        int In = 0;
        for (const auto *U : R.Def->uses())
          In += U == V;
        O.k("used").n(In);
        O.k("selfdef").b(!R.Def->syntax() || VLA->toDef(*R.Def->syntax()) == R.Def.get());
      }
      O.k("withs").ab();
      for (const auto *W : VLA->getWithScopes(*V))
        O.n(W->lCur().offset());
      O.ae();
      O.oe();
    }
    O.ae();
    O.k("defs").ab();
    for (const Node *N : All)
      if (const Definition *D = VLA->toDef(*N)) {
        O.ab();
        range(O, N->range());
        O.n(D->source());
        O.ab();
        for (const auto *U : D->uses())
          O.n(U->lCur().offset());
        O.ae();
        O.b(D->syntax() == N);
        O.ae();
      }
    O.ae();
  }
};

void tokens(J &O, Lexer &L, char Mode, std::size_t Max) {
  O.k("toks").ab();
  for (std::size_t I = 0; I < Max; ++I) {
    Token T = Mode == 'e' ? L.lex() : Mode == 's' ? L.lexString() : Mode == 'i' ? L.lexIndString() : L.lexPath();
    O.ab();
    O.n((int)T.kind());
    O.s(tok::spelling(T.kind()));
    cur(O, T.lCur());
    cur(O, T.rCur());
    O.s(T.view());
    cur(O, L.cur());
    O.ae();
    if (T.kind() == tok::tok_eof || T.kind() == tok::tok_path_end)
      break;
  }
  O.ae();
}

// walk every node reachable through children() (the raw tree)
void ranges(J &O, const Node *N, unsigned Depth) {
  O.ab();
  O.s(N->name());
  cur(O, N->lCur());
  cur(O, N->rCur());
  for (const Node *C : N->children())
    if (C)
      ranges(O, C, Depth + 1);
  O.ae();
}

std::string handle(const std::string &Cmd, const char *Buf, std::size_t Len) {
  std::string_view Src(Buf, Len);
  J O;
  O.ob();
  std::vector<Diagnostic> Diags;
  if (Cmd.rfind("lex", 0) == 0) {
    // lex<mode><maxtokens>:<offset>
    char Mode = Cmd[3];
    std::size_t Max = std::stoul(Cmd.substr(4));
    std::size_t Off = std::stoul(Cmd.substr(Cmd.find(':') + 1));
    Lexer L(Src, Diags);
    long long Line = 0, Col = 0;
    for (std::size_t I = 0; I < Off; ++I)
      if (Src[I] == '\n') { ++Line; Col = 0; } else ++Col;
    L.setCur(LexerCursor::unsafeCreate(Line, Col, Off));
    tokens(O, L, Mode, Max);
    O.k("diags");
    diags(O, Diags);
  } else if (Cmd == "ranges") {
    auto N = parse(Src, Diags);
    O.k("ast");
    if (N) ranges(O, N.get(), 0); else O.nul();
    O.k("diags");
    diags(O, Diags);
  } else if (Cmd == "parse" || Cmd == "sema" || Cmd == "deep" || Cmd.rfind("full", 0) == 0) {
    if (Cmd == "deep") {
      // once more for every place where the vector of diagnostics may grow
      std::size_t N = 1;
      for (std::size_t K = 1; K <= N && K <= 12; ++K) {
        std::vector<Diagnostic> D;
        D.reserve(K);
        if (auto T = parse(Src, D)) {
          VariableLookupAnalysis V(D);
          V.runOnAST(*T);
        }
        N = D.size();
      }
    }
    auto N = parse(Src, Diags);
    Dumper D{O};
    D.SemaValues = Cmd == "sema";
    std::unique_ptr<ParentMapAnalysis> P;
    std::unique_ptr<VariableLookupAnalysis> V;
    std::size_t NParse = Diags.size();
    if (N && (Cmd[0] == 'f' || Cmd[0] == 'd')) {
      P = std::make_unique<ParentMapAnalysis>();
      P->runOnAST(*N);
      V = std::make_unique<VariableLookupAnalysis>(Diags);
      V->runOnAST(*N);
      D.PMA = P.get();
      D.VLA = V.get();
    }
    O.k("ast");
    D.node(N.get());
    O.k("nparse").n(NParse);
    if (V) {
      // the plain tree: [id, line, column, line, column, parent, child...]
      O.k("nodes").ab();
      std::vector<const Node *> St{N.get()};
      while (!St.empty()) {
        const Node *X = St.back();
        St.pop_back();
        O.ab();
        O.n(D.id(X));
        O.n(X->lCur().line()).n(X->lCur().column()).n(X->rCur().line()).n(X->rCur().column());
        const Node *Up = P->query(*X);
        O.n(Up ? D.id(Up) : -1);
        for (const Node *C : X->children())
          if (C) {
            O.n(D.id(C));
            St.push_back(C);
          }
        O.ae();
      }
      O.ae();
      D.collect(N.get());
      D.analysis();
    }
    if (N && Cmd.size() > 5 && Cmd[0] == 'f') { // full:<line>,<col>,<line>,<col>;...
      O.k("descend").ab();
      const char *C = Cmd.c_str() + 5;
      long long A[4];
      int Used;
      while (sscanf(C, "%lld,%lld,%lld,%lld;%n", A, A + 1, A + 2, A + 3, &Used) == 4) {
        C += Used;
        O.n(D.id(N->descend(PositionRange({A[0], A[1]}, {A[2], A[3]}))));
      }
      O.ae();
      // upward walks: [id, kind, is root, nearest expression, nearest attribute set, nearest binding, nearest lambda]
      O.k("walks").ab();
      for (const Node *X : D.All) {
        if (!P->query(*X))
          continue;
        O.ab().n(D.id(X)).n(P->isRoot(*X));
        auto id = [&](const Node *Y) { return Y ? D.id(Y) : -1; };
        O.n(id(P->upExpr(*X)));
        O.n(id(P->upTo(*X, Node::NK_ExprAttrs)));
        O.n(id(P->upTo(*X, Node::NK_Binding)));
        O.n(id(P->upTo(*X, Node::NK_ExprLambda)));
        O.ae();
      }
      O.ae();
      O.k("kinds").ab();
      for (const Node *X : D.All)
        O.ab().n(D.id(X)).s(X->name()).ae();
      O.ae();
    }
    O.k("diags");
    diags(O, Diags);
  }
  O.oe();
  return O.O;
}
} // namespace

int main() { return batch(handle); }
