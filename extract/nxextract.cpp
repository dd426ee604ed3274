// nxextract: mechanical extractor of C++ function bodies to JSON.
//
// Parses one translation unit with clang (the same flags the build uses) and
// prints, for every function definition, record and enum whose source location
// lies below a given root, a JSON tree that is a direct rendering of clang's
// semantic AST (implicit casts, constructor calls, default arguments and
// template instantiations included).  Nothing is interpreted here; dropped:
// source comments, inactive preprocessor branches, parentheses, attributes,
// cleanups/temporary-binding wrappers (temporaries' destructors).
#include <clang/AST/AST.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/Mangle.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> Roots;

struct Emitter {
  ASTContext &C;
  PrintingPolicy PP;
  std::map<const void *, int> TypeIds;
  Array Types;
  std::map<const Decl *, int> DeclIds;
  Array Functions, Records, Enums, Globals;
  std::set<const Decl *> SeenF, SeenR;

  Emitter(ASTContext &C) : C(C), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = true;
    PP.Bool = true;
  }

  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = DeclIds.find(D);
    if (It != DeclIds.end())
      return It->second;
    int N = DeclIds.size() + 1;
    DeclIds[D] = N;
    return N;
  }

  bool inRoot(SourceLocation L) {
    if (L.isInvalid())
      return false;
    auto &SM = C.getSourceManager();
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F)
      return false;
    llvm::StringRef N = F->getFileEntry().tryGetRealPathName();
    if (N.empty())
      N = F->getName();
    for (auto &R : Roots)
      if (N.starts_with(R))
        return true;
    return false;
  }
  std::string fileOf(SourceLocation L) {
    auto &SM = C.getSourceManager();
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F)
      return "";
    llvm::StringRef N = F->getFileEntry().tryGetRealPathName();
    return (N.empty() ? F->getName() : N).str();
  }
  int lineOf(SourceLocation L) {
    if (L.isInvalid())
      return 0;
    auto &SM = C.getSourceManager();
    return SM.getExpansionLineNumber(L);
  }

  std::string recName(const RecordDecl *RD) {
    if (auto *CR = dyn_cast<CXXRecordDecl>(RD); CR && CR->isLambda())
      return "lambda#" + std::to_string(declId(CR));
    QualType T = C.getTypeDeclType(RD).getCanonicalType();
    return T.getAsString(PP);
  }

  int type(QualType T) {
    T = T.getCanonicalType();
    auto It = TypeIds.find(T.getAsOpaquePtr());
    if (It != TypeIds.end())
      return It->second;
    int Id = Types.size();
    TypeIds[T.getAsOpaquePtr()] = Id;
    Types.push_back(nullptr);
    Object O;
    O["s"] = T.getAsString(PP);
    if (T.isConstQualified())
      O["const"] = true;
    QualType U = T.getUnqualifiedType();
    if (auto *R = U->getAs<ReferenceType>()) {
      O["k"] = R->isRValueReferenceType() ? "rref" : "ref";
      O["to"] = type(R->getPointeeType());
    } else if (auto *P = U->getAs<PointerType>()) {
      O["k"] = "ptr";
      O["to"] = type(P->getPointeeType());
    } else if (auto *E = U->getAs<EnumType>()) {
      O["k"] = "enum";
      O["q"] = E->getDecl()->getQualifiedNameAsString();
      QualType IT = E->getDecl()->getIntegerType();
      if (!IT.isNull()) {
        O["w"] = (int)C.getTypeSize(IT);
        O["sg"] = IT->isSignedIntegerType();
      }
    } else if (U->isBooleanType()) {
      O["k"] = "bool";
    } else if (U->isIntegerType()) {
      O["k"] = U->isCharType() ? "char" : "int";
      O["w"] = (int)C.getTypeSize(U);
      O["sg"] = U->isSignedIntegerType();
    } else if (U->isRealFloatingType()) {
      O["k"] = "float";
    } else if (U->isVoidType()) {
      O["k"] = "void";
    } else if (U->isNullPtrType()) {
      O["k"] = "nullptr";
    } else if (auto *RT = U->getAs<RecordType>()) {
      O["k"] = "rec";
      auto *RD = RT->getDecl();
      O["q"] = RD->getQualifiedNameAsString();
      O["n"] = recName(RD);
      if (auto *CR = dyn_cast<CXXRecordDecl>(RD); CR && CR->isLambda())
        O["lambda"] = declId(CR);
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        Array A;
        for (auto &TA : S->getTemplateArgs().asArray())
          addTArg(A, TA);
        O["targs"] = std::move(A);
      }
      if (auto *CR = dyn_cast<CXXRecordDecl>(RD); CR && CR->hasDefinition())
        record(CR->getDefinition());
    } else if (auto *AT = dyn_cast<ConstantArrayType>(U.getTypePtr())) {
      O["k"] = "array";
      O["to"] = type(AT->getElementType());
      O["n"] = (int64_t)AT->getSize().getZExtValue();
    } else if (U->isFunctionType()) {
      O["k"] = "fn";
      auto *FP = U->getAs<FunctionProtoType>();
      if (FP) {
        Array A;
        for (auto PT : FP->param_types())
          A.push_back(type(PT));
        O["params"] = std::move(A);
        O["ret"] = type(FP->getReturnType());
      }
    } else
      O["k"] = "other";
    Types[Id] = std::move(O);
    return Id;
  }
  void addTArg(Array &A, const TemplateArgument &TA) {
    if (TA.getKind() == TemplateArgument::Type)
      A.push_back(type(TA.getAsType()));
    else if (TA.getKind() == TemplateArgument::Integral)
      A.push_back(Object{{"i", TA.getAsIntegral().getExtValue()}});
    else if (TA.getKind() == TemplateArgument::Pack) {
      for (auto &P : TA.pack_elements())
        addTArg(A, P);
    } else
      A.push_back(nullptr);
  }

  std::string fnKey(const FunctionDecl *F) {
    std::string S;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      S = recName(M->getParent()) + "::" + M->getNameAsString();
    } else
      S = F->getQualifiedNameAsString();
    S += "(";
    bool First = true;
    for (auto *P : F->parameters()) {
      if (!First)
        S += ",";
      First = false;
      S += P->getType().getCanonicalType().getAsString(PP);
    }
    S += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F); M && M->isConst())
      S += " const";
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      S += "<";
      for (auto &A : TA->asArray())
        if (A.getKind() == TemplateArgument::Type)
          S += A.getAsType().getCanonicalType().getAsString(PP) + ";";
        else if (A.getKind() == TemplateArgument::Integral)
          S += std::to_string(A.getAsIntegral().getExtValue()) + ";";
        else if (A.getKind() == TemplateArgument::Pack)
          for (auto &B : A.pack_elements())
            if (B.getKind() == TemplateArgument::Type)
              S += B.getAsType().getCanonicalType().getAsString(PP) + ";";
      S += ">";
    }
    return S;
  }
  std::string fnQ(const FunctionDecl *F) {
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      return recName(M->getParent()) + "::" + M->getNameAsString();
    return F->getQualifiedNameAsString();
  }

  void record(const CXXRecordDecl *R) {
    if (!R || R->isDependentContext())
      return;
    R = R->getDefinition();
    if (!R || !SeenR.insert(R->getCanonicalDecl()).second)
      return;
    // the C library's plain structures are wanted as well
    bool Plain = R->isCLike() && R->getIdentifier() && !R->isUnion() &&
                 R->getDeclContext()->getRedeclContext()->isTranslationUnit();
    if (!Plain && !inRoot(R->getLocation()))
      return;
    Object O;
    O["n"] = recName(R);
    O["q"] = R->getQualifiedNameAsString();
    O["line"] = lineOf(R->getLocation());
    Array Bs;
    for (auto &B : R->bases())
      Bs.push_back(type(B.getType()));
    O["bases"] = std::move(Bs);
    Array Fs;
    for (auto *F : R->fields()) {
      Object FO;
      FO["name"] = F->getNameAsString();
      FO["t"] = type(F->getType());
      if (F->hasInClassInitializer() && F->getInClassInitializer())
        FO["init"] = expr(F->getInClassInitializer());
      Fs.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fs);
    if (auto *D = R->getDestructor(); D && !D->isImplicit() && !D->isDefaulted())
      O["dtor"] = fnKey(D);
    O["poly"] = R->isPolymorphic();
    Records.push_back(std::move(O));
  }

  Value varRef(const ValueDecl *D) {
    Object O;
    O["id"] = declId(D);
    O["name"] = D->getNameAsString();
    return O;
  }

  Value vardecl(const VarDecl *V) {
    Object O;
    O["id"] = declId(V);
    O["name"] = V->getNameAsString();
    O["t"] = type(V->getType());
    O["line"] = lineOf(V->getLocation());
    if (V->isStaticLocal())
      O["static"] = true;
    if (V->getInit()) {
      O["init"] = expr(V->getInit());
    }
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array Bs;
      for (auto *B : DD->bindings()) {
        Object BO;
        BO["id"] = declId(B);
        BO["name"] = B->getNameAsString();
        BO["t"] = type(B->getType());
        if (B->getBinding())
          BO["e"] = expr(B->getBinding());
        if (auto *H = B->getHoldingVar()) {
          BO["hold"] = vardecl(H);
        }
        Bs.push_back(std::move(BO));
      }
      O["bindings"] = std::move(Bs);
    }
    return O;
  }

  Value stmt(const Stmt *S) {
    if (!S)
      return nullptr;
    if (auto *E = dyn_cast<Expr>(S))
      return Object{{"k", "expr"}, {"e", expr(E)}, {"line", lineOf(S->getBeginLoc())}};
    Object O;
    O["line"] = lineOf(S->getBeginLoc());
    if (auto *B = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "block";
      Array A;
      for (auto *X : B->body())
        A.push_back(stmt(X));
      O["b"] = std::move(A);
    } else if (auto *D = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl";
      Array A;
      for (auto *X : D->decls())
        if (auto *V = dyn_cast<VarDecl>(X))
          A.push_back(vardecl(V));
      O["v"] = std::move(A);
    } else if (auto *I = dyn_cast<IfStmt>(S)) {
      O["k"] = "if";
      if (I->isConstexpr())
        O["constexpr"] = true;
      if (I->getInit())
        O["init"] = stmt(I->getInit());
      if (I->getConditionVariable())
        O["var"] = vardecl(I->getConditionVariable());
      O["c"] = expr(I->getCond());
      O["then"] = stmt(I->getThen());
      if (I->getElse())
        O["else"] = stmt(I->getElse());
    } else if (auto *W = dyn_cast<WhileStmt>(S)) {
      O["k"] = "while";
      if (W->getConditionVariable())
        O["var"] = vardecl(W->getConditionVariable());
      O["c"] = expr(W->getCond());
      O["b"] = stmt(W->getBody());
    } else if (auto *W = dyn_cast<DoStmt>(S)) {
      O["k"] = "do";
      O["c"] = expr(W->getCond());
      O["b"] = stmt(W->getBody());
    } else if (auto *F = dyn_cast<ForStmt>(S)) {
      O["k"] = "for";
      if (F->getInit())
        O["init"] = stmt(F->getInit());
      if (F->getConditionVariable())
        O["var"] = vardecl(F->getConditionVariable());
      if (F->getCond())
        O["c"] = expr(F->getCond());
      if (F->getInc())
        O["inc"] = expr(F->getInc());
      O["b"] = stmt(F->getBody());
    } else if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "rangefor";
      O["range"] = expr(F->getRangeInit());
      O["v"] = vardecl(F->getLoopVariable());
      O["b"] = stmt(F->getBody());
    } else if (auto *W = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "switch";
      if (W->getInit())
        O["init"] = stmt(W->getInit());
      if (W->getConditionVariable())
        O["var"] = vardecl(W->getConditionVariable());
      O["c"] = expr(W->getCond());
      O["b"] = stmt(W->getBody());
    } else if (auto *K = dyn_cast<CaseStmt>(S)) {
      O["k"] = "case";
      O["e"] = expr(K->getLHS());
      O["s"] = stmt(K->getSubStmt());
    } else if (auto *K = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "default";
      O["s"] = stmt(K->getSubStmt());
    } else if (isa<BreakStmt>(S))
      O["k"] = "break";
    else if (isa<ContinueStmt>(S))
      O["k"] = "continue";
    else if (auto *R = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "return";
      if (R->getRetValue())
        O["e"] = expr(R->getRetValue());
    } else if (isa<NullStmt>(S))
      O["k"] = "null";
    else if (auto *A = dyn_cast<AttributedStmt>(S))
      return stmt(A->getSubStmt());
    else if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try";
      O["b"] = stmt(T->getTryBlock());
    } else {
      O["k"] = "?";
      O["cls"] = S->getStmtClassName();
    }
    return O;
  }

  Array args(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    Array A;
    for (auto *E : R)
      A.push_back(expr(E));
    return A;
  }

  void calleeInfo(Object &O, const FunctionDecl *F) {
    O["fn"] = fnKey(F);
    O["q"] = fnQ(F);
    O["name"] = F->getNameAsString();
    Array PT;
    for (auto *P : F->parameters())
      PT.push_back(type(P->getType()));
    O["pt"] = std::move(PT);
    if (F->isNoReturn())
      O["noreturn"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      O["clsq"] = M->getParent()->getQualifiedNameAsString();
      if (M->isVirtual())
        O["virtual"] = true;
      if (M->isStatic())
        O["static"] = true;
      if (M->isDefaulted() || M->isImplicit())
        O["dflt"] = true;
    }
    const FunctionDecl *Def = nullptr;
    if (F->isDefined(Def) && Def && inRoot(Def->getLocation()))
      function(Def);
  }

  Value expr(const Expr *E) {
    if (!E)
      return nullptr;
    // strip wrappers
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E))
        E = P->getSubExpr();
      else if (auto *P = dyn_cast<ExprWithCleanups>(E))
        E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E))
        E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
        E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E))
        E = P->getExpr();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E))
        E = P->getExpr();
      else if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E))
        E = P->getSemanticForm();
      else if (auto *P = dyn_cast<OpaqueValueExpr>(E); P && P->getSourceExpr())
        E = P->getSourceExpr();
      else
        break;
    }
    Object O;
    O["t"] = type(E->getType());
    O["vc"] = E->isLValue() ? "l" : E->isXValue() ? "x" : "r";
    if (int L = lineOf(E->getExprLoc()))
      O["line"] = L;
    if (auto *CE = dyn_cast<ConstantExpr>(E)) {
      return expr(CE->getSubExpr());
    }
    if (auto *L = dyn_cast<IntegerLiteral>(E)) {
      O["k"] = "int";
      llvm::SmallString<32> S;
      L->getValue().toString(S, 10, E->getType()->isSignedIntegerType());
      O["v"] = S.str().str();
    } else if (auto *L = dyn_cast<CharacterLiteral>(E)) {
      O["k"] = "int";
      int64_t V = L->getValue();
      if (E->getType()->isCharType() && E->getType()->isSignedIntegerType() && V > 127)
        V -= 256;
      O["v"] = std::to_string(V);
    } else if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) {
      O["k"] = "bool";
      O["v"] = L->getValue();
    } else if (auto *L = dyn_cast<StringLiteral>(E)) {
      O["k"] = "str";
      Array A;
      if (L->getCharByteWidth() == 1)
        for (unsigned char Ch : L->getBytes())
          A.push_back((int)Ch);
      O["v"] = std::move(A);
    } else if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      O["k"] = "float";
      O["v"] = L->getValueAsApproximateDouble();
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      O["k"] = "null";
    } else if (isa<PredefinedExpr>(E)) {
      O["k"] = "str";
      O["v"] = Array{};
    } else if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      auto *VD = D->getDecl();
      O["k"] = "ref";
      O["id"] = declId(VD);
      O["name"] = VD->getNameAsString();
      if (auto *EC = dyn_cast<EnumConstantDecl>(VD)) {
        O["d"] = "enum";
        O["v"] = EC->getInitVal().getExtValue();
      } else if (auto *FD = dyn_cast<FunctionDecl>(VD)) {
        O["d"] = "fn";
        calleeInfo(O, FD);
      } else if (auto *V = dyn_cast<VarDecl>(VD)) {
        O["d"] = isa<ParmVarDecl>(V) ? "param" : V->hasGlobalStorage() && !V->isStaticLocal() ? "global" : "var";
        if (V->hasGlobalStorage()) {
          O["q"] = V->getQualifiedNameAsString();
          O["dt"] = type(V->getType());
          const VarDecl *Def = V->getDefinition();
          if (!Def) Def = V->getInitializingDeclaration();
          bool Const = Def && (Def->getType().isConstQualified() || Def->isConstexpr());
          if (Def && Def->getInit() && inRoot(Def->getLocation()) &&
              (Const || !Def->isExternallyVisible()) && !V->isStaticLocal() && SeenF.insert(Def).second) {
            Object G;
            if (!Const) G["mut"] = true;
            G["id"] = declId(V);
            G["q"] = V->getQualifiedNameAsString();
            G["t"] = type(V->getType());
            G["init"] = expr(Def->getInit());
            Globals.push_back(std::move(G));
          }
        }
      } else if (isa<BindingDecl>(VD)) {
        O["d"] = "binding";
      } else
        O["d"] = "other";
      O["dt"] = type(VD->getType());
    } else if (isa<CXXThisExpr>(E)) {
      O["k"] = "this";
    } else if (auto *M = dyn_cast<MemberExpr>(E)) {
      auto *MD = M->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(MD)) {
        O["k"] = "ref";
        O["d"] = "global";
        O["id"] = declId(V);
        O["name"] = V->getNameAsString();
        O["q"] = V->getQualifiedNameAsString();
        O["dt"] = type(V->getType());
      } else {
        O["k"] = "member";
        O["name"] = MD->getNameAsString();
        O["arrow"] = M->isArrow();
        O["base"] = expr(M->getBase());
        if (auto *F = dyn_cast<FieldDecl>(MD)) {
          O["ft"] = type(F->getType());
          O["cls"] = recName(F->getParent());
        }
      }
    } else if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "call";
      if (auto *MD = MC->getMethodDecl()) {
        calleeInfo(O, MD);
        const Expr *Cal = MC->getCallee()->IgnoreParens();
        if (auto *ME = dyn_cast<MemberExpr>(Cal)) {
          O["obj"] = expr(ME->getBase());
          O["arrow"] = ME->isArrow();
          if (ME->hasQualifier())
            O["nonvirt"] = true;
        }
      } else {
        O["dyn"] = true;
        O["callee"] = expr(MC->getCallee());
      }
      O["args"] = args(MC->arguments());
    } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "call";
      O["op"] = getOperatorSpelling(OC->getOperator());
      Array A = args(OC->arguments());
      if (auto *F = OC->getDirectCallee()) {
        calleeInfo(O, F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic()) {
          O["obj"] = Value(A[0]);
          Array B;
          for (size_t I = 1; I < A.size(); ++I)
            B.push_back(std::move(A[I]));
          A = std::move(B);
          O["arrow"] = false;
        }
      } else {
        O["dyn"] = true;
        O["callee"] = expr(OC->getCallee());
      }
      O["args"] = std::move(A);
    } else if (auto *CC = dyn_cast<CallExpr>(E)) {
      O["k"] = "call";
      if (auto *F = CC->getDirectCallee())
        calleeInfo(O, F);
      else {
        O["dyn"] = true;
        O["callee"] = expr(CC->getCallee());
      }
      O["args"] = args(CC->arguments());
    } else if (auto *CE = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "construct";
      auto *CD = CE->getConstructor();
      O["list"] = CE->isListInitialization();
      O["elidable"] = CE->isElidable();
      if (CE->requiresZeroInitialization())
        O["zeroinit"] = true;
      calleeInfo(O, CD);
      O["copy"] = CD->isCopyConstructor();
      O["move"] = CD->isMoveConstructor();
      if (CE->isStdInitListInitialization())
        O["stdil"] = true;
      O["args"] = args(CE->arguments());
    } else if (auto *CE = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      O["k"] = "inhctor";
      calleeInfo(O, CE->getConstructor());
    } else if (auto *FC = dyn_cast<CXXFunctionalCastExpr>(E)) {
      O["k"] = "cast";
      O["ck"] = FC->getCastKindName();
      O["e"] = expr(FC->getSubExpr());
    } else if (auto *CA = dyn_cast<CastExpr>(E)) {
      O["k"] = "cast";
      O["ck"] = CA->getCastKindName();
      O["e"] = expr(CA->getSubExpr());
      if (auto *IC = dyn_cast<ImplicitCastExpr>(CA))
        O["imp"] = true;
    } else if (auto *U = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "unop";
      O["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      O["post"] = U->isPostfix();
      O["e"] = expr(U->getSubExpr());
    } else if (auto *CO = dyn_cast<CompoundAssignOperator>(E)) {
      O["k"] = "opassign";
      O["op"] = BinaryOperator::getOpcodeStr(
                    BinaryOperator::getOpForCompoundAssignment(CO->getOpcode()))
                    .str();
      O["l"] = expr(CO->getLHS());
      O["r"] = expr(CO->getRHS());
      O["ct"] = type(CO->getComputationLHSType());
    } else if (auto *B = dyn_cast<BinaryOperator>(E)) {
      O["k"] = B->getOpcode() == BO_Assign ? "assign" : "binop";
      O["op"] = B->getOpcodeStr().str();
      O["l"] = expr(B->getLHS());
      O["r"] = expr(B->getRHS());
    } else if (auto *CO = dyn_cast<ConditionalOperator>(E)) {
      O["k"] = "cond";
      O["c"] = expr(CO->getCond());
      O["a"] = expr(CO->getTrueExpr());
      O["b"] = expr(CO->getFalseExpr());
    } else if (auto *AS = dyn_cast<ArraySubscriptExpr>(E)) {
      O["k"] = "index";
      O["base"] = expr(AS->getBase());
      O["i"] = expr(AS->getIdx());
    } else if (auto *L = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda";
      O["id"] = declId(L->getLambdaClass());
      Array Cs;
      auto Init = L->capture_init_begin();
      for (auto &Cap : L->captures()) {
        Object CO;
        if (Cap.capturesThis())
          CO["this"] = true;
        else if (Cap.capturesVariable()) {
          CO["id"] = declId(Cap.getCapturedVar());
          CO["name"] = Cap.getCapturedVar()->getNameAsString();
          CO["byref"] = Cap.getCaptureKind() == LCK_ByRef;
          CO["t"] = type(Cap.getCapturedVar()->getType());
          if (auto *IV = dyn_cast<VarDecl>(Cap.getCapturedVar()); IV && IV->isInitCapture())
            CO["initcap"] = true;
          CO["init"] = expr(*Init);
        }
        ++Init;
        Cs.push_back(std::move(CO));
      }
      O["caps"] = std::move(Cs);
      if (auto *Op = L->getCallOperator(); Op && !L->isGenericLambda())
        O["body"] = fnObj(Op);
      else
        O["generic"] = true;
    } else if (auto *MT = dyn_cast<MaterializeTemporaryExpr>(E)) {
      O["k"] = "mat";
      O["e"] = expr(MT->getSubExpr());
    } else if (auto *IL = dyn_cast<InitListExpr>(E)) {
      if (IL->isSemanticForm() == false && IL->getSemanticForm())
        IL = IL->getSemanticForm();
      O["k"] = "initlist";
      Array A;
      for (auto *X : IL->inits())
        A.push_back(expr(X));
      O["a"] = std::move(A);
    } else if (auto *SI = dyn_cast<CXXStdInitializerListExpr>(E)) {
      O["k"] = "stdil";
      O["e"] = expr(SI->getSubExpr());
    } else if (auto *VI = dyn_cast<CXXScalarValueInitExpr>(E)) {
      O["k"] = "zero";
    } else if (auto *VI = dyn_cast<ImplicitValueInitExpr>(E)) {
      O["k"] = "zero";
    } else if (auto *NE = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "new";
      O["nt"] = type(NE->getAllocatedType());
      if (NE->getInitializer())
        O["e"] = expr(NE->getInitializer());
    } else if (auto *DE = dyn_cast<CXXDeleteExpr>(E)) {
      O["k"] = "delete";
      O["e"] = expr(DE->getArgument());
    } else if (auto *TE = dyn_cast<CXXThrowExpr>(E)) {
      O["k"] = "throw";
      if (TE->getSubExpr())
        O["e"] = expr(TE->getSubExpr());
    } else if (isa<StmtExpr>(E)) {
      O["k"] = "stmtexpr";
      O["b"] = stmt(cast<StmtExpr>(E)->getSubStmt());
    } else {
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) {
        O["k"] = "int";
        llvm::SmallString<32> S;
        R.Val.getInt().toString(S, 10);
        O["v"] = S.str().str();
      } else {
        O["k"] = "?";
        O["cls"] = E->getStmtClassName();
      }
    }
    return O;
  }

  Object fnObj(const FunctionDecl *F) {
    Object O;
    O["key"] = fnKey(F);
    O["q"] = fnQ(F);
    O["name"] = F->getNameAsString();
    O["file"] = fileOf(F->getLocation());
    O["line"] = lineOf(F->getLocation());
    if (F->getBody())
      O["endline"] = lineOf(F->getBody()->getEndLoc());
    O["ret"] = type(F->getReturnType());
    Array Ps;
    for (auto *P : F->parameters()) {
      Object PO;
      PO["id"] = declId(P);
      PO["name"] = P->getNameAsString();
      PO["t"] = type(P->getType());
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      O["static"] = M->isStatic();
      O["constm"] = M->isConst();
      O["virtual"] = M->isVirtual();
      if (M->isInstance() && !M->getParent()->isLambda()) type(M->getFunctionObjectParameterType());
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      Array Is;
      for (auto *I : K->inits()) {
        Object IO;
        if (I->isAnyMemberInitializer()) {
          IO["field"] = I->getAnyMember()->getNameAsString();
          IO["ft"] = type(I->getAnyMember()->getType());
        } else if (I->isBaseInitializer())
          IO["base"] = type(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer())
          IO["delegating"] = true;
        IO["e"] = expr(I->getInit());
        Is.push_back(std::move(IO));
      }
      O["inits"] = std::move(Is);
    }
    if (isa<CXXDestructorDecl>(F))
      O["dtor"] = true;
    O["body"] = stmt(F->getBody());
    return O;
  }

  void function(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->isDefined(Def) || !Def)
      return;
    F = Def;
    if (F->isDependentContext() || F->isTemplated())
      return;
    if (!SeenF.insert(F->getCanonicalDecl()).second)
      return;
    if (!F->getBody())
      return;
    if (F->isDefaulted() && !F->isUserProvided()) return;
    if (!inRoot(F->getLocation()))
      return;
    Functions.push_back(fnObj(F));
  }

  void enumDecl(const EnumDecl *E) {
    if (!inRoot(E->getLocation()) || !SeenR.insert(E).second)
      return;
    Object O;
    O["q"] = E->getQualifiedNameAsString();
    Object Cs;
    for (auto *EC : E->enumerators())
      Cs[EC->getNameAsString()] = EC->getInitVal().getExtValue();
    O["c"] = std::move(Cs);
    Enums.push_back(std::move(O));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Emitter &Em;
  Visitor(Emitter &Em) : Em(Em) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseDecl(Decl *D) {
    // skip system declarations quickly
    if (D && !isa<TranslationUnitDecl>(D) && isa<NamespaceDecl, FunctionDecl, CXXRecordDecl, ClassTemplateDecl, FunctionTemplateDecl, VarDecl, EnumDecl>(D)) {
      if (!isa<NamespaceDecl>(D) && !Em.inRoot(D->getLocation()))
        return true;
      if (auto *N = dyn_cast<NamespaceDecl>(D); N && N->isStdNamespace())
        return true;
    }
    return RecursiveASTVisitor<Visitor>::TraverseDecl(D);
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->getParent()->isLambda())
      return true;
    if (F->isThisDeclarationADefinition())
      Em.function(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isLambda())
      return true;
    if (R->isThisDeclarationADefinition() && !R->isDependentContext())
      Em.record(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    Em.enumDecl(E);
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred())
      return;
    Emitter Em(C);
    Visitor V(Em);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Object O;
    O["types"] = std::move(Em.Types);
    O["functions"] = std::move(Em.Functions);
    O["records"] = std::move(Em.Records);
    O["enums"] = std::move(Em.Enums);
    O["globals"] = std::move(Em.Globals);
    llvm::outs() << Value(std::move(O)) << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &,
                                                 llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

// usage: nxextract FILE ROOT[,ROOT...] -- flags...
int main(int Argc, char **Argv) {
  if (Argc < 4)
    return 2;
  std::string File = Argv[1];
  llvm::SmallVector<llvm::StringRef> Rs;
  llvm::StringRef(Argv[2]).split(Rs, ',');
  for (auto R : Rs)
    Roots.push_back(R.str());
  std::vector<std::string> Flags;
  for (int I = 4; I < Argc; ++I)
    Flags.push_back(Argv[I]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {File});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
