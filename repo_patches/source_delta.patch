From 6519921ae14ffa9239e96f32831b53e28f31c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 01/29] fix: do not lex past the end of an escape cut off by
 the end of the file

---
 libnixf/src/Parse/Lexer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 3de974f..70524d6 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -397,7 +397,9 @@ Token Lexer::lexString() {
     // Consume two characters, for escaping
     // NOTE: we may not want to break out Unicode wchar here, but libexpr does
     // such ignoring
-    consume(2);
+    consume();
+    if (!eof())
+      consume();
     Tok = tok_string_escape;
     break;
   case '$':
@@ -440,7 +442,8 @@ Token Lexer::lexIndString() {
       Tok = tok_string_escape;
     } else if (consumePrefix("\\")) {
       // ''\ escapes any character
-      consume();
+      if (!eof())
+        consume();
       Tok = tok_string_escape;
     } else {
       Tok = tok_quote2;
-- 
2.43.0


From 928670570b8f43ac300a8da5957bf464b643ad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 02/29] fix: lex `||` followed by `|>` as two operator tokens

---
 libnixf/src/Parse/Lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 70524d6..1ba45f0 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -562,7 +562,7 @@ Token Lexer::lex() {
   case '|':
     if (consumePrefix("||"))
       Tok = tok_op_or;
-    if (consumePrefix("|>"))
+    else if (consumePrefix("|>"))
       Tok = tok_op_pipe_into;
     break;
   case '!':
-- 
2.43.0


From 4df98339321ce9ae37968eb3d2d765c68ff06e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 03/29] fix: a search path does not end with a slash

---
 libnixf/src/Parse/Lexer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 1ba45f0..20c1e62 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -298,6 +298,7 @@ bool Lexer::consumeSPath() {
     // (\/{PATH_CHAR}+)*
     while (true) {
       // \/
+      LexerCursor Slash = cur();
       if (peek() == '/') {
         consume();
         // {PATH_CHAR}+
@@ -307,6 +308,8 @@ bool Lexer::consumeSPath() {
           continue;
         }
       }
+      // A slash must be followed by a path character.
+      Cur = Slash;
       break;
     }
     if (peek() == '>') {
-- 
2.43.0


From 5469b8fa5222fda1ad4a7cf629de51a9a4de208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 04/29] fix: do not crash on inherited names that are not
 identifiers

---
 libnixf/src/Sema/SemaActions.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 589012d..187359a 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -337,9 +337,18 @@ std::pair<std::shared_ptr<Expr>, Attribute::AttributeKind>
 Sema::desugarInheritExpr(std::shared_ptr<AttrName> Name,
                          std::shared_ptr<Expr> E) {
   auto Range = Name->range();
-  if (!E)
-    return {std::make_shared<ExprVar>(Range, Name->id()),
+  // Dynamic names cannot be inherited, "lowerInheritName" rejects them.
+  if (!Name->isStatic())
+    return {nullptr, E ? Attribute::AttributeKind::InheritFrom
+                       : Attribute::AttributeKind::Inherit};
+  if (!E) {
+    // inherit "a"; refers to the variable `a`, too.
+    auto ID = Name->kind() == AttrName::ANK_ID
+                  ? Name->id()
+                  : std::make_shared<Identifier>(Range, Name->staticName());
+    return {std::make_shared<ExprVar>(Range, std::move(ID)),
             Attribute::AttributeKind::Inherit};
+  }
 
   auto Path = std::make_shared<AttrPath>(
       Range, std::vector<std::shared_ptr<AttrName>>{std::move(Name)},
-- 
2.43.0


From 937d264c6fde96e529e35859a89dbb2a886dcd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 05/29] fix: parse paths with adjacent or trailing
 interpolations

---
 libnixf/src/Parse/ParseStrings.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 1ee5ddf..255cd39 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -33,21 +33,21 @@ std::shared_ptr<Expr> Parser::parseExprPath() {
   LexerCursor End;
   /* with(PS_Path) */ {
     auto PathState = withState(PS_Path);
-    do {
+    while (true) {
       Token Current = peek();
-      Fragments.emplace_back(std::string(Current.view()));
-      consume();
-      End = Current.rCur();
-      Token Next = peek();
-      if (Next.kind() == tok_path_end)
-        break;
-      if (Next.kind() == tok_dollar_curly) {
+      if (Current.kind() == tok_path_fragment) {
+        Fragments.emplace_back(std::string(Current.view()));
+        consume();
+      } else if (Current.kind() == tok_dollar_curly) {
         if (auto Expr = parseInterpolation())
           Fragments.emplace_back(std::move(Expr));
-        continue;
+      } else {
+        assert(Current.kind() == tok_path_end && "should be path_end or ${");
+        break;
       }
-      assert(false && "should be path_end or ${");
-    } while (true);
+      assert(LastToken && "LastToken should be set after consume()");
+      End = LastToken->rCur();
+    }
   }
   auto Parts = std::make_shared<InterpolatedParts>(
       LexerCursorRange{Begin.lCur(), End}, std::move(Fragments));
-- 
2.43.0


From 7d359f3d20cdb0e1f44a6ebd83cd6b8a862b0b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 06/29] fix: give division the precedence and associativity of
 multiplication

---
 libnixf/src/Parse/ParseOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index 58a19b0..cab54d1 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -57,8 +57,8 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
   case tok_op_negate:
     return {14, 15};
   case tok_op_mul: // %left * /
-    return {16, 17};
   case tok_op_div:
+    return {16, 17};
   case tok_op_concat: // %right ++
     return {19, 18};
   // % op_negate
-- 
2.43.0


From c64f2282f5dd81c6bfd22e12a8b3bb23db682c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 07/29] fix: let logical negation bind tighter than attribute
 set update

---
 libnixf/src/Parse/ParseOp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index cab54d1..49c9bd6 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -69,8 +69,8 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
 
 unsigned getUnaryBP(TokenKind Kind) {
   switch (Kind) {
-  case tok_op_not:
-    return 11;
+  case tok_op_not: // %left NOT
+    return 13;
   case tok_op_negate:
     return 100;
   default:
-- 
2.43.0


From 3f198c57bcc4876fdd7c0ec098e613cdd5650a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 08/29] fix: let arithmetic negation bind tighter than the
 has-attribute operator

---
 libnixf/src/Parse/ParseOp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index 49c9bd6..a34e159 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -67,6 +67,9 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
   }
 }
 
+/// '?' binds tighter than any binary operator, but looser than NEGATE.
+constexpr unsigned HasAttrBP = 20;
+
 unsigned getUnaryBP(TokenKind Kind) {
   switch (Kind) {
   case tok_op_not: // %left NOT
@@ -140,6 +143,8 @@ std::shared_ptr<Expr> Parser::parseExprOpBP(unsigned LeftRBP) {
       }
     case tok_question: {
       // expr_op '?' attrpath
+      if (LeftRBP > HasAttrBP)
+        return Prefix;
       consume();
       assert(LastToken && "consume() should have set LastToken");
       auto O = std::make_shared<Op>(Tok.range(), Tok.kind());
-- 
2.43.0


From 46260217e72b4d5385d85e0b8b3762dd2120a54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 09/29] fix: unescape the escape sequences of indented strings

---
 libnixf/src/Parse/ParseStrings.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 255cd39..fa8c409 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -76,7 +76,15 @@ std::shared_ptr<InterpolatedParts> Parser::parseStringParts() {
       // The token view contains the full escape sequence (e.g., "\\n", "\\\"")
       std::string_view EscapeSeq = Tok.view();
       std::string Unescaped;
-      if (EscapeSeq.size() >= 2) {
+      if (EscapeSeq == "'''") {
+        Unescaped = "''";
+      } else if (EscapeSeq == "''$") {
+        Unescaped = "$";
+      } else if (EscapeSeq.starts_with("''")) {
+        // An indented string escapes by ''\, otherwise the same as \.
+        EscapeSeq.remove_prefix(2);
+      }
+      if (Unescaped.empty() && EscapeSeq.size() >= 2) {
         char Escaped = EscapeSeq[1];
         switch (Escaped) {
         case 'n':
-- 
2.43.0


From c8a40b0bcc244887c5cd7acb5366a4e5750d96b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 10/29] fix: return the read end of the child's standard error

---
 nixd/lib/Support/ForkPiped.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lib/Support/ForkPiped.cpp b/nixd/lib/Support/ForkPiped.cpp
index 60b704e..f0b6ab4 100644
--- a/nixd/lib/Support/ForkPiped.cpp
+++ b/nixd/lib/Support/ForkPiped.cpp
@@ -40,6 +40,6 @@ int nixd::forkPiped(int &In, int &Out, int &Err) {
 
   In = PipeIn[WRITE];
   Out = PipeOut[READ];
-  Err = PipeOut[READ];
+  Err = PipeErr[READ];
   return Child;
 }
-- 
2.43.0


From 665534b8f9c5e335427429f3d6cb3e5adaac6753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 11/29] fix: read float literals in double precision

---
 libnixf/src/Parse/ParseSimple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseSimple.cpp b/libnixf/src/Parse/ParseSimple.cpp
index c5ceebf..a7fbf57 100644
--- a/libnixf/src/Parse/ParseSimple.cpp
+++ b/libnixf/src/Parse/ParseSimple.cpp
@@ -147,7 +147,7 @@ std::shared_ptr<Expr> Parser::parseExprSimple() {
   case tok_float: {
     consume();
     // libc++ doesn't support std::from_chars for floating point numbers.
-    NixFloat N = std::strtof(std::string(Tok.view()).c_str(), nullptr);
+    NixFloat N = std::strtod(std::string(Tok.view()).c_str(), nullptr);
     return std::make_shared<ExprFloat>(Tok.range(), N);
   }
   case tok_spath: {
-- 
2.43.0


From 3ad2d930b3bb1eca451c1e30e4a0282fe548f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 12/29] fix: do not treat internal primops as known variables

---
 libnixf/src/Sema/PrimOpLookup.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/PrimOpLookup.cpp b/libnixf/src/Sema/PrimOpLookup.cpp
index 222c596..591cbbe 100644
--- a/libnixf/src/Sema/PrimOpLookup.cpp
+++ b/libnixf/src/Sema/PrimOpLookup.cpp
@@ -3,13 +3,19 @@
 using namespace nixf;
 
 PrimopLookupResult nixf::lookupGlobalPrimOpInfo(const std::string &Name) {
-  if (PrimOpsInfo.contains(Name)) {
+  // Internal primops are not exposed to the user.
+  auto IsExposed = [](const std::string &Name) {
+    auto It = PrimOpsInfo.find(Name);
+    return It != PrimOpsInfo.end() && !It->second.Internal;
+  };
+
+  if (IsExposed(Name)) {
     return PrimopLookupResult::Found;
   }
 
   // Prefix the name with "__", and check again.
   std::string PrefixedName = "__" + Name;
-  if (PrimOpsInfo.contains(PrefixedName)) {
+  if (IsExposed(PrefixedName)) {
     return PrimopLookupResult::PrefixedFound;
   }
 
-- 
2.43.0


From f330df84ff3fa81dcacab2f1b98fdba2d49d6e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 13/29] fix: pair dollar signs in strings, so that "$$${x}"
 interpolates

---
 libnixf/src/Parse/Lexer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 20c1e62..b2577bf 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -423,7 +423,9 @@ Token Lexer::lexString() {
         break;
       // double-$, or \$, escapes ${.
       // We will handle escaping on Sema
-      if (consumePrefix("$${"))
+      // '$' are paired from left to right, thus "$$${" is a literal "$$"
+      // followed by an interpolation.
+      if (consumePrefix("$$"))
         continue;
       // Encountered a string interpolation, stop here
       if (peekPrefix("${"))
@@ -465,7 +467,7 @@ Token Lexer::lexIndString() {
       break;
     // double-$, or \$, escapes ${.
     // We will handle escaping on Sema
-    if (consumePrefix("$${"))
+    if (consumePrefix("$$"))
       continue;
     // Encountered a string interpolation, stop here
     if (peekPrefix("${"))
-- 
2.43.0


From 3354a2da158228262c50b1cd8f8fd452d7c609ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 14/29] fix: an empty string is a literal, so "" is a static
 attribute name

---
 libnixf/src/Basic/Nodes.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/libnixf/src/Basic/Nodes.cpp b/libnixf/src/Basic/Nodes.cpp
index b316261..59dd3ff 100644
--- a/libnixf/src/Basic/Nodes.cpp
+++ b/libnixf/src/Basic/Nodes.cpp
@@ -6,9 +6,6 @@ namespace {
 
 std::vector<InterpolablePart>
 mergeFragments(std::vector<InterpolablePart> Fragments) {
-  if (Fragments.empty())
-    return Fragments;
-
   // Check if the fragment forms a string literal (i.e. no interpolation)
   for (const InterpolablePart &Frag : Fragments) {
     if (Frag.kind() == InterpolablePart::SPK_Interpolation)
-- 
2.43.0


From b4dbab59e75e54b4f330751e95e05710bda9936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 15/29] fix: analyse the source of "inherit (e) a b" once

---
 libnixf/src/Sema/VariableLookup.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 792d706..f23638f 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -509,7 +509,9 @@ void VariableLookupAnalysis::checkLetInheritBuiltins(const SemaAttrs &SA) {
 
 void VariableLookupAnalysis::dfs(const Node &Root,
                                  const std::shared_ptr<EnvNode> &Env) {
-  Envs.insert({&Root, Env});
+  // "inherit (e) a b;" shares "e" among the desugared values, visit it once.
+  if (!Envs.insert({&Root, Env}).second)
+    return;
   switch (Root.kind()) {
   case Node::NK_ExprVar: {
     const auto &Var = static_cast<const ExprVar &>(Root);
-- 
2.43.0


From aac0077eb373bffcd843aa795d9c3fdd5444c1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 16/29] fix: an attribute set may be applied, it can be a
 functor

---
 libnixf/include/nixf/Basic/Nodes/Basic.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libnixf/include/nixf/Basic/Nodes/Basic.h b/libnixf/include/nixf/Basic/Nodes/Basic.h
index 23988d4..ba60408 100644
--- a/libnixf/include/nixf/Basic/Nodes/Basic.h
+++ b/libnixf/include/nixf/Basic/Nodes/Basic.h
@@ -87,11 +87,10 @@ public:
     switch (Kind) {
     case Node::NK_ExprInt:
     case Node::NK_ExprFloat:
-    case Node::NK_ExprAttrs:
     case Node::NK_ExprString:
     case Node::NK_ExprPath:
       return false;
-    default:
+    default: // including attribute sets, they may have "__functor"
       return true;
     }
   }
-- 
2.43.0


From 48af7c090a0fd8fd9957029b7c1a8a1ad46f9e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:54 +0000
Subject: [PATCH 17/29] fix: carry when a draft version ending in 9 is
 incremented

---
 nixd/lspserver/src/DraftStore.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nixd/lspserver/src/DraftStore.cpp b/nixd/lspserver/src/DraftStore.cpp
index 0170971..d31df73 100644
--- a/nixd/lspserver/src/DraftStore.cpp
+++ b/nixd/lspserver/src/DraftStore.cpp
@@ -55,6 +55,7 @@ static void increment(std::string &S) {
       break;
     }
     *I = '0'; // and keep incrementing to the left.
+    ++I;
   }
 }
 
-- 
2.43.0


From 17f6b7db1f57600ea7bfe4980f03f34ea3d050d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 18/29] fix: leave the text unchanged when a content change is
 rejected

---
 nixd/lspserver/src/SourceCode.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/nixd/lspserver/src/SourceCode.cpp b/nixd/lspserver/src/SourceCode.cpp
index b7f7583..cc5619d 100644
--- a/nixd/lspserver/src/SourceCode.cpp
+++ b/nixd/lspserver/src/SourceCode.cpp
@@ -195,6 +195,9 @@ llvm::Error applyChange(std::string &Contents,
     return llvm::Error::success();
   }
 
+  // Drop a newline inferred below again if the change turns out to be invalid.
+  const size_t OriginalSize = Contents.size();
+
   const Position &Start = Change.range->start;
   llvm::Expected<size_t> StartIndex = positionToOffset(Contents, Start, false);
   inferFinalNewline(StartIndex, Contents, Start);
@@ -204,13 +207,17 @@ llvm::Error applyChange(std::string &Contents,
   const Position &End = Change.range->end;
   llvm::Expected<size_t> EndIndex = positionToOffset(Contents, End, false);
   inferFinalNewline(EndIndex, Contents, End);
-  if (!EndIndex)
+  if (!EndIndex) {
+    Contents.resize(OriginalSize);
     return EndIndex.takeError();
+  }
 
-  if (*EndIndex < *StartIndex)
+  if (*EndIndex < *StartIndex) {
+    Contents.resize(OriginalSize);
     return error(llvm::errc::invalid_argument,
                  "Range's end position ({0}) is before start position ({1})",
                  End, Start);
+  }
 
   // Since the range length between two LSP positions is dependent on the
   // contents of the buffer we compute the range length between the start and
@@ -222,11 +229,13 @@ llvm::Error applyChange(std::string &Contents,
   ssize_t ComputedRangeLength =
       lspLength(Contents.substr(*StartIndex, *EndIndex - *StartIndex));
 
-  if (Change.rangeLength && ComputedRangeLength != *Change.rangeLength)
+  if (Change.rangeLength && ComputedRangeLength != *Change.rangeLength) {
+    Contents.resize(OriginalSize);
     return error(llvm::errc::invalid_argument,
                  "Change's rangeLength ({0}) doesn't match the "
                  "computed range length ({1}).",
                  *Change.rangeLength, ComputedRangeLength);
+  }
 
   Contents.replace(*StartIndex, *EndIndex - *StartIndex, Change.text);
 
-- 
2.43.0


From 3ab8df00579937375a43dcf215e27cbbd78a0189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 19/29] fix: close the pipes when forkPiped fails

---
 nixd/lib/Support/ForkPiped.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/nixd/lib/Support/ForkPiped.cpp b/nixd/lib/Support/ForkPiped.cpp
index f0b6ab4..7e5b163 100644
--- a/nixd/lib/Support/ForkPiped.cpp
+++ b/nixd/lib/Support/ForkPiped.cpp
@@ -8,13 +8,19 @@
 int nixd::forkPiped(int &In, int &Out, int &Err) {
   static constexpr int READ = 0;
   static constexpr int WRITE = 1;
-  int PipeIn[2];
-  int PipeOut[2];
-  int PipeErr[2];
-  if (pipe(PipeIn) == -1 || pipe(PipeOut) == -1 || pipe(PipeErr) == -1)
-    throw std::system_error(errno, std::generic_category());
+  int PipeIn[2] = {-1, -1};
+  int PipeOut[2] = {-1, -1};
+  int PipeErr[2] = {-1, -1};
+  if (pipe(PipeIn) == -1 || pipe(PipeOut) == -1 || pipe(PipeErr) == -1) {
+    const int Errno = errno;
+    for (int FD : {PipeIn[READ], PipeIn[WRITE], PipeOut[READ], PipeOut[WRITE]})
+      if (FD != -1)
+        close(FD);
+    throw std::system_error(Errno, std::generic_category());
+  }
 
   pid_t Child = fork();
+  const int ForkErrno = errno;
 
   if (Child == 0) {
     // Redirect stdin, stdout, stderr.
@@ -35,8 +41,12 @@ int nixd::forkPiped(int &In, int &Out, int &Err) {
   close(PipeOut[WRITE]);
   close(PipeErr[WRITE]);
 
-  if (Child == -1)
-    throw std::system_error(errno, std::generic_category());
+  if (Child == -1) {
+    close(PipeIn[WRITE]);
+    close(PipeOut[READ]);
+    close(PipeErr[READ]);
+    throw std::system_error(ForkErrno, std::generic_category());
+  }
 
   In = PipeIn[WRITE];
   Out = PipeOut[READ];
-- 
2.43.0


From c358d7238b8901de1874156c31a315453ddbfb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 20/29] fix: keep drive-letter-like names and backslashes in
 file URIs on POSIX

---
 nixd/lspserver/src/URI.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nixd/lspserver/src/URI.cpp b/nixd/lspserver/src/URI.cpp
index 8fee314..0c4a440 100644
--- a/nixd/lspserver/src/URI.cpp
+++ b/nixd/lspserver/src/URI.cpp
@@ -40,16 +40,20 @@ public:
       return error("File scheme: expect body to be an absolute path starting "
                    "with '/': {0}",
                    Body);
+    // Drive letters and backslashes are ordinary characters on POSIX.
+    constexpr bool IsWindows =
+        llvm::sys::path::is_style_windows(llvm::sys::path::Style::native);
     llvm::SmallString<128> Path;
     if (!Authority.empty()) {
       // Windows UNC paths e.g. file://server/share => \\server\share
       ("//" + Authority).toVector(Path);
-    } else if (isWindowsPath(Body.substr(1))) {
+    } else if (IsWindows && isWindowsPath(Body.substr(1))) {
       // Windows paths e.g. file:///X:/path => X:\path
       Body.consume_front("/");
     }
     Path.append(Body);
-    llvm::sys::path::native(Path);
+    if (IsWindows)
+      llvm::sys::path::native(Path);
     return std::string(Path);
   }
 
-- 
2.43.0


From 1789f8032909b13744b4b6b5778156e6c2ce74f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 21/29] fix: escape quotes and dollars exactly when rewriting
 string literals

---
 .../Controller/CodeActions/RewriteString.cpp  | 43 +++++++++++++++----
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/RewriteString.cpp b/nixd/lib/Controller/CodeActions/RewriteString.cpp
index 5b199b0..f05c630 100644
--- a/nixd/lib/Controller/CodeActions/RewriteString.cpp
+++ b/nixd/lib/Controller/CodeActions/RewriteString.cpp
@@ -28,7 +28,10 @@ bool isIndentedString(llvm::StringRef Src,
 /// Escapes:
 /// - '' -> ''' (two single quotes become three)
 /// - ${ -> ''${ (prevent interpolation)
-std::string escapeForIndentedString(llvm::StringRef S) {
+/// - a single ' that would pair up with the quotes written after it -> ''\'
+/// - a $ that would escape the interpolation written after it -> ''$
+std::string escapeForIndentedString(llvm::StringRef S,
+                                    bool BeforeInterpolation) {
   std::string Result;
   Result.reserve(S.size() + S.size() / 8);
 
@@ -42,6 +45,18 @@ std::string escapeForIndentedString(llvm::StringRef S) {
       continue;
     }
 
+    // A single quote before the closing quotes, or before an escape
+    if (C == '\'' && (I + 1 == S.size() || S[I + 1] == '$')) {
+      Result += "''\\'";
+      continue;
+    }
+
+    // A $ right before an interpolation
+    if (C == '$' && I + 1 == S.size() && BeforeInterpolation) {
+      Result += "''$";
+      continue;
+    }
+
     // Check for ${ that needs escaping
     if (C == '$' && I + 1 < S.size() && S[I + 1] == '{') {
       Result += "''${";
@@ -58,45 +73,57 @@ std::string escapeForIndentedString(llvm::StringRef S) {
 /// \brief Build a double-quoted string from InterpolatedParts.
 ///
 /// Iterates through fragments, escaping text parts and preserving
-/// interpolations from source.
+/// interpolations from source. Adjacent text parts are escaped as a whole, so
+/// that "$" and "{" in two of them do not form an interpolation.
 std::string buildDoubleQuotedString(const nixf::InterpolatedParts &Parts,
                                     llvm::StringRef Src) {
   std::string Result = "\"";
+  std::string Text;
 
   for (const auto &Frag : Parts.fragments()) {
     if (Frag.kind() == nixf::InterpolablePart::SPK_Escaped) {
-      // Escape the unescaped content for double-quoted string
-      Result += escapeNixString(Frag.escaped());
+      Text += Frag.escaped();
     } else {
+      // Escape the unescaped content for double-quoted string
+      Result += escapeNixString(Text);
+      Text.clear();
+      // A $ right before an interpolation would escape it
+      if (Result.back() == '$')
+        Result.insert(Result.size() - 1, "\\");
       // SPK_Interpolation: preserve source text exactly
       const nixf::Interpolation &Interp = Frag.interpolation();
       Result += Interp.src(Src);
     }
   }
 
+  Result += escapeNixString(Text);
   Result += "\"";
   return Result;
 }
 
 /// \brief Build an indented string from InterpolatedParts.
 ///
-/// Iterates through fragments, escaping text parts and preserving
-/// interpolations from source.
+/// Iterates through fragments, escaping text parts (adjacent ones as a whole)
+/// and preserving interpolations from source.
 std::string buildIndentedString(const nixf::InterpolatedParts &Parts,
                                 llvm::StringRef Src) {
   std::string Result = "''";
+  std::string Text;
 
   for (const auto &Frag : Parts.fragments()) {
     if (Frag.kind() == nixf::InterpolablePart::SPK_Escaped) {
-      // Escape the unescaped content for indented string
-      Result += escapeForIndentedString(Frag.escaped());
+      Text += Frag.escaped();
     } else {
+      // Escape the unescaped content for indented string
+      Result += escapeForIndentedString(Text, /*BeforeInterpolation=*/true);
+      Text.clear();
       // SPK_Interpolation: preserve source text exactly
       const nixf::Interpolation &Interp = Frag.interpolation();
       Result += Interp.src(Src);
     }
   }
 
+  Result += escapeForIndentedString(Text, /*BeforeInterpolation=*/false);
   Result += "''";
   return Result;
 }
-- 
2.43.0


From 07de27d6387e9245c9e57916a81db75eebd1b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 22/29] fix: write JSON numbers as valid Nix expressions

---
 nixd/lib/Controller/CodeActions/JsonToNix.cpp | 36 ++++++++++++++++---
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/JsonToNix.cpp b/nixd/lib/Controller/CodeActions/JsonToNix.cpp
index 71ad4e3..fdfbca8 100644
--- a/nixd/lib/Controller/CodeActions/JsonToNix.cpp
+++ b/nixd/lib/Controller/CodeActions/JsonToNix.cpp
@@ -7,13 +7,39 @@
 #include <llvm/Support/JSON.h>
 #include <lspserver/SourceCode.h>
 
+#include <algorithm>
+#include <cmath>
 #include <iomanip>
+#include <limits>
 #include <sstream>
 
 namespace nixd {
 
 namespace {
 
+/// \brief Write an integer as a Nix expression.
+std::string integerToNix(int64_t I) {
+  // The magnitude of the least integer does not fit into an integer literal.
+  if (I == std::numeric_limits<int64_t>::min())
+    return "(" + std::to_string(I + 1) + " - 1)";
+  return std::to_string(I);
+}
+
+/// \brief Write a floating point number as a Nix expression.
+/// \return Nix expression string, or empty string if Nix has no such literal
+std::string doubleToNix(double D) {
+  if (!std::isfinite(D))
+    return "";
+  // Format floating point with enough precision
+  std::ostringstream SS;
+  SS << std::setprecision(17) << D;
+  std::string Out = SS.str();
+  // Nix requires a fraction, also in front of an exponent.
+  if (Out.find('.') == std::string::npos)
+    Out.insert(std::min(Out.find('e'), Out.size()), ".0");
+  return Out;
+}
+
 /// \brief Convert a JSON value to Nix expression syntax.
 /// \param V The JSON value to convert
 /// \param Indent Current indentation level (for pretty-printing)
@@ -33,12 +59,9 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
   } else if (auto B = V.getAsBoolean()) {
     Out = *B ? "true" : "false";
   } else if (auto I = V.getAsInteger()) {
-    Out = std::to_string(*I);
+    Out = integerToNix(*I);
   } else if (auto D = V.getAsNumber()) {
-    // Format floating point with enough precision
-    std::ostringstream SS;
-    SS << std::setprecision(17) << *D;
-    Out = SS.str();
+    Out = doubleToNix(*D);
   } else if (auto S = V.getAsString()) {
     Out = "\"" + escapeNixString(*S) + "\"";
   } else if (const auto *A = V.getAsArray()) {
@@ -57,6 +80,9 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
         std::string Elem = jsonToNix((*A)[I], Indent + 1, Depth + 1);
         if (Elem.empty())
           return ""; // Propagate error
+        // A negation is not allowed as a list element without parentheses.
+        if (Elem.front() == '-')
+          Elem = "(" + Elem + ")";
         Out += NextIndent + Elem;
         if (I + 1 < A->size())
           Out += "\n";
-- 
2.43.0


From cee43f7929808723f9a0491e777c741459b31d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 23/29] fix: read what was written before the other end hung up

---
 nixd/lspserver/src/Connection.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 9d6ffd2..22f356b 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -174,14 +174,18 @@ bool readLine(int fd, const std::atomic<bool> &Close,
     char Ch;
     // FIXME: inefficient
     int Poll = poll(FDs.data(), FDs.size(), 1000);
-    if (Poll < 0)
+    if (Poll < 0) {
+      if (errno == EINTR)
+        continue;
       return false;
+    }
     if (Close)
       return false;
 
-    // POLLHUB: hang up from the writer side
+    // POLLHUP: hang up from the writer side, what it wrote is still to be read
     // POLLNVAL: invalid request (fd not open)
-    if (FDs[0].revents & (POLLHUP | POLLNVAL)) {
+    if (!(FDs[0].revents & POLLIN) &&
+        FDs[0].revents & (POLLHUP | POLLERR | POLLNVAL)) {
       return false;
     }
 
-- 
2.43.0


From a069b8d289027a9685de7430525026facfd5910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 24/29] fix: survive read errors and absurd lengths when
 reading a message body

---
 nixd/lspserver/src/Connection.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 22f356b..8a14923 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -9,6 +9,8 @@
 #include <sys/poll.h>
 #include <sys/stat.h>
 
+#include <algorithm>
+#include <cerrno>
 #include <csignal>
 #include <cstdint>
 #include <cstdio>
@@ -232,16 +234,30 @@ InboundPort::readStandardMessage(std::string &Buffer) {
     // It's another header, ignore it.
   }
 
-  Buffer.resize(ContentLength);
-  for (size_t Pos = 0, Read; Pos < ContentLength; Pos += Read) {
-
-    Read = read(In, Buffer.data() + Pos, ContentLength - Pos);
+  // The length is only a claim of the other side, so let the buffer grow with
+  // the data that is actually there.
+  constexpr size_t MaxChunk = 64 * 1024;
+  Buffer.clear();
+  for (size_t Pos = 0; Pos < ContentLength;) {
+    const size_t Chunk = std::min<size_t>(ContentLength - Pos, MaxChunk);
+    Buffer.resize(Pos + Chunk);
+    const ssize_t Read = read(In, Buffer.data() + Pos, Chunk);
 
-    if (Read == 0) {
+    if (Read < 0 && errno == EINTR)
+      continue;
+    if (Read < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
+      // Non-blocking input, wait for the rest of the message.
+      pollfd FD{In, POLLIN, 0};
+      poll(&FD, 1, 1000);
+      continue;
+    }
+    if (Read <= 0) {
       elog("Input was aborted. Read only {0} bytes of expected {1}.", Pos,
            ContentLength);
       return llvm::make_error<ReadEOF>();
     }
+    Pos += Read;
+    Buffer.resize(Pos);
   }
   return llvm::json::parse(Buffer);
 }
-- 
2.43.0


From f2ce9c369884a35f3618770a39600dcc4ecc4c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 25/29] fix: report a malformed Content-Length instead of
 guessing

---
 nixd/lspserver/src/Connection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 8a14923..b799a47 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -224,7 +224,8 @@ InboundPort::readStandardMessage(std::string &Buffer) {
 
     // Content-Length is a mandatory header, and the only one we handle.
     if (LineRef.consume_front("Content-Length: ")) {
-      llvm::getAsUnsignedInteger(LineRef.trim(), 0, ContentLength);
+      if (llvm::getAsUnsignedInteger(LineRef.trim(), 10, ContentLength))
+        return error("malformed Content-Length header: {0}", LineRef);
       continue;
     }
     // An empty line indicates the end of headers.
-- 
2.43.0


From d1d9629b67630223297a196c0b59e0a4549ccd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 26/29] fix: answer unknown methods and keep serving after
 ill-formed messages

---
 nixd/lspserver/src/Connection.cpp | 27 ++++++++++++++++-----------
 nixd/lspserver/src/LSPServer.cpp  |  4 +++-
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index b799a47..1a80c58 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -131,7 +131,8 @@ bool InboundPort::dispatch(llvm::json::Value Message, MessageHandler &Handler) {
   if (!Object ||
       Object->getString("jsonrpc") != std::optional<llvm::StringRef>("2.0")) {
     elog("Not a JSON-RPC 2.0 message: {0:2}", Message);
-    return false;
+    // Ignore it, and keep serving.
+    return true;
   }
   // ID may be any JSON value. If absent, this is a notification.
   std::optional<llvm::json::Value> ID;
@@ -141,7 +142,7 @@ bool InboundPort::dispatch(llvm::json::Value Message, MessageHandler &Handler) {
   if (!Method) { // This is a response.
     if (!ID) {
       elog("No method and no response ID: {0:2}", Message);
-      return false;
+      return true;
     }
     if (auto *Err = Object->getObject("error"))
       // TODO: Logging & reply errors.
@@ -346,15 +347,19 @@ void InboundPort::loop(MessageHandler &Handler) {
         return;
     } else {
       // Handle error while reading message.
-      return [&]() {
-        auto Err = Message.takeError();
-        if (Err.isA<ReadEOF>())
-          return; // Stop reading.
-        else if (Err.isA<llvm::json::ParseError>())
-          elog("The received json cannot be parsed, reason: {0}", Err);
-        else
-          elog("Error reading message: {0}", llvm::toString(std::move(Err)));
-      }();
+      auto Err = Message.takeError();
+      if (Err.isA<ReadEOF>()) {
+        llvm::consumeError(std::move(Err));
+        return; // Stop reading.
+      }
+      if (Err.isA<llvm::json::ParseError>()) {
+        // The message was framed correctly, go on with the next one.
+        elog("The received json cannot be parsed, reason: {0}", Err);
+        llvm::consumeError(std::move(Err));
+        continue;
+      }
+      elog("Error reading message: {0}", llvm::toString(std::move(Err)));
+      return;
     }
   }
 }
diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index abb8177..ee3a57e 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -46,7 +46,9 @@ bool LSPServer::onCall(llvm::StringRef Method, llvm::json::Value Params,
                       }
                     });
   else
-    return false;
+    Out->reply(std::move(ID),
+               llvm::make_error<LSPError>("method not found: " + Method.str(),
+                                          ErrorCode::MethodNotFound));
   return true;
 }
 
-- 
2.43.0


From 1184bcc776226add583dc8d99b95a00433d7b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 27/29] fix: ignore replies whose id was never given out

---
 nixd/lspserver/src/LSPServer.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index ee3a57e..e9612a3 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -7,8 +7,8 @@
 #include <llvm/Support/Error.h>
 #include <llvm/Support/JSON.h>
 
+#include <climits>
 #include <mutex>
-#include <stdexcept>
 
 namespace lspserver {
 
@@ -57,21 +57,21 @@ bool LSPServer::onReply(llvm::json::Value ID,
   log("<-- reply({0})", ID);
   std::optional<Callback<llvm::json::Value>> CB;
 
-  if (auto OptI = ID.getAsInteger()) {
-    if (LLVM_UNLIKELY(*OptI > INT_MAX))
-      throw std::logic_error("jsonrpc: id is too large (> INT_MAX)");
+  // Only integers in the range of "int" are given out as an ID.
+  if (auto OptI = ID.getAsInteger();
+      OptI && *OptI >= INT_MIN && *OptI <= INT_MAX) {
     std::lock_guard<std::mutex> Guard(PendingCallsLock);
     auto I = static_cast<int>(*OptI);
     if (PendingCalls.contains(I)) {
       CB = std::move(PendingCalls[I]);
       PendingCalls.erase(I);
     }
-  } else {
-    throw std::logic_error("jsonrpc: not an integer message ID");
   }
   if (LLVM_UNLIKELY(!CB)) {
     elog("received a reply with ID {0}, but there was no such call", ID);
     // Ignore this error
+    if (!Result)
+      llvm::consumeError(Result.takeError());
     return true;
   }
   // Invoke the callback outside of the critical zone, because we just do not
-- 
2.43.0


From e848ac02185b4f6da35014b7e2b657fa12d3af58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 28/29] fix: do not truncate columns beyond 32 bits

---
 nixd/lspserver/src/SourceCode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nixd/lspserver/src/SourceCode.cpp b/nixd/lspserver/src/SourceCode.cpp
index cc5619d..4ac16e5 100644
--- a/nixd/lspserver/src/SourceCode.cpp
+++ b/nixd/lspserver/src/SourceCode.cpp
@@ -76,8 +76,8 @@ size_t lspLength(llvm::StringRef Code) {
 // the specified encoding.
 // Conceptually, this converts to the encoding, truncates to CodeUnits,
 // converts back to UTF-8, and returns the length in bytes.
-static size_t measureUnits(llvm::StringRef U8, int Units, OffsetEncoding Enc,
-                           bool &Valid) {
+static size_t measureUnits(llvm::StringRef U8, int64_t Units,
+                           OffsetEncoding Enc, bool &Valid) {
   Valid = Units >= 0;
   if (Units <= 0)
     return 0;
-- 
2.43.0


From 4d25ddb551cc4712948bc7b4200c20cb83ee8141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 29/29] fix: a network path without a directory still makes a
 valid URI

---
 nixd/lspserver/src/URI.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nixd/lspserver/src/URI.cpp b/nixd/lspserver/src/URI.cpp
index 0c4a440..2efb7b1 100644
--- a/nixd/lspserver/src/URI.cpp
+++ b/nixd/lspserver/src/URI.cpp
@@ -71,6 +71,8 @@ public:
       Body = "/";
     }
     Body += llvm::sys::path::convert_to_slash(AbsolutePath);
+    if (!Authority.empty() && Body.empty())
+      Body = "/";
     return URI("file", Authority, Body);
   }
 };
-- 
2.43.0

