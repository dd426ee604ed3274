import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import demo
L = "libnixf/src/Parse/Lexer.cpp"
SEEDS = [
 dict(id="b01-column-utf8", prop="P02", edits=[("libnixf/src/Parse/Lexer.h", "      } else {\n        ++Cur.Column;\n      }", "      } else if ((Src[Cur.Offset + I] & 0xC0) != 0x80) {\n        ++Cur.Column;\n      }")],
  needs="a non-ASCII character (a byte 0x80..0xBF) before the position on its line", breaks="columns count code points instead of bytes",
  demo=demo(r'''int main() {
  std::vector<Diagnostic> D;
  std::string S = "/* \xC3\xA9 */ a";
  Lexer L(S, D);
  auto T = L.lex();
  must(T.lCur().offset() == 9 && T.lCur().column() == 9, "column equals bytes since the line feed");
}''')),
 dict(id="b02-skip-bom", prop="P01", edits=[(L, "    if (consumeWhitespaces() || consumeComments())\n      continue;", "    if (consumeWhitespaces() || consumeComments())\n      continue;\n    // Be lenient to byte order marks.\n    if (consumePrefix(\"\\xEF\\xBB\\xBF\"))\n      continue;")],
  needs="the three bytes EF BB BF between two tokens", breaks="bytes that are neither white space nor comments are skipped without a token",
  demo=demo(r'''int main() {
  std::vector<Diagnostic> D;
  std::string S = "a \xEF\xBB\xBF b";
  Lexer L(S, D);
  L.lex();
  auto T = L.lex();
  must(T.kind() == tok::tok_unknown && T.lCur().offset() == 2, "the mark is a token of its own");
}''')),
 dict(id="b03-uri-tick", prop="P03", edits=[(L, """         Ch == '~' || Ch == '*' || Ch == '\\'';""", """         Ch == '~' || Ch == '*';""")],
  needs="a URI that contains an apostrophe", breaks="the URI token ends before the apostrophe",
  demo=demo(r'''int main() {
  std::vector<Diagnostic> D;
  std::string S = "http://a/b'c";
  Lexer L(S, D);
  auto T = L.lex();
  must(T.kind() == tok::tok_uri && T.view() == S, "an apostrophe is a URI character");
}''')),
 dict(id="b04-path-dollar", prop="P04", edits=[(L, '''  if (peekPrefix("~/")) {
    Tok = tok_path_fragment;
    consume(2);''', '''  if (peekPrefix("~")) {
    Tok = tok_path_fragment;
    consume();''')],
  needs="a tilde not followed by a slash right after an interpolation in a path", breaks="the path swallows a byte that is neither a path character nor a slash",
  demo=demo(r'''int main() {
  std::vector<Diagnostic> D;
  std::string S = "a/${x}~b";
  auto E = parse(S, D);
  must(E && E->kind() == Node::NK_ExprPath && E->rCur().offset() == 6, "the path ends before the tilde");
}''')),
 dict(id="b05-dangling-diag", prop="P05", edits=[("libnixf/src/Parse/ParseExpr.cpp", """    Diagnostic &D = diagNullExpr(Diags, LastToken->rCur(), "default");
    D.fix""", """    Diagnostic &D = diagNullExpr(Diags, LastToken->rCur(), "default");
    // Drop a number that was meant as the default of something else.
    if (peek(1).kind() == tok_int)
      consume();
    D.fix""")],
  needs="`a.b or` followed by a token that starts no expression and then by a token whose lexing reports a problem, with the vector of diagnostics exactly full", breaks="a fix is added through a dangling reference (use after free)",
  demo=demo(r'''int main() {
  for (const char *S : {"a.b or = 00.1", "[ 00.1 a.b or = 00.1", "[ 00.1 00.2 00.3 a.b or = 00.1 ]", "[00.1 00.2 00.3 00.4 00.5 00.6 a.b or = 00.1"}) {
    std::vector<Diagnostic> D;
    auto E = parse(S, D);
    for (auto &X : D)
      for (auto &F : X.fixes())
        must(F.edits().size() <= 4, "fixes are intact");
  }
}''')),
 dict(id="b06-list-range", prop="P06", edits=[("libnixf/src/Parse/ParseSimple.cpp", """    if (!Expr)
      break;
    Exprs.emplace_back(std::move(Expr));
  }
  if (ExpectResult ER = expect(tok_r_bracket); ER.ok())
    consume();
  else
    ER.diag().note(Note::NK_ToMachThis, Tok.range())
        << std::string(tok::spelling(tok_l_bracket));
  return""", """    if (!Expr)
      break;
    Exprs.emplace_back(std::move(Expr));
  }
  LexerCursor End = LastToken->rCur();
  if (ExpectResult ER = expect(tok_r_bracket); ER.ok()) {
    consume();
    End = LastToken->rCur();
  } else {
    ER.diag().note(Note::NK_ToMachThis, Tok.range())
        << std::string(tok::spelling(tok_l_bracket));
    // The list stretches to what was skipped over.
    End = peek().rCur();
  }
  return"""), ("libnixf/src/Parse/ParseSimple.cpp", """std::make_shared<ExprList>(LexerCursorRange{Begin, LastToken->rCur()},""", """std::make_shared<ExprList>(LexerCursorRange{Begin, End},""")],
  needs="a list without its closing bracket followed by a token of an enclosing construct, for example ( [ a )", breaks="the list's range contains the following token, which is outside its parent or overlaps its sibling",
  demo=demo(r'''int main() {
  std::vector<Diagnostic> D;
  std::string S = "{ a = [ b; c = 1; }";
  auto E = parse(S, D);
  walk(E.get(), [&](const Node *N) {
    if (N->kind() == Node::NK_ExprList)
      must(N->rCur().offset() <= 9, "the list ends before the semicolon");
    for (const Node *C : N->children())
      must(!C || (C->lCur().offset() >= N->lCur().offset() && C->rCur().offset() <= N->rCur().offset()), "child range inside parent range");
  });
  D.clear();
  S = "(f [ a";
  E = parse(S, D);
  S = "{ x = f [ a";
  E = parse(S, D);
}''')),
 dict(id="b07-impl-left", prop="P07", edits=[("libnixf/src/Parse/ParseOp.cpp", "    return {4, 3};", "    return {3, 4};")],
  needs="a chain of two implications a -> b -> c", breaks="implication groups to the left",
  demo=demo(r'''int main() {
  std::vector<Diagnostic> D;
  std::string S = "a -> b -> c";
  auto E = parse(S, D);
  must(E && E->kind() == Node::NK_ExprBinOp, "binary");
  const auto &B = static_cast<const ExprBinOp &>(*E);
  must(B.lhs() && B.lhs()->kind() == Node::NK_ExprVar, "a -> (b -> c)");
}''')),
 dict(id="b08-nul-literal", prop="P08", edits=[("libnixf/src/Basic/Nodes.cpp", """    Escaped += Frag.escaped();
""", """    Escaped += Frag.escaped().c_str();
""")],
  needs="a string containing a NUL byte", breaks="the literal is cut at the NUL byte",
  demo=demo(r'''int main() {
  std::vector<Diagnostic> D;
  std::string S("\"a\0b\"", 5);
  auto E = parse(S, D);
  must(E && static_cast<const ExprString &>(*E).literal() == std::string("a\0b", 3), "the NUL byte is kept");
}''')),
 dict(id="b09-formals-at", prop="P09", edits=[("libnixf/src/Parse/ParseExpr.cpp", '''        case tok_colon: // { a } :
        case tok_at:    // { a } @
          return parseExprLambda();''', '''        case tok_colon: // { a } :
          return parseExprLambda();''')],
  needs="a lambda with exactly one plain formal and a trailing argument name: { a } @ b: a", breaks="a well-formed lambda is rejected",
  demo=demo(r'''int main() {
  std::vector<Diagnostic> D;
  std::string S = "{ a } @ b: a";
  auto E = parse(S, D);
  must(E && E->kind() == Node::NK_ExprLambda && D.empty(), "lambda");
}''')),
 dict(id="b10-merge-dynamic", prop="P10", edits=[("libnixf/src/Sema/SemaActions.cpp", """  for (const auto &DAttr : YAttrs.Dynamic) {
    XAttrs.Dynamic.emplace_back(DAttr);
  }
""", """  if (YAttrs.Static.empty())
    return;
  for (const auto &DAttr : YAttrs.Dynamic) {
    XAttrs.Dynamic.emplace_back(DAttr);
  }
""")],
  needs="a set merged into an earlier one of the same name that has only dynamic attributes", breaks="the second set's dynamic attributes are lost",
  demo=demo(r'''int main() {
  std::vector<Diagnostic> D;
  std::string S = "{ a = { ${x} = 1; }; a = { ${y} = 2; }; }";
  auto E = parse(S, D);
  const auto &A = static_cast<const ExprAttrs &>(*E).sema().staticAttrs().at("a");
  must(static_cast<const ExprAttrs &>(*A.value()).sema().dynamicAttrs().size() == 2, "both dynamic attributes");
}''')),
 dict(id="b11-dedup-last", prop="P11", edits=[("libnixf/src/Sema/SemaActions.cpp", '''      D.note(Note::NK_DuplicateFormal, DupID.range());
    } else {
      Dedup[ID.name()] = &F;
    }
''', '''      D.note(Note::NK_DuplicateFormal, DupID.range());
    }
    Dedup[ID.name()] = &F;
''')],
  needs="a duplicated formal", breaks="lookups use the last duplicate instead of the first formal",
  demo=demo(r'''int main() {
  std::vector<Diagnostic> D;
  std::string S = "{ a, b, a }: a";
  auto E = parse(S, D);
  const auto &F = *static_cast<const ExprLambda &>(*E).arg()->formals();
  must(F.dedup().at("a") == F.members()[0].get(), "first formal wins");
}''')),
 dict(id="b12-dynamic-env", prop="P12", edits=[("libnixf/src/Sema/VariableLookup.cpp", "    dfsDynamicAttrs(SA.dynamicAttrs(), NewEnv);", "    dfsDynamicAttrs(SA.dynamicAttrs(), Env);")],
  needs="a rec set with a dynamic attribute whose key or value uses a sibling", breaks="dynamic attributes of a rec set resolve outside of it",
  demo=demo(r'''int main() {
  std::vector<Diagnostic> D;
  std::string S = "rec { a = 1; ${\"x\" + \"y\"} = a; }";
  auto E = parse(S, D);
  VariableLookupAnalysis V(D);
  V.runOnAST(*E);
  must(count(D, Diagnostic::DK_UndefinedVariable) == 0, "a is defined");
}''')),
 dict(id="b13-with-outer", prop="P13", edits=[("libnixf/src/Sema/VariableLookup.cpp", '''      Def = WithDefs.at(WithEnv->syntax());
      Def->usedBy(Var);
''', '''      Def = WithDefs.at(WithEnv->syntax());
      if (WithEnv == WithEnvs.front() || WithEnv == WithEnvs.back())
        Def->usedBy(Var);
''')],
  needs="three nested with expressions around an otherwise unbound variable", breaks="the middle with is reported unused",
  demo=demo(r'''int main() {
  std::vector<Diagnostic> D;
  std::string S = "with {}; with {}; with {}; zzz";
  auto E = parse(S, D);
  VariableLookupAnalysis V(D);
  V.runOnAST(*E);
  must(count(D, Diagnostic::DK_ExtraWith) == 0, "every with may provide it");
}''')),
 dict(id="b14-note-arg", prop="P14", edits=[("libnixf/src/Sema/SemaActions.cpp", '''      << /* Marked as ?recursive */ (YAttrsRec ? "" : "non-")
      << /* Considered as ?recursive */ (XAttrsRec ? "" : "non-");''', '''      << /* Considered as ?recursive */ (XAttrsRec ? "" : "non-");''')],
  needs="merging a rec set with a non-rec set", breaks="a note has fewer arguments than its message has placeholders",
  demo=demo(r'''int main() {
  std::vector<Diagnostic> D;
  std::string S = "{ a = rec { x = 1; }; a = { y = 1; }; }";
  auto E = parse(S, D);
  for (auto &X : D)
    for (auto &N : X.notes()) {
      int P = 0;
      for (const char *M = N.message(); *M; ++M)
        P += M[0] == '{' && M[1] == '}';
      must(P == (int)N.args().size(), "as many arguments as placeholders");
    }
}''')),
 dict(id="b16-parent-paren", prop="P23", edits=[("libnixf/src/Sema/ParentMap.cpp", "    dfs(Ch, N);", "    dfs(Ch, N->kind() == Node::NK_ExprParen && N != Parent ? Parent : N);")],
  needs="a parenthesized expression below the root", breaks="children of a parenthesized expression have its parent as their parent",
  demo=demo(r'''int main() {
  std::vector<Diagnostic> D;
  std::string S = "[ (a b) ]";
  auto E = parse(S, D);
  ParentMapAnalysis P;
  P.runOnAST(*E);
  walk(E.get(), [&](const Node *N) {
    for (const Node *C : N->children())
      must(!C || P.query(*C) == N, "parent");
  });
}''')),
 dict(id="b17-descend-last", prop="P23", edits=[("libnixf/include/nixf/Basic/Nodes/Basic.h", """      if (Child->positionRange().contains(Range)) {
        return Child->descend(Range);
      }""", """      if (Child->positionRange().contains(Range)) {
        const Node *Inner = Child->descend(Range);
        // Prefer the attribute path over the punctuation inside of it.
        return Inner->kind() == NK_Dot ? this : Inner;
      }""")],
  needs="a lookup of the range of a dot inside an attribute path", breaks="the lookup does not return the smallest node",
  demo=demo(r'''int main() {
  std::vector<Diagnostic> D;
  std::string S = "{ a.b = 1; }";
  auto E = parse(S, D);
  const Node *N = E->descend({{0, 3}, {0, 4}});
  must(N && N->kind() == Node::NK_Dot, "the dot");
}''')),
]
