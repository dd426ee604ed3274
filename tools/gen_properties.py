#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the texts)."""
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

LX=["libnixf/src/Parse/Lexer.cpp","libnixf/src/Parse/Lexer.h"]
PA=["libnixf/src/Parse/"+x for x in ["Parser.h","ParseExpr.cpp","ParseOp.cpp","ParseAttrs.cpp","ParseLambda.cpp","ParseSimple.cpp","ParseStrings.cpp","ParseSupport.cpp"]]
SE=["libnixf/src/Sema/SemaActions.cpp","libnixf/include/nixf/Sema/SemaActions.h"]
VL=["libnixf/src/Sema/VariableLookup.cpp","libnixf/include/nixf/Sema/VariableLookup.h"]

prop("P01","Lexing tiles the source",
 "For every byte string and in every lexing mode (expression, string, indented string, path), successive tokens appear in source order without overlapping, each token's text is exactly the slice of the source between its start and end, and everything skipped between two tokens is white space or comments only. Lexing never reads or moves outside the source, every token other than the end markers consumes at least one byte, and the end of the source is always reached.",
 ["inputs"],"every byte string, every start offset inside it, every sequence of lexing modes",
 "The lexer tests check a few dozen short literals; truncated escapes, unterminated comments and arbitrary bytes at arbitrary offsets are not sampled.",
 LX,[("trivia skipping, token start/finish, consume()","libnixf/src/Parse/Lexer.cpp")],
 ["Token::view/range of Lexer::lex, lexString, lexIndString, lexPath"],
 [("Cur","offset/line/column of the next byte","Lexer.h")])
prop("P02","Line and column of every cursor agree with its offset",
 "Every source position the parser reports (in tokens, syntax-tree nodes, diagnostics, notes and fixes) carries a zero-based line equal to the number of line feeds before its byte offset and a column equal to the number of bytes since the last line feed. This also holds after the lexer backtracks or the parser rewinds it.",
 ["inputs"],"every byte string and every cursor reported for it",
 "Tests check positions on one-line inputs and a couple of two-line ones; backtracking over line breaks (CRLF, comments, failed path/URI attempts) is not covered.",
 LX+PA,[("consume() bumps line/column","libnixf/src/Parse/Lexer.h"),("setCur/restore of a saved cursor","libnixf/src/Parse/Lexer.cpp")],
 ["LexerCursor of tokens, nodes, diagnostics"],[("Cur","Line, Column, Offset triple","Lexer.h")])
prop("P03","Expression tokens follow the lexical grammar with longest match",
 "At every position outside strings and paths the next token is the one the documented lexical grammar prescribes: path and home-path starts first, then URIs, integers and floats, keywords and identifiers, search paths, then the longest operator or punctuation; a byte that starts none of these becomes a one-byte unknown token. Floats with a missing exponent or with leading zeros are diagnosed.",
 ["inputs"],"every byte string and every offset",
 "Tests name one or two spellings per token; the interaction of path, URI, number, keyword and operator rules on arbitrary byte sequences cannot be enumerated.",
 LX+["libnixf/src/Parse/Tokens.inc"],[("lex() dispatch, consumePathStart, consumeURI, consumeSPath, lexNumbers, lexIdentifier, maybeKW","libnixf/src/Parse/Lexer.cpp")],
 ["Token::kind and Token::range of Lexer::lex"])
prop("P04","String, indented-string and path bodies split at the right bytes",
 "Inside a double-quoted string a backslash takes exactly one following byte with it, `${` starts an interpolation unless preceded by a `$` that escapes it, and an unescaped double quote ends the string; inside an indented string the escapes are the two quotes followed by `$`, by a quote, or by a backslash and any byte, and two bare quotes end it. A path continues over path characters and slashes until an interpolation or any other byte.",
 ["inputs"],"every byte string and every offset at which a string, indented string or path body is lexed",
 "Tests contain a handful of escapes; runs of `$`, quotes and backslashes, and bodies cut off by the end of the file, are unbounded.",
 LX,[("lexString, lexIndString, lexPath","libnixf/src/Parse/Lexer.cpp")],["tokens of the three modes"])
prop("P05","Parsing and analysing any input terminates without crashing",
 "For every byte string, parsing it, building the parent map and running variable analysis return normally: no assertion failure, abort, uncaught exception, out-of-bounds access, null dereference or endless loop, whatever syntax errors the text contains (nesting depth is bounded only by the thread's stack). Every parser loop consumes input or stops.",
 ["inputs"],"every byte string (ill-formed and truncated programs included)",
 "Editors send every intermediate state of a file; the tests contain some fifty malformed snippets.",
 LX+PA+SE+VL+["libnixf/src/Sema/ParentMap.cpp"],[("error recovery with expect/withSync, null checks on missing children","libnixf/src/Parse"),("lowering of incomplete trees","libnixf/src/Sema")],
 ["nixf::parse, VariableLookupAnalysis::runOnAST, ParentMapAnalysis::runOnAST"])
prop("P06","Syntax-tree ranges nest and tile inside the source",
 "Every node of the parsed tree has a range that lies in the source and starts no later than it ends; each child's range lies inside its parent's range, and siblings of a list, of an attribute set, of an attribute path and of a formals list appear in source order without overlapping. The keyword `let`, which a let shares with the attribute set it desugars to, belongs to the let. In a well-formed program each node spans exactly the text of its construct.",
 ["inputs"],"every byte string, every node of its tree",
 "Range tests look at a few fixed nodes; position-based features (hover, rename, selection) rely on nesting for every node of every, possibly broken, file.",
 PA+["libnixf/include/nixf/Basic/Nodes/Basic.h","libnixf/include/nixf/Basic/Nodes/Expr.h","libnixf/include/nixf/Basic/Nodes/Attrs.h","libnixf/include/nixf/Basic/Nodes/Lambda.h"],[("ranges assembled from first token/child to last consumed token","libnixf/src/Parse")],["Node::range of every node"])
prop("P07","Operator expressions parse with Nix's precedence and associativity",
 "Chains of unary and binary operators (arithmetic, list and string concatenation, update, comparison, equality, logic, implication, has-attribute) are grouped by the operator table of the Nix language: higher precedence binds tighter, left- and right-associative operators group accordingly. Chaining two non-associative operators of one level is diagnosed.",
 ["programs"],"every operator expression of any length",
 "Tests check pairs of a few operators; grouping must be right for every sequence of operators and operands.",
 ["libnixf/src/Parse/ParseOp.cpp"],[("binding-power table and the precedence-climbing loop","libnixf/src/Parse/ParseOp.cpp")],["shape of ExprBinOp/ExprUnaryOp/ExprOpHasAttr trees"])
prop("P08","Literals carry the value Nix gives them",
 "Integer literals that fit a signed 64-bit integer carry exactly that value and all others are diagnosed; float literals carry the nearest double; string and indented-string parts carry the unescaped bytes Nix defines for their escapes; paths, search paths and URIs carry their source text.",
 ["inputs"],"every literal token",
 "Tests check small numbers and one or two escapes.",
 ["libnixf/src/Parse/ParseSimple.cpp","libnixf/src/Parse/ParseStrings.cpp","libnixf/include/nixf/Basic/Nodes/Simple.h"],[("parseExprInt/Float, parseStringParts unescaping","libnixf/src/Parse")],["ExprInt::value, ExprFloat::value, InterpolatedParts"])
prop("P09","Well-formed programs parse without errors into their grammatical structure",
 "Every syntactically valid Nix expression (function calls, selection with default, lambdas with formals, let, with, assert, if, lists, attribute sets, inherit, strings with interpolation, paths) parses without error diagnostics into a tree that mirrors the grammar: the same constructs, children, names and order as written, independent of white space and comments. (A number, string or path literal in function position, which can never evaluate, is not read as a call.)",
 ["programs"],"every derivation of the expression grammar with arbitrary white space and comments",
 "Tests parse each construct in isolation; constructs nest in each other without bound.",
 PA,[("recursive-descent productions","libnixf/src/Parse")],["tree returned by nixf::parse, diagnostics"])
prop("P10","Attribute sets: every definition is kept once and duplicates are diagnosed",
 "After analysis an attribute set maps each statically known name to the definition written for it, nested paths such as a.b.c are merged into nested sets as Nix merges them, dynamic names are kept separately, and inherited names are marked inherited. Defining a name twice, or both as a value and as a non-mergeable set, is reported as a duplicate with a note at the earlier definition, and an attribute set free of duplicates gets no such report.",
 ["programs"],"every list of bindings and inherits",
 "Tests try two or three bindings; merging depends on the whole history of earlier bindings and on recursion into nested sets.",
 SE+["libnixf/include/nixf/Basic/Nodes/Attrs.h"],[("lowerBinds / insertAttr / addAttr with nested set lookup","libnixf/src/Sema/SemaActions.cpp")],["SemaAttrs of ExprAttrs and let, DK_DuplicatedAttrName"])
prop("P11","Lambda formals are checked and indexed exactly",
 "For every lambda, each formal name used twice, or equal to the lambda's own argument name, is diagnosed exactly where it repeats and nothing else is; the first formal of each name is the one later lookups use, an ellipsis that is not last and missing separators are diagnosed.",
 ["programs"],"every formals list",
 "Tests use lists of one to three formals.",
 SE+["libnixf/src/Parse/ParseLambda.cpp","libnixf/include/nixf/Basic/Nodes/Lambda.h"],[("onFormals/checkFormal*/dedupFormal/onLambdaArg","libnixf/src/Sema/SemaActions.cpp")],["Formals::dedup, diagnostics DK_DuplicatedFormal, DK_DuplicatedFormalToArg, DK_FormalExtraEllipsis"])
prop("P12","Variables resolve to the binder Nix scoping selects",
 "Every variable use resolves to the innermost enclosing lexical binder of that name (let, rec attribute set, lambda argument or formal); without one, to the builtin of that name if Nix has one in its global scope; only without either does an enclosing `with` provide it, and it is undefined only without that too. `inherit` names and non-recursive attribute sets resolve in the surrounding scope, and uses recorded on a definition are exactly the variables that resolve to it.",
 ["programs"],"every program and every variable use in it",
 "Tests cover single nestings; scoping is a property of arbitrary nestings of binders, with, rec and inherit.",
 VL,[("EnvNode chain, lookupVar, newScope lowering","libnixf/src/Sema/VariableLookup.cpp")],["VariableLookupAnalysis::query / env / toDef, Definition::uses"])
prop("P13","Undefined names and unused binders are diagnosed exactly",
 "A variable is reported undefined exactly when no enclosing binder, with or known builtin provides it; a let binding, formal, lambda argument or `with` is reported unused exactly when no variable resolves to it (for formals and arguments, according to how the lambda binds them), and each such report is made once, at the name it is about.",
 ["programs"],"every program",
 "Liveness depends on all uses in a whole program; tests have one use or none.",
 VL,[("emitUndefinedVariable / emitEnvLivenessWarning","libnixf/src/Sema/VariableLookup.cpp")],["diagnostics undefined variable / unused definition / extra with"])
prop("P14","Diagnostics are well formed and their edits apply",
 "Every diagnostic and note carries exactly as many arguments as its message has placeholders, so the rendered message contains every argument in order and no leftover placeholder; its range and those of its notes and fixes lie inside the source, and applying a fix's edits to the source is always possible: edits of one fix do not overlap.",
 ["inputs"],"every byte string, every diagnostic produced for it",
 "Each diagnostic is tested with one example; argument counts are not checked by the compiler.",
 LX+PA+SE+VL+["libnixf/src/Basic/Diagnostic.cpp","libnixf/include/nixf/Basic/Diagnostic.h","libnixf/src/Basic/JSONDiagnostic.cpp"],[("Diagnostic::format over args, TextEdit construction","libnixf/src/Basic/Diagnostic.cpp")],["nixf::Diagnostic::format/fixes/notes"])
prop("P15","LSP positions and byte offsets convert exactly",
 "For every UTF-8 text and every offset on a character boundary, converting the offset to an LSP (line, UTF-16 column) position and back yields the same offset; a position's line is the number of line feeds before it and its character the UTF-16 (or negotiated UTF-8/UTF-32) length of the line prefix. A column beyond the line's end yields the line end (or an error when that is disallowed), a position past the last line or with a negative coordinate is an error, and no conversion reads outside the text.",
 ["inputs"],"every text (valid UTF-8 or not) and every offset / position",
 "No test covers this; surrogate pairs, invalid UTF-8 and out-of-range positions come from editors.",
 ["nixd/lspserver/src/SourceCode.cpp","nixd/lspserver/include/lspserver/SourceCode.h"],[("iterateCodepoints, measureUnits, positionToOffset, offsetToPosition","nixd/lspserver/src/SourceCode.cpp")],["positionToOffset, offsetToPosition, lspLength"])
prop("P16","Incremental document edits give the text the editor has",
 "Applying a content change replaces exactly the addressed range by the given text, and a change without a range replaces the whole document; all other bytes keep their values and order. A change whose range is out of the document, reversed or inconsistent with the stated length is rejected with an error.",
 ["inputs","histories"],"every document and every sequence of changes",
 "Documents are edited thousands of times per session; one wrong splice corrupts all later features.",
 ["nixd/lspserver/src/SourceCode.cpp"],[("applyChange","nixd/lspserver/src/SourceCode.cpp")],["applyChange(Contents, Change)"])
prop("P17","File paths survive the trip through URIs",
 "Percent-encoding any byte string and decoding it again yields the same bytes, and the encoded text contains only URI-safe characters; every absolute path (of one leading slash) turned into a file URI and resolved back names the same path. Malformed percent sequences decode literally and never read past the text, and URIs without a valid scheme are rejected.",
 ["inputs"],"every byte string and every absolute path",
 "No test covers URIs; paths contain spaces, percent signs and non-ASCII bytes.",
 ["nixd/lspserver/src/URI.cpp","nixd/lspserver/include/lspserver/URI.h"],[("percentEncode/percentDecode, URI::parse/create/resolve","nixd/lspserver/src/URI.cpp")],["URI::create, URI::parse, URI::toString, URI::resolve"])
prop("P18","Text generated for Nix strings and names reads back as the original",
 "For every byte string, the escaped double-quoted form and the escaped indented form the server writes into an edit lex and unescape to exactly that byte string, with no interpolation introduced; an attribute name is left bare exactly when it is a valid identifier that is not a keyword and is otherwise quoted so that it reads back as itself.",
 ["inputs"],"every byte string",
 "No test covers quoting; `$`, quotes, backslashes, line breaks and keywords interact.",
 ["nixd/lib/Controller/CodeActions/Utils.cpp","nixd/lib/Controller/CodeActions/RewriteString.cpp"],[("escapeNixString, isValidNixIdentifier, quoteNixAttrKey, string rewriting","nixd/lib/Controller/CodeActions")],["strings written into text edits"])
prop("P19","JSON converts to the Nix expression of the same value",
 "The Nix text produced for any JSON value evaluates to that value: the same nesting, element order, keys, strings byte for byte and numbers, and it is a single well-formed Nix expression. Values nested too deep or too wide are declined rather than mangled.",
 ["inputs"],"every JSON value",
 "No test covers the conversion; numbers, escapes and nesting are unbounded.",
 ["nixd/lib/Controller/CodeActions/JsonToNix.cpp"],[("recursive jsonToNix","nixd/lib/Controller/CodeActions/JsonToNix.cpp")],["text edit of the JSON-to-Nix code action"])
prop("P20","Every JSON-RPC message is dispatched once and every call answered once",
 "Each incoming request or notification reaches the handler registered for its method and no other; each request is answered exactly once with its own id, a malformed or unknown request with an error, and the server keeps serving afterwards. Each outgoing call has an id no pending call shares, its callback runs exactly once, on the matching reply or with an error when it is given up, and replies with unknown ids are ignored.",
 ["histories","inputs"],"every sequence of incoming messages and outgoing calls (single-threaded use)",
 "No test drives the server loop; the guarantee spans arbitrary message histories.",
 ["nixd/lspserver/src/LSPServer.cpp","nixd/lspserver/include/lspserver/LSPServer.h","nixd/lspserver/src/Connection.cpp"],[("HandlerRegistry maps, PendingCalls with bindReply, dispatch","nixd/lspserver/src/LSPServer.cpp")],["handlers invoked, messages on the outbound port, callbacks"],
 [("PendingCalls","callbacks waiting for a reply","LSPServer.h"),("TopID","next outgoing id","LSPServer.h")])
prop("P21","LSP messages are framed by their declared length",
 "An outgoing message is written as a Content-Length header giving the exact byte length, a blank line, then the body. Reading recovers every message in a byte stream exactly, however the bytes are split across reads and whatever other headers precede the body, consumes no byte of the next message, and reports end of input or a malformed header without crashing or endless looping.",
 ["inputs","schedules"],"every sequence of messages and every way the stream is chunked",
 "No test reads from a pipe in pieces.",
 ["nixd/lspserver/src/Connection.cpp","nixd/lspserver/include/lspserver/Connection.h"],[("readStandardMessage, readLine, OutboundPort::sendMessage","nixd/lspserver/src/Connection.cpp")],["InboundPort, OutboundPort"])
prop("P22","Document versions only move forward and drafts keep their latest text",
 "The draft store returns for each open file exactly the text and version last stored; storing without a version gives a version that the store orders strictly after the previous one, whatever its form, and versions survive the round trip through their textual form. Removing a file forgets it and leaves all other files unchanged.",
 ["histories"],"every sequence of add, update, get and remove over any set of files",
 "No test covers the store.",
 ["nixd/lspserver/src/DraftStore.cpp","nixd/lspserver/include/lspserver/DraftStore.h"],[("addDraft/updateVersion/increment, encodeVersion/decodeVersion","nixd/lspserver/src/DraftStore.cpp")],["DraftStore::getDraft, addDraft, removeDraft"])
prop("P23","The parent map and position lookup agree with the tree",
 "For every node below the root the parent map returns the node that has it as a child, and only the root is its own parent; walking up always reaches the root. Looking up a source range returns the smallest node (following the tree downwards) whose range contains it, and nothing when the root does not contain it.",
 ["programs","inputs"],"every tree and every range",
 "Tests check one small tree.",
 ["libnixf/src/Sema/ParentMap.cpp","libnixf/include/nixf/Sema/ParentMap.h","libnixf/include/nixf/Basic/Nodes/Basic.h","libnixf/src/Basic/Nodes.cpp"],[("dfs recording parents, upExpr/upTo, Node::descend","libnixf/src/Sema/ParentMap.cpp")],["ParentMapAnalysis::query/upTo/upExpr/isRoot, Node::descend"])
prop("P24","Pipe descriptors are owned by exactly one holder and closed exactly once",
 "A descriptor wrapper closes its descriptor exactly once over its lifetime, also when moved, and never after it was released. Launching a piped child hands the parent three distinct descriptors connected to the child's standard input, output and error, and leaves no other end of those pipes open in the parent.",
 ["histories","fault_sequences"],"every sequence of constructions, moves, releases and destructions; every launch",
 "No test launches a process; double closes and leaks show only over time.",
 ["nixd/lib/Support/AutoCloseFD.cpp","nixd/lib/Support/ForkPiped.cpp","nixd/include/nixd/Support/AutoCloseFD.h"],[("AutoCloseFD move/release/destructor, forkPiped","nixd/lib/Support")],["open descriptors of the process"])
prop("P25","Diagnostics and ranges reach the editor with the right severity and place",
 "Errors and fatal diagnostics are published with LSP severity 1, warnings 2, informational 3 and hints 4; faded and struck-through tags map to unnecessary and deprecated, in order; ranges are converted from byte offsets to LSP positions of the same places in the same text.",
 ["inputs"],"every diagnostic kind, tag list and range",
 "No test links this code.",
 ["nixd/lib/Controller/Convert.cpp"],[("getLSPSeverity, toLSPTags, toLSPRange","nixd/lib/Controller/Convert.cpp")],["LSP Diagnostic objects"])
prop("P26","Concurrent requests see one consistent document state",
 "Every request handled while documents are being edited observes the parse result of one document version, never a mixture, and no data race occurs between the reader thread, the worker pool and the evaluator processes.",
 ["schedules"],"every interleaving of notifications, requests and worker completions",
 "Schedules are not controlled by any test.",
 ["nixd/lib/Controller/Support.cpp","nixd/lib/Controller/TextDocumentSync.cpp"],[("TUsLock, thread pool","nixd/lib/Controller/Support.cpp")])
prop("P27","Renaming keeps every reference bound to the same definition",
 "Renaming a variable changes its definition and exactly the uses that resolve to it, so that afterwards every use still resolves to the same definition; find-references and document highlight list exactly those places.",
 ["programs"],"every program, position and new name",
 "Tests need the Nix evaluator and do not run here.",
 ["nixd/lib/Controller/Rename.cpp","nixd/lib/Controller/FindReferences.cpp","nixd/lib/Controller/Definition.cpp"],[("rename edits from Definition uses","nixd/lib/Controller/Rename.cpp")])
prop("P28","Structural code actions preserve the program's meaning",
 "Flattening and packing attribute paths, converting to and from inherit, rewriting `with` to let, adding formals and extracting to a file produce edits that apply cleanly and yield a program with the same value.",
 ["programs"],"every program and selection",
 "No test compares the meaning of a program before and after.",
 ["nixd/lib/Controller/CodeActions"],[("the action builders","nixd/lib/Controller/CodeActions")])
prop("P29","Evaluator workers never take the server down",
 "A worker that crashes, hangs or answers late affects only the requests that depend on it; the controller stays responsive and its replies stay correlated with their requests.",
 ["fault_sequences","schedules"],"every failure of a worker process at every point",
 "Needs the Nix evaluator and fault injection.",
 ["nixd/lib/Eval","nixd/lib/Controller/LifeTime.cpp"],[("AttrSetClient over piped JSON-RPC","nixd/lib/Eval")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
