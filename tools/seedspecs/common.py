DEMO_NIXF = r'''#!/bin/bash
# Compiles demo.cpp with the tree's libnixf sources and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
G=_build/out/libnixf/src
I="-Ilibnixf/src -Ilibnixf/include -Ilibnixf/src/Parse -I$G -I."
SRC=$(ls libnixf/src/{Basic,Parse,Sema}/*.cpp | grep -v -e Gen.cpp -e JSONDiagnostic)
for s in $SRC $G/Diagnostic.cpp "$D/demo.cpp"; do
  ( g++ -std=gnu++20 -O0 -g -w -fsanitize=address,undefined -fno-sanitize-recover=all $I -c "$s" -o "$T/$(echo "$s" | tr / _).o" || touch "$T/failed" ) &
done
wait
[ -e "$T/failed" ] && exit 2
g++ -fsanitize=address,undefined "$T"/*.o -o "$T/demo" || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 100 "$T/demo"
'''
PRE = r'''#include "Lexer.h"
#include "nixf/Basic/Diagnostic.h"
#include "nixf/Basic/Nodes/Attrs.h"
#include "nixf/Basic/Nodes/Expr.h"
#include "nixf/Basic/Nodes/Lambda.h"
#include "nixf/Basic/Nodes/Op.h"
#include "nixf/Basic/Nodes/Simple.h"
#include "nixf/Parse/Parser.h"
#include "nixf/Sema/ParentMap.h"
#include "nixf/Sema/PrimOpInfo.h"
#include "nixf/Sema/VariableLookup.h"
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <vector>
using namespace nixf;
std::map<std::string, nixf::PrimOpInfo> nixf::PrimOpsInfo = {{"abort", {{"s"}, 1, "", false}}};
static void must(bool B, const char *What) {
  if (!B) {
    std::printf("FAILED: %s\n", What);
    std::exit(1);
  }
}
static int count(const std::vector<Diagnostic> &Ds, Diagnostic::DiagnosticKind K) {
  int N = 0;
  for (const auto &D : Ds)
    N += D.kind() == K;
  return N;
}
static void walk(const Node *N, const std::function<void(const Node *)> &F) {
  if (!N)
    return;
  F(N);
  for (const Node *C : N->children())
    walk(C, F);
}
'''
def demo(body):
    return {"demo.sh": DEMO_NIXF, "demo.cpp": PRE + body}
