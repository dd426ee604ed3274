// Minimal JSON writer for the harnesses.
#pragma once
#include <cstdio>
#include <string>
#include <string_view>
struct J {
  std::string O;
  bool Need = false;
  void sep() { if (Need) O += ','; Need = false; }
  J &ob() { sep(); O += '{'; return *this; }
  J &oe() { O += '}'; Need = true; return *this; }
  J &ab() { sep(); O += '['; return *this; }
  J &ae() { O += ']'; Need = true; return *this; }
  J &k(std::string_view K) { s(K); O += ':'; Need = false; return *this; }
  J &n(long long V) { sep(); O += std::to_string(V); Need = true; return *this; }
  J &b(bool V) { sep(); O += V ? "true" : "false"; Need = true; return *this; }
  J &nul() { sep(); O += "null"; Need = true; return *this; }
  J &raw(std::string_view V) { sep(); O += V; Need = true; return *this; }
  // bytes are written as latin-1 code points
  J &s(std::string_view V) {
    sep();
    O += '"';
    char B[8];
    for (unsigned char C : V) {
      if (C == '"' || C == '\\') { O += '\\'; O += (char)C; }
      else if (C < 32 || C > 126) { snprintf(B, 8, "\\u%04x", C); O += B; }
      else O += (char)C;
    }
    O += '"';
    Need = true;
    return *this;
  }
};
