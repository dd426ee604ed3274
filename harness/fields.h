// Arguments of a request: a sequence of "LEN:bytes" fields.
#pragma once
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
inline std::vector<std::string> fields(const char *P, size_t N) {
  std::vector<std::string> R;
  const char *E = P + N;
  while (P < E) {
    char *Q;
    std::string Num(P, std::find(P, E, ':'));
    size_t L = strtoull(Num.c_str(), &Q, 10);
    P += Num.size() + 1;
    R.emplace_back(P, L);
    P += L;
  }
  return R;
}
