// Stand-in for the absent third-party header deps/fast_double_parser (git submodule not checked out).
// Only entry point used by stochtree: parse_number(p, out) -> one-past-the-end or nullptr.
#pragma once
#include <cstdlib>
namespace fast_double_parser {
inline const char* parse_number(const char* p, double* out) {
  char* end = nullptr;
  *out = std::strtod(p, &end);
  return end == p ? nullptr : end;
}
}
