// Shared machinery of the concrete side: a tiny deterministic generator, a
// brute-force oracle over explicit tables, and the reporting of failing inputs.
#pragma once
#include <EasyFactorGraph/Error.h>
#include <EasyFactorGraph/categoric/Group.h>
#include <EasyFactorGraph/categoric/GroupRange.h>
#include <EasyFactorGraph/factor/Factor.h>
#include <EasyFactorGraph/factor/FactorExponential.h>
#include <EasyFactorGraph/factor/ImageFinder.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vh {
using Comb = std::vector<std::size_t>;
using EFG::categoric::Group;
using EFG::categoric::GroupRange;
using EFG::categoric::make_variable;
using EFG::categoric::VariablePtr;
using EFG::categoric::VariablesSet;
using EFG::categoric::VariablesSoup;
using EFG::factor::Factor;
using EFG::factor::FactorExponential;
using EFG::factor::Immutable;

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(seed * 2654435761u + 88172645463325252ull) {
    for (int k = 0; k < 4; ++k) next();
  }
  std::uint64_t next() {
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    return s * 2685821657736338717ull;
  }
  std::size_t below(std::size_t n) { return (next() >> 20) % n; }
  bool chance(int pct) { return below(100) < static_cast<std::size_t>(pct); }
  // strictly positive image, well separated from its siblings
  float img() { return 0.05f + static_cast<float>(below(10000)) / 2000.f; }
  float weight() { return -1.5f + static_cast<float>(below(3000)) / 1000.f; }
};

struct Fail { std::string what; };
std::string &desc();
template <typename... T> void note(const T &...t) {
  std::ostringstream s; (s << ... << t); desc() += s.str() + "\n";
}
template <typename... T> [[noreturn]] void fail(const T &...t) {
  std::ostringstream s; (s << ... << t); throw Fail{s.str()};
}
#define REQ(cond, ...) do { if (!(cond)) ::vh::fail(#cond, " is false: ", __VA_ARGS__); } while (0)

template <typename V> std::string str(const V &v) {
  std::ostringstream s; s << "{";
  bool first = true;
  for (const auto &e : v) { if (!first) s << ","; first = false; s << e; }
  s << "}";
  return s.str();
}

// the call must throw EFG::Error (or any std::exception) and nothing else
template <typename F> bool throws(F &&f) {
  try { f(); } catch (const std::exception &) { return true; }
  return false;
}

inline std::size_t prod(const Comb &sizes) {
  std::size_t r = 1; for (auto s : sizes) r *= s; return r;
}
// independent enumeration: rank -> combination, last position fastest
inline Comb unrank(const Comb &sizes, std::size_t r) {
  Comb c(sizes.size());
  for (std::size_t k = sizes.size(); k-- > 0;) { c[k] = r % sizes[k]; r /= sizes[k]; }
  return c;
}
inline Comb sizes_of(const VariablesSoup &v) {
  Comb s; for (const auto &x : v) s.push_back(x->size()); return s;
}
inline bool close(double a, double b, double tol = 2e-4) {
  return std::isfinite(a) && std::isfinite(b) &&
         std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b)));
}

using Table = std::map<Comb, float>;  // missing = 0
inline float at(const Table &t, const Comb &c) {
  auto it = t.find(c); return it == t.end() ? 0.f : it->second;
}
inline void same_table(const Immutable &f, const Table &t, const char *what) {
  Comb sz = sizes_of(f.function().vars().getVariables());
  std::size_t n = prod(sz);
  for (std::size_t r = 0; r < n; ++r) {
    Comb c = unrank(sz, r);
    REQ(f.function().findImage(c) == at(t, c), what, " at ", str(c), " reads ",
        f.function().findImage(c), " expected ", at(t, c));
  }
}

struct Ctx { std::uint64_t seed; bool thorough; };
struct Prop {
  const char *id;
  std::function<void(Rng &, std::uint64_t)> one;  // one generated case
  std::size_t quick, thorough;                    // number of cases
};
std::vector<Prop> &props();
struct Reg { Reg(Prop p) { props().push_back(std::move(p)); } };
} // namespace vh
