// Small property-based testing engine: every random choice of a case is drawn from
// one recorded sequence of integers, so a case is replayed from its choices, shrunk by
// editing them, and can equally be decoded from fuzzer bytes.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };
struct Discard { std::string why; };

class Case {
public:
  explicit Case(uint64_t seed) : m_state(seed), m_replay(nullptr) {}
  explicit Case(std::vector<uint64_t> const *replay) : m_state(0), m_replay(replay) {}

  // a choice in [0, bound); 0 is the simplest
  uint64_t u(uint64_t bound) {
    uint64_t v;
    if (bound == 0) bound = 1;
    if (m_replay) v = m_pos < m_replay->size() ? (*m_replay)[m_pos] % bound : 0;
    else v = next() % bound;
    ++m_pos;
    rec.push_back(v);
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(u(uint64_t(hi - lo) + 1)); }
  // true with probability num/den; false is the simpler choice
  bool flag(uint64_t num = 1, uint64_t den = 2) { return u(den) >= den - num; }
  // sizes: mostly small, sometimes up to hi
  int64_t size(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    switch (u(4)) {
      case 0: return range(lo, std::min(hi, lo + 3));
      case 1: case 2: return range(lo, std::min(hi, lo + (hi - lo) / 6 + 3));
      default: return range(lo, hi);
    }
  }
  // a real in [lo, hi], on a coarse grid one time in five
  double real(double lo, double hi) {
    if (u(5) == 0) return lo + (hi - lo) * double(u(17)) / 16.0;
    return lo + (hi - lo) * double(u(1ULL << 40)) / double(1ULL << 40);
  }
  // symmetric real in [-m, m]; 0 is the simplest, exact zeros are frequent
  double sreal(double m) {
    uint64_t k = u(8);
    if (k == 0) return 0.0;
    double v = (k == 1) ? m * double(u(9)) / 8.0 : m * double(u(1ULL << 40)) / double(1ULL << 40);
    return flag() ? -v : v;
  }
  double logreal(double lo, double hi) {
    return lo * std::exp(std::log(hi / lo) * double(u(1ULL << 40)) / double(1ULL << 40));
  }
  template <class T> T const &pick(std::vector<T> const &v) { return v[u(v.size())]; }

  [[noreturn]] void fail(std::string const &m) { throw Failure{m}; }
  [[noreturn]] void discard(std::string const &m = "") { throw Discard{m}; }
  void label(std::string const &l) { labels.insert(l); }
  void label(std::string const &l, bool on) { if (on) labels.insert(l); }
  // marks the case as non-trivial (see the rule of the property)
  void hit() { nontrivial = true; }
  template <class T> void note(char const *k, T const &v) {
    if (verbose) { log << k << " = " << v << "\n"; }
  }

  std::vector<uint64_t> rec;
  std::set<std::string> labels;
  bool                  nontrivial = false;
  bool                  verbose    = false;
  std::ostringstream    log;
  uint64_t              draws() const { return m_pos; }

private:
  uint64_t next() { // splitmix64
    uint64_t z = (m_state += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t                     m_state;
  std::vector<uint64_t> const *m_replay;
  size_t                       m_pos = 0;
};

typedef void (*CaseFn)(Case &);
struct Test {
  std::string id, name, rule;
  CaseFn      fn;
  uint64_t    quick, thorough;
};
std::vector<Test> &tests();
struct Reg {
  Reg(char const *id, char const *name, CaseFn fn, uint64_t q, uint64_t t, char const *rule) {
    tests().push_back(Test{id, name, rule, fn, q, t});
  }
};

// A recorded genuine defect: fn returns a description while it still fails, "" otherwise.
typedef std::string (*KnownFn)();
struct Known { std::string id, key; KnownFn fn; };
std::vector<Known> &knowns();
struct RegKnown {
  RegKnown(char const *id, char const *key, KnownFn fn) { knowns().push_back(Known{id, key, fn}); }
};

} // namespace pbt

#define PBT(ID, NAME, QUICK, THOROUGH, RULE)                                          \
  static void pbt_##ID##_##NAME(pbt::Case &c);                                        \
  static pbt::Reg pbt_reg_##ID##_##NAME(#ID, #NAME, pbt_##ID##_##NAME, QUICK, THOROUGH, RULE); \
  static void pbt_##ID##_##NAME(pbt::Case &c)

#define PBT_KNOWN(ID, KEY)                                                            \
  static std::string pbt_known_##ID##_##KEY();                                        \
  static pbt::RegKnown pbt_regk_##ID##_##KEY(#ID, #KEY, pbt_known_##ID##_##KEY);      \
  static std::string pbt_known_##ID##_##KEY()

#define CHECK(COND, MSG)                                                              \
  do {                                                                                \
    if (!(COND)) {                                                                    \
      std::ostringstream os_;                                                         \
      os_.precision(17);                                                              \
      os_ << MSG;                                                                     \
      throw pbt::Failure{os_.str()};                                                  \
    }                                                                                 \
  } while (0)
