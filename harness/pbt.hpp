// Small property-based testing engine.
//
// Every random decision of a case is drawn through Case::below(n) and recorded as a
// sequence of integers (the "choice sequence").  A case is a pure function of that
// sequence, so replay means feeding the sequence back, shrinking means editing the
// sequence (0 is always the simplest choice), and coverage-guided fuzzing means letting
// libFuzzer write the sequence.  There is no other source of randomness.
#pragma once

#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{

struct Failure { std::string msg; };
struct Discard {};

class Case
{
public:
  // -- choices --------------------------------------------------------------
  std::uint64_t below(std::uint64_t n);                 // uniform in [0, n)
  std::int64_t range(std::int64_t lo, std::int64_t hi)  // uniform in [lo, hi]; simplest: lo
  {
    return lo + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(hi - lo) + 1));
  }
  bool coin() {return below(2) == 1;}
  bool chance(unsigned num, unsigned den) {return below(den) >= den - num;}  // simplest: false
  // A size in [lo, hi], biased to small values but reaching the whole interval.
  std::int64_t size(std::int64_t lo, std::int64_t hi)
  {
    const std::int64_t w = hi - lo;
    switch (below(4)) {
      case 0: return lo + static_cast<std::int64_t>(below(std::min<std::int64_t>(w, 3) + 1));
      case 1: return lo + static_cast<std::int64_t>(below(std::min<std::int64_t>(w, 10) + 1));
      case 2: return lo + static_cast<std::int64_t>(below(std::min<std::int64_t>(w, 40) + 1));
      default: return lo + static_cast<std::int64_t>(below(w + 1));
    }
  }
  // As size(lo, hi), but one case in `den` reaches `big` (code may take another path for long inputs).
  std::int64_t size(std::int64_t lo, std::int64_t hi, std::int64_t big, unsigned den = 40)
  {
    if (huge_hi_ > 0) {const auto n = range(std::max(lo, huge_lo_), std::max(lo, huge_hi_)); huge_hi_ = 0; return n;}
    return chance(1, den) ? (coin() ? range(lo, big) : range(lo, lo + std::max<std::int64_t>(1, (big - lo) / 8))) : size(lo, hi);
  }
  template<class T> T pick(std::initializer_list<T> l) {return *(l.begin() + below(l.size()));}
  template<class T> const T & pick(const std::vector<T> & l) {return l[below(l.size())];}

  // A real in [lo, hi]: grid of 2^20 steps.
  double real(double lo, double hi)
  {
    return lo + (hi - lo) * (static_cast<double>(below((1u << 20) + 1)) / (1u << 20));
  }
  // A real with |x| <= m; simple integers, dyadic fractions, tiny and full-range values.
  double num(double m)
  {
    double v = 0.;
    switch (below(5)) {
      case 0: v = static_cast<double>(below(5)); break;
      case 1: v = static_cast<double>(below(65)) / 8.; break;
      case 2: v = real(0., 1.); break;
      case 3: v = real(0., m); break;
      default: v = std::ldexp(real(0.5, 1.), -static_cast<int>(below(30))); break;
    }
    if (v > m) {v = std::fmod(v, m);}
    return coin() ? -v : v;
  }
  double pos(double lo, double hi)   // log-uniform in [lo, hi], lo > 0
  {
    return std::min(hi, std::max(lo, std::exp(real(std::log(lo), std::log(hi)))));
  }
  // standard-normal-like value (sum of uniforms); simplest 0
  double normal()
  {
    double s = 0;
    for (int i = 0; i < 4; i++) {s += real(0., 1.) - 0.5;}
    return s * 1.7320508;
  }
  template<class T> std::vector<std::size_t> permutation(const T & n_)
  {
    const std::size_t n = n_;
    std::vector<std::size_t> p(n);
    for (std::size_t i = 0; i < n; i++) {p[i] = i;}
    for (std::size_t i = n; i > 1; i--) {
      // simplest (0) keeps the element in place
      std::swap(p[i - 1], p[i - 1 - below(i)]);
    }
    return p;
  }

  // Decisions of bulk data (a scan of full size, say): one choice here seeds any number of decisions there. They are
  // replayed with this case but not shrunk one by one.
  Case bulk();

  // -- bookkeeping ----------------------------------------------------------
  void nontrivial(bool b = true) {nontrivial_ = nontrivial_ || b;}
  void label(const std::string & s) {labels_[s] = 1;}
  void label(const std::string & s, bool b) {if (b) {labels_[s] = 1;}}
  std::ostream & note() {return notes_;}

  // state
  std::vector<std::uint64_t> choices;     // consumed so far (values actually used)
  const std::vector<std::uint64_t> * replay = nullptr;
  const std::uint8_t * fuzz = nullptr;
  std::size_t fuzz_size = 0, fuzz_pos = 0;
  std::size_t pos_ = 0;
  std::uint64_t rng[4] = {};
  bool bulk_ = false;
  std::int64_t huge_lo_ = 0, huge_hi_ = 0;
  bool nontrivial_ = false;
  std::map<std::string, int> labels_;
  std::ostringstream notes_;
};

using Fn = std::function<void(Case &)>;
struct Prop { std::string name; std::uint64_t cases; Fn fn; };
std::vector<Prop> & registry();
struct Register
{
  Register(const char * name, std::uint64_t cases, Fn fn) {registry().push_back({name, cases, fn});}
};

template<class A>
std::string show(const A & a) {std::ostringstream s; s.precision(17); s << a; return s.str();}
template<class A>
std::string show(const std::vector<A> & a)
{
  std::ostringstream s; s.precision(17); s << "[";
  for (std::size_t i = 0; i < a.size(); i++) {
    if (i) {s << ", ";}
    if (i == 60) {s << "... (" << a.size() << ")"; break;}
    s << show(a[i]);
  }
  s << "]";
  return s.str();
}

inline bool nearly(double a, double b, double abs_tol, double rel_tol = 0.)
{
  if (a == b) {return true;}
  if (std::isnan(a) && std::isnan(b)) {return true;}
  if (!std::isfinite(a) || !std::isfinite(b)) {return false;}
  return std::fabs(a - b) <= abs_tol + rel_tol * std::max(std::fabs(a), std::fabs(b));
}

[[noreturn]] void fail(const char * file, int line, const std::string & msg);

}  // namespace pbt

#define PBT_CAT2(a, b) a ## b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROP(name, number of cases in the quick tier) { ... uses c ... }
#define PROP(name, cases) \
  static void name(pbt::Case & c); \
  static pbt::Register PBT_CAT(reg_, name)(#name, cases, name); \
  static void name(pbt::Case & c)

// The same property once more with bulk data: its first size(lo, hi, big) lies in [lo, hi].
#define HUGE_PROP(name, cases, lo, hi) \
  static pbt::Register PBT_CAT(huge_, name)(#name "_huge", cases, [](pbt::Case & c) { \
      pbt::Case b = c.bulk(); \
      b.huge_lo_ = lo; b.huge_hi_ = hi; \
      name(b); \
      c.note() << b.notes_.str(); \
      c.nontrivial(b.nontrivial_); \
    })

#define CHECK(cond, ...) \
  do {if (!(cond)) { \
      std::ostringstream pbt_os; pbt_os.precision(17); \
      pbt_os << "" __VA_ARGS__; \
      pbt::fail(__FILE__, __LINE__, std::string("CHECK(" #cond ") ") + pbt_os.str());}} while (0)
#define CHECK_EQ(a, b, ...) \
  do {const auto & pbt_a = (a); const auto & pbt_b = (b); if (!(pbt_a == pbt_b)) { \
      std::ostringstream pbt_os; pbt_os.precision(17); pbt_os << "" __VA_ARGS__; \
      pbt::fail(__FILE__, __LINE__, std::string(#a " == " #b ": ") + pbt::show(pbt_a) + " vs " + \
      pbt::show(pbt_b) + " " + pbt_os.str());}} while (0)
#define CHECK_NEAR(a, b, abs_tol, rel_tol, ...) \
  do {const double pbt_a = (a); const double pbt_b = (b); \
    if (!pbt::nearly(pbt_a, pbt_b, (abs_tol), (rel_tol))) { \
      std::ostringstream pbt_os; pbt_os.precision(17); pbt_os << "" __VA_ARGS__; \
      pbt::fail(__FILE__, __LINE__, std::string(#a " ~ " #b ": ") + pbt::show(pbt_a) + " vs " + \
      pbt::show(pbt_b) + " " + pbt_os.str());}} while (0)
// Expects an exception (of any standard type) from the statement.
#define CHECK_THROWS(stmt, ...) \
  do {bool pbt_thrown = false; try {stmt;} catch (const std::exception &) {pbt_thrown = true;} \
    CHECK(pbt_thrown, << "expected an exception from " #stmt " " __VA_ARGS__);} while (0)
#define CHECK_NO_THROW(stmt, ...) \
  do {try {stmt;} catch (const std::exception & pbt_e) { \
      std::ostringstream pbt_os; pbt_os.precision(17); pbt_os << "" __VA_ARGS__; \
      pbt::fail(__FILE__, __LINE__, \
      std::string("unexpected exception from " #stmt ": ") + pbt_e.what() + pbt_os.str());}} while (0)
