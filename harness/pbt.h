// Property-based testing engine used by every check.
//
// A generated case is a finite sequence of bounded choices (Src::draw). Random cases draw them from a PRNG seeded by
// (VERIF_SEED, property, probe, case index); a replay reads them from a file. Shrinking edits the recorded sequence
// (deletes chunks, zeroes, lowers values) and keeps an edit when the same failure tag is still reported, so everything
// that was generated shrinks, whatever its structure. Every attempt, replay and case shard runs in a forked child:
// crashes, sanitizer reports, aborts and hangs are failures like any other.
#pragma once

#include <cmath>
#include <cstdint>
#include <exception>
#include <functional>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Failure {
  std::string tag;
  std::string msg;
};

class Src {
 public:
  explicit Src(uint64_t seed) : state_(seed), replay_(false) {}
  explicit Src(std::vector<uint64_t> choices) : replay_(true), in_(std::move(choices)) {}

  // Uniform in [0, max]. 0 is the simplest value.
  uint64_t draw(uint64_t max);

  // Uniform in [lo, hi]; shrinks to lo.
  int64_t i(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo))); }
  // Uniform index in [0, n).
  size_t idx(size_t n) { return static_cast<size_t>(draw(n - 1)); }
  // True with probability num / den; shrinks to false.
  bool b(uint64_t num = 1, uint64_t den = 2) { return draw(den - 1) >= den - num; }
  // Real in [lo, hi]: either on a coarse lattice (ends included) or fine-grained. Shrinks to lo.
  double real(double lo, double hi) {
    if (b(1, 3)) return lo + (hi - lo) * (static_cast<double>(draw(16)) / 16.);
    return lo + (hi - lo) * (static_cast<double>(draw((1ull << 40))) / static_cast<double>(1ull << 40));
  }
  // Real in [-m, m] which shrinks to 0.
  double sym(double m) {
    const double v = real(0., m);
    return b() ? -v : v;
  }
  // Finely distributed real (no lattice), open behaviour at the ends.
  double fine(double lo, double hi) {
    return lo + (hi - lo) * (static_cast<double>(draw((1ull << 40))) + 0.5) / (static_cast<double>(1ull << 40) + 1.);
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[idx(v.size())];
  }
  // Index picked with the given weights.
  size_t weighted(std::initializer_list<int> weights) {
    int total = 0;
    for (int w : weights) total += w;
    int v = static_cast<int>(draw(total - 1));
    size_t k = 0;
    for (int w : weights) {
      if (v < w) return k;
      v -= w;
      ++k;
    }
    return 0;
  }
  template <typename T>
  void shuffle(std::vector<T>* v) {
    for (size_t k = v->size(); k > 1; --k) {
      const size_t j = k - 1 - idx(k);  // 0 keeps the order.
      std::swap((*v)[k - 1], (*v)[j]);
    }
  }
  const std::vector<uint64_t>& recorded() const { return rec_; }

 private:
  uint64_t next();
  uint64_t state_{};
  bool replay_;
  std::vector<uint64_t> in_;
  size_t pos_{0};
  std::vector<uint64_t> rec_;
};

// Per-case bookkeeping.
void nontrivial();                      // The current case is non-trivial by the property's rule.
void label(const std::string& l, uint64_t n = 1);  // Classifies generated material; totals go to the evidence.
void note(const std::string& s);        // Appends to the case's description (printed with samples and failures).
bool noting();                          // Whether notes of the current case are kept (cheap guard).
[[noreturn]] void fail(const std::string& tag, const std::string& msg);

struct Probe {
  std::string property;
  std::string name;
  uint64_t quick;
  uint64_t thorough;
  double timeout_s;
  void (*fn)(Src&);
};
std::vector<Probe>& probes();
struct Register {
  Register(const char* property, const char* name, uint64_t quick, uint64_t thorough, void (*fn)(Src&),
           double timeout_s = 60.) {
    probes().push_back({property, name, quick, thorough, timeout_s, fn});
  }
};
struct Rule {
  Rule(const char* property, const char* rule);
};

// The items with `between` between them.
inline std::string join(const std::vector<std::string>& v, const std::string& between = " ") {
  std::string r;
  for (size_t k = 0; k < v.size(); ++k) r += (k > 0 ? between : "") + v[k];
  return r;
}

std::string demangled_current_exception(std::string* what);

}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROBE(property, name, quick cases, thorough cases) { ... uses pbt::Src& src ... }
#define PROBE(prop, name, quick, thorough)                                                            \
  static void PBT_CAT(probe_##prop##_, name)(pbt::Src & src);                                         \
  static pbt::Register PBT_CAT(reg_##prop##_, name)(#prop, #name, quick, thorough,                    \
                                                    &PBT_CAT(probe_##prop##_, name));                 \
  static void PBT_CAT(probe_##prop##_, name)([[maybe_unused]] pbt::Src & src)
// The same, with the time in seconds after which a case counts as hanging.
#define PROBE_WITHIN(prop, name, quick, thorough, timeout)                                            \
  static void PBT_CAT(probe_##prop##_, name)(pbt::Src & src);                                         \
  static pbt::Register PBT_CAT(reg_##prop##_, name)(#prop, #name, quick, thorough,                    \
                                                    &PBT_CAT(probe_##prop##_, name), timeout);        \
  static void PBT_CAT(probe_##prop##_, name)([[maybe_unused]] pbt::Src & src)
#define PBT_RULE(prop, text) static pbt::Rule PBT_CAT(rule_, prop)(#prop, text)

// CHECK(condition, tag, streamed message)
#define CHECK(cond, tag, ...)                                    \
  do {                                                           \
    if (!(cond)) {                                               \
      std::ostringstream pbt_os;                                 \
      pbt_os.precision(17);                                      \
      pbt_os << "[" #cond "] " << __VA_ARGS__;                   \
      pbt::fail(tag, pbt_os.str());                              \
    }                                                            \
  } while (0)

#define NOTE(...)                            \
  do {                                       \
    if (pbt::noting()) {                     \
      std::ostringstream pbt_os;             \
      pbt_os.precision(17);                  \
      pbt_os << __VA_ARGS__;                 \
      pbt::note(pbt_os.str());               \
    }                                        \
  } while (0)

// The expression must throw an exception derived from std::exception.
#define MUST_THROW(tag, expr, ...)                                         \
  do {                                                                     \
    bool pbt_threw = false;                                                \
    try {                                                                  \
      (void)(expr);                                                        \
    } catch (const pbt::Failure&) {                                        \
      throw;                                                               \
    } catch (const std::exception&) {                                      \
      pbt_threw = true;                                                    \
    }                                                                      \
    CHECK(pbt_threw, tag, "expected an exception from " #expr ": " << __VA_ARGS__); \
  } while (0)

// The expression must not throw.
#define MUST_NOT_THROW(tag, expr, ...)                                             \
  do {                                                                             \
    try {                                                                          \
      (void)(expr);                                                                \
    } catch (const std::exception& pbt_e) {                                        \
      CHECK(false, tag, "unexpected exception from " #expr ": " << pbt_e.what() << "; " << __VA_ARGS__); \
    }                                                                              \
  } while (0)
