// P35: shared services: logger, hashes, result collector, number formatting.
#include <cmath>
#include <cstring>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include "maliput/common/assertion_error.h"
#include "maliput/common/compare.h"
#include "maliput/common/logger.h"
#include "maliput/common/maliput_hash.h"
#include "maliput/utility/string_format.h"
#include "pbt.h"

namespace {

using namespace maliput::common;

PBT_RULE(P35, "at least three operations, or a value with parts");

// ---------------------------------------------------------------------------------------------------------------------
// Logger
// ---------------------------------------------------------------------------------------------------------------------

struct Recorder : public SinkBase {
  explicit Recorder(std::vector<std::string>* to, int* alive) : to(to), alive(alive) { ++*alive; }
  ~Recorder() override { --*alive; }
  void log(const std::string& msg) override { to->push_back(msg); }
  void flush() override {}
  std::vector<std::string>* to;
  int* alive;
};

std::string random_text(pbt::Src& src) {
  std::string r;
  const int n = static_cast<int>(src.i(0, 6));
  for (int k = 0; k < n; ++k) r += std::string("ab %{}\\\n\t[")[src.idx(10)];
  return r;
}

struct Argument {
  int kind;
  std::string s;
  long i;
  double d;
  bool b;
};

std::ostream& operator<<(std::ostream& os, const Argument& a) {
  switch (a.kind) {
    case 0:
      return os << a.s;
    case 1:
      return os << a.i;
    case 2:
      return os << a.d;
    default:
      return os << a.b;
  }
}

std::string expected_text(const Argument& a) {
  char buf[64];
  switch (a.kind) {
    case 0:
      return a.s;
    case 1:
      return std::to_string(a.i);
    case 2:
      snprintf(buf, sizeof buf, "%g", a.d);
      return buf;
    default:
      return a.b ? "1" : "0";
  }
}

PROBE(P35, logger, 200000, 3000000) {
  using L = logger::level;
  const std::vector<std::string> names{"trace", "debug", "info", "warn", "error", "critical", "off", "unchanged"};
  const std::vector<std::string> prefix{"[TRACE] ", "[DEBUG] ", "[INFO] ", "[WARNING] ", "[ERROR] ", "[CRITICAL] "};
  const bool global = src.b(1, 3);
  Logger own;
  Logger* dut = global ? maliput::log() : &own;
  CHECK(maliput::log() == maliput::log(), "instance", "two loggers");
  CHECK(dut->get_sink() != nullptr, "sink", "no sink by default");
  int level = 2;  // info by default
  if (global) dut->set_level(L::info);
  std::vector<std::vector<std::string>> got, expected;
  std::vector<int> alive(20, 0);
  got.resize(20);
  expected.resize(20);
  int sink = 0;
  const auto set_sink = [&](int k) {
    auto r = std::make_unique<Recorder>(&got[static_cast<size_t>(k)], &alive[static_cast<size_t>(k)]);
    SinkBase* p = r.get();
    dut->set_sink(std::move(r));
    CHECK(dut->get_sink() == p, "sink", "get_sink() is another sink");
    for (int j = 0; j < k; ++j) CHECK(alive[static_cast<size_t>(j)] == 0, "sink-leak", "a replaced sink is kept");
  };
  set_sink(0);
  std::vector<std::string> ops;
  const int n = static_cast<int>(src.i(1, 12));
  for (int k = 0; k < n; ++k) {
    switch (src.weighted({6, 3, 1, 1})) {
      case 0: {
        const int lev = static_cast<int>(src.i(0, 5));
        std::vector<Argument> a;
        const int args = static_cast<int>(src.i(0, 4));
        std::string text;
        for (int j = 0; j < args; ++j) {
          a.push_back({static_cast<int>(src.i(0, 3)), random_text(src), src.i(-100000, 100000), src.sym(1e6), src.b()});
          text += expected_text(a.back());
        }
        const auto send = [&](auto&&... xs) {
          switch (lev) {
            case 0:
              return dut->trace(xs...);
            case 1:
              return dut->debug(xs...);
            case 2:
              return dut->info(xs...);
            case 3:
              return dut->warn(xs...);
            case 4:
              return dut->error(xs...);
            default:
              return dut->critical(xs...);
          }
        };
        switch (args) {
          case 0:
            send();
            break;
          case 1:
            send(a[0]);
            break;
          case 2:
            send(a[0], a[1]);
            break;
          case 3:
            send(a[0], a[1], a[2]);
            break;
          default:
            send(a[0], a[1], a[2], a[3]);
        }
        if (lev >= level) expected[static_cast<size_t>(sink)].push_back(prefix[static_cast<size_t>(lev)] + text + "\n");
        ops.push_back(names[static_cast<size_t>(lev)] + "/" + std::to_string(args));
        break;
      }
      case 1: {
        const int lev = static_cast<int>(src.i(0, 7));
        const std::string& name = names[static_cast<size_t>(lev)];
        const std::string before = names[static_cast<size_t>(level)];
        const std::string r = global && src.b() ? set_log_level(name) : dut->set_level(logger::kStringToLevel.at(name));
        ops.push_back("level=" + name);
        CHECK(r == before, "previous-level",
              "set_level returned " << r << " after " << before << ": " << pbt::join(ops));
        if (lev != 7) level = lev;
        break;
      }
      case 2:
        if (sink < 19) set_sink(++sink);
        ops.push_back("sink");
        break;
      case 3:
        MUST_THROW("null-sink", dut->set_sink(nullptr), "");
        MUST_THROW("bad-level", set_log_level("verbose" + random_text(src)), "");
        ops.push_back("bad");
        break;
    }
    CHECK(got == expected, "log", "the sinks got other messages: " << pbt::join(ops));
  }
  NOTE(pbt::join(ops));
  if (n >= 3) pbt::nontrivial();
  dut->set_level(L::info);
  dut->set_sink(std::make_unique<Sink>());
}

// ---------------------------------------------------------------------------------------------------------------------
// Hashes
// ---------------------------------------------------------------------------------------------------------------------

// The bytes a value must append, and their FNV-1a hash.
struct Bytes {
  std::string b;
  template <typename T>
  void raw(const T& v) {
    b.append(reinterpret_cast<const char*>(&v), sizeof v);
  }
  size_t fnv() const {
    uint64_t h = 0xcbf29ce484222325ull;
    for (unsigned char c : b) h = (h ^ c) * 0x100000001b3ull;
    return h;
  }
};

enum class Colour : int8_t { kRed, kGreen, kBlue };

struct Hashed {
  int i;
  std::string s;
  double d;
  std::optional<bool> o;
  std::map<std::string, std::pair<int, double>> m;
  std::set<uint16_t> t;
  Colour c;
  bool operator==(const Hashed& x) const {
    return i == x.i && s == x.s && d == x.d && o == x.o && m == x.m && t == x.t && c == x.c;
  }
  template <class HashAlgorithm>
  friend void hash_append(HashAlgorithm& hasher, const Hashed& v) noexcept {
    using maliput::common::hash_append;
    hash_append(hasher, v.i);
    hash_append(hasher, v.s);
    hash_append(hasher, v.d);
    hash_append(hasher, v.o);
    hash_append(hasher, v.m);
    hash_append(hasher, v.t);
    hash_append(hasher, v.c);
  }
};

Hashed random_hashed(pbt::Src& src) {
  Hashed h;
  h.i = static_cast<int>(src.i(-3, 3));
  const std::vector<std::string> words{"", "a", "aa", "b", std::string("\0", 1), "\xff"};
  h.s = src.pick(words);
  h.d = src.pick(std::vector<double>{0., -0., 1., -1., 1e300, 5e-324, std::numeric_limits<double>::infinity()});
  if (src.b()) h.o = src.b();
  const int n = static_cast<int>(src.i(0, 3));
  for (int k = 0; k < n; ++k) {
    h.m[src.pick(words)] = {static_cast<int>(src.i(0, 2)), src.pick(std::vector<double>{0., -0., 2.5})};
  }
  const int q = static_cast<int>(src.i(0, 3));
  for (int k = 0; k < q; ++k) h.t.insert(static_cast<uint16_t>(src.i(0, 3) * 255));
  h.c = static_cast<Colour>(src.i(0, 2));
  return h;
}

Bytes bytes_of(const Hashed& h) {
  Bytes b;
  const auto dbl = [&](double d) { b.raw(d == 0. ? 0. : d); };
  const auto str = [&](const std::string& s) {
    b.b += s;
    b.raw(s.size());
  };
  b.raw(h.i);
  str(h.s);
  dbl(h.d);
  if (h.o) b.raw(*h.o);
  b.raw(h.o.has_value());
  for (const auto& kv : h.m) {
    str(kv.first);
    b.raw(kv.second.first);
    dbl(kv.second.second);
  }
  b.raw(h.m.size());
  for (uint16_t v : h.t) b.raw(v);
  b.raw(h.t.size());
  b.raw(h.c);
  return b;
}

PROBE(P35, hashes, 300000, 6000000) {
  Hashed x = random_hashed(src);
  Hashed y = src.b() ? x : random_hashed(src);
  if (src.b(1, 4)) {
    // Equal values of other bits.
    if (y.d == 0.) y.d = -y.d;
    for (auto& kv : y.m) {
      if (kv.second.second == 0.) kv.second.second = -kv.second.second;
    }
  }
  const size_t hx = DefaultHash()(x), hy = DefaultHash()(y);
  CHECK(hx == bytes_of(x).fnv(), "hash-value", "the hash is not the FNV-1a hash of the parts and sizes of the value");
  CHECK(hy == bytes_of(y).fnv(), "hash-value", "the hash is not the FNV-1a hash of the parts and sizes of the value");
  if (x == y) CHECK(hx == hy, "hash-equal", "equal values have different hashes");
  if (bytes_of(x).b != bytes_of(y).b) CHECK(hx != hy, "hash-collision", "different small values collide");
  // Through a delegating hasher.
  internal::FNV1aHasher inner;
  DelegatingHasher d([&inner](const void* data, size_t n) { inner(data, n); });
  hash_append(d, x);
  CHECK(static_cast<size_t>(inner) == hx, "hash-delegated", "the delegated hash differs");
  internal::FNV1aHasher one;
  for (unsigned char c : bytes_of(x).b) one.add_byte(c);
  CHECK(static_cast<size_t>(one) == hx, "hash-bytes", "byte by byte hash differs");
  if (!x.m.empty()) pbt::nontrivial();
}

// ---------------------------------------------------------------------------------------------------------------------
// Collector and formatting
// ---------------------------------------------------------------------------------------------------------------------

PROBE(P35, collector, 50000, 500000) {
  ComparisonResultCollector c;
  const int n = static_cast<int>(src.i(0, 8));
  int failed = 0;
  std::vector<std::string> texts;
  CHECK(!c.result(), "collector", "a result without comparisons");
  for (int k = 0; k < n; ++k) {
    const bool bad = src.b();
    ComparisonResult<int> r;
    if (bad) {
      r.message = "difference" + std::to_string(k) + random_text(src);
      texts.push_back(*r.message);
      ++failed;
    }
    if (src.b()) {
      MALIPUT_ADD_RESULT(c, r);
    } else {
      c.AddResult("file.cc", k, "expr", r);
    }
    CHECK(c.count() == k + 1 && c.failed() == failed, "collector-count",
          c.count() << " results, " << c.failed() << " failed");
    CHECK(c.result().has_value() == (failed > 0), "collector-result", failed << " of " << k + 1 << " failed");
  }
  size_t at = 0;
  for (const auto& t : texts) {
    at = c.result()->find(t, at);
    CHECK(at != std::string::npos, "collector-message", "the message of a failure is lost");
  }
  if (n >= 3) pbt::nontrivial();
}

PROBE(P35, numbers_as_text, 300000, 4000000) {
  const int p = static_cast<int>(src.b(1, 6) ? src.i(13, 20) : src.i(0, 12));
  double v = 0.;
  switch (src.weighted({3, 2, 1, 1})) {
    case 0:
      v = src.sym(1000.);
      break;
    case 1:
      v = src.sym(1.) * std::pow(10., static_cast<double>(src.i(-8, 8)));
      break;
    case 2:
      v = static_cast<double>(src.i(-100000, 100000)) / 8.;
      break;
    case 3:
      v = -0.;
      break;
  }
  const std::string t = maliput::utility::to_str(v, p);
  NOTE(v << " with " << p << " digits: " << t);
  char* end = nullptr;
  const double back = std::strtod(t.c_str(), &end);
  CHECK(*end == '\0', "number", t << " for " << v);
  const auto dot = t.find('.');
  const size_t digits = dot == std::string::npos ? 0 : t.size() - dot - 1;
  CHECK(digits == static_cast<size_t>(p), "number-digits", t << " has not " << p << " digits after the point");
  CHECK(std::abs(back - v) <= 0.5 * std::pow(10., -p) * (1. + 1e-9) + 1e-15 * std::abs(v), "number-value",
        t << " for " << v << " with " << p << " digits");
  MUST_THROW("number-precision", maliput::utility::to_str(v, -1 - static_cast<int>(src.i(0, 3))), "");
  if (p > 0) pbt::nontrivial();
}

}  // namespace
