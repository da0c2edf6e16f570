// P39 type-erased values, owning pointers, indices, identifiers, hashes, densities and names of types.
#include <atomic>
#include <cmath>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <typeinfo>
#include <unordered_set>
#include <utility>
#include <vector>

#include <Eigen/Core>

#include "maliput/drake/common/copyable_unique_ptr.h"
#include "maliput/drake/common/hash.h"
#include "maliput/drake/common/identifier.h"
#include "maliput/drake/common/nice_type_name.h"
#include "maliput/drake/common/pointer_cast.h"
#include "maliput/drake/common/random.h"
#include "maliput/drake/common/reset_on_copy.h"
#include "maliput/drake/common/type_safe_index.h"
#include "maliput/drake/common/value.h"
#include "pbt.h"

namespace md = maliput::drake;

PBT_RULE(
    P39,
    "Histories over pools of type-erased values of ten types, of copyable and reset-on-copy pointers with counted "
    "owners, of indices near zero and the largest integer; identifiers made by up to six threads; pairs of values to "
    "hash; densities of vectors; names of types in the spelling of several compilers. Non-trivial: a type mismatch "
    "after a copy (values), a copy and a move of a non-empty pointer, an operation at either end of the range "
    "(indices), "
    "two threads or more, a pair of equal values built differently or of different values (hashes), a density which is "
    "not zero, a "
    "name with template arguments.");

// Not in an unnamed namespace, for the sake of their names.
namespace pbt_types {

std::atomic<int> g_alive{0};

struct Plain {
  explicit Plain(long v = 0) : value(v) { ++g_alive; }
  Plain(const Plain& o) : value(o.value) { ++g_alive; }
  Plain& operator=(const Plain&) = default;
  ~Plain() { --g_alive; }
  long value;
};

// Copyable by Clone() only.
class Shape {
 public:
  explicit Shape(long v = 0) : value(v) { ++g_alive; }
  Shape(const Shape&) = delete;
  Shape& operator=(const Shape&) = delete;
  virtual ~Shape() { --g_alive; }
  std::unique_ptr<Shape> Clone() const { return DoClone(); }
  virtual int kind() const { return 0; }
  long value;

 protected:
  virtual std::unique_ptr<Shape> DoClone() const { return std::make_unique<Shape>(value); }
};

class Circle : public Shape {
 public:
  using Shape::Shape;
  int kind() const override { return 1; }

 protected:
  std::unique_ptr<Shape> DoClone() const override { return std::make_unique<Circle>(value); }
};

class Padding {
 public:
  virtual ~Padding() = default;
  long filler{77};
};

// The base is not at the start of the object.
class Square : public Padding, public Shape {
 public:
  explicit Square(long v = 0) : Shape(v) {}
  int kind() const override { return 2; }

 protected:
  std::unique_ptr<Shape> DoClone() const override { return std::make_unique<Square>(value); }
};

class Dot : public Circle {
 public:
  using Circle::Circle;
  int kind() const override { return 3; }

 protected:
  std::unique_ptr<Shape> DoClone() const override { return std::make_unique<Dot>(value); }
};

template <typename T>
struct Box {
  T content{};
};

template <typename T, int N>
struct Sized {
  T content[N]{};
};

enum class Color : int { kRed = 0, kBlue = 7 };

}  // namespace pbt_types

namespace {

using pbt_types::Box;
using pbt_types::Circle;
using pbt_types::Color;
using pbt_types::Dot;
using pbt_types::g_alive;
using pbt_types::Plain;
using pbt_types::Shape;
using pbt_types::Sized;
using pbt_types::Square;

template <typename... Ts>
std::string Cat(const Ts&... ts) {
  std::ostringstream os;
  (os << ... << ts);
  return os.str();
}

std::unique_ptr<Shape> MakeShape(int kind, long v) {
  switch (kind) {
    case 0:
      return std::make_unique<Shape>(v);
    case 1:
      return std::make_unique<Circle>(v);
    case 2:
      return std::make_unique<Square>(v);
    default:
      return std::make_unique<Dot>(v);
  }
}

// -- Type-erased values.

template <typename T>
struct Tag {
  using type = T;
};

constexpr int kTypes = 10;

template <typename F>
void WithType(int type, F f) {
  switch (type) {
    case 0:
      return f(Tag<int>{});
    case 1:
      return f(Tag<double>{});
    case 2:
      return f(Tag<std::string>{});
    case 3:
      return f(Tag<std::vector<double>>{});
    case 4:
      return f(Tag<Shape>{});
    case 5:
      return f(Tag<std::pair<int, double>>{});
    case 6:
      return f(Tag<Eigen::Vector3d>{});
    case 7:
      return f(Tag<Box<int>>{});
    case 8:
      return f(Tag<Box<double>>{});
    default:
      return f(Tag<Plain>{});
  }
}

// Objects which carry a number.
template <typename T>
struct Codec;
template <>
struct Codec<int> {
  static int Make(long v, int) { return static_cast<int>(v); }
  static long Read(const int& t) { return t; }
};
template <>
struct Codec<double> {
  static double Make(long v, int) { return static_cast<double>(v); }
  static long Read(const double& t) { return std::lround(t); }
};
template <>
struct Codec<std::string> {
  static std::string Make(long v, int) { return v == 0 ? std::string() : std::to_string(v); }
  static long Read(const std::string& t) { return t.empty() ? 0 : std::stol(t); }
};
template <>
struct Codec<std::vector<double>> {
  static std::vector<double> Make(long v, int) {
    return v == 0 ? std::vector<double>{} : std::vector<double>(static_cast<size_t>(std::labs(v) % 5 + 1), v);
  }
  static long Read(const std::vector<double>& t) {
    return t.empty() || t.size() != static_cast<size_t>(std::labs(std::lround(t[0])) % 5 + 1) ? 0
                                                                                              : std::lround(t.back());
  }
};
template <>
struct Codec<std::pair<int, double>> {
  static std::pair<int, double> Make(long v, int) { return {static_cast<int>(v), 2. * v}; }
  static long Read(const std::pair<int, double>& t) { return std::lround(t.second) - t.first; }
};
template <>
struct Codec<Eigen::Vector3d> {
  static Eigen::Vector3d Make(long v, int) { return Eigen::Vector3d(v, 2. * v, -3. * v); }
  static long Read(const Eigen::Vector3d& t) {
    return t(1) == 2. * t(0) && t(2) == -3. * t(0) ? std::lround(t(0)) : -1;
  }
};
template <typename T>
struct Codec<Box<T>> {
  static Box<T> Make(long v, int) { return Box<T>{static_cast<T>(v)}; }
  static long Read(const Box<T>& t) { return static_cast<long>(t.content); }
};
template <>
struct Codec<Plain> {
  static Plain Make(long v, int) { return Plain(v); }
  static long Read(const Plain& t) { return t.value; }
};
template <>
struct Codec<Shape> {
  static long Read(const Shape& t) { return t.value; }
};

// An object of type T to give away.
template <typename T>
struct Source {
  Source(long v, int kind) : object(std::make_unique<T>(Codec<T>::Make(v, kind))) {}
  std::unique_ptr<T> object;
};
template <>
struct Source<Shape> {
  Source(long v, int kind) : object(MakeShape(kind, v)) {}
  std::unique_ptr<Shape> object;
};

template <typename T>
void Update(T* t, long v) {
  *t = Codec<T>::Make(v, 0);
}
void Update(Shape* t, long v) { t->value = v; }

struct Erased {
  bool there{false};
  int type{0};
  long value{0};
  int kind{0};  // Of shapes.
};

void VerifyErased(const std::vector<std::unique_ptr<md::AbstractValue>>& pool, const std::vector<Erased>& model,
                  const std::string& when) {
  int owners = 0;
  for (size_t k = 0; k < pool.size(); ++k) {
    if (!model[k].there) continue;
    const md::AbstractValue& value = *pool[k];
    if (model[k].type == 4 || model[k].type == 9) ++owners;
    WithType(model[k].type, [&](auto tag) {
      using T = typename decltype(tag)::type;
      const T* maybe = value.maybe_get_value<T>();
      CHECK(maybe != nullptr, "erased-maybe", when << ": value " << k << " no longer holds its type");
      const T& got = value.get_value<T>();
      CHECK(&got == maybe, "erased-same", when << ": value " << k << " is at two places");
      CHECK(Codec<T>::Read(got) == model[k].value, "erased-value",
            when << ": value " << k << " of type " << model[k].type << " is " << Codec<T>::Read(got) << ", not "
                 << model[k].value);
      CHECK(value.static_type_info() == typeid(T), "erased-static-type", when << ": value " << k);
      if constexpr (std::is_same_v<T, Shape>) {
        CHECK(got.kind() == model[k].kind, "erased-sliced",
              when << ": value " << k << " is a shape of kind " << got.kind() << ", not " << model[k].kind);
        const std::type_info& expected = model[k].kind == 0   ? typeid(Shape)
                                         : model[k].kind == 1 ? typeid(Circle)
                                         : model[k].kind == 2 ? typeid(Square)
                                                              : typeid(Dot);
        CHECK(value.type_info() == expected, "erased-type", when << ": value " << k);
        CHECK(value.GetNiceTypeName() == md::NiceTypeName::Get(expected), "erased-name",
              when << ": value " << k << " is called " << value.GetNiceTypeName());
      } else {
        CHECK(value.type_info() == typeid(T), "erased-type", when << ": value " << k);
        CHECK(value.GetNiceTypeName() == md::NiceTypeName::Get<T>(), "erased-name",
              when << ": value " << k << " is called " << value.GetNiceTypeName());
      }
    });
  }
  CHECK(g_alive == owners, "erased-owners", when << ": " << g_alive << " objects alive for " << owners << " owners");
}

PROBE(P39, erased, 2500, 60000) {
  CHECK(g_alive == 0, "erased-leak-before", "objects alive at the start: " << g_alive);
  {
    const size_t n = static_cast<size_t>(src.i(2, 5));
    std::vector<std::unique_ptr<md::AbstractValue>> pool(n);
    std::vector<Erased> model(n);
    bool copied = false;
    const int steps = static_cast<int>(src.i(3, 40));
    for (int step = 0; step < steps; ++step) {
      const size_t k = src.idx(n);
      Erased& m = model[k];
      // Types mostly from a few, so that they match often enough.
      const int type = static_cast<int>(m.there && src.b() ? m.type : src.idx(kTypes));
      const long v = src.i(-50, 50);
      const int kind = static_cast<int>(src.idx(4));
      std::string what;
      if (!m.there || src.b(1, 8)) {
        // A vector of Eigen's is not initialised by default.
        const size_t how = type == 6 ? src.idx(3) : src.weighted({3, 2, 2, 1, 1});
        what = Cat("value ", k, " made (", how, ") of type ", type, " with ", v);
        long made = v;
        int made_kind = kind;
        WithType(type, [&](auto tag) {
          using T = typename decltype(tag)::type;
          Source<T> source(v, kind);
          if (how == 0) {
            pool[k] = md::AbstractValue::Make<T>(*source.object);
          } else if (how == 1) {
            pool[k] = std::make_unique<md::Value<T>>(*source.object);
          } else if (how == 2) {
            pool[k] = std::make_unique<md::Value<T>>(std::move(source.object));
          } else if (how == 3) {
            pool[k] = std::make_unique<md::Value<T>>();
            made = 0;
            made_kind = 0;
          } else {
            pool[k] = md::AbstractValue::Make<T>();
            made = 0;
            made_kind = 0;
          }
        });
        // Neither Box nor int is left uninitialised.
        m = {true, type, made, type == 4 ? made_kind : 0};
        VerifyErased(pool, model, what);
        continue;
      }
      const bool match = type == m.type;
      switch (src.weighted({3, 3, 3, 3, 2, 2})) {
        case 0: {
          what = Cat("value ", k, " of type ", m.type, " set as type ", type, " to ", v);
          WithType(type, [&](auto tag) {
            using T = typename decltype(tag)::type;
            Source<T> source(v, kind);
            if (match) {
              MUST_NOT_THROW("erased-set", pool[k]->template set_value<T>(*source.object), what);
            } else {
              MUST_THROW("erased-set-other", pool[k]->template set_value<T>(*source.object), what);
            }
          });
          if (match) {
            m.value = v;
            m.kind = type == 4 ? kind : 0;
          }
          break;
        }
        case 1: {
          const size_t from = src.idx(n);
          if (!model[from].there) continue;
          what = Cat("value ", k, " of type ", m.type, " set from value ", from, " of type ", model[from].type);
          if (model[from].type == m.type) {
            MUST_NOT_THROW("erased-set-from", pool[k]->SetFrom(*pool[from]), what);
            m = model[from];
            copied = true;
          } else {
            MUST_THROW("erased-set-from-other", pool[k]->SetFrom(*pool[from]), what);
            if (copied) pbt::nontrivial();
          }
          break;
        }
        case 2: {
          const size_t to = src.idx(n);
          what = Cat("value ", to, " cloned from value ", k);
          pool[to] = pool[k]->Clone();
          model[to] = Erased(m);
          copied = true;
          break;
        }
        case 3: {
          what = Cat("value ", k, " of type ", m.type, " changed in place as type ", type, " to ", v);
          const bool maybe = src.b();
          WithType(type, [&](auto tag) {
            using T = typename decltype(tag)::type;
            if (match) {
              T* place =
                  maybe ? pool[k]->template maybe_get_mutable_value<T>() : &pool[k]->template get_mutable_value<T>();
              CHECK(place != nullptr, "erased-mutable", what);
              Update(place, v);
            } else if (maybe) {
              CHECK(pool[k]->template maybe_get_mutable_value<T>() == nullptr, "erased-mutable-other", what);
            } else {
              MUST_THROW("erased-mutable-throws", pool[k]->template get_mutable_value<T>(), what);
            }
          });
          if (match) m.value = v;
          break;
        }
        case 4: {
          what = Cat("value ", k, " of type ", m.type, " read as type ", type);
          if (match) break;
          WithType(type, [&](auto tag) {
            using T = typename decltype(tag)::type;
            CHECK(pool[k]->template maybe_get_value<T>() == nullptr, "erased-maybe-other", what);
            MUST_THROW("erased-get-other", pool[k]->template get_value<T>(), what);
          });
          if (copied) pbt::nontrivial();
          break;
        }
        default: {
          what = Cat("value ", k, " gone");
          pool[k].reset();
          m = Erased();
          break;
        }
      }
      VerifyErased(pool, model, what);
    }
  }
  CHECK(g_alive == 0, "erased-leak", "objects alive at the end: " << g_alive);
}

// The fingerprints which tell types apart where assertions are off.
template <typename... Ts>
std::vector<size_t> Fingerprints() {
  return {md::internal::TypeHash<Ts>::value...};
}
template <typename... Ts>
std::vector<const std::type_info*> Infos() {
  return {&typeid(Ts)...};
}
struct FiveTag {
  using NonTypeTemplateParameter = std::integral_constant<int, 5>;
};

PROBE(P39, fingerprints, 60, 600) {
#define SOME_TYPES                                                                                                    \
  int, double, float, char, unsigned char, long, unsigned long, bool, std::string, std::vector<int>,                  \
      std::vector<double>, std::vector<std::vector<double>>, std::vector<std::string>, std::pair<int, double>,        \
      std::pair<double, int>, std::pair<int, int>, std::map<int, double>, std::map<int, std::pair<double, int>>,      \
      std::set<int>, Box<int>, Box<double>, Box<Box<int>>, Box<std::pair<int, double>>, Shape, Circle, Square, Plain, \
      Color, Eigen::MatrixXd, Eigen::VectorXd, Eigen::RowVectorXd, Eigen::Matrix3d, Eigen::Vector3d, Eigen::Vector2d, \
      Eigen::Matrix2d, Eigen::MatrixXf, Eigen::Matrix<double, 3, 4>, Eigen::Matrix<double, 4, 3>, std::optional<int>, \
      std::optional<double>, std::vector<Eigen::Vector3d>, std::vector<Eigen::Vector2d>, std::shared_ptr<Shape>,      \
      std::shared_ptr<Circle>
  static const std::vector<size_t> prints = Fingerprints<SOME_TYPES>();
  static const std::vector<const std::type_info*> infos = Infos<SOME_TYPES>();
  const size_t a = src.idx(prints.size());
  for (size_t b = 0; b < prints.size(); ++b) {
    if (b == a || prints[a] == 0 || prints[b] == 0) continue;
    CHECK(prints[a] != prints[b], "fingerprint-clash",
          md::NiceTypeName::Get(*infos[a])
              << " and " << md::NiceTypeName::Get(*infos[b]) << " have the same fingerprint");
  }
  pbt::nontrivial();
}

// -- Owning pointers.

struct Owned {
  bool there{false};
  long value{0};
  int kind{0};
  const void* at{nullptr};
};

// What is specific to pointers to shapes and to plain objects.
struct ShapePointers {
  using T = Shape;
  static std::unique_ptr<T> Make(int kind, long v) { return MakeShape(kind, v); }
  static int Kind(const T& t) { return t.kind(); }
  static int KindOf(int kind) { return kind; }
};
struct PlainPointers {
  using T = Plain;
  static std::unique_ptr<T> Make(int, long v) { return std::make_unique<Plain>(v); }
  static int Kind(const T&) { return 0; }
  static int KindOf(int) { return 0; }
};

template <typename K>
void Owners(pbt::Src& src) {
  using T = typename K::T;
  using Ptr = md::copyable_unique_ptr<T>;
  CHECK(g_alive == 0, "owners-before", "objects alive at the start: " << g_alive);
  {
    const size_t n = static_cast<size_t>(src.i(2, 4));
    std::vector<Ptr> pool(n);
    std::vector<Owned> model(n);
    bool copied = false, moved = false;
    const int steps = static_cast<int>(src.i(3, 40));
    for (int step = 0; step < steps; ++step) {
      const size_t k = src.idx(n);
      const size_t from = src.idx(n);
      const long v = src.i(-50, 50);
      const int kind = static_cast<int>(src.idx(4));
      Owned& m = model[k];
      const Owned source = model[from];
      std::string what;
      bool fresh = false;  // Whether the object must be a new one.
      switch (src.weighted({3, 2, 3, 2, 3, 2, 2, 2, 1, 1, 1, 2, 1, 1})) {
        case 0: {
          what = Cat("pointer ", k, " takes a raw pointer");
          T* raw = K::Make(kind, v).release();
          pool[k] = raw;
          m = {true, v, K::KindOf(kind), raw};
          break;
        }
        case 1: {
          what = Cat("pointer ", k, " assigned from a unique_ptr moved");
          std::unique_ptr<T> u = K::Make(kind, v);
          const void* at = u.get();
          pool[k] = std::move(u);
          CHECK(u == nullptr, "owners-moved-from", what);
          m = {true, v, K::KindOf(kind), at};
          break;
        }
        case 2: {
          what = Cat("pointer ", k, " assigned from pointer ", from);
          pool[k] = static_cast<const Ptr&>(pool[from]);
          if (k != from) {
            m = source;
            m.at = nullptr;
            fresh = true;
            if (m.there) copied = true;
          }
          break;
        }
        case 3: {
          what = Cat("pointer ", k, " built as a copy of pointer ", from);
          if (k == from) continue;
          pool[k].~Ptr();
          new (&pool[k]) Ptr(static_cast<const Ptr&>(pool[from]));
          m = source;
          m.at = nullptr;
          fresh = true;
          if (m.there) copied = true;
          break;
        }
        case 4: {
          what = Cat("pointer ", k, " assigned from pointer ", from, " moved");
          pool[k] = std::move(pool[from]);
          if (k != from) {
            model[from] = Owned();
            m = source;
            if (m.there) moved = true;
          }
          break;
        }
        case 5: {
          what = Cat("pointer ", k, " built from pointer ", from, " moved");
          if (k == from) continue;
          pool[k].~Ptr();
          new (&pool[k]) Ptr(std::move(pool[from]));
          model[from] = Owned();
          m = source;
          if (m.there) moved = true;
          break;
        }
        case 6: {
          if (!source.there) continue;
          what = Cat("pointer ", k, " assigned a copy of what pointer ", from, " points to");
          const Ptr& other = pool[from];
          pool[k] = *other;
          m = source;
          m.at = nullptr;
          fresh = k != from;
          copied = true;
          break;
        }
        case 7: {
          what = Cat("pointer ", k, " assigned from a unique_ptr copied");
          const std::unique_ptr<T> u = src.b(1, 5) ? nullptr : K::Make(kind, v);
          if (src.b()) {
            pool[k] = u;
          } else {
            pool[k] = Ptr(u);
          }
          CHECK(pool[k].get() == nullptr || pool[k].get() != u.get(), "owners-shared", what);
          m = u ? Owned{true, v, K::KindOf(kind), nullptr} : Owned();
          fresh = true;
          break;
        }
        case 8: {
          what = Cat("pointer ", k, " released");
          T* raw = pool[k].release();
          CHECK(m.there == (raw != nullptr), "owners-release", what);
          delete raw;
          m = Owned();
          break;
        }
        case 9: {
          what = Cat("pointer ", k, " reset");
          pool[k].reset();
          m = Owned();
          break;
        }
        case 10: {
          if (k == from) continue;
          what = Cat("pointers ", k, " and ", from, " swapped");
          std::swap(pool[k], pool[from]);
          std::swap(model[k], model[from]);
          break;
        }
        case 11: {
          if (!m.there) continue;
          what = Cat("object of pointer ", k, " changed to ", v);
          if (src.b()) {
            pool[k].get_mutable()->value = v;
          } else {
            (*pool[k]).value = v;
          }
          m.value = v;
          break;
        }
        case 12: {
          if constexpr (std::is_same_v<T, Shape>) {
            what = Cat("pointer ", k, " assigned from a unique_ptr to a derived class");
            auto u = std::make_unique<Dot>(v);
            switch (src.idx(4)) {
              case 0:
                pool[k] = std::move(u);
                CHECK(u == nullptr, "owners-moved-from", what);
                break;
              case 1:
                pool[k] = Ptr(std::move(u));
                CHECK(u == nullptr, "owners-moved-from", what);
                break;
              case 2:
                pool[k] = u;
                CHECK(u != nullptr, "owners-copied-from", what);
                break;
              default:
                pool[k] = Ptr(u);
                CHECK(u != nullptr, "owners-copied-from", what);
                break;
            }
            m = {true, v, 3, nullptr};
            fresh = true;
          } else {
            what = Cat("pointer ", k, " built from an object");
            pool[k] = Ptr(Plain(v));
            m = {true, v, 0, nullptr};
            fresh = true;
          }
          break;
        }
        default: {
          what = Cat("pointer ", k, " built again from a raw pointer");
          T* raw = src.b(1, 4) ? nullptr : K::Make(kind, v).release();
          pool[k] = Ptr(raw);
          m = raw != nullptr ? Owned{true, v, K::KindOf(kind), raw} : Owned();
          break;
        }
      }
      NOTE(what);
      int owners = 0;
      std::set<const void*> places;
      for (size_t j = 0; j < n; ++j) {
        const Ptr& p = pool[j];
        CHECK(p.empty() == !model[j].there, "owners-empty",
              what << ": pointer " << j << " is " << (p.empty() ? "" : "not ") << "empty");
        CHECK((p.get() == nullptr) == p.empty() && pool[j].get_mutable() == p.get(), "owners-get", what);
        if (p.empty()) continue;
        ++owners;
        CHECK(places.insert(p.get()).second, "owners-shared", what << ": pointer " << j << " shares its object");
        CHECK(p->value == model[j].value && (*p).value == model[j].value, "owners-value",
              what << ": pointer " << j << " holds " << p->value << ", not " << model[j].value);
        CHECK(K::Kind(*p) == model[j].kind, "owners-sliced",
              what << ": pointer " << j << " holds a kind " << K::Kind(*p) << ", not " << model[j].kind);
        if (j == k && fresh) {
          for (size_t i = 0; i < n; ++i) {
            CHECK(i == j || model[i].at != p.get(), "owners-fresh", what << ": the object is not a new one");
          }
        }
        if (model[j].at != nullptr) {
          CHECK(model[j].at == p.get(), "owners-moved", what << ": pointer " << j << " holds another object");
        }
        model[j].at = p.get();
      }
      CHECK(g_alive == owners, "owners-alive", what << ": " << g_alive << " objects alive for " << owners << " owners");
    }
    if (copied && moved) pbt::nontrivial();
  }
  CHECK(g_alive == 0, "owners-leak", "objects alive at the end: " << g_alive);
}

PROBE(P39, owners, 1500, 40000) {
  if (src.b()) {
    Owners<ShapePointers>(src);
  } else {
    Owners<PlainPointers>(src);
  }
}

// Numbers and pointers which are not copied.
template <typename T, typename Make>
void Resets(pbt::Src& src, Make make) {
  using R = md::reset_on_copy<T>;
  const size_t n = 3;
  std::vector<std::unique_ptr<R>> pool;
  std::vector<T> model;
  for (size_t k = 0; k < n; ++k) {
    const T v = make(src);
    pool.push_back(src.b(1, 4) ? std::make_unique<R>() : std::make_unique<R>(v));
    model.push_back(*pool.back() == T{} ? T{} : v);
  }
  bool copied = false, moved = false;
  const int steps = static_cast<int>(src.i(2, 20));
  for (int step = 0; step < steps; ++step) {
    const size_t k = src.idx(n), from = src.idx(n);
    std::string what;
    switch (src.idx(6)) {
      case 0: {
        what = "a value is assigned";
        const T v = make(src);
        *pool[k] = v;
        model[k] = v;
        break;
      }
      case 1:
        what = Cat(k, " is assigned from ", from);
        *pool[k] = static_cast<const R&>(*pool[from]);
        if (k != from) {
          model[k] = T{};
          copied = true;
        }
        break;
      case 2: {
        what = Cat(k, " is built as a copy of ", from);
        auto made = std::make_unique<R>(static_cast<const R&>(*pool[from]));
        pool[k] = std::move(made);
        model[k] = T{};
        copied = true;
        break;
      }
      case 3:
        what = Cat(k, " is assigned from ", from, " moved");
        *pool[k] = std::move(*pool[from]);
        if (k != from) {
          model[k] = model[from];
          model[from] = T{};
          moved = moved || model[k] != T{};
        }
        break;
      case 4: {
        what = Cat(k, " is built from ", from, " moved");
        auto made = std::make_unique<R>(std::move(*pool[from]));
        const T v = model[from];
        model[from] = T{};
        pool[k] = std::move(made);
        model[k] = v;
        moved = moved || v != T{};
        break;
      }
      default: {
        what = "a value is set through a reference";
        T& place = *pool[k];
        place = make(src);
        model[k] = place;
      }
    }
    for (size_t j = 0; j < n; ++j) {
      const R& r = *pool[j];
      const T& got = r;
      CHECK(got == model[j], "reset-on-copy", what << ": " << j << " is " << got << ", not " << model[j]);
    }
  }
  if (copied && moved) pbt::nontrivial();
}

PROBE(P39, resets, 1000, 20000) {
  static int somewhere[8] = {0, 1, 2, 3, 4, 5, 6, 7};
  switch (src.idx(3)) {
    case 0:
      return Resets<int>(src, [](pbt::Src& s) { return static_cast<int>(s.i(1, 50)); });
    case 1:
      return Resets<double>(src, [](pbt::Src& s) { return s.real(0.5, 50.); });
    default:
      return Resets<int*>(src, [](pbt::Src& s) { return &somewhere[s.idx(8)]; });
  }
}

// -- Casts between owning pointers.

template <typename To>
bool Is(int kind);
template <>
bool Is<Shape>(int) {
  return true;
}
template <>
bool Is<Circle>(int kind) {
  return kind == 1 || kind == 3;
}
template <>
bool Is<Square>(int kind) {
  return kind == 2;
}
template <>
bool Is<Dot>(int kind) {
  return kind == 3;
}

template <typename To>
void CastTo(pbt::Src& src, std::unique_ptr<Shape>* holder, int kind) {
  const Shape* at = holder->get();
  const std::string what =
      Cat("cast of a ", at ? md::NiceTypeName::Get(*at) : std::string("nothing"), " to ", md::NiceTypeName::Get<To>());
  const bool fits = at != nullptr && Is<To>(kind);
  std::unique_ptr<To> got;
  if (src.b()) {
    got = md::dynamic_pointer_cast<To>(std::move(*holder));
  } else if (fits) {
    MUST_NOT_THROW("cast-throws", got = md::dynamic_pointer_cast_or_throw<To>(std::move(*holder)), what);
  } else {
    MUST_THROW("cast-accepted", md::dynamic_pointer_cast_or_throw<To>(std::move(*holder)), what);
  }
  if (fits) {
    pbt::nontrivial();
    CHECK(got != nullptr && static_cast<const Shape*>(got.get()) == at, "cast-object", what);
    CHECK(*holder == nullptr, "cast-still-owned", what);
    CHECK(g_alive == 1, "cast-alive", what << ": " << g_alive);
    *holder = src.b() ? md::static_pointer_cast<Shape>(std::move(got)) : std::unique_ptr<Shape>(std::move(got));
    CHECK(got == nullptr, "cast-static-owned", what);
    CHECK(holder->get() == at, "cast-static", what);
  } else {
    CHECK(got == nullptr, "cast-of-another", what);
    CHECK(holder->get() == at, "cast-lost", what << ": the object is gone");
  }
  CHECK(g_alive == (at != nullptr ? 1 : 0), "cast-alive", what << ": " << g_alive);
}

PROBE(P39, casts, 400, 8000) {
  CHECK(g_alive == 0, "cast-before", "objects alive at the start: " << g_alive);
  {
    const int kind = static_cast<int>(src.idx(4));
    std::unique_ptr<Shape> holder = src.b(1, 8) ? nullptr : MakeShape(kind, src.i(0, 9));
    const int steps = static_cast<int>(src.i(1, 6));
    for (int step = 0; step < steps; ++step) {
      switch (src.idx(4)) {
        case 0:
          CastTo<Shape>(src, &holder, kind);
          break;
        case 1:
          CastTo<Circle>(src, &holder, kind);
          break;
        case 2:
          CastTo<Square>(src, &holder, kind);
          break;
        default:
          CastTo<Dot>(src, &holder, kind);
      }
    }
  }
  CHECK(g_alive == 0, "cast-leak", "objects alive at the end: " << g_alive);
}

// -- Indices.

using Index = md::TypeSafeIndex<class PbtIndexTag>;
constexpr int64_t kMax = std::numeric_limits<int>::max();

template <typename U>
void CompareUnsigned(const Index& index, int64_t value, U other, const std::string& type) {
  // As numbers, whatever their widths.
  const unsigned __int128 a = static_cast<unsigned __int128>(value);
  const unsigned __int128 b = static_cast<unsigned __int128>(other);
  const std::string what = Cat("index ", value, " and ", type, " ", static_cast<uint64_t>(other));
  CHECK((index == other) == (a == b), "index-unsigned-eq", what);
  CHECK((index != other) == (a != b), "index-unsigned-ne", what);
  CHECK((index < other) == (a < b), "index-unsigned-lt", what);
  CHECK((index <= other) == (a <= b), "index-unsigned-le", what);
  CHECK((index > other) == (a > b), "index-unsigned-gt", what);
  CHECK((index >= other) == (a >= b), "index-unsigned-ge", what);
  CHECK((other == index) == (a == b), "unsigned-index-eq", what);
  CHECK((other != index) == (a != b), "unsigned-index-ne", what);
  CHECK((other < index) == (b < a), "unsigned-index-lt", what);
  CHECK((other <= index) == (b <= a), "unsigned-index-le", what);
  CHECK((other > index) == (b > a), "unsigned-index-gt", what);
  CHECK((other >= index) == (b >= a), "unsigned-index-ge", what);
}

int64_t IndexValue(pbt::Src& src) {
  switch (src.weighted({4, 2, 2})) {
    case 0:
      return src.i(0, 5);
    case 1:
      return kMax - src.i(0, 5);
    default:
      return src.i(0, kMax);
  }
}

PROBE(P39, indices, 2500, 60000) {
  const size_t n = 3;
  std::vector<Index> pool(n);
  std::vector<std::optional<int64_t>> model(n);
  bool edge = false;
  const int steps = static_cast<int>(src.i(3, 40));
  for (int step = 0; step < steps; ++step) {
    const size_t k = src.idx(n), other = src.idx(n);
    Index& index = pool[k];
    auto& m = model[k];
    std::string what;
    if (!m.has_value() || src.b(1, 8)) {
      const int64_t v = src.b(1, 6) ? (src.b() ? -src.i(1, 5) : kMax + src.i(1, 5)) : IndexValue(src);
      what = Cat("index built from ", v);
      if (v < 0 || v > kMax) {
        MUST_THROW("index-invalid", Index(v), what);
      } else {
        index = Index(v);
        m = v;
      }
      continue;
    }
    // The outcome of arithmetic, or nothing where it must be refused.
    auto refused = [&](int64_t outcome) {
      edge = edge || outcome <= 0 || outcome >= kMax;
      return outcome < 0 || outcome > kMax;
    };
    switch (src.weighted({2, 2, 2, 2, 3, 3, 2, 2, 3, 2, 4})) {
      case 0:
        what = Cat("++", *m);
        if (refused(*m + 1)) {
          MUST_THROW("index-pre-inc", ++index, what);
          m.reset();
        } else {
          const int got = ++index;
          CHECK(got == *m + 1, "index-pre-inc-value", what << " is " << got);
          *m += 1;
        }
        break;
      case 1:
        what = Cat(*m, "++");
        if (refused(*m + 1)) {
          MUST_THROW("index-post-inc", index++, what);
          m.reset();
        } else {
          const int got = index++;
          CHECK(got == *m, "index-post-inc-value", what << " is " << got);
          *m += 1;
        }
        break;
      case 2:
        what = Cat("--", *m);
        if (refused(*m - 1)) {
          MUST_THROW("index-pre-dec", --index, what);
          m.reset();
        } else {
          const int got = --index;
          CHECK(got == *m - 1, "index-pre-dec-value", what << " is " << got);
          *m -= 1;
        }
        break;
      case 3:
        what = Cat(*m, "--");
        if (refused(*m - 1)) {
          MUST_THROW("index-post-dec", index--, what);
          m.reset();
        } else {
          const int got = index--;
          CHECK(got == *m, "index-post-dec-value", what << " is " << got);
          *m -= 1;
        }
        break;
      case 4: {
        const int d = static_cast<int>(src.b() ? src.i(-6, 6) : src.i(-kMax, kMax));
        what = Cat(*m, " += ", d);
        if (refused(*m + d)) {
          MUST_THROW("index-add", index += d, what);
          m.reset();
        } else {
          const int got = index += d;
          CHECK(got == *m + d, "index-add-value", what << " is " << got);
          *m += d;
        }
        break;
      }
      case 5: {
        const int d = static_cast<int>(src.b() ? src.i(-6, 6) : src.i(-kMax, kMax));
        what = Cat(*m, " -= ", d);
        if (refused(*m - d)) {
          MUST_THROW("index-sub", index -= d, what);
          m.reset();
        } else {
          const int got = index -= d;
          CHECK(got == *m - d, "index-sub-value", what << " is " << got);
          *m -= d;
        }
        break;
      }
      case 6:
      case 7: {
        if (!model[other].has_value()) continue;
        const bool add = src.b();
        const int64_t d = *model[other];
        what = Cat(*m, add ? " += index " : " -= index ", d);
        const int64_t outcome = add ? *m + d : *m - d;
        if (refused(outcome)) {
          if (add) {
            MUST_THROW("index-add-index", index += pool[other], what);
          } else {
            MUST_THROW("index-sub-index", index -= pool[other], what);
          }
          m.reset();
        } else {
          if (add) {
            index += pool[other];
          } else {
            index -= pool[other];
          }
          m = outcome;
        }
        break;
      }
      case 8: {
        if (k == other) continue;
        if (src.b()) {
          what = "copied";
          pool[other] = index;
          model[other] = m;
        } else {
          what = "moved";
          pool[other] = std::move(index);
          model[other] = m;
          m.reset();
          CHECK(!index.is_valid(), "index-moved-from", "a moved-from index is valid");
        }
        break;
      }
      case 9: {
        what = "built";
        if (src.b()) {
          Index made(index);
          CHECK(made == index && static_cast<int>(made) == *m, "index-copy", what);
        } else {
          Index made(std::move(index));
          CHECK(static_cast<int>(made) == *m, "index-move", what);
          CHECK(!index.is_valid(), "index-moved-from", "a moved-from index is valid");
          index = made;
        }
        break;
      }
      default: {
        what = "comparisons";
        if (model[other].has_value()) {
          const int64_t a = *m, b = *model[other];
          const Index &x = index, &y = pool[other];
          CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) &&
                    (x > y) == (a > b) && (x >= y) == (a >= b),
                "index-index", a << " against " << b);
          const int c = static_cast<int>(b);
          CHECK((x == c) == (a == b) && (x != c) == (a != b) && (x < c) == (a < b) && (x <= c) == (a <= b) &&
                    (x > c) == (a > b) && (x >= c) == (a >= b) && (c < x) == (b < a) && (c >= x) == (b >= a),
                "index-int", a << " against " << b);
          const bool same = md::DefaultHash()(x) == md::DefaultHash()(y);
          CHECK(same == (a == b), "index-hash", a << " against " << b);
          CHECK(std::hash<Index>()(x) == md::DefaultHash()(x), "index-std-hash", a);
        }
        const int64_t near = std::max<int64_t>(0, *m + src.i(-2, 2));
        const uint64_t bits =
            src.b() ? static_cast<uint64_t>(near) : static_cast<uint64_t>(near) + (1ull << src.i(7, 62));
        CompareUnsigned<uint8_t>(index, *m, static_cast<uint8_t>(bits), "uint8");
        CompareUnsigned<uint16_t>(index, *m, static_cast<uint16_t>(bits), "uint16");
        CompareUnsigned<uint32_t>(index, *m, static_cast<uint32_t>(bits), "uint32");
        CompareUnsigned<uint64_t>(index, *m, bits, "uint64");
        break;
      }
    }
    NOTE(what);
    // After a refusal the value is not promised: start again.
    if (!m.has_value()) {
      pool[k] = Index();
    }
    for (size_t j = 0; j < n; ++j) {
      CHECK(pool[j].is_valid() == model[j].has_value(), "index-valid",
            what << ": index " << j << " is " << (pool[j].is_valid() ? "" : "not ") << "valid");
      if (!model[j].has_value()) continue;
      CHECK(static_cast<int>(pool[j]) == *model[j], "index-value",
            what << ": index " << j << " is " << static_cast<int>(pool[j]) << ", not " << *model[j]);
    }
  }
  if (edge) pbt::nontrivial();
}

// -- Identifiers.

PROBE(P39, identifiers, 150, 3000) {
  using Id = md::Identifier<class PbtIdTag>;
  const size_t threads = static_cast<size_t>(src.i(1, 6));
  const size_t each = static_cast<size_t>(src.i(1, 60));
  std::vector<std::vector<Id>> made(threads);
  {
    std::vector<std::thread> running;
    for (size_t t = 0; t < threads; ++t) {
      running.emplace_back([&made, each, t] {
        for (size_t k = 0; k < each; ++k) made[t].push_back(Id::get_new_id());
      });
    }
    for (auto& r : running) r.join();
  }
  static std::set<int64_t> seen;
  std::vector<Id> all;
  for (const auto& ids : made) all.insert(all.end(), ids.begin(), ids.end());
  std::set<Id> ordered;
  std::unordered_set<Id> hashed;
  for (const Id& id : all) {
    CHECK(id.is_valid(), "id-invalid", "a new identifier is not valid");
    CHECK(seen.insert(id.get_value()).second, "id-twice", "identifier " << id << " was given out twice");
    CHECK(ordered.insert(id).second && hashed.insert(id).second, "id-equal", "two new identifiers are equal");
    CHECK(to_string(id) == std::to_string(id.get_value()) && Cat(id) == to_string(id), "id-text", Cat(id));
  }
  for (int round = 0; round < 10; ++round) {
    const Id a = src.pick(all);
    const Id b = src.pick(all);
    const bool same = a.get_value() == b.get_value();
    CHECK((a == b) == same && (a != b) == !same && a.is_same_as_valid_id(b) == same, "id-compare", a << " and " << b);
    CHECK((a < b) + (b < a) + same == 1, "id-order", a << " and " << b);
    CHECK((md::DefaultHash()(a) == md::DefaultHash()(b)) == same, "id-hash", a << " and " << b);
    CHECK(ordered.count(a) == 1 && hashed.count(a) == 1, "id-lookup", Cat(a));
    Id copy;
    CHECK(!copy.is_valid() && !copy.is_same_as_valid_id(a), "id-default", "a default identifier is valid");
    copy = a;
    CHECK(copy == a && copy.is_valid(), "id-copy", Cat(a));
  }
  if (threads > 1) pbt::nontrivial();
}

// -- Hashes.

using Bytes = std::vector<unsigned char>;

template <typename T>
Bytes BytesOf(const T& item) {
  Bytes bytes;
  md::DelegatingHasher hasher([&bytes](const void* data, size_t length) {
    const unsigned char* begin = static_cast<const unsigned char*>(data);
    bytes.insert(bytes.end(), begin, begin + length);
  });
  using md::hash_append;
  hash_append(hasher, item);
  return bytes;
}

uint64_t Fnv1a(const Bytes& bytes) {
  uint64_t hash = 14695981039346656037ull;
  for (unsigned char b : bytes) {
    hash ^= b;
    hash *= 1099511628211ull;
  }
  return hash;
}

template <typename T>
void CompareHashes(const T& a, const T& b, const std::string& type) {
  const Bytes x = BytesOf(a), y = BytesOf(b);
  const size_t hx = md::DefaultHash()(a), hy = md::DefaultHash()(b);
  if (a == b) {
    CHECK(hx == hy, "hash-equal", "equal values of type " << type << " hash differently");
    CHECK(x == y, "hash-equal-bytes", "equal values of type " << type << " feed different bytes to a hasher");
  } else {
    pbt::nontrivial();
    CHECK(x != y, "hash-different", "different values of type " << type << " feed the same bytes to a hasher");
    CHECK(hx != hy, "hash-clash", "different values of type " << type << " hash alike");
  }
  CHECK(md::uhash<md::internal::FNV1aHasher>()(a) == Fnv1a(x), "hash-fnv", "type " << type);
}

std::string Word(pbt::Src& src) {
  std::string s;
  const int n = static_cast<int>(src.i(0, 4));
  for (int k = 0; k < n; ++k) s += static_cast<char>(src.pick(std::vector<int>{'a', 'b', 0, 255, 1}));
  return s;
}

PROBE(P39, hashes, 3000, 80000) {
  auto number = [&] { return static_cast<int>(src.i(-2, 2)); };
  switch (src.idx(10)) {
    case 0:
      return CompareHashes<int>(number(), number(), "int");
    case 1:
      return CompareHashes<int64_t>(src.i(-3, 3) * (1ll << src.i(0, 40)), src.i(-3, 3) * (1ll << src.i(0, 40)),
                                    "int64");
    case 2: {
      const double a = src.b() ? 0. : src.sym(2.), b = src.b() ? -0. : src.sym(2.);
      return CompareHashes<double>(a, b, "double");
    }
    case 3: {
      const float a = src.b() ? 0.f : static_cast<float>(src.sym(2.));
      const float b = src.b() ? -0.f : static_cast<float>(src.sym(2.));
      return CompareHashes<float>(a, b, "float");
    }
    case 4:
      return CompareHashes<std::string>(Word(src), Word(src), "string");
    case 5: {
      const std::pair<std::string, std::string> a(Word(src), Word(src));
      // The same letters, split elsewhere.
      const std::string all = a.first + a.second;
      const size_t cut = static_cast<size_t>(src.i(0, static_cast<int64_t>(all.size())));
      const std::pair<std::string, std::string> b(all.substr(0, cut), all.substr(cut));
      return CompareHashes(a, b, "pair of strings");
    }
    case 6: {
      std::optional<int> a, b;
      if (src.b()) a = number();
      if (src.b()) b = number();
      return CompareHashes(a, b, "optional");
    }
    case 7: {
      std::map<std::string, std::string> a, b;
      std::vector<std::pair<std::string, std::string>> items;
      const int n = static_cast<int>(src.i(0, 4));
      for (int k = 0; k < n; ++k) items.emplace_back(Word(src), Word(src));
      for (const auto& i : items) a.emplace(i.first, i.second);
      src.shuffle(&items);
      for (const auto& i : items) b.emplace(i.first, i.second);
      if (src.b(1, 3) && !b.empty()) b.erase(b.begin());
      return CompareHashes(a, b, "map");
    }
    case 8: {
      std::set<std::string> a, b;
      const int n = static_cast<int>(src.i(0, 4));
      for (int k = 0; k < n; ++k) {
        a.insert(Word(src));
        b.insert(Word(src));
      }
      return CompareHashes(a, b, "set");
    }
    default: {
      // Pieces do not matter, only the bytes.
      Bytes bytes(static_cast<size_t>(src.i(0, 20)));
      for (auto& b : bytes) b = static_cast<unsigned char>(src.i(0, 255));
      md::DefaultHasher whole, pieces, single;
      whole(bytes.data(), bytes.size());
      size_t at = 0;
      while (at < bytes.size()) {
        const size_t length = static_cast<size_t>(src.i(0, static_cast<int64_t>(bytes.size() - at)));
        pieces(bytes.data() + at, length);
        at += length;
        if (length == 0) pieces(bytes.data() + at++, 1);
      }
      md::internal::FNV1aHasher fnv;
      for (auto b : bytes) fnv.add_byte(b);
      CHECK(static_cast<size_t>(whole) == static_cast<size_t>(pieces), "hash-pieces",
            "of " << bytes.size() << " bytes");
      CHECK(static_cast<size_t>(fnv) == Fnv1a(bytes), "hash-bytes", "of " << bytes.size() << " bytes");
      if (bytes.size() > 1) pbt::nontrivial();
      return;
    }
  }
}

// -- Densities and random numbers.

PROBE(P39, densities, 1500, 30000) {
  const int n = static_cast<int>(src.i(1, 5));
  Eigen::VectorXd x(n);
  const size_t range = src.idx(3);
  for (int k = 0; k < n; ++k) {
    x(k) = range == 0 ? src.fine(0., 1.) : range == 1 ? src.real(0.01, 4.) : src.sym(4.);
    if (src.b(1, 10)) x(k) = src.b() ? -src.fine(1e-9, 1.) : 1. + src.fine(1e-9, 1.);
  }
  double uniform = 1., gaussian = 1., exponential = 1.;
  bool at_one = false;
  for (int k = 0; k < n; ++k) {
    at_one = at_one || x(k) == 1.;
    uniform *= (x(k) >= 0. && x(k) < 1.) ? 1. : 0.;
    gaussian *= std::exp(-x(k) * x(k) / 2.) / std::sqrt(2. * std::acos(-1.));
    exponential *= x(k) < 0. ? 0. : std::exp(-x(k));
  }
  auto density = [&](md::RandomDistribution d) { return md::CalcProbabilityDensity<double>(d, x); };
  auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-12 * std::max(1e-3, std::fabs(b)); };
  std::ostringstream text;
  text << x.transpose();
  // Whether one belongs to the range of the uniform distribution has no weight.
  if (!at_one) {
    CHECK(density(md::RandomDistribution::kUniform) == uniform, "density-uniform",
          density(md::RandomDistribution::kUniform) << " at " << text.str());
  }
  CHECK(near(density(md::RandomDistribution::kGaussian), gaussian), "density-gaussian",
        density(md::RandomDistribution::kGaussian) << " instead of " << gaussian << " at " << text.str());
  CHECK(near(density(md::RandomDistribution::kExponential), exponential), "density-exponential",
        density(md::RandomDistribution::kExponential) << " instead of " << exponential << " at " << text.str());
  if (uniform > 0. || exponential > 0.) pbt::nontrivial();

  const auto seed = static_cast<md::RandomGenerator::result_type>(src.i(0, 1 << 30));
  const bool default_seed = src.b(1, 4);
  md::RandomGenerator a = default_seed ? md::RandomGenerator() : md::RandomGenerator(seed);
  std::mt19937 reference = default_seed ? std::mt19937() : std::mt19937(seed);
  const int draws = static_cast<int>(src.i(1, 30));
  for (int k = 0; k < draws; ++k) {
    CHECK(a() == reference(), "random-sequence", "draw " << k << " of seed " << seed);
  }
  md::RandomGenerator b(a);
  for (int k = 0; k < 3; ++k) {
    const auto expected = reference();
    CHECK(a() == expected && b() == expected, "random-copy", "draw " << k << " after a copy");
  }
}

// -- Names of types.

struct Name {
  std::string nice;               // What is expected.
  std::string spelled;            // One way to spell it.
  std::string without_namespace;  // Of the nice one.
  bool closed{false};             // Ends with '>'.
};

Name GenName(pbt::Src& src, int depth) {
  static const std::vector<std::string> kPlain{"int", "double", "unsigned long", "char", "bool"};
  static const std::vector<std::string> kSpaces{"maliput", "drake", "systems", "std", "my_space", "structs"};
  static const std::vector<std::string> kClasses{"Thing", "System", "classy", "Port2", "union_of"};
  Name name;
  const size_t what = src.weighted({depth > 0 ? 3 : 5, 3, depth > 0 ? 5 : 0, 1, 1});
  if (what == 0) {
    name.nice = src.pick(kPlain);
    name.spelled = name.nice;
    name.without_namespace = name.nice;
    return name;
  }
  if (what == 3) {
    name.nice = "std::string";
    name.spelled = src.b() ? "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"
                           : "class std::basic_string<char,struct std::char_traits<char>,class std::allocator<char> >";
    name.without_namespace = "string";
    return name;
  }
  if (what == 4) {
    // Matrices.
    static const std::vector<std::pair<std::string, std::string>> kScalars{
        {"double", "d"}, {"float", "f"}, {"int", "i"}, {"my_space::Thing", ""}};
    const auto scalar = src.pick(kScalars);
    const int64_t rows = src.b(1, 3) ? -1 : src.i(2, 12);
    const std::string size = rows == -1 ? "X" : std::to_string(rows);
    const bool vector = src.b();
    name.spelled = Cat("Eigen::Matrix<", scalar.first, ", ", rows, ", ", vector ? 1 : rows, ", 0, ", rows, ", ",
                       vector ? 1 : rows, ">");
    const std::string last = Cat(vector ? "Vector" : "Matrix", size);
    if (scalar.second.empty()) {
      name.nice = Cat("drake::", last, "<", scalar.first, ">");
      name.without_namespace = Cat(last, "<", scalar.first, ">");
      name.closed = true;
    } else {
      name.nice = Cat("Eigen::", last, scalar.second);
      name.without_namespace = Cat(last, scalar.second);
    }
    return name;
  }
  static const std::vector<std::string> kKeywords{"", "class ", "struct ", "enum ", "union "};
  name.spelled = src.pick(kKeywords);
  const int spaces = static_cast<int>(src.i(0, 3));
  for (int k = 0; k < spaces; ++k) {
    const std::string space = src.pick(kSpaces);
    name.nice += space + "::";
    name.spelled += space + "::";
    if (src.b(1, 6)) name.spelled += src.b() ? "__1::" : "__cxx11::";
  }
  if (src.b(1, 8)) {
    name.nice += "(anonymous)::";
    name.spelled += src.b() ? "(anonymous namespace)::" : "`anonymous namespace'::";
  }
  const std::string last = src.pick(kClasses);
  name.nice += last;
  name.spelled += last;
  name.without_namespace = last;
  if (what == 2) {
    const int n = static_cast<int>(src.i(1, 3));
    name.nice += "<";
    name.spelled += "<";
    name.without_namespace += "<";
    bool closed = false;
    for (int k = 0; k < n; ++k) {
      const Name argument = GenName(src, depth - 1);
      if (k > 0) {
        name.nice += ",";
        name.without_namespace += ",";
        name.spelled += src.b() ? ", " : ",";
      }
      name.nice += argument.nice;
      name.without_namespace += argument.nice;
      name.spelled += argument.spelled;
      closed = argument.closed || (!argument.spelled.empty() && argument.spelled.back() == '>');
    }
    name.nice += ">";
    name.without_namespace += ">";
    name.spelled += closed && src.b() ? " >" : ">";
    name.closed = true;
  }
  return name;
}

PROBE(P39, names, 800, 15000) {
  const Name name = GenName(src, static_cast<int>(src.i(0, 3)));
  const std::string got = md::NiceTypeName::Canonicalize(name.spelled);
  CHECK(got == name.nice, "name-nice", "'" << name.spelled << "' becomes '" << got << "', not '" << name.nice << "'");
  CHECK(md::NiceTypeName::Canonicalize(got) == got, "name-again",
        "'" << got << "' becomes '" << md::NiceTypeName::Canonicalize(got) << "'");
  const std::string bare = md::NiceTypeName::RemoveNamespaces(got);
  CHECK(bare == name.without_namespace, "name-bare",
        "'" << got << "' without namespaces is '" << bare << "', not '" << name.without_namespace << "'");
  const std::string open = name.closed ? std::string("maliput::") : name.nice + "::";
  CHECK(md::NiceTypeName::RemoveNamespaces(open) == open, "name-open", "'" << open << "'");
  if (name.nice.find('<') != std::string::npos) pbt::nontrivial();

  // Names of objects are those of their own classes.
  const int kind = static_cast<int>(src.idx(4));
  const std::unique_ptr<Shape> shape = MakeShape(kind, 1);
  static const std::vector<std::string> kNames{"pbt_types::Shape", "pbt_types::Circle", "pbt_types::Square",
                                               "pbt_types::Dot"};
  CHECK(md::NiceTypeName::Get(*shape) == kNames[kind], "name-object", md::NiceTypeName::Get(*shape));
  CHECK(md::NiceTypeName::Get<Shape>() == kNames[0] && md::NiceTypeName::GetFromStorage<Square>() == kNames[2],
        "name-type", md::NiceTypeName::Get<Shape>());
  CHECK((md::NiceTypeName::Get<std::pair<int, std::vector<std::string>>>() ==
         "std::pair<int,std::vector<std::string,std::allocator<std::string>>>"),
        "name-std", (md::NiceTypeName::Get<std::pair<int, std::vector<std::string>>>()));
}

}  // namespace
