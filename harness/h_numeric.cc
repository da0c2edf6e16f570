// P37 polynomials and trajectories made of them, P38 initial value problems and their dense outputs.
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include <Eigen/Core>

#include "maliput/drake/common/polynomial.h"
#include "maliput/drake/common/trajectories/piecewise_polynomial.h"
#include "maliput/drake/systems/analysis/antiderivative_function.h"
#include "maliput/drake/systems/analysis/hermitian_dense_output.h"
#include "maliput/drake/systems/analysis/initial_value_problem.h"
#include "maliput/drake/systems/analysis/scalar_initial_value_problem.h"
#include "pbt.h"

namespace {

using Eigen::MatrixXd;
using Eigen::VectorXd;
using maliput::drake::Polynomiald;
using maliput::drake::ToleranceType;
using maliput::drake::systems::AntiderivativeFunction;
using maliput::drake::systems::DenseOutput;
using maliput::drake::systems::HermitianDenseOutput;
using maliput::drake::systems::InitialValueProblem;
using maliput::drake::systems::ScalarInitialValueProblem;
using Pieces = maliput::drake::trajectories::PiecewisePolynomial<double>;

PBT_RULE(P37,
         "polynomials of several variables, or at least three monomials; trajectories with at least two segments "
         "which are evaluated at breaks, out of their times or after at least two changes");
PBT_RULE(P38,
         "problems solved at least twice with different times, states or parameters; outputs evaluated inside of their "
         "steps");

// --- Polynomials: the reference is a map from exponents to (integer) coefficients, so every value is exact.
constexpr int kVars = 3;
using Exps = std::array<int, kVars>;
using Ref = std::map<Exps, double>;

Polynomiald::VarType Var(int i) {
  static const char* const kNames[kVars] = {"x", "y", "z"};
  return Polynomiald::VariableNameToId(kNames[i], 1);
}

Ref Clean(const Ref& r) {
  Ref out;
  for (const auto& [e, c] : r)
    if (c != 0.) out[e] = c;
  return out;
}
Ref Add(const Ref& a, const Ref& b, double k = 1.) {
  Ref r = a;
  for (const auto& [e, c] : b) r[e] += k * c;
  return Clean(r);
}
Ref Times(const Ref& a, const Ref& b) {
  Ref r;
  for (const auto& [ea, ca] : a)
    for (const auto& [eb, cb] : b) {
      Exps e;
      for (int i = 0; i < kVars; ++i) e[i] = ea[i] + eb[i];
      r[e] += ca * cb;
    }
  return Clean(r);
}
Ref Constant(double c) { return Clean({{Exps{}, c}}); }
Ref Power(const Ref& a, int n) {
  Ref r = Constant(1.);
  for (int i = 0; i < n; ++i) r = Times(r, a);
  return r;
}
Ref Substituted(const Ref& a, int v, const Ref& by) {
  Ref r;
  for (const auto& [e, c] : a) {
    Exps rest = e;
    rest[v] = 0;
    r = Add(r, Times({{rest, c}}, Power(by, e[v])));
  }
  return r;
}
double At(const Ref& a, const std::array<double, kVars>& x) {
  double s = 0.;
  for (const auto& [e, c] : a) {
    double m = c;
    for (int i = 0; i < kVars; ++i)
      for (int k = 0; k < e[i]; ++k) m *= x[i];
    s += m;
  }
  return s;
}
int TotalDegree(const Ref& a) {
  int d = 0;
  for (const auto& [e, c] : a) d = std::max(d, e[0] + e[1] + e[2]);
  return d;
}
double Largest(const Ref& a) {
  double m = 0.;
  for (const auto& [e, c] : a) m = std::max(m, std::abs(c));
  return m;
}
int VariablesOf(const Ref& a) {
  int n = 0;
  for (int i = 0; i < kVars; ++i)
    if (std::any_of(a.begin(), a.end(), [i](const auto& m) { return m.first[i] > 0; })) ++n;
  return n;
}

// What a polynomial holds, as it tells it itself.
Ref Of(const Polynomiald& p, const char* tag) {
  Ref r;
  std::map<Exps, int> seen;
  for (const auto& m : p.GetMonomials()) {
    Exps e{};
    for (const auto& t : m.terms) {
      int i = 0;
      while (i < kVars && Var(i) != t.var) ++i;
      CHECK(i < kVars, tag, "an unknown variable " << t.var << " in " << p);
      CHECK(e[i] == 0, tag, "a variable is twice in a monomial of " << p);
      CHECK(t.power > 0, tag, "a power which is not positive in " << p);
      e[i] += t.power;
    }
    CHECK(++seen[e] == 1, tag, "two monomials with the same powers in " << p);
    r[e] += m.coefficient;
  }
  return Clean(r);
}

struct Pair {
  Polynomiald p;
  Ref r;
};

// A polynomial, from whichever constructor.
Pair Make(pbt::Src& src, int vars) {
  switch (src.weighted({2, 1, 2, 2, 4})) {
    case 0: {
      const double c = static_cast<double>(src.i(-4, 4));
      return {Polynomiald(c), Constant(c)};
    }
    case 1: {
      const int v = static_cast<int>(src.idx(vars));
      Exps e{};
      e[v] = 1;
      static const char* const kNames[kVars] = {"x", "y", "z"};
      return {src.b(1, 2) ? Polynomiald(kNames[v]) : Polynomiald(kNames[v], 1), {{e, 1.}}};
    }
    case 2: {
      const int v = static_cast<int>(src.idx(vars));
      const double c = static_cast<double>(src.i(1, 4)) * (src.b(1, 2) ? -1. : 1.);
      Exps e{};
      e[v] = 1;
      return {Polynomiald(c, Var(v)), {{e, c}}};
    }
    case 3: {  // One monomial, whose terms may name a variable more than once.
      const double c = static_cast<double>(src.i(1, 4)) * (src.b(1, 2) ? -1. : 1.);
      std::vector<Polynomiald::Term> terms;
      Exps e{};
      const int n = static_cast<int>(src.i(1, 4));
      for (int i = 0; i < n; ++i) {
        const int v = static_cast<int>(src.idx(vars));
        const int power = static_cast<int>(src.i(1, 2));
        terms.push_back({Var(v), power});
        e[v] += power;
      }
      return {Polynomiald(c, terms), {{e, c}}};
    }
    default: {  // A sum of monomials, which may be equal.
      std::vector<Polynomiald::Monomial> monomials;
      Ref r;
      const int n = static_cast<int>(src.i(1, 5));
      for (int i = 0; i < n; ++i) {
        Polynomiald::Monomial m;
        m.coefficient = static_cast<double>(src.i(-3, 3));
        Exps e{};
        std::vector<int> order{0, 1, 2};
        order.resize(vars);
        src.shuffle(&order);
        for (int v : order) {
          const int power = static_cast<int>(src.i(0, 2));
          if (power == 0) continue;
          m.terms.push_back({Var(v), power});
          e[v] = power;
        }
        monomials.push_back(m);
        r[e] += m.coefficient;
      }
      return {Polynomiald(monomials.begin(), monomials.end()), Clean(r)};
    }
  }
}

std::map<Polynomiald::VarType, double> Values(const std::array<double, kVars>& x) {
  std::map<Polynomiald::VarType, double> m;
  for (int i = 0; i < kVars; ++i) m[Var(i)] = x[i];
  return m;
}

void Compare(const Pair& q, const std::array<double, kVars>& x) {
  const Ref held = Of(q.p, "monomials");
  CHECK(held == q.r, "polynomial",
        "the polynomial " << q.p << " has " << held.size() << " monomials, not the " << q.r.size()
                          << " of the reference, or other coefficients");
  CHECK(q.p.EvaluateMultivariate(Values(x)) == At(q.r, x), "evaluation",
        q.p << " is " << q.p.EvaluateMultivariate(Values(x)) << " and not " << At(q.r, x));
  if (VariablesOf(q.r) > 1) MUST_THROW("not-univariate", q.p.EvaluateUnivariate(1.), q.p);
}

// What a polynomial and its monomials tell about their form.
void CompareForm(const Pair& q, pbt::Src& src) {
  const auto total = [](const Exps& e) { return e[0] + e[1] + e[2]; };
  const auto& monomials = q.p.GetMonomials();
  CHECK(q.p.GetNumberOfCoefficients() == static_cast<int>(monomials.size()), "form", q.p);
  const bool exact = monomials.size() == q.r.size();  // No monomial is null.
  const bool affine = std::all_of(q.r.begin(), q.r.end(), [&](const auto& m) { return total(m.first) <= 1; });
  if (!affine) CHECK(!q.p.IsAffine(), "affine", q.p);
  if (affine && exact) CHECK(q.p.IsAffine(), "affine", q.p);
  // Whether the variable of a variable times a number is told or not is not judged.
  if (exact) {
    const bool single = q.r.size() == 1 && total(q.r.begin()->first) == 1;
    if (!single) CHECK(q.p.GetSimpleVariable() == 0, "simple-variable", q.p);
    if (single && q.r.begin()->second == 1.) {
      const Exps& e = q.r.begin()->first;
      CHECK(q.p.GetSimpleVariable() == Var(e[0] ? 0 : e[1] ? 1 : 2), "simple-variable", q.p);
    }
  }
  if (monomials.empty()) return;
  // One of its monomials, divided by one which is random, often a divisor of it.
  const Polynomiald::Monomial a = monomials[src.idx(monomials.size())];
  Exps ea{}, ed{};
  for (int i = 0; i < kVars; ++i) {
    ea[i] = a.GetDegreeOf(Var(i));
    CHECK(a.HasVariable(Var(i)) == (ea[i] > 0), "monomial-variable", q.p);
  }
  Polynomiald::Monomial d;
  d.coefficient = static_cast<double>(src.i(1, 4)) * (src.b(1, 2) ? -1. : 1.);
  std::vector<int> order{0, 1, 2};
  src.shuffle(&order);
  for (const int i : order) {
    ed[i] = static_cast<int>(src.b(3, 4) ? src.i(0, ea[i]) : src.i(0, ea[i] + 1));
    if (ed[i] > 0) d.terms.push_back({Var(i), ed[i]});
  }
  CHECK(a.HasSameExponents(d) == (ea == ed) && d.HasSameExponents(a) == (ea == ed), "same-exponents", q.p);
  if (a.coefficient == 0.) return;
  const auto f = a.Factor(d);
  const bool divides = ed[0] <= ea[0] && ed[1] <= ea[1] && ed[2] <= ea[2];
  CHECK((f.coefficient != 0.) == divides, "factor",
        f.coefficient << " for powers " << ea[0] << ea[1] << ea[2] << " by " << ed[0] << ed[1] << ed[2]);
  if (!divides) return;
  CHECK(f.coefficient == a.coefficient / d.coefficient, "factor", f.coefficient);
  size_t terms = 0;
  for (int i = 0; i < kVars; ++i) {
    CHECK(f.GetDegreeOf(Var(i)) == ea[i] - ed[i], "factor", "variable " << i);
    if (ea[i] > ed[i]) ++terms;
  }
  CHECK(f.terms.size() == terms, "factor", f.terms.size() << " terms");
}

// What holds of polynomials of a single variable.
void CompareUnivariate(const Pair& q, int v, double at, pbt::Src& src) {
  std::array<double, kVars> x{};
  x[v] = at;
  const auto derived = [&](const Ref& r, int n) {
    Ref d = r;
    for (int i = 0; i < n; ++i) {
      Ref next;
      for (const auto& [e, c] : d) {
        if (e[v] == 0) continue;
        Exps f = e;
        --f[v];
        next[f] += c * e[v];
      }
      d = next;
    }
    return d;
  };
  const int order = static_cast<int>(src.i(0, 4));
  const Ref d = derived(q.r, order);
  MUST_NOT_THROW("univariate", q.p.EvaluateUnivariate(at, order), q.p);
  CHECK(q.p.EvaluateUnivariate(at, order) == At(d, x), "univariate-value",
        "derivative " << order << " of " << q.p << " at " << at << ": " << q.p.EvaluateUnivariate(at, order)
                      << " instead of " << At(d, x));
  MUST_NOT_THROW("univariate", q.p.Derivative(order), q.p);
  CHECK(Of(q.p.Derivative(order), "derivative") == d, "derivative", "derivative " << order << " of " << q.p);
  const int degree = TotalDegree(q.r);
  CHECK(q.p.GetDegree() >= degree, "degree", q.p);
  const VectorXd coefficients = q.p.GetCoefficients();
  CHECK(coefficients.size() > degree, "coefficients", q.p);
  for (int i = 0; i < coefficients.size(); ++i) {
    Exps e{};
    e[v] = i;
    const auto it = q.r.find(e);
    CHECK(coefficients(i) == (it == q.r.end() ? 0. : it->second), "coefficients", "coefficient " << i << " of " << q.p);
  }
  if (degree > 0) {
    // Twelve times the polynomial has integrals without rounding up to the power 4.
    const double c = static_cast<double>(src.i(-4, 4));
    const Polynomiald integral = q.p.Integral(c);
    CHECK(std::abs(integral.EvaluateUnivariate(0.) - c) == 0., "integral-constant", integral << " of " << q.p);
    const double there = 2., a = integral.EvaluateUnivariate(there);
    double expected = c, magnitude = std::abs(c);
    for (const auto& [e, k] : q.r) {
      expected += k / (e[v] + 1) * std::pow(there, e[v] + 1);
      magnitude += std::abs(k) / (e[v] + 1) * std::pow(there, e[v] + 1);
    }
    CHECK(std::abs(a - expected) <= 1e-12 * magnitude, "integral", integral << " of " << q.p);
    CHECK(integral.Derivative().CoefficientsAlmostEqual(q.p, 1e-12 * (1. + magnitude)), "integral-derivative",
          integral << " of " << q.p);
  }
  if (degree == 1 && q.p.GetDegree() == 1) {
    const auto roots = q.p.Roots();
    CHECK(roots.size() == 1, "roots", q.p);
    CHECK(std::abs(q.p.EvaluateUnivariate(roots(0).real())) <= 1e-12 * (1. + Largest(q.r)) && roots(0).imag() == 0.,
          "roots", roots(0).real() << " of " << q.p);
  }
}

PROBE(P37, polynomials, 60000, 1500000) {
  const int vars = static_cast<int>(src.weighted({3, 2, 3})) + 1;
  std::array<double, kVars> x{};
  for (int i = 0; i < kVars; ++i) x[i] = static_cast<double>(src.i(-3, 3));
  Pair q = Make(src, vars);
  Compare(q, x);
  const int steps = static_cast<int>(src.i(1, 6));
  for (int step = 0; step < steps; ++step) {
    const Pair o = Make(src, vars);
    const double k = static_cast<double>(src.i(-3, 3));
    switch (src.weighted({3, 3, 3, 1, 1, 1, 1, 1, 1, 2, 1, 2, 2, 2})) {
      case 0:
        NOTE("add " << o.p);
        if (src.b(1, 2)) {
          q.p += o.p;
        } else {
          q.p = q.p + o.p;
        }
        q.r = Add(q.r, o.r);
        break;
      case 1:
        NOTE("subtract " << o.p);
        if (src.b(1, 2)) {
          q.p -= o.p;
        } else {
          q.p = q.p - o.p;
        }
        q.r = Add(q.r, o.r, -1.);
        break;
      case 2:
        if (TotalDegree(q.r) + TotalDegree(o.r) > 8 || Largest(q.r) > 1e6) continue;
        NOTE("multiply by " << o.p);
        if (src.b(1, 2)) {
          q.p *= o.p;
        } else {
          q.p = q.p * o.p;
        }
        q.r = Times(q.r, o.r);
        break;
      case 3:
        NOTE("add " << k);
        if (src.b(1, 2)) {
          q.p += k;
        } else {
          q.p = src.b(1, 2) ? k + q.p : q.p + k;
        }
        q.r = Add(q.r, Constant(k));
        break;
      case 4:
        NOTE("subtract " << k);
        if (src.b(1, 2)) {
          q.p -= k;
          q.r = Add(q.r, Constant(-k));
        } else if (src.b(1, 2)) {
          q.p = q.p - k;
          q.r = Add(q.r, Constant(-k));
        } else {
          q.p = k - q.p;
          q.r = Add(Constant(k), q.r, -1.);
        }
        break;
      case 5:
        if (k == 0.) continue;
        NOTE("multiply by " << k);
        q.p = src.b(1, 2) ? k * q.p : q.p * k;
        q.r = Times(q.r, Constant(k));
        break;
      case 6:
        NOTE("divide by " << 0.5);
        q.p = q.p / 0.5;
        q.r = Times(q.r, Constant(2.));
        break;
      case 7:
        NOTE("negate");
        q.p = -q.p;
        q.r = Times(q.r, Constant(-1.));
        break;
      case 8: {
        const int n = static_cast<int>(src.i(0, 4));
        if (TotalDegree(q.r) * n > 8 || q.r.size() > 6 || Largest(q.r) > 20.) continue;
        NOTE("to the power " << n);
        q.p = pow(q.p, n);
        q.r = Power(q.r, n);
        break;
      }
      case 9: {
        const int v = static_cast<int>(src.idx(vars));
        int power = 0;
        for (const auto& [e, c] : q.r) power = std::max(power, e[v]);
        if (TotalDegree(q.r) + power * TotalDegree(o.r) > 8 || power * static_cast<int>(o.r.size()) > 8 ||
            Largest(q.r) > 1e4)
          continue;
        NOTE("substitute " << o.p << " for variable " << v);
        q.p = q.p.Substitute(Var(v), o.p);
        q.r = Substituted(q.r, v, o.r);
        break;
      }
      case 10: {
        const int v = static_cast<int>(src.idx(vars)), w = static_cast<int>(src.idx(vars));
        NOTE("variable " << v << " becomes " << w);
        q.p.Subs(Var(v), Var(w));
        Exps e{};
        e[w] = 1;
        q.r = Substituted(q.r, v, {{e, 1.}});
        break;
      }
      case 11: {
        const int v = static_cast<int>(src.idx(vars));
        NOTE("variable " << v << " is " << k);
        q.p = q.p.EvaluatePartial({{Var(v), k}});
        q.r = Substituted(q.r, v, Constant(k));
        break;
      }
      case 12:
        NOTE("with itself");
        switch (src.i(0, 2)) {
          case 0:
            q.p += q.p;
            q.r = Add(q.r, q.r);
            break;
          case 1:
            q.p -= q.p;
            q.r.clear();
            break;
          case 2:
            if (TotalDegree(q.r) > 4 || Largest(q.r) > 1e3) break;
            q.p *= q.p;
            q.r = Times(q.r, q.r);
            break;
        }
        break;
      case 13:
        NOTE("add and take away " << o.p);
        q.p = (q.p + o.p) - o.p;
        break;
    }
    NOTE("now " << q.p);
    if (Largest(q.r) > 1e7) return;
    Compare(q, x);
    CompareForm(q, src);
    std::set<Polynomiald::VarType> expected;
    for (const auto& [e, c] : q.r)
      for (int i = 0; i < kVars; ++i)
        if (e[i] > 0) expected.insert(Var(i));
    const std::set<Polynomiald::VarType> named = q.p.GetVariables();
    CHECK(std::includes(named.begin(), named.end(), expected.begin(), expected.end()), "variables", q.p);
    if (expected.size() <= 1 && named.size() <= 1) {
      int v = 0;
      for (int i = 0; i < kVars; ++i)
        if (expected.count(Var(i)) || named.count(Var(i))) v = i;
      CompareUnivariate(q, v, x[v], src);
    }
    CHECK(q.p.CoefficientsAlmostEqual(q.p, 0.) && q.p == q.p, "almost-equal-itself", q.p);
    const Polynomiald more = q.p + Polynomiald(0.5, {{Var(0), 3}});
    CHECK(!q.p.CoefficientsAlmostEqual(more, 0.499) && q.p.CoefficientsAlmostEqual(more, 0.5), "almost-equal",
          q.p << " and " << more);
    CHECK(!(q.p == more), "equal", q.p << " and " << more);
  }
  pbt::label("variables", VariablesOf(q.r));
  if (VariablesOf(q.r) > 1 || q.r.size() > 2) pbt::nontrivial();
}

PROBE(P37, variable_names, 60000, 1000000) {
  static const std::string kChars = "@#_.abcdefghijklmnopqrstuvwxyz";
  std::string name;
  const int n = static_cast<int>(src.weighted({0, 3, 3, 3, 4, 2, 1, 1, 1, 1, 1, 1}));
  for (int i = 0; i < n; ++i) name += kChars[src.idx(kChars.size())];
  const unsigned int m = static_cast<unsigned int>(src.weighted({2, 2, 1}) == 0 ? 1 : src.i(1, 2325));
  NOTE("name '" << name << "' with number " << m);
  CHECK(Polynomiald::IsValidVariableName(name), "name-valid", name);
  if (n > 4) {
    MUST_THROW("name-too-long", Polynomiald::VariableNameToId(name, m), name);
    pbt::nontrivial();
    return;
  }
  const auto id = Polynomiald::VariableNameToId(name, m);
  CHECK(Polynomiald::IdToVariableName(id) == name + std::to_string(m), "name-back",
        name << " " << m << " becomes " << Polynomiald::IdToVariableName(id));
  std::string bad = name;
  bad[src.idx(bad.size())] = "A1 -$\x7f"[src.idx(6)];
  CHECK(!Polynomiald::IsValidVariableName(bad) && !Polynomiald::IsValidVariableName(""), "name-invalid", bad);
  MUST_THROW("name-invalid", Polynomiald::VariableNameToId(bad, m), bad);
  MUST_THROW("number-invalid", Polynomiald::VariableNameToId(name, 0), name);
  MUST_THROW("number-invalid", Polynomiald::VariableNameToId(name, 2400u + static_cast<unsigned>(src.i(0, 100000))),
             name);
  if (n > 1 && m > 1) pbt::nontrivial();
}

// --- Trajectories: the reference has the same pieces, as plain coefficients, in the documented order.
struct Model {
  std::vector<double> b;
  std::vector<std::vector<std::vector<double>>> seg;  // [segment][row + column * rows][power]
  int rows{}, cols{};

  int segments() const { return static_cast<int>(seg.size()); }
  int find(double t) const {
    int i = 0;
    while (i + 1 < segments() && t >= b[i + 1]) ++i;
    return i;
  }
  double eval(double t, int e, int order = 0) const {
    t = std::min(std::max(t, b.front()), b.back());
    return local(find(t), t - b[find(t)], e, order);
  }
  double local(int i, double u, int e, int order) const {
    const auto& c = seg[i][e];
    double s = 0.;
    for (int k = static_cast<int>(c.size()) - 1; k >= order; --k) {
      double f = c[k];
      for (int j = 0; j < order; ++j) f *= k - j;
      s = s * u + f;
    }
    return s;
  }
  double magnitude() const {
    double m = 0.;
    for (int i = 0; i < segments(); ++i)
      for (const auto& c : seg[i]) {
        double s = 0., p = 1.;
        for (double k : c) {
          s += std::abs(k) * p;
          p *= b[i + 1] - b[i];
        }
        m = std::max(m, s);
      }
    return m;
  }
  int degree() const {
    int d = 0;
    for (const auto& s : seg)
      for (const auto& c : s)
        for (int k = 0; k < static_cast<int>(c.size()); ++k)
          if (c[k] != 0.) d = std::max(d, k);
    return d;
  }
  // Whether every piece has its variable in it.
  bool variable() const {
    for (const auto& s : seg)
      for (const auto& c : s)
        if (std::none_of(c.begin() + std::min<size_t>(1, c.size()), c.end(), [](double k) { return k != 0.; }))
          return false;
    return true;
  }
};

Polynomiald Poly(const std::vector<double>& c) {
  VectorXd v(c.size());
  for (size_t i = 0; i < c.size(); ++i) v(i) = c[i];
  return Polynomiald(v);
}

Model MakeModel(pbt::Src& src, int rows, int cols, double start, int max_segments) {
  Model m;
  m.rows = rows;
  m.cols = cols;
  m.b.push_back(start);
  const int n = static_cast<int>(src.i(1, max_segments));
  const int degree = static_cast<int>(src.i(0, 3));
  for (int i = 0; i < n; ++i) {
    m.b.push_back(m.b.back() + static_cast<double>(src.i(1, 16)) / 8.);
    std::vector<std::vector<double>> s;
    for (int e = 0; e < rows * cols; ++e) {
      std::vector<double> c;
      const int d = static_cast<int>(src.i(std::max(0, degree - 1), degree));
      for (int k = 0; k <= d; ++k) c.push_back(static_cast<double>(src.i(-8, 8)) / 2.);
      s.push_back(c);
    }
    m.seg.push_back(s);
  }
  return m;
}

Pieces MakePieces(const Model& m, bool scalar) {
  if (scalar && m.rows == 1 && m.cols == 1) {
    std::vector<Polynomiald> p;
    for (const auto& s : m.seg) p.push_back(Poly(s[0]));
    return Pieces(p, m.b);
  }
  std::vector<Pieces::PolynomialMatrix> p;
  for (const auto& s : m.seg) {
    Pieces::PolynomialMatrix x(m.rows, m.cols);
    for (int c = 0; c < m.cols; ++c)
      for (int r = 0; r < m.rows; ++r) x(r, c) = Poly(s[r + c * m.rows]);
    p.push_back(x);
  }
  return Pieces(p, m.b);
}

// Compares on every segment, at breaks (unless `off_breaks`) and out of the times.
void Compare(const Pieces& p, const Model& m, double tolerance, bool off_breaks, pbt::Src& src) {
  CHECK(p.get_number_of_segments() == m.segments() && !p.empty(), "segments",
        p.get_number_of_segments() << " instead of " << m.segments());
  CHECK(p.rows() == m.rows && p.cols() == m.cols, "size", "");
  const double ends = 1e-12 * (1. + std::abs(m.b.front()) + std::abs(m.b.back()));
  for (int i = 0; i <= m.segments(); ++i)
    CHECK(std::abs(p.get_segment_times()[i] - m.b[i]) <= ends, "times",
          "break " << i << " at " << p.get_segment_times()[i] << " instead of " << m.b[i]);
  CHECK(p.start_time() == p.get_segment_times().front() && p.end_time() == p.get_segment_times().back(), "times", "");
  const int order = static_cast<int>(src.weighted({2, 1, 1}));
  const int i = static_cast<int>(src.idx(m.segments()));
  const double h = m.b[i + 1] - m.b[i];
  std::vector<double> at{m.b[i] + h * static_cast<double>(src.i(1, 7)) / 8.};
  if (!off_breaks) {
    for (double t : p.get_segment_times()) at.push_back(t);
    at.push_back(p.start_time() - static_cast<double>(src.i(1, 8)) / 4.);
    at.push_back(p.end_time() + static_cast<double>(src.i(1, 8)) / 4.);
  }
  for (size_t k = 0; k < at.size(); ++k) {
    const double t = at[k];
    // A break of the trajectory itself begins a segment; the reference may have it rounded.
    double asked = t;
    for (int j = 0; j <= m.segments(); ++j)
      if (t == p.get_segment_times()[j]) asked = m.b[j];
    const int s = m.find(std::min(std::max(asked, m.b.front()), m.b.back()));
    if (k > 0)
      CHECK(p.get_segment_index(t) == s, "segment-index", p.get_segment_index(t) << " instead of " << s << " at " << t);
    CHECK(p.is_time_in_range(t) == (t >= p.start_time() && t <= p.end_time()), "time-in-range", t);
    const MatrixXd v = p.value(t);
    const MatrixXd d = p.EvalDerivative(t, order);
    CHECK(v.rows() == m.rows && v.cols() == m.cols && d.rows() == m.rows && d.cols() == m.cols, "size", "");
    for (int c = 0; c < m.cols; ++c)
      for (int r = 0; r < m.rows; ++r) {
        const int e = r + c * m.rows;
        const double x = m.eval(asked, e);
        CHECK(std::abs(v(r, c) - x) <= tolerance, k == 0 ? "value" : "value-at-break-or-beyond",
              "value " << v(r, c) << " instead of " << x << " at " << t << ", element " << r << " " << c);
        CHECK(p.scalarValue(t, r, c) == v(r, c), "scalar-value",
              p.scalarValue(t, r, c) << " and value " << v(r, c) << " at " << t);
        const double y = m.eval(asked, e, order);
        const double hs = m.b[s + 1] - m.b[s];
        const double slack = tolerance * std::pow(6. / std::min(hs, 1.), order);
        CHECK(std::abs(d(r, c) - y) <= slack, "value-of-derivative",
              "derivative " << order << " is " << d(r, c) << " instead of " << y << " at " << t);
      }
  }
  if (m.segments() > 1) pbt::nontrivial();
}

PROBE(P37, trajectories, 20000, 500000) {
  const int rows = static_cast<int>(src.weighted({3, 2, 1})) + 1, cols = static_cast<int>(src.weighted({3, 1})) + 1;
  Model m = MakeModel(src, rows, cols, static_cast<double>(src.i(-16, 16)) / 4., 6);
  Pieces p = MakePieces(m, src.b(1, 2));
  double mag = m.magnitude();
  bool off = false;
  int reversed = 0, scaled = 0, rounded = 0;
  const auto compare = [&] {
    mag = std::max(mag, m.magnitude());
    Compare(p, m, 1e-10 * (1. + mag), off, src);
  };
  compare();
  // A trajectory over the same times.
  const auto same_times = [&] {
    Model o = MakeModel(src, m.rows, m.cols, 0., 1);
    o.b = m.b;
    o.seg.resize(m.segments(), o.seg[0]);
    for (auto& s : o.seg)
      for (auto& c : s)
        for (double& k : c) k = static_cast<double>(src.i(-8, 8)) / 2.;
    return o;
  };
  const int steps = static_cast<int>(src.i(0, 6));
  for (int step = 0; step < steps; ++step) {
    const int elements = m.rows * m.cols;
    switch (src.weighted({2, 2, 2, 2, 1, 1, 1, 2, 2, 2, 1, 1, 1, 1, 2, 2, 2, 1, 1})) {
      case 0: {
        const int n = static_cast<int>(src.i(0, 3));
        NOTE("derivative " << n);
        const Pieces d = p.derivative(n);
        CHECK(p.has_derivative() && p.MakeDerivative(n)->value(m.b[0]).isApprox(d.value(m.b[0]), 0.), "make-derivative",
              "");
        for (auto& s : m.seg)
          for (auto& c : s) {
            for (int k = 0; k < n; ++k) {
              for (size_t j = 1; j < c.size(); ++j) c[j - 1] = c[j] * static_cast<double>(j);
              if (!c.empty()) c.pop_back();
            }
            if (c.empty()) c.push_back(0.);
          }
        p = d;
        break;
      }
      case 1: {
        if (!m.variable() || m.degree() > 5) break;
        // Rounding may have cancelled a coefficient on one side only.
        bool constant = false;
        for (int i = 0; i < p.get_number_of_segments(); ++i)
          for (int e = 0; e < elements; ++e)
            if (p.getPolynomial(i, e % m.rows, e / m.rows).GetVariables().empty()) constant = true;
        if (constant) break;
        const bool matrix = src.b(1, 2);
        MatrixXd at = MatrixXd::Constant(m.rows, m.cols, static_cast<double>(src.i(-8, 8)) / 2.);
        if (matrix)
          for (int e = 0; e < elements; ++e) at(e % m.rows, e / m.rows) = static_cast<double>(src.i(-8, 8)) / 2.;
        NOTE("integral from " << at(0, 0));
        // (A named matrix: the overload takes a writable reference.)
        p = matrix ? p.integral(at) : p.integral(at(0, 0));
        for (int e = 0; e < elements; ++e) {
          double value = at(e % m.rows, e / m.rows);
          for (int i = 0; i < m.segments(); ++i) {
            auto& c = m.seg[i][e];
            for (size_t j = 0; j < c.size(); ++j) c[j] /= static_cast<double>(j + 1);
            c.insert(c.begin(), value);
            value = m.local(i, m.b[i + 1] - m.b[i], e, 0);
          }
        }
        ++rounded;
        break;
      }
      case 2:
      case 3: {
        const Model o = same_times();
        const bool minus = src.b(1, 2);
        NOTE((minus ? "subtract" : "add") << " a trajectory");
        const Pieces q = MakePieces(o, false);
        if (src.b(1, 2)) {
          minus ? p -= q : p += q;
        } else {
          p = minus ? p - q : p + q;
        }
        for (int i = 0; i < m.segments(); ++i)
          for (int e = 0; e < elements; ++e) {
            auto& c = m.seg[i][e];
            c.resize(std::max(c.size(), o.seg[i][e].size()), 0.);
            for (size_t j = 0; j < o.seg[i][e].size(); ++j) c[j] += (minus ? -1. : 1.) * o.seg[i][e][j];
          }
        break;
      }
      case 4: {
        if (elements > 1 || m.degree() > 3 || mag > 1e4) break;
        const Model o = same_times();
        NOTE("multiply by a trajectory");
        const Pieces q = MakePieces(o, false);
        if (src.b(1, 2)) {
          p *= q;
        } else {
          p = p * q;
        }
        for (int i = 0; i < m.segments(); ++i) {
          auto& c = m.seg[i][0];
          const auto& d = o.seg[i][0];
          std::vector<double> r(c.size() + d.size() - 1, 0.);
          for (size_t a = 0; a < c.size(); ++a)
            for (size_t b = 0; b < d.size(); ++b) r[a + b] += c[a] * d[b];
          c = r;
        }
        break;
      }
      case 5: {
        MatrixXd k(m.rows, m.cols);
        for (int e = 0; e < elements; ++e) k(e % m.rows, e / m.rows) = static_cast<double>(src.i(-8, 8)) / 2.;
        const bool minus = src.b(1, 2);
        NOTE((minus ? "subtract" : "add") << " a matrix");
        if (src.b(1, 2)) {
          minus ? p -= k : p += k;
        } else {
          p = minus ? p - k : p + k;
        }
        for (auto& s : m.seg)
          for (int e = 0; e < elements; ++e) s[e][0] += (minus ? -1. : 1.) * k(e % m.rows, e / m.rows);
        break;
      }
      case 6:
        NOTE("negate");
        p = -p;
        for (auto& s : m.seg)
          for (auto& c : s)
            for (double& k : c) k = -k;
        break;
      case 7: {
        NOTE("concatenate");
        Model o = MakeModel(src, m.rows, m.cols, p.end_time(), 3);
        if (m.segments() > 12) break;
        Model elsewhere = o;
        const double gap = src.b(1, 2) ? 1e-3 : -1e-3;
        for (double& t : elsewhere.b) t += gap;
        MUST_THROW("concatenate-gap", p.ConcatenateInTime(MakePieces(elsewhere, false)), gap);
        const Model thin = MakeModel(src, m.rows + 1, m.cols, p.end_time(), 2);
        MUST_THROW("concatenate-size", p.ConcatenateInTime(MakePieces(thin, false)), "");
        compare();
        p.ConcatenateInTime(MakePieces(o, false));
        m.b.insert(m.b.end(), o.b.begin() + 1, o.b.end());
        m.seg.insert(m.seg.end(), o.seg.begin(), o.seg.end());
        break;
      }
      case 8:
      case 9: {
        if (m.segments() > 12) break;
        const bool cubic = src.b(1, 2);
        const double h = static_cast<double>(src.i(1, 8)) / 4.;
        NOTE("append a " << (cubic ? "cubic" : "linear") << " segment of " << h);
        MatrixXd y(m.rows, m.cols), yd(m.rows, m.cols);
        std::vector<std::vector<double>> s;
        const int last = m.segments() - 1;
        const double u = m.b[last + 1] - m.b[last];
        const double dt = (p.end_time() + h) - p.end_time();
        for (int e = 0; e < elements; ++e) {
          const double y1 = static_cast<double>(src.i(-8, 8)) / 2., d1 = static_cast<double>(src.i(-8, 8)) / 2.;
          y(e % m.rows, e / m.rows) = y1;
          yd(e % m.rows, e / m.rows) = d1;
          const double y0 = m.local(last, u, e, 0), d0 = m.local(last, u, e, 1);
          if (cubic) {
            s.push_back({y0, d0, 3. * (y1 - y0) / (dt * dt) - (2. * d0 + d1) / dt,
                         -2. * (y1 - y0) / (dt * dt * dt) + (d0 + d1) / (dt * dt)});
            mag = std::max(mag, std::abs(d0) * dt * 4.);
          } else {
            s.push_back({y0, (y1 - y0) / dt});
          }
        }
        if (cubic) {
          p.AppendCubicHermiteSegment(p.end_time() + h, y, yd);
        } else {
          p.AppendFirstOrderSegment(p.end_time() + h, y);
        }
        m.b.push_back(m.b.back() + dt);
        m.seg.push_back(s);
        ++rounded;
        break;
      }
      case 10:
        if (m.segments() < 2) break;
        NOTE("remove the last segment");
        p.RemoveFinalSegment();
        m.b.pop_back();
        m.seg.pop_back();
        break;
      case 11: {
        const int first = static_cast<int>(src.idx(m.segments()));
        const int n = static_cast<int>(src.i(1, m.segments() - first));
        NOTE("slice " << first << " + " << n);
        MUST_THROW("slice", p.slice(first, m.segments() - first + 1), "");
        MUST_THROW("slice", p.slice(-1, 1), "");
        p = p.slice(first, n);
        m.b = std::vector<double>(m.b.begin() + first, m.b.begin() + first + n + 1);
        m.seg = std::vector<std::vector<std::vector<double>>>(m.seg.begin() + first, m.seg.begin() + first + n);
        break;
      }
      case 12: {
        const int r = static_cast<int>(src.idx(m.rows)), c = static_cast<int>(src.idx(m.cols));
        const int nr = static_cast<int>(src.i(1, m.rows - r)), nc = static_cast<int>(src.i(1, m.cols - c));
        NOTE("block " << r << " " << c << " of " << nr << " x " << nc);
        p = p.Block(r, c, nr, nc);
        for (auto& s : m.seg) {
          std::vector<std::vector<double>> t;
          for (int j = 0; j < nc; ++j)
            for (int i = 0; i < nr; ++i) t.push_back(s[(r + i) + (c + j) * m.rows]);
          s = t;
        }
        m.rows = nr;
        m.cols = nc;
        break;
      }
      case 13:
        NOTE("reshape");
        p.Reshape(m.cols, m.rows);
        std::swap(m.rows, m.cols);
        break;
      case 14: {
        if (reversed >= 2) break;
        ++reversed;
        NOTE("reverse the time");
        p.ReverseTime();
        Model r = m;
        const int n = m.segments();
        for (int i = 0; i <= n; ++i) r.b[i] = -m.b[n - i];
        for (int i = 0; i < n; ++i) {
          const double h = m.b[n - i] - m.b[n - 1 - i];
          for (int e = 0; e < elements; ++e) {
            // Taylor's coefficients about the end of the segment, in the opposite direction.
            auto& c = r.seg[i][e];
            c = m.seg[n - 1 - i][e];
            double factorial = 1., sign = 1.;
            for (size_t k = 0; k < c.size(); ++k) {
              c[k] = sign * m.local(n - 1 - i, h, e, static_cast<int>(k)) / factorial;
              factorial *= static_cast<double>(k + 1);
              sign = -sign;
            }
          }
        }
        m = r;
        mag *= 64.;
        break;
      }
      case 15: {
        if (scaled >= 2) break;
        ++scaled;
        const double k = src.b(1, 2) ? static_cast<double>(src.i(1, 6)) / 2. : src.real(0.4, 2.5);
        NOTE("scale the time by " << k);
        p.ScaleTime(k);
        for (double& t : m.b) t *= k;
        for (auto& s : m.seg)
          for (auto& c : s)
            for (size_t j = 0; j < c.size(); ++j) c[j] /= std::pow(k, static_cast<double>(j));
        break;
      }
      case 16: {
        const double k = static_cast<double>(src.i(-16, 16)) / 4.;
        NOTE("shift by " << k);
        p.shiftRight(k);
        for (double& t : m.b) t += k;
        break;
      }
      case 17: {
        const int i = static_cast<int>(src.idx(m.segments()));
        const int r = static_cast<int>(src.idx(m.rows)), c = static_cast<int>(src.idx(m.cols));
        const int nr = static_cast<int>(src.i(1, m.rows - r)), nc = static_cast<int>(src.i(1, m.cols - c));
        NOTE("set a block of segment " << i);
        Pieces::PolynomialMatrix block(nr, nc);
        for (int y = 0; y < nc; ++y)
          for (int x = 0; x < nr; ++x) {
            std::vector<double> k{static_cast<double>(src.i(-8, 8)), static_cast<double>(src.i(1, 8))};
            block(x, y) = Poly(k);
            m.seg[i][(r + x) + (c + y) * m.rows] = k;
          }
        p.setPolynomialMatrixBlock(block, i, r, c);
        MUST_THROW("segment-number", p.setPolynomialMatrixBlock(block, m.segments(), r, c), "");
        break;
      }
      case 18: {
        NOTE("copy");
        Pieces q = p;
        CHECK(q.isApprox(p, 0.), "approx-itself", "");
        const double k = static_cast<double>(src.i(1, 8)) / 2.;
        q += MatrixXd::Constant(m.rows, m.cols, k);
        CHECK(!q.isApprox(p, 0.9 * k, ToleranceType::kAbsolute), "approx", k);
        p = *dynamic_cast<const Pieces*>(p.Clone().get());
        Pieces longer = p;
        longer.shiftRight(0.25);
        CHECK(!longer.isApprox(p, 0.1, ToleranceType::kAbsolute), "approx-times", "");
        const Pieces zeros(
            std::vector<Pieces::PolynomialMatrix>(m.segments(), Pieces::PolynomialMatrix(m.rows, m.cols)),
            p.get_segment_times());
        Pieces::PolynomialMatrix other(m.cols, m.rows);
        if (m.rows == m.cols) other.resize(m.rows, m.cols + 1);
        const Pieces others(std::vector<Pieces::PolynomialMatrix>(m.segments(), other), p.get_segment_times());
        CHECK(!zeros.isApprox(others, 1.) && !others.isApprox(zeros, 1.), "approx-shape",
              m.rows << " x " << m.cols << " and " << other.rows() << " x " << other.cols());
        if (m.segments() > 1) {
          MUST_THROW("other-times", longer += p, "");
          MUST_THROW("other-times", p - longer, "");
        }
        break;
      }
    }
    if (m.magnitude() > 1e8 || m.degree() > 8) return;
    compare();
    if (step > 0) pbt::nontrivial();
  }
  if (m.rows == 1 || m.cols == 1) {
    std::vector<double> ts;
    for (int i = 0; i < 3; ++i) ts.push_back(m.b[0] + src.real(0., 1.) * (m.b.back() - m.b[0]));
    const MatrixXd v = p.vector_values(ts);
    for (int i = 0; i < 3; ++i) {
      const MatrixXd x = p.value(ts[i]);
      const MatrixXd part = m.cols == 1 ? MatrixXd(v.col(i)) : MatrixXd(v.row(i));
      CHECK(part == x, "vector-values", "");
    }
  } else {
    MUST_THROW("vector-values", p.vector_values({m.b[0]}), "");
  }
}

PROBE(P37, splines, 12000, 300000) {
  const int rows = static_cast<int>(src.i(1, 2)), cols = static_cast<int>(src.i(1, 2));
  const int n = static_cast<int>(src.i(2, 7));
  std::vector<double> b{static_cast<double>(src.i(-8, 8))};
  std::vector<MatrixXd> y, yd;
  const int coarse = static_cast<int>(src.i(1, 8));
  for (int i = 0; i < n; ++i) {
    if (i > 0) b.push_back(b.back() + static_cast<double>(src.i(1, 16)) / 8.);
    MatrixXd v(rows, cols), d(rows, cols);
    for (int r = 0; r < rows; ++r)
      for (int c = 0; c < cols; ++c) {
        v(r, c) = static_cast<double>(src.i(-coarse, coarse)) / 2.;
        d(r, c) = static_cast<double>(src.i(-8, 8)) / 2.;
      }
    y.push_back(v);
    yd.push_back(d);
  }
  const int kind = static_cast<int>(src.i(0, 7));
  const bool flag = src.b(1, 2);
  const bool eigen = cols == 1 && src.b(1, 2);
  VectorXd eb(n);
  MatrixXd ey(rows, n), eyd(rows, n);
  for (int i = 0; i < n; ++i) {
    eb(i) = b[i];
    ey.col(i) = y[i].col(0);
    eyd.col(i) = yd[i].col(0);
  }
  NOTE("kind " << kind << ", flag " << flag << ", " << n << " samples of " << rows << " x " << cols);
  const auto make = [&](const std::vector<double>& bs, const std::vector<MatrixXd>& ys,
                        const std::vector<MatrixXd>& yds) -> Pieces {
    switch (kind) {
      case 0:
        return Pieces::ZeroOrderHold(bs, ys);
      case 1:
        return Pieces::FirstOrderHold(bs, ys);
      case 2:
        return Pieces::CubicHermite(bs, ys, yds);
      case 3:
        return Pieces::CubicShapePreserving(bs, ys, flag);
      case 4:
        return Pieces::CubicWithContinuousSecondDerivatives(bs, ys, yds.front(), yds.back());
      case 5:
      case 6:
        return Pieces::CubicWithContinuousSecondDerivatives(bs, ys, kind == 5);
      default:
        return Pieces::LagrangeInterpolatingPolynomial(bs, ys);
    }
  };
  const auto make_eigen = [&]() -> Pieces {
    switch (kind) {
      case 0:
        return Pieces::ZeroOrderHold(eb, ey);
      case 1:
        return Pieces::FirstOrderHold(eb, ey);
      case 2:
        return Pieces::CubicHermite(eb, ey, eyd);
      case 3:
        return Pieces::CubicShapePreserving(eb, ey, flag);
      case 4:
        return Pieces::CubicWithContinuousSecondDerivatives(eb, ey, VectorXd(eyd.col(0)), VectorXd(eyd.col(n - 1)));
      case 5:
        return Pieces::CubicWithContinuousSecondDerivatives(eb, ey, true);
      case 6:
        return flag ? Pieces::Cubic(eb, ey) : Pieces::CubicWithContinuousSecondDerivatives(eb, ey);
      default:
        return Pieces::LagrangeInterpolatingPolynomial(eb, ey);
    }
  };
  const int needed = kind == 5 || kind == 6 || (kind == 3 && !flag) ? 3 : 2;
  if (n < needed) {
    MUST_THROW("too-few-samples", make(b, y, yd), n);
    return;
  }
  if (kind != 7) {
    // Refusals.
    auto bs = b;
    auto ys = y;
    switch (src.i(0, 3)) {
      case 0:
        ys.pop_back();
        break;
      case 1: {
        const size_t i = 1 + src.idx(n - 1);
        bs[i] = bs[i - 1] - (src.b(1, 2) ? 0. : 0.5);
        break;
      }
      case 2:
        if (src.b(1, 2))
          ys[src.idx(n)].resize(rows + 1, cols);
        else
          ys[src.idx(n)].resize(rows, cols + 1);
        break;
      case 3:
        ys.resize(1);
        bs.resize(1);
        break;
    }
    MUST_THROW("bad-samples", make(bs, ys, yd), "");
    if (kind == 2) {
      auto yds = yd;
      yds.pop_back();
      MUST_THROW("bad-derivatives", make(b, y, yds), "");
      yds = yd;
      yds[src.idx(n)].resize(rows, cols + 1);
      MUST_THROW("bad-derivatives", make(b, y, yds), "");
    }
    if (kind == 4) {
      auto yds = yd;
      yds[src.b(1, 2) ? 0 : n - 1].resize(rows + 1, cols);
      MUST_THROW("bad-derivatives", make(b, y, yds), "");
    }
  }
  const Pieces p = eigen ? make_eigen() : make(b, y, yd);
  if (kind == 7) {
    CHECK(p.get_number_of_segments() == 1 && p.start_time() == b[0] && p.end_time() == b[n - 1], "lagrange-times", "");
    for (int r = 0; r < rows; ++r)
      for (int c = 0; c < cols; ++c) {
        CHECK(p.getSegmentPolynomialDegree(0, r, c) <= n - 1, "lagrange-degree", "");
        for (int i = 0; i < n; ++i)
          CHECK(std::abs(p.value(b[i])(r, c) - y[i](r, c)) <= 1e-6 * (1. + coarse), "lagrange",
                "sample " << i << ": " << p.value(b[i])(r, c) << " instead of " << y[i](r, c));
      }
    if (n > 2) pbt::nontrivial();
    return;
  }
  CHECK(p.get_segment_times() == b, "spline-times", "");
  CHECK(p.rows() == rows && p.cols() == cols, "spline-size", "");
  for (int r = 0; r < rows; ++r)
    for (int c = 0; c < cols; ++c) {
      // Ends of segment i: derivative `order`, at its start or its end.
      const auto at = [&](int i, bool end, int order) {
        return p.getPolynomial(i, r, c).EvaluateUnivariate(end ? b[i + 1] - b[i] : 0., order);
      };
      const double tol = 1e-9 * (1. + coarse) * 64.;
      const auto near = [&](double u, double v, int order) { return std::abs(u - v) <= tol * std::pow(64., order); };
      std::vector<double> slope, h;
      for (int i = 0; i + 1 < n; ++i) {
        h.push_back(b[i + 1] - b[i]);
        slope.push_back((y[i + 1](r, c) - y[i](r, c)) / h[i]);
      }
      const auto end_slope = [&](double h0, double h1, double s0, double s1) {
        const double d = ((2. * h0 + h1) * s0 - h0 * s1) / (h0 + h1);
        const auto sign = [](double v) { return v > 1e-10 ? 1 : v < -1e-10 ? -1 : 0; };
        if (sign(d) != sign(s0)) return 0.;
        if (sign(s0) != sign(s1) && std::abs(d) > std::abs(3. * s0)) return 3. * s0;
        return d;
      };
      for (int i = 0; i + 1 < n; ++i) {
        CHECK(near(at(i, false, 0), y[i](r, c), 0), "spline-start", "segment " << i);
        const double end = at(i, true, 0);
        CHECK(near(end, kind == 0 ? y[i](r, c) : y[i + 1](r, c), 0), "spline-end", "segment " << i << ": " << end);
        CHECK(p.getSegmentPolynomialDegree(i, r, c) <= (kind == 0 ? 0 : kind == 1 ? 1 : 3), "spline-degree", "");
        if (kind == 2)
          CHECK(near(at(i, false, 1), yd[i](r, c), 1) && near(at(i, true, 1), yd[i + 1](r, c), 1), "hermite-slopes",
                "segment " << i);
        if (kind >= 3 && i > 0) CHECK(near(at(i - 1, true, 1), at(i, false, 1), 1), "spline-c1", "break " << i);
        if (kind >= 4 && i > 0) CHECK(near(at(i - 1, true, 2), at(i, false, 2), 2), "spline-c2", "break " << i);
        if (kind == 3) {
          const double lo = std::min(y[i](r, c), y[i + 1](r, c)), hi = std::max(y[i](r, c), y[i + 1](r, c));
          for (int k = 1; k < 8; ++k) {
            const double v = p.getPolynomial(i, r, c).EvaluateUnivariate(h[i] * k / 8.);
            const double d = p.getPolynomial(i, r, c).EvaluateUnivariate(h[i] * k / 8., 1);
            CHECK(v >= lo - tol && v <= hi + tol && d * slope[i] >= -tol * 64., "shape",
                  "segment " << i << " is " << v << " between " << lo << " and " << hi << ", slope " << d);
          }
          if (i > 0) {
            const double w0 = 2. * h[i] + h[i - 1], w1 = h[i] + 2. * h[i - 1];
            const double d = slope[i - 1] * slope[i] <= 0. ? 0. : (w0 + w1) / (w0 / slope[i - 1] + w1 / slope[i]);
            CHECK(near(at(i, false, 1), d, 1), "shape-slope",
                  "break " << i << ": " << at(i, false, 1) << ", not " << d);
          }
        }
      }
      if (kind == 3) {
        CHECK(near(at(0, false, 1), flag ? 0. : end_slope(h[0], h[1], slope[0], slope[1]), 1), "shape-first-slope",
              at(0, false, 1));
        CHECK(near(at(n - 2, true, 1), flag ? 0. : end_slope(h[n - 2], h[n - 3], slope[n - 2], slope[n - 3]), 1),
              "shape-last-slope", at(n - 2, true, 1));
      }
      if (kind == 4)
        CHECK(near(at(0, false, 1), yd[0](r, c), 1) && near(at(n - 2, true, 1), yd[n - 1](r, c), 1), "c2-ends",
              at(0, false, 1) << " " << at(n - 2, true, 1));
      if (kind == 5)
        CHECK(near(at(0, false, 1), at(n - 2, true, 1), 1) && near(at(0, false, 2), at(n - 2, true, 2), 2),
              "c2-periodic", "");
      if (kind == 6)
        CHECK(near(at(0, true, 3), at(1, false, 3), 3) && near(at(n - 3, true, 3), at(n - 2, false, 3), 3),
              "c2-not-a-knot", "");
    }
  if (n > 2) pbt::nontrivial();
}

// --- Initial value problems with known solutions.
struct Problem {
  int kind{};
  int size() const { return kind == 3 ? 2 : 1; }
  int parameters() const { return kind == 2 ? 3 : 1; }
  VectorXd f(double t, const VectorXd& x, const VectorXd& k) const {
    VectorXd d(size());
    switch (kind) {
      case 0:
        d(0) = k(0);
        break;
      case 1:
        d(0) = k(0) * x(0);
        break;
      case 2:
        d(0) = k(0) * std::cos(k(1) * t) + k(2) * t * t;
        break;
      case 3:
        d(0) = -k(0) * x(1);
        d(1) = k(0) * x(0);
        break;
      case 4:
        d(0) = k(0) * t - x(0);
        break;
    }
    return d;
  }
  VectorXd solution(double t, double t0, const VectorXd& x0, const VectorXd& k) const {
    VectorXd x(size());
    const double h = t - t0;
    switch (kind) {
      case 0:
        x(0) = x0(0) + k(0) * h;
        break;
      case 1:
        x(0) = x0(0) * std::exp(k(0) * h);
        break;
      case 2:
        x(0) = x0(0) + (k(1) == 0. ? k(0) * h : k(0) * (std::sin(k(1) * t) - std::sin(k(1) * t0)) / k(1)) +
               k(2) * (t * t * t - t0 * t0 * t0) / 3.;
        break;
      case 3: {
        const double c = std::cos(k(0) * h), s = std::sin(k(0) * h);
        x(0) = c * x0(0) - s * x0(1);
        x(1) = s * x0(0) + c * x0(1);
        break;
      }
      case 4:  // A particular solution is k (t - 1).
        x(0) = k(0) * (t - 1.) + (x0(0) - k(0) * (t0 - 1.)) * std::exp(-h);
        break;
    }
    return x;
  }
  // How much an error at the beginning may have grown by the end.
  double growth(double h, const VectorXd& k) const { return kind == 1 ? std::exp(std::max(0., k(0)) * h) : 1.; }
  VectorXd random_state(pbt::Src& src) const {
    VectorXd x(size());
    for (int i = 0; i < size(); ++i) x(i) = static_cast<double>(src.i(-8, 8)) / 4.;
    return x;
  }
  VectorXd random_parameters(pbt::Src& src) const {
    VectorXd k(parameters());
    for (int i = 0; i < parameters(); ++i) k(i) = static_cast<double>(src.i(-8, 8)) / 8.;
    return k;
  }
};

using Ivp = InitialValueProblem<double>;
using Scalar = ScalarInitialValueProblem<double>;

// Errors allowed for an accuracy: it bounds the error of each step, which are not longer than 0.1.
double Allowed(const Problem& problem, double accuracy, double h, const VectorXd& x0, const VectorXd& k) {
  return (accuracy * 4. + 1e-12) * (1. + h) * problem.growth(h, k) * (1. + x0.lpNorm<Eigen::Infinity>());
}

PROBE(P38, solutions_after_any_history, 1500, 40000) {
  Problem problem{static_cast<int>(src.i(0, 4))};
  const double t0 = static_cast<double>(src.i(-8, 8)) / 4.;
  const VectorXd x0 = problem.random_state(src), k0 = problem.random_parameters(src);
  const auto f = [problem](const double& t, const VectorXd& x, const VectorXd& k) { return problem.f(t, x, k); };
  Ivp ivp(f, Ivp::OdeContext(t0, x0, k0));
  std::unique_ptr<Scalar> scalar;
  if (problem.size() == 1)
    scalar =
        std::make_unique<Scalar>([problem](const double& t, const double& x,
                                           const VectorXd& k) { return problem.f(t, VectorXd::Constant(1, x), k)(0); },
                                 Scalar::ScalarOdeContext(t0, x0(0), k0));
  double accuracy = Ivp::kDefaultAccuracy;
  if (src.b(1, 2)) {
    accuracy = std::pow(10., -static_cast<double>(src.i(3, 7)));
    ivp.get_mutable_integrator().set_target_accuracy(accuracy);
    if (scalar) scalar->get_mutable_integrator().set_target_accuracy(accuracy);
  }
  // Arguments of a call, each given or left as they are by default.
  Ivp::OdeContext given;
  const int calls = static_cast<int>(src.i(1, 8));
  double reached = t0;
  for (int call = 0; call < calls; ++call) {
    if (call == 0 || src.b(1, 2)) {  // Otherwise with the arguments of the previous call.
      const Ivp::OdeContext before = given;
      given = {};
      if (src.b(1, 3)) given.t0 = static_cast<double>(src.i(-8, 8)) / 4.;
      if (src.b(1, 3)) given.x0 = problem.random_state(src);
      if (src.b(1, 3)) given.k = problem.random_parameters(src);
      if (src.b(1, 4)) {  // One of them only.
        const auto now = given;
        given = before;
        switch (src.i(0, 2)) {
          case 0:
            given.t0 = now.t0;
            break;
          case 1:
            given.x0 = now.x0;
            break;
          case 2:
            given.k = now.k;
            break;
        }
      }
    }
    const double t = given.t0.value_or(t0);
    const VectorXd x = given.x0.value_or(x0), k = given.k.value_or(k0);
    switch (src.weighted({8, 1, 1, 1})) {
      case 0:
        break;
      case 1:
        MUST_THROW("backwards", ivp.Solve(t - 0.001 - src.real(0., 2.), given), t);
        MUST_THROW("backwards", ivp.DenseSolve(t - 0.001 - src.real(0., 2.), given), t);
        break;
      case 2: {
        auto bad = given;
        bad.x0 = VectorXd::Zero(problem.size() + 1);
        MUST_THROW("wrong-size", ivp.Solve(t + 1., bad), "");
        break;
      }
      case 3: {
        auto bad = given;
        bad.k = VectorXd::Zero(problem.parameters() + 1);
        MUST_THROW("wrong-size", ivp.Solve(t + 1., bad), "");
        break;
      }
    }
    double h = 0.;
    switch (src.weighted({1, 4, 2, 1})) {
      case 0:
        break;
      case 1:
        h = src.real(0., 3.);
        break;
      case 2:
        h = std::max(0., reached - t) + src.real(-0.2, 0.2);
        h = std::min(3., std::max(0., h));
        break;
      case 3:
        h = src.real(0., 1e-3);
        break;
    }
    const double tf = t + h;
    const bool dense = src.b(1, 4) && h > 1e-6;
    NOTE((dense ? "dense " : "") << "solve from " << t << " to " << tf << ", x0 " << x.transpose() << ", k "
                                 << k.transpose() << (given.t0 || given.x0 || given.k ? "" : " (defaults)"));
    const double tolerance = Allowed(problem, accuracy, h, x, k);
    const auto expected = problem.solution(tf, t, x, k);
    Scalar::ScalarOdeContext scalar_given;
    scalar_given.t0 = given.t0;
    if (given.x0) scalar_given.x0 = (*given.x0)(0);
    scalar_given.k = given.k;
    if (dense) {
      const auto out = ivp.DenseSolve(tf, given);
      CHECK(!out->is_empty() && out->size() == problem.size(), "dense-size", "");
      CHECK(out->start_time() == t && std::abs(out->end_time() - tf) <= 1e-12, "dense-times",
            out->start_time() << " to " << out->end_time());
      for (int i = 0; i < 4; ++i) {
        const double at = i == 0   ? out->start_time()
                          : i == 1 ? out->end_time()
                                   : t + src.real(0., 1.) * (out->end_time() - t);
        const VectorXd v = out->Evaluate(at);
        const VectorXd e = problem.solution(at, t, x, k);
        for (int j = 0; j < problem.size(); ++j) {
          CHECK(std::abs(v(j) - e(j)) <= tolerance, "dense-value",
                "element " << j << " at " << at << ": " << v(j) << " instead of " << e(j));
          CHECK(out->EvaluateNth(at, j) == v(j), "dense-nth", "");
        }
        MUST_THROW("dense-nth-range", out->EvaluateNth(at, problem.size()), "");
        MUST_THROW("dense-nth-range", out->EvaluateNth(at, -1), "");
      }
      MUST_THROW("dense-range", out->Evaluate(t - 1e-6), "");
      MUST_THROW("dense-range", out->Evaluate(out->end_time() + 1e-6), "");
      if (scalar) {
        const auto s = scalar->DenseSolve(tf, scalar_given);
        const double at = t + src.real(0., 1.) * (out->end_time() - t);
        CHECK(std::abs(s->EvaluateScalar(at) - problem.solution(at, t, x, k)(0)) <= tolerance, "dense-scalar", at);
        MUST_THROW("dense-range", s->EvaluateScalar(t - 1e-6), "");
      }
    } else {
      const VectorXd v = ivp.Solve(tf, given);
      CHECK(v.size() == problem.size(), "solution-size", v.size());
      for (int j = 0; j < problem.size(); ++j)
        CHECK(std::abs(v(j) - expected(j)) <= tolerance, "solution",
              "element " << j << " at " << tf << ": " << v(j) << " instead of " << expected(j) << " (call " << call
                         << ")");
      if (scalar) {
        const double s = scalar->Solve(tf, scalar_given);
        CHECK(std::abs(s - expected(0)) <= tolerance, "scalar-solution", s << " instead of " << expected(0));
      }
    }
    reached = tf;
    if (call > 0) pbt::nontrivial();
  }
}

PROBE(P38, antiderivatives, 1500, 40000) {
  Problem problem{2};
  const double v0 = src.b(1, 4) ? 0. : static_cast<double>(src.i(-8, 8)) / 4.;
  const VectorXd k0 = problem.random_parameters(src);
  using F = AntiderivativeFunction<double>;
  F::IntegrableFunctionContext defaults;
  // (The lower bound is 0 unless given.)
  if (v0 != 0.) defaults.v = v0;
  defaults.k = k0;
  F integral([problem](const double& x, const VectorXd& k) { return problem.f(x, VectorXd::Zero(1), k)(0); }, defaults);
  double accuracy = Ivp::kDefaultAccuracy;
  if (src.b(1, 2)) {
    accuracy = std::pow(10., -static_cast<double>(src.i(3, 8)));
    integral.get_mutable_integrator().set_target_accuracy(accuracy);
  }
  const int calls = static_cast<int>(src.i(1, 8));
  for (int call = 0; call < calls; ++call) {
    F::IntegrableFunctionContext given;
    if (src.b(1, 3)) given.v = static_cast<double>(src.i(-8, 8)) / 4.;
    if (src.b(1, 3)) given.k = problem.random_parameters(src);
    const double v = given.v.value_or(v0);
    const VectorXd k = given.k.value_or(k0);
    const double h = src.b(1, 8) ? 0. : src.real(0., 3.);
    const double u = v + h;
    NOTE("integral from " << v << " to " << u << ", k " << k.transpose());
    const VectorXd zero = VectorXd::Zero(1);
    const double expected = problem.solution(u, v, zero, k)(0);
    const double tolerance = Allowed(problem, accuracy, h, zero, k);
    const double got = integral.Evaluate(u, given);
    CHECK(std::abs(got - expected) <= tolerance, "integral-value", got << " instead of " << expected);
    if (h > 1e-6) {
      const auto dense = integral.MakeDenseEvalFunction(u, given);
      for (int i = 0; i < 3; ++i) {
        const double at = v + src.real(0., 1.) * (dense->end_time() - v);
        const double e = problem.solution(at, v, zero, k)(0);
        CHECK(std::abs(dense->EvaluateScalar(at) - e) <= tolerance, "integral-dense",
              dense->EvaluateScalar(at) << " instead of " << e << " at " << at);
      }
      CHECK(dense->start_time() == v && std::abs(dense->end_time() - u) <= 1e-12, "integral-dense-times", "");
    }
    MUST_THROW("integral-backwards", integral.Evaluate(v - 0.001 - src.real(0., 1.), given), "");
    if (call > 0) pbt::nontrivial();
  }
}

// An output made of steps, which are queued, taken back and consolidated.
PROBE(P38, stepwise_outputs, 15000, 400000) {
  using Step = HermitianDenseOutput<double>::IntegrationStep;
  const int size = static_cast<int>(src.i(1, 3));
  struct Knot {
    double t;
    MatrixXd x, d;
  };
  const auto values = [&] {
    MatrixXd m(size, 1);
    for (int i = 0; i < size; ++i) m(i, 0) = static_cast<double>(src.i(-8, 8)) / 2. + 0.25;
    return m;
  };
  HermitianDenseOutput<double> out;
  std::vector<Knot> solid;                 // what was consolidated
  std::vector<std::vector<Knot>> pending;  // the steps in the queue
  const double start = static_cast<double>(src.i(-8, 8)) / 2.;
  const auto last = [&]() -> Knot {
    if (!pending.empty()) return pending.back().back();
    if (!solid.empty()) return solid.back();
    return {start, values(), values()};
  };
  const auto make = [&](const std::vector<Knot>& knots) {
    Step s(knots[0].t, knots[0].x, knots[0].d);
    for (size_t i = 1; i < knots.size(); ++i) s.Extend(knots[i].t, knots[i].x, knots[i].d);
    return s;
  };
  const int n = static_cast<int>(src.i(1, 14));
  for (int op = 0; op < n; ++op) {
    switch (src.weighted({5, 2, 3, 2})) {
      case 0: {
        std::vector<Knot> knots{last()};
        const int more = static_cast<int>(src.i(1, 3));
        for (int i = 0; i < more; ++i)
          knots.push_back({knots.back().t + static_cast<double>(src.i(1, 8)) / 8., values(), values()});
        NOTE("update with a step from " << knots.front().t << " to " << knots.back().t);
        Step s = make(knots);
        CHECK(s.start_time() == knots.front().t && s.end_time() == knots.back().t && s.size() == size &&
                  s.get_times().size() == knots.size(),
              "step", "");
        MUST_THROW("step-backwards", s.Extend(knots.back().t, values(), values()), "");
        MUST_THROW("step-backwards", s.Extend(knots.front().t - 0.5, values(), values()), "");
        MUST_THROW("step-size", s.Extend(knots.back().t + 1., MatrixXd::Zero(size + 1, 1), values()), "");
        MUST_THROW("step-size", s.Extend(knots.back().t + 1., values(), MatrixXd::Zero(size + 1, 1)), "");
        MUST_THROW("step-size", s.Extend(knots.back().t + 1., MatrixXd::Zero(size, 2), MatrixXd::Zero(size, 2)), "");
        CHECK(s.get_times().size() == knots.size() && s.get_states().size() == knots.size() &&
                  s.get_state_derivatives().size() == knots.size(),
              "step-kept", "");
        out.Update(s);
        pending.push_back(knots);
        break;
      }
      case 1:
        NOTE("rollback");
        if (pending.empty()) {
          MUST_THROW("nothing-to-rollback", out.Rollback(), "");
        } else {
          out.Rollback();
          pending.pop_back();
        }
        break;
      case 2:
        NOTE("consolidate");
        if (pending.empty()) {
          MUST_THROW("nothing-to-consolidate", out.Consolidate(), "");
        } else {
          out.Consolidate();
          for (const auto& knots : pending)
            for (size_t i = solid.empty() ? 0 : 1; i < knots.size(); ++i) solid.push_back(knots[i]);
          pending.clear();
        }
        break;
      case 3: {
        NOTE("refused steps");
        const Knot k = last();
        MUST_THROW("step-of-no-length", out.Update(Step(k.t, k.x, k.d)), "");
        if (pending.empty() && solid.empty()) break;
        Knot next{k.t + 0.5, values(), values()};
        Knot first = k;
        switch (src.i(0, 3)) {
          case 0:
            first.t += src.b(1, 2) ? 0.01 : -0.01;
            break;
          case 1:
            first.x(static_cast<int>(src.idx(size)), 0) += 0.5;
            break;
          case 2:
            first.d(static_cast<int>(src.idx(size)), 0) -= 0.5;
            break;
          case 3:
            first.x = first.d = MatrixXd::Constant(size + 1, 1, 0.25);
            next.x = next.d = MatrixXd::Constant(size + 1, 1, 0.25);
            break;
        }
        MUST_THROW("discontinuous", out.Update(make({first, next})), "");
        break;
      }
    }
    CHECK(out.is_empty() == solid.empty(), "output-empty", out.is_empty());
    if (solid.empty()) {
      MUST_THROW("output-empty", out.Evaluate(start), "");
      MUST_THROW("output-empty", out.start_time(), "");
      MUST_THROW("output-empty", out.end_time(), "");
      MUST_THROW("output-empty", out.size(), "");
      continue;
    }
    CHECK(out.size() == size, "output-size", out.size());
    CHECK(out.start_time() == solid.front().t && out.end_time() == solid.back().t, "output-times",
          out.start_time() << " to " << out.end_time());
    MUST_THROW("output-range", out.Evaluate(out.end_time() + 0.01), "");
    MUST_THROW("output-range", out.Evaluate(out.start_time() - 0.01), "");
    const size_t i = src.idx(solid.size() - 1);
    const Knot &a = solid[i], &b = solid[i + 1];
    const double h = b.t - a.t;
    for (int k = 0; k <= 4; ++k) {
      const double s = k / 4.;
      const VectorXd v = out.Evaluate(k == 4 ? b.t : a.t + s * h);
      for (int j = 0; j < size; ++j) {
        const double e = (1 + 2 * s) * (1 - s) * (1 - s) * a.x(j, 0) + s * (1 - s) * (1 - s) * h * a.d(j, 0) +
                         s * s * (3 - 2 * s) * b.x(j, 0) + s * s * (s - 1) * h * b.d(j, 0);
        CHECK(std::abs(v(j) - e) <= 1e-9, "output-value", v(j) << " instead of " << e << " at " << a.t + s * h);
        CHECK(out.EvaluateNth(k == 4 ? b.t : a.t + s * h, j) == v(j), "output-nth", "");
      }
    }
    if (solid.size() > 2) pbt::nontrivial();
  }
}

}  // namespace
