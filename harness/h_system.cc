// P33 systems, their contexts and cached results, their events.
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include <Eigen/Core>

#include "maliput/drake/common/value.h"
#include "maliput/drake/systems/framework/basic_vector.h"
#include "maliput/drake/systems/framework/context.h"
#include "maliput/drake/systems/framework/leaf_system.h"
#include "maliput/drake/systems/framework/subvector.h"
#include "pbt.h"

namespace {

namespace sys = maliput::drake::systems;
using Eigen::VectorXd;
using maliput::drake::AbstractValue;
using maliput::drake::Value;
using sys::BasicVector;
using sys::Context;
using sys::ContextBase;
using sys::DependencyTicket;
using sys::State;
using Nums = std::vector<double>;
using Ints = std::vector<int>;

template <typename... A>
std::string Cat(const A&... a) {
  std::ostringstream os;
  ((os << a), ...);
  return os.str();
}

PBT_RULE(P33,
         "histories in which at least three results are evaluated after one of their sources changed and at least one "
         "is evaluated again unchanged; timelines with at least two periodic events; vectors of two elements or more");

// --- The sources a result may depend on.
enum Kind { kTime, kAcc, kQ, kV, kZ, kXd, kXa, kPn, kPa, kU };
using Atom = std::pair<int, int>;
using Atoms = std::set<Atom>;

enum TicketType {
  tTime,
  tAcc,
  tQ,
  tV,
  tZ,
  tXc,
  tXdi,
  tXd,
  tXai,
  tXa,
  tX,
  tPni,
  tPn,
  tPai,
  tPa,
  tP,
  tUi,
  tU,
  tAllButU,
  tAll,
  tConf,
  tKin,
  tNothing,
  tEntry,
  tXcdot,
  tPe,
  tKe,
  tPc,
  tPnc
};
struct Ticket {
  int type{tTime};
  int i{0};
};

struct Sizes {
  int nq{0}, nv{0}, nz{0};
  std::vector<Nums> xd;
  std::vector<Ints> xa;
  std::vector<Nums> pn;
  std::vector<Ints> pa;
  Nums xc;
  std::vector<int> ports;  // Size of a vector port, 0 for ports of abstract values.
};

// A result: a cache entry, an output port or one of the results every system has.
enum NodeKind { nEntry, nVectorOut, nAbstractOut, nXcdot, nPe, nKe, nPc, nPnc, nXcOut, nXdOut, nXaOut };
struct Node {
  NodeKind kind{nEntry};
  int index{0};  // Port or state.
  std::vector<Ticket> tickets;
  Atoms reads;            // What the computation reads.
  std::vector<int> refs;  // Other results it reads.
  Atoms closure;          // Everything it may depend on.
  bool defaulted{false};  // Prerequisites left unspecified.
};

struct Plan {
  Sizes s;
  std::vector<Node> nodes;
};

Atoms Of(int kind, int n) {
  Atoms a;
  for (int i = 0; i < n; ++i) a.insert({kind, i});
  return a;
}
Atoms Join(std::initializer_list<Atoms> all) {
  Atoms r;
  for (const auto& a : all) r.insert(a.begin(), a.end());
  return r;
}
const Atoms kOnlyTime{{kTime, 0}}, kOnlyAcc{{kAcc, 0}}, kXcAtoms{{kQ, 0}, {kV, 0}, {kZ, 0}};
Atoms AllX(const Sizes& s) {
  return Join({kXcAtoms, Of(kXd, static_cast<int>(s.xd.size())), Of(kXa, static_cast<int>(s.xa.size()))});
}
Atoms AllP(const Sizes& s) {
  return Join({Of(kPn, static_cast<int>(s.pn.size())), Of(kPa, static_cast<int>(s.pa.size()))});
}
Atoms AllU(const Sizes& s) { return Of(kU, static_cast<int>(s.ports.size())); }

// The sources a ticket stands for according to its documentation.
Atoms AtomsOf(const Ticket& t, const Sizes& s) {
  const Atoms xd = Of(kXd, static_cast<int>(s.xd.size())), xa = Of(kXa, static_cast<int>(s.xa.size()));
  switch (t.type) {
    case tTime:
      return kOnlyTime;
    case tAcc:
      return kOnlyAcc;
    case tQ:
      return {{kQ, 0}};
    case tV:
      return {{kV, 0}};
    case tZ:
      return {{kZ, 0}};
    case tXc:
      return kXcAtoms;
    case tXdi:
      return {{kXd, t.i}};
    case tXd:
      return xd;
    case tXai:
      return {{kXa, t.i}};
    case tXa:
      return xa;
    case tX:
      return AllX(s);
    case tPni:
      return {{kPn, t.i}};
    case tPn:
      return Of(kPn, static_cast<int>(s.pn.size()));
    case tPai:
      return {{kPa, t.i}};
    case tPa:
      return Of(kPa, static_cast<int>(s.pa.size()));
    case tP:
      return AllP(s);
    case tUi:
      return {{kU, t.i}};
    case tU:
      return AllU(s);
    case tAllButU:
      return Join({kOnlyTime, kOnlyAcc, AllX(s), AllP(s)});
    case tAll:
      return Join({kOnlyTime, kOnlyAcc, AllX(s), AllP(s), AllU(s)});
    case tConf:
      return Join({kOnlyAcc, {{kQ, 0}}, xd, xa, AllP(s)});
    case tKin:
      return Join({kOnlyAcc, {{kQ, 0}, {kV, 0}}, xd, xa, AllP(s)});
    default:
      return {};
  }
}

uint64_t Mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdull;
}
uint64_t Word(double v) { return static_cast<uint64_t>(static_cast<int64_t>(std::llround(v * 16.))); }
uint64_t Words(uint64_t h, const Nums& v) {
  h = Mix(h, v.size());
  for (double x : v) h = Mix(h, Word(x));
  return h;
}
uint64_t Words(uint64_t h, const Ints& v) {
  h = Mix(h, v.size() + 1000);
  for (int x : v) h = Mix(h, static_cast<uint64_t>(x + 5000));
  return h;
}
// Results are numbers a double represents exactly.
double Small(uint64_t h) { return static_cast<double>(h % 1000000007ull); }

Nums FromEigen(const VectorXd& v) { return Nums(v.data(), v.data() + v.size()); }
VectorXd ToEigen(const Nums& v) { return Eigen::Map<const VectorXd>(v.data(), static_cast<Eigen::Index>(v.size())); }

// --- What a context holds, as the model remembers it.
struct Shadow {
  double time{0.};
  std::optional<double> accuracy;
  Nums q, v, z;
  std::vector<Nums> xd, pn;
  std::vector<Ints> xa, pa;
  std::vector<std::optional<Nums>> u;
  std::vector<std::optional<Ints>> ua;

  uint64_t operator()(const Atom& a) const {
    const uint64_t h = 7777u + static_cast<uint64_t>(a.first) * 131u + static_cast<uint64_t>(a.second);
    const size_t i = static_cast<size_t>(a.second);
    switch (a.first) {
      case kTime:
        return Mix(h, Word(time));
      case kAcc:
        return Mix(h, accuracy ? Word(*accuracy) : 987654321u);
      case kQ:
        return Words(h, q);
      case kV:
        return Words(h, v);
      case kZ:
        return Words(h, z);
      case kXd:
        return Words(h, xd[i]);
      case kXa:
        return Words(h, xa[i]);
      case kPn:
        return Words(h, pn[i]);
      case kPa:
        return Words(h, pa[i]);
      default:
        if (u[i]) return Words(h, *u[i]);
        if (ua[i]) return Words(h, *ua[i]);
        return Mix(h, 424242u);
    }
  }
};

class Gen : public sys::LeafSystem<double> {
 public:
  explicit Gen(Plan* plan) : plan_(*plan) {
    const Sizes& s = plan_.s;
    if (s.nq + s.nv + s.nz > 0) DeclareContinuousState(BasicVector<double>(ToEigen(s.xc)), s.nq, s.nv, s.nz);
    for (const auto& g : s.xd) DeclareDiscreteState(BasicVector<double>(ToEigen(g)));
    for (const auto& g : s.xa) DeclareAbstractState(Value<Ints>(g));
    for (const auto& g : s.pn) DeclareNumericParameter(BasicVector<double>(ToEigen(g)));
    for (const auto& g : s.pa) DeclareAbstractParameter(Value<Ints>(g));
    for (size_t j = 0; j < s.ports.size(); ++j) {
      if (s.ports[j] > 0)
        DeclareVectorInputPort("in" + std::to_string(j), s.ports[j]);
      else
        DeclareAbstractInputPort("in" + std::to_string(j), Value<Ints>());
    }
    cache_.assign(plan_.nodes.size(), sys::CacheIndex{});
    for (size_t k = 0; k < plan_.nodes.size(); ++k) {
      Node& n = plan_.nodes[k];
      std::set<DependencyTicket> tickets;
      for (const Ticket& t : n.tickets) tickets.insert(Of(t));
      if (n.kind == nEntry) {
        auto make = []() -> std::unique_ptr<AbstractValue> { return std::make_unique<Value<int64_t>>(0); };
        auto calc = [this, k](const ContextBase& base, AbstractValue* value) {
          value->set_value<int64_t>(
              static_cast<int64_t>(Compute(static_cast<int>(k), dynamic_cast<const Context<double>&>(base))));
        };
        if (n.defaulted)
          cache_[k] = DeclareCacheEntry("e" + std::to_string(k), sys::ValueProducer(make, calc)).cache_index();
        else
          cache_[k] = DeclareCacheEntry("e" + std::to_string(k), sys::ValueProducer(make, calc), tickets).cache_index();
      } else if (n.kind == nVectorOut) {
        auto calc = [this, k](const Context<double>& c, BasicVector<double>* out) {
          out->SetAtIndex(0, Small(Compute(static_cast<int>(k), c)));
        };
        auto& port = n.defaulted
                         ? DeclareVectorOutputPort("y" + std::to_string(k), BasicVector<double>(1), calc)
                         : DeclareVectorOutputPort("y" + std::to_string(k), BasicVector<double>(1), calc, tickets);
        n.index = port.get_index();
      } else if (n.kind == nAbstractOut) {
        auto make = []() -> std::unique_ptr<AbstractValue> { return std::make_unique<Value<int64_t>>(0); };
        auto calc = [this, k](const Context<double>& c, AbstractValue* out) {
          out->set_value<int64_t>(static_cast<int64_t>(Compute(static_cast<int>(k), c)));
        };
        auto& port = n.defaulted ? DeclareAbstractOutputPort("y" + std::to_string(k), make, calc)
                                 : DeclareAbstractOutputPort("y" + std::to_string(k), make, calc, tickets);
        n.index = port.get_index();
      } else if (n.kind == nXcOut) {
        ports_[k] = DeclareStateOutputPort("xc", sys::ContinuousStateIndex(0)).get_index();
      } else if (n.kind == nXdOut) {
        ports_[k] = DeclareStateOutputPort("xd" + std::to_string(k), sys::DiscreteStateIndex(n.index)).get_index();
      } else if (n.kind == nXaOut) {
        ports_[k] = DeclareStateOutputPort("xa" + std::to_string(k), sys::AbstractStateIndex(n.index)).get_index();
      }
    }
    counts.assign(plan_.nodes.size(), 0);
    *plan = plan_;
  }

  const sys::CacheEntry& entry(int k) const { return get_cache_entry(cache_[static_cast<size_t>(k)]); }
  int port_of(int k) const {
    const auto it = ports_.find(static_cast<size_t>(k));
    return it == ports_.end() ? plan_.nodes[static_cast<size_t>(k)].index : it->second;
  }

  // The value of a result as a hash; whatever way it is asked for.
  uint64_t Get(int k, const Context<double>& c) const {
    const Node& n = plan_.nodes[static_cast<size_t>(k)];
    switch (n.kind) {
      case nEntry:
        return static_cast<uint64_t>(entry(k).Eval<int64_t>(c));
      case nVectorOut:
        return static_cast<uint64_t>(get_output_port(n.index).Eval(c)[0]);
      case nAbstractOut:
        return static_cast<uint64_t>(get_output_port(n.index).Eval<int64_t>(c));
      case nXcdot:
        return Words(1, FromEigen(EvalTimeDerivatives(c).CopyToVector()));
      case nPe:
        return static_cast<uint64_t>(EvalPotentialEnergy(c));
      case nKe:
        return static_cast<uint64_t>(EvalKineticEnergy(c));
      case nPc:
        return static_cast<uint64_t>(EvalConservativePower(c));
      case nPnc:
        return static_cast<uint64_t>(EvalNonConservativePower(c));
      case nXcOut:
      case nXdOut:
        return Words(2, FromEigen(get_output_port(port_of(k)).Eval(c)));
      default:
        return Words(3, get_output_port(port_of(k)).Eval<Ints>(c));
    }
  }

  uint64_t FromContext(const Atom& a, const Context<double>& c) const {
    const uint64_t h = 7777u + static_cast<uint64_t>(a.first) * 131u + static_cast<uint64_t>(a.second);
    switch (a.first) {
      case kTime:
        return Mix(h, Word(c.get_time()));
      case kAcc:
        return Mix(h, c.get_accuracy() ? Word(*c.get_accuracy()) : 987654321u);
      case kQ:
        return Words(h, FromEigen(c.get_continuous_state().get_generalized_position().CopyToVector()));
      case kV:
        return Words(h, FromEigen(c.get_continuous_state().get_generalized_velocity().CopyToVector()));
      case kZ:
        return Words(h, FromEigen(c.get_continuous_state().get_misc_continuous_state().CopyToVector()));
      case kXd:
        return Words(h, FromEigen(c.get_discrete_state(a.second).CopyToVector()));
      case kXa:
        return Words(h, c.get_abstract_state<Ints>(a.second));
      case kPn:
        return Words(h, FromEigen(c.get_numeric_parameter(a.second).CopyToVector()));
      case kPa:
        return Words(h, c.get_abstract_parameter(a.second).get_value<Ints>());
      default: {
        const auto& port = get_input_port(a.second);
        if (!port.HasValue(c)) return Mix(h, 424242u);
        if (plan_.s.ports[static_cast<size_t>(a.second)] > 0) return Words(h, FromEigen(port.Eval(c)));
        return Words(h, port.Eval<Ints>(c));
      }
    }
  }

  mutable std::vector<int> counts;

 private:
  using sys::LeafSystem<double>::DeclareContinuousState;

  uint64_t Compute(int k, const Context<double>& c) const {
    ++counts[static_cast<size_t>(k)];
    const Node& n = plan_.nodes[static_cast<size_t>(k)];
    uint64_t h = static_cast<uint64_t>(k) + 1;
    for (const Atom& a : n.reads) h = Mix(h, FromContext(a, c));
    for (int r : n.refs) h = Mix(h, Get(r, c));
    return h;
  }
  int Find(NodeKind kind) const {
    for (size_t k = 0; k < plan_.nodes.size(); ++k)
      if (plan_.nodes[k].kind == kind) return static_cast<int>(k);
    return -1;
  }
  void DoCalcTimeDerivatives(const Context<double>& c, sys::ContinuousState<double>* d) const override {
    const uint64_t h = Compute(Find(nXcdot), c);
    VectorXd v(d->size());
    for (int i = 0; i < d->size(); ++i) v[i] = Small(h + static_cast<uint64_t>(i));
    d->SetFromVector(v);
  }
  double DoCalcPotentialEnergy(const Context<double>& c) const override { return Small(Compute(Find(nPe), c)); }
  double DoCalcKineticEnergy(const Context<double>& c) const override { return Small(Compute(Find(nKe), c)); }
  double DoCalcConservativePower(const Context<double>& c) const override { return Small(Compute(Find(nPc), c)); }
  double DoCalcNonConservativePower(const Context<double>& c) const override { return Small(Compute(Find(nPnc), c)); }

  DependencyTicket Of(const Ticket& t) const {
    switch (t.type) {
      case tTime:
        return time_ticket();
      case tAcc:
        return accuracy_ticket();
      case tQ:
        return q_ticket();
      case tV:
        return v_ticket();
      case tZ:
        return z_ticket();
      case tXc:
        return xc_ticket();
      case tXdi:
        return discrete_state_ticket(sys::DiscreteStateIndex(t.i));
      case tXd:
        return xd_ticket();
      case tXai:
        return abstract_state_ticket(sys::AbstractStateIndex(t.i));
      case tXa:
        return xa_ticket();
      case tX:
        return all_state_ticket();
      case tPni:
        return numeric_parameter_ticket(sys::NumericParameterIndex(t.i));
      case tPn:
        return pn_ticket();
      case tPai:
        return abstract_parameter_ticket(sys::AbstractParameterIndex(t.i));
      case tPa:
        return pa_ticket();
      case tP:
        return all_parameters_ticket();
      case tUi:
        return input_port_ticket(sys::InputPortIndex(t.i));
      case tU:
        return all_input_ports_ticket();
      case tAllButU:
        return all_sources_except_input_ports_ticket();
      case tAll:
        return all_sources_ticket();
      case tConf:
        return configuration_ticket();
      case tKin:
        return kinematics_ticket();
      case tNothing:
        return nothing_ticket();
      case tEntry:
        return cache_entry_ticket(cache_[static_cast<size_t>(t.i)]);
      case tXcdot:
        return xcdot_ticket();
      case tPe:
        return pe_ticket();
      case tKe:
        return ke_ticket();
      case tPc:
        return pc_ticket();
      default:
        return pnc_ticket();
    }
  }

  Plan plan_;
  std::vector<sys::CacheIndex> cache_;
  std::map<size_t, int> ports_;
};

// The same value from the model.
uint64_t Expected(const Plan& plan, int k, const Shadow& sh) {
  const Node& n = plan.nodes[static_cast<size_t>(k)];
  if (n.kind == nXcOut) {
    Nums xc = sh.q;
    xc.insert(xc.end(), sh.v.begin(), sh.v.end());
    xc.insert(xc.end(), sh.z.begin(), sh.z.end());
    return Words(2, xc);
  }
  if (n.kind == nXdOut) return Words(2, sh.xd[static_cast<size_t>(n.index)]);
  if (n.kind == nXaOut) return Words(3, sh.xa[static_cast<size_t>(n.index)]);
  uint64_t h = static_cast<uint64_t>(k) + 1;
  for (const Atom& a : n.reads) h = Mix(h, sh(a));
  for (int r : n.refs) h = Mix(h, Expected(plan, r, sh));
  if (n.kind == nEntry || n.kind == nAbstractOut) return h;
  if (n.kind == nXcdot) {
    Nums v;
    for (int i = 0; i < plan.s.nq + plan.s.nv + plan.s.nz; ++i) v.push_back(Small(h + static_cast<uint64_t>(i)));
    return Words(1, v);
  }
  return static_cast<uint64_t>(Small(h));
}

double Num(pbt::Src& src) { return static_cast<double>(src.i(-40, 40)) / 4.; }
Nums NumsOf(pbt::Src& src, size_t n) {
  Nums v(n);
  for (double& x : v) x = Num(src);
  return v;
}
Ints IntsOf(pbt::Src& src) {
  Ints v(static_cast<size_t>(src.i(0, 3)));
  for (int& x : v) x = src.i(-9, 9);
  return v;
}

Plan MakePlan(pbt::Src& src) {
  Plan p;
  Sizes& s = p.s;
  s.nq = src.i(0, 2);
  s.nv = src.i(0, s.nq);
  s.nz = src.i(0, 2);
  s.xc = NumsOf(src, static_cast<size_t>(s.nq + s.nv + s.nz));
  for (int i = src.i(0, 3); i > 0; --i) s.xd.push_back(NumsOf(src, static_cast<size_t>(src.i(1, 2))));
  for (int i = src.i(0, 2); i > 0; --i) s.xa.push_back(IntsOf(src));
  for (int i = src.i(0, 2); i > 0; --i) s.pn.push_back(NumsOf(src, static_cast<size_t>(src.i(1, 2))));
  for (int i = src.i(0, 2); i > 0; --i) s.pa.push_back(IntsOf(src));
  for (int i = src.i(0, 3); i > 0; --i) s.ports.push_back(src.i(0, 2));

  auto close = [&](Node* n) {
    n->closure = n->reads;
    for (const Ticket& t : n->tickets) {
      // The ticket of configurations may notify more than documented.
      if (t.type == tConf || t.type == tKin) n->closure.insert({kZ, 0});
    }
    for (int r : n->refs) {
      const Atoms& more = p.nodes[static_cast<size_t>(r)].closure;
      n->closure.insert(more.begin(), more.end());
    }
  };
  // The results every system has.
  const Atoms energy = Join({kOnlyAcc, AllX(s), AllP(s)});
  for (NodeKind kind : {nXcdot, nPe, nKe, nPc, nPnc}) {
    Node n;
    n.kind = kind;
    n.reads = (kind == nXcdot || kind == nPnc) ? AtomsOf({tAll, 0}, s) : energy;
    close(&n);
    p.nodes.push_back(n);
  }
  std::vector<int> entries;
  const int count = src.i(2, 7);
  for (int k = 0; k < count; ++k) {
    Node n;
    n.kind = src.weighted({5, 1, 1}) == 0 ? nEntry : (src.b(1, 2) ? nVectorOut : nAbstractOut);
    std::vector<Ticket> choices{{tTime, 0}, {tAcc, 0},     {tQ, 0},   {tV, 0},    {tZ, 0},  {tXc, 0},
                                {tXd, 0},   {tXa, 0},      {tX, 0},   {tPn, 0},   {tPa, 0}, {tP, 0},
                                {tU, 0},    {tAllButU, 0}, {tAll, 0}, {tConf, 0}, {tKin, 0}};
    for (size_t i = 0; i < s.xd.size(); ++i) choices.push_back({tXdi, static_cast<int>(i)});
    for (size_t i = 0; i < s.xa.size(); ++i) choices.push_back({tXai, static_cast<int>(i)});
    for (size_t i = 0; i < s.pn.size(); ++i) choices.push_back({tPni, static_cast<int>(i)});
    for (size_t i = 0; i < s.pa.size(); ++i) choices.push_back({tPai, static_cast<int>(i)});
    for (size_t i = 0; i < s.ports.size(); ++i) choices.push_back({tUi, static_cast<int>(i)});
    std::vector<Ticket> others{{tXcdot, 0}, {tPe, 1}, {tKe, 2}, {tPc, 3}, {tPnc, 4}};
    for (int e : entries)
      for (int twice = 0; twice < 3; ++twice) others.push_back({tEntry, e});
    if (src.b(1, 12)) {
      n.defaulted = true;
      n.tickets.push_back({tAll, 0});
    } else if (src.b(1, 25)) {
      n.tickets.push_back({tNothing, 0});
    } else {
      for (int i = src.i(1, 3); i > 0; --i) {
        const Ticket t = src.b(1, 3) ? src.pick(others) : src.pick(choices);
        bool known = false;
        for (const Ticket& o : n.tickets) known = known || (o.type == t.type && o.i == t.i);
        if (!known) n.tickets.push_back(t);
      }
      if (n.tickets.empty()) n.tickets.push_back({tTime, 0});
    }
    for (const Ticket& t : n.tickets) {
      const Atoms a = AtomsOf(t, s);
      n.reads.insert(a.begin(), a.end());
      if (t.type >= tEntry) n.refs.push_back(t.i);
    }
    close(&n);
    if (n.kind == nEntry) entries.push_back(static_cast<int>(p.nodes.size()));
    p.nodes.push_back(n);
  }
  if (!s.xc.empty() && src.b(1, 2)) {
    Node n;
    n.kind = nXcOut;
    n.reads = n.closure = kXcAtoms;
    p.nodes.push_back(n);
  }
  if (!s.xd.empty() && src.b(1, 2)) {
    Node n;
    n.kind = nXdOut;
    n.index = src.i(0, static_cast<int>(s.xd.size()) - 1);
    n.reads = n.closure = {{kXd, n.index}};
    p.nodes.push_back(n);
  }
  if (!s.xa.empty() && src.b(1, 2)) {
    Node n;
    n.kind = nXaOut;
    n.index = src.i(0, static_cast<int>(s.xa.size()) - 1);
    n.reads = n.closure = {{kXa, n.index}};
    p.nodes.push_back(n);
  }
  return p;
}

struct Ctx {
  std::unique_ptr<Context<double>> c;
  Shadow sh;
  std::vector<bool> valid;     // Known to be up to date.
  std::vector<bool> must;      // The next evaluation has to compute.
  std::vector<bool> disabled;  // Caching is off.
  bool frozen{false};
  int id{0};
};

void CheckContents(const Plan& plan, const Gen& gen, const Ctx& ctx, const char* when) {
  Atoms all = AtomsOf({tAll, 0}, plan.s);
  for (const Atom& a : all) {
    CHECK(gen.FromContext(a, *ctx.c) == ctx.sh(a), "contents",
          Cat("context ", ctx.id, " does not hold what was set for source ", a.first, "/", a.second, " ", when));
  }
}

void RunContexts(pbt::Src& src) {
  Plan plan = MakePlan(src);
  Gen gen(&plan);
  const Sizes& s = plan.s;
  const size_t n = plan.nodes.size();

  // Feedthrough follows from the declared prerequisites.
  if (!s.ports.empty()) {
    const auto through = gen.GetDirectFeedthroughs();
    bool any = false;
    for (size_t k = 0; k < n; ++k) {
      const Node& node = plan.nodes[k];
      if (node.kind != nVectorOut && node.kind != nAbstractOut && node.kind < nXcOut) continue;
      bool any_in = false;
      const int out = gen.port_of(static_cast<int>(k));
      for (int j = 0; j < static_cast<int>(s.ports.size()); ++j) {
        const bool expected = node.closure.count({kU, j}) > 0;
        any_in = any_in || expected;
        int found = 0;
        for (auto [it, end] = through.equal_range(j); it != end; ++it) found += it->second == out ? 1 : 0;
        CHECK(found == (expected ? 1 : 0), "feedthrough",
              Cat("input ", j, " to output ", out, " reported ", found, " times, expected ", expected));
        CHECK(gen.HasDirectFeedthrough(j, out) == expected, "feedthrough", Cat("HasDirectFeedthrough ", j, out));
      }
      CHECK(gen.HasDirectFeedthrough(out) == any_in, "feedthrough", Cat("HasDirectFeedthrough ", out));
      any = any || any_in;
    }
    CHECK(gen.HasAnyDirectFeedthrough() == any, "feedthrough", "HasAnyDirectFeedthrough");
  }

  std::vector<Ctx> all(1);
  all[0].c = gen.CreateDefaultContext();
  all[0].valid.assign(n, false);
  all[0].must.assign(n, false);
  all[0].disabled.assign(n, false);
  auto defaults = [&](Shadow* sh) {
    sh->q.assign(s.xc.begin(), s.xc.begin() + s.nq);
    sh->v.assign(s.xc.begin() + s.nq, s.xc.begin() + s.nq + s.nv);
    sh->z.assign(s.xc.begin() + s.nq + s.nv, s.xc.end());
    sh->xd = s.xd;
    sh->xa = s.xa;
    sh->pn = s.pn;
    sh->pa = s.pa;
  };
  defaults(&all[0].sh);
  all[0].sh.u.resize(s.ports.size());
  all[0].sh.ua.resize(s.ports.size());
  CheckContents(plan, gen, all[0], "by default");

  int fresh = 0, cached = 0, next_id = 1;
  auto touch = [&](Ctx* ctx, const Atoms& atoms) {
    for (size_t k = 0; k < n; ++k)
      for (const Atom& a : atoms)
        if (plan.nodes[k].closure.count(a)) ctx->valid[k] = false;
  };
  auto eval = [&](Ctx* ctx, int k) {
    const size_t ks = static_cast<size_t>(k);
    const bool is_state_port = plan.nodes[ks].kind >= nXcOut;
    const std::vector<int> before = gen.counts;
    const std::vector<bool> valid = ctx->valid;
    uint64_t got = 0;
    bool threw = false;
    try {
      got = gen.Get(k, *ctx->c);
    } catch (const std::exception& e) {
      threw = true;
      CHECK(ctx->frozen, "eval-throws", Cat("result ", k, " of context ", ctx->id, ": ", e.what()));
      CHECK(!valid[ks] || ctx->disabled[ks], "frozen-throws",
            Cat("result ", k, " is up to date, but can not be read: ", e.what()));
    }
    if (ctx->frozen) {
      CHECK(threw || (!ctx->must[ks] && !ctx->disabled[ks]) || is_state_port, "frozen-computes",
            Cat("result ", k, " of context ", ctx->id, " was computed while frozen"));
      for (size_t j = 0; j < n; ++j)
        CHECK(gen.counts[j] == before[j], "frozen-computes",
              Cat("result ", j, " of context ", ctx->id, " was computed while frozen"));
    }
    if (threw) return;
    CHECK(got == Expected(plan, k, ctx->sh), "stale",
          Cat("result ", k, " (kind ", int(plan.nodes[ks].kind), ") of context ", ctx->id, " is not current; ",
              valid[ks] ? "nothing it depends on changed" : "its sources changed"));
    if (valid[ks])
      ++cached;
    else
      ++fresh;
    if (!is_state_port) {
      const int times = gen.counts[ks] - before[ks];
      if (ctx->disabled[ks] || ctx->must[ks])
        CHECK(times >= 1, "not-recomputed", Cat("result ", k, " of context ", ctx->id, " had to be computed"));
      for (size_t j = 0; j < n; ++j) {
        if (ctx->disabled[j]) continue;
        const int most = valid[j] ? 0 : 1;
        CHECK(gen.counts[j] - before[j] <= most, "recomputed",
              Cat("reading result ", k, " of context ", ctx->id, " computed result ", j, " ", gen.counts[j] - before[j],
                  " times, at most ", most, " is needed"));
      }
    }
    ctx->valid[ks] = true;
    ctx->must[ks] = false;
    for (size_t j = 0; j < n; ++j) {
      if (gen.counts[j] == before[j]) continue;
      ctx->valid[j] = true;
      ctx->must[j] = false;
      for (int r : plan.nodes[j].refs) ctx->valid[static_cast<size_t>(r)] = true;
    }
  };
  const bool has_xc = !s.xc.empty();
  auto set_xc = [&](Ctx* ctx, const Nums& xc) {
    ctx->sh.q.assign(xc.begin(), xc.begin() + s.nq);
    ctx->sh.v.assign(xc.begin() + s.nq, xc.begin() + s.nq + s.nv);
    ctx->sh.z.assign(xc.begin() + s.nq + s.nv, xc.end());
  };
  auto copy_state = [&](const Shadow& from, Shadow* to) {
    to->q = from.q;
    to->v = from.v;
    to->z = from.z;
    to->xd = from.xd;
    to->xa = from.xa;
  };

  const int steps = src.i(6, 40);
  for (int step = 0; step < steps; ++step) {
    Ctx* ctx = &all[src.idx(all.size())];
    Context<double>& c = *ctx->c;
    Shadow& sh = ctx->sh;
    const Atoms ticks = kOnlyTime;
    switch (src.weighted({12, 2, 1, 2, 2, 2, 2, 2, 3, 2, 3, 3, 5, 2, 1, 2, 1, 1, 1, 1, 1, 2, 1})) {
      case 0: {
        for (int i = src.i(1, static_cast<int>(n)); i > 0; --i) eval(ctx, src.i(0, static_cast<int>(n) - 1));
        break;
      }
      case 1:
        sh.time = Num(src);
        c.SetTime(sh.time);
        touch(ctx, ticks);
        break;
      case 2:
        sh.time = Num(src);
        c.PerturbTime(sh.time, sh.time + 1.);
        CHECK(c.get_true_time() == sh.time + 1., "true-time", "the true time got lost");
        touch(ctx, ticks);
        break;
      case 3:
        sh.accuracy = src.b(1, 4) ? std::nullopt : std::optional<double>(src.i(1, 60) / 16.);
        c.SetAccuracy(sh.accuracy);
        touch(ctx, kOnlyAcc);
        break;
      case 4: {
        if (!has_xc) break;
        const Nums xc = NumsOf(src, s.xc.size());
        switch (src.i(0, 2)) {
          case 0:
            c.SetContinuousState(ToEigen(xc));
            break;
          case 1:
            c.get_mutable_continuous_state_vector().SetFromVector(ToEigen(xc));
            break;
          default:
            c.get_mutable_continuous_state().SetFromVector(ToEigen(xc));
        }
        set_xc(ctx, xc);
        touch(ctx, kXcAtoms);
        break;
      }
      case 5: {
        const Nums xc = NumsOf(src, s.xc.size());
        sh.time = Num(src);
        switch (src.i(0, 2)) {
          case 0:
            c.SetTimeAndContinuousState(sh.time, ToEigen(xc));
            break;
          case 1:
            c.SetTimeAndGetMutableContinuousStateVector(sh.time).SetFromVector(ToEigen(xc));
            break;
          default: {
            auto& held = c.get_mutable_continuous_state_vector();
            c.SetTimeAndNoteContinuousStateChange(sh.time);
            held.SetFromVector(ToEigen(xc));
            // Written again later: announced on its own.
            if (src.b(1, 2)) {
              set_xc(ctx, xc);
              touch(ctx, Join({ticks, kXcAtoms}));
              eval(ctx, src.i(0, static_cast<int>(n) - 1));
              c.NoteContinuousStateChange();
              held.SetFromVector(ToEigen(xc));
            }
          }
        }
        set_xc(ctx, xc);
        touch(ctx, Join({ticks, kXcAtoms}));
        break;
      }
      case 6: {
        sh.q = NumsOf(src, sh.q.size());
        sh.time = Num(src);
        c.SetTimeAndGetMutableQVector(sh.time).SetFromVector(ToEigen(sh.q));
        touch(ctx, Join({ticks, {{kQ, 0}}}));
        break;
      }
      case 7: {
        sh.v = NumsOf(src, sh.v.size());
        sh.z = NumsOf(src, sh.z.size());
        auto [v, z] = c.GetMutableVZVectors();
        v->SetFromVector(ToEigen(sh.v));
        z->SetFromVector(ToEigen(sh.z));
        touch(ctx, {{kV, 0}, {kZ, 0}});
        break;
      }
      case 8: {
        if (s.xd.empty()) break;
        const size_t g = src.idx(s.xd.size());
        sh.xd[g] = NumsOf(src, sh.xd[g].size());
        switch (src.i(0, 3)) {
          case 0:
            c.SetDiscreteState(static_cast<int>(g), ToEigen(sh.xd[g]));
            break;
          case 1:
            c.get_mutable_discrete_state(static_cast<int>(g)).SetFromVector(ToEigen(sh.xd[g]));
            break;
          case 2:
            if (s.xd.size() == 1) {
              if (src.b(1, 2))
                c.SetDiscreteState(ToEigen(sh.xd[g]));
              else
                c.get_mutable_discrete_state_vector().SetFromVector(ToEigen(sh.xd[g]));
            } else {
              MUST_THROW("one-group", c.SetDiscreteState(ToEigen(sh.xd[g])), "there are several groups");
              c.SetDiscreteState(static_cast<int>(g), ToEigen(sh.xd[g]));
            }
            break;
          default:
            c.get_mutable_discrete_state().set_value(static_cast<int>(g), ToEigen(sh.xd[g]));
        }
        touch(ctx, AtomsOf({tXd, 0}, s));
        break;
      }
      case 9: {
        if (s.xa.empty()) break;
        const size_t g = src.idx(s.xa.size());
        sh.xa[g] = IntsOf(src);
        switch (src.i(0, 2)) {
          case 0:
            c.SetAbstractState(static_cast<int>(g), sh.xa[g]);
            break;
          case 1:
            c.get_mutable_abstract_state<Ints>(static_cast<int>(g)) = sh.xa[g];
            break;
          default:
            c.get_mutable_abstract_state().get_mutable_value(static_cast<int>(g)).set_value<Ints>(sh.xa[g]);
        }
        touch(ctx, AtomsOf({tXa, 0}, s));
        break;
      }
      case 10: {
        if (s.pn.empty()) break;
        const size_t g = src.idx(s.pn.size());
        sh.pn[g] = NumsOf(src, sh.pn[g].size());
        if (src.b(1, 2)) {
          c.get_mutable_numeric_parameter(static_cast<int>(g)).SetFromVector(ToEigen(sh.pn[g]));
          touch(ctx, AtomsOf({tPn, 0}, s));
        } else {
          c.get_mutable_parameters()
              .get_mutable_numeric_parameter(static_cast<int>(g))
              .SetFromVector(ToEigen(sh.pn[g]));
          touch(ctx, AllP(s));
        }
        break;
      }
      case 11: {
        if (s.pa.empty()) break;
        const size_t g = src.idx(s.pa.size());
        sh.pa[g] = IntsOf(src);
        if (src.b(1, 2)) {
          c.get_mutable_abstract_parameter(static_cast<int>(g)).set_value<Ints>(sh.pa[g]);
          touch(ctx, AtomsOf({tPa, 0}, s));
        } else {
          c.get_mutable_parameters().get_mutable_abstract_parameter(static_cast<int>(g)).set_value<Ints>(sh.pa[g]);
          touch(ctx, AllP(s));
        }
        break;
      }
      case 12: {
        if (s.ports.empty()) break;
        const size_t j = src.idx(s.ports.size());
        const auto& port = gen.get_input_port(static_cast<int>(j));
        auto* fixed = c.MaybeGetMutableFixedInputPortValue(static_cast<int>(j));
        CHECK((fixed != nullptr) == (sh.u[j] || sh.ua[j]), "fixed", "a fixed value got lost");
        if (s.ports[j] > 0) {
          sh.u[j] = NumsOf(src, static_cast<size_t>(s.ports[j]));
          if (fixed != nullptr && src.b(2, 3))
            fixed->GetMutableVectorData<double>()->SetFromVector(ToEigen(*sh.u[j]));
          else if (src.b(1, 2))
            port.FixValue(&c, ToEigen(*sh.u[j]));
          else
            c.FixInputPort(static_cast<int>(j), Value<BasicVector<double>>(BasicVector<double>(ToEigen(*sh.u[j]))));
        } else {
          sh.ua[j] = IntsOf(src);
          if (fixed != nullptr && src.b(2, 3))
            fixed->GetMutableData()->set_value<Ints>(*sh.ua[j]);
          else if (src.b(1, 2))
            port.FixValue(&c, *sh.ua[j]);
          else
            c.FixInputPort(static_cast<int>(j), Value<Ints>(*sh.ua[j]));
        }
        touch(ctx, {{kU, static_cast<int>(j)}});
        break;
      }
      case 13: {
        if (all.size() >= 3) break;
        Ctx copy;
        copy.c = c.Clone();
        copy.sh = sh;
        copy.valid.assign(n, false);
        copy.must.assign(n, false);
        copy.disabled.assign(n, false);
        copy.id = next_id++;
        copy.c->EnableCaching();
        copy.c->UnfreezeCache();
        all.push_back(std::move(copy));
        break;
      }
      case 14: {
        if (all.size() < 2) break;
        all.erase(all.begin() + static_cast<int>(src.idx(all.size())));
        break;
      }
      case 15: {
        Ctx* from = &all[src.idx(all.size())];
        if (from == ctx) break;
        switch (src.i(0, 3)) {
          case 0:
            c.SetStateAndParametersFrom(*from->c);
            copy_state(from->sh, &sh);
            sh.pn = from->sh.pn;
            sh.pa = from->sh.pa;
            touch(ctx, Join({AllX(s), AllP(s)}));
            break;
          case 1:
            c.SetTimeStateAndParametersFrom(*from->c);
            copy_state(from->sh, &sh);
            sh.pn = from->sh.pn;
            sh.pa = from->sh.pa;
            sh.time = from->sh.time;
            sh.accuracy = from->sh.accuracy;
            touch(ctx, AtomsOf({tAllButU, 0}, s));
            break;
          case 2: {
            const auto state = from->c->CloneState();
            c.get_mutable_state().SetFrom(*state);
            copy_state(from->sh, &sh);
            touch(ctx, AllX(s));
            break;
          }
          default:
            gen.FixInputPortsFrom(gen, *from->c, &c);
            for (size_t j = 0; j < s.ports.size(); ++j) {
              if (from->sh.u[j]) sh.u[j] = from->sh.u[j];
              if (from->sh.ua[j]) sh.ua[j] = from->sh.ua[j];
            }
            touch(ctx, AllU(s));
        }
        break;
      }
      case 16:
        if (src.b(1, 2)) {
          c.DisableCaching();
          ctx->disabled.assign(n, true);
        } else {
          c.EnableCaching();
          ctx->disabled.assign(n, false);
        }
        break;
      case 17: {
        const int k = src.i(0, static_cast<int>(n) - 1);
        if (plan.nodes[static_cast<size_t>(k)].kind != nEntry) break;
        const bool off = src.b(1, 2);
        if (off)
          gen.entry(k).disable_caching(c);
        else
          gen.entry(k).enable_caching(c);
        ctx->disabled[static_cast<size_t>(k)] = off;
        CHECK(gen.entry(k).is_cache_entry_disabled(c) == off, "disabled", "is_cache_entry_disabled");
        break;
      }
      case 18:
        c.SetAllCacheEntriesOutOfDate();
        ctx->valid.assign(n, false);
        ctx->must.assign(n, true);
        break;
      case 19: {
        if (ctx->frozen)
          c.UnfreezeCache();
        else
          c.FreezeCache();
        ctx->frozen = !ctx->frozen;
        CHECK(c.is_cache_frozen() == ctx->frozen, "frozen", "is_cache_frozen");
        break;
      }
      case 20: {
        gen.SetDefaultContext(&c);
        defaults(&sh);
        sh.time = c.get_time();
        touch(ctx, AtomsOf({tAllButU, 0}, s));
        break;
      }
      case 21: {
        const int k = src.i(0, static_cast<int>(n) - 1);
        if (plan.nodes[static_cast<size_t>(k)].kind != nEntry) break;
        if (ctx->valid[static_cast<size_t>(k)]) {
          CHECK(!gen.entry(k).is_out_of_date(c), "is-out-of-date", Cat("result ", k, " is known to be current"));
          CHECK(static_cast<uint64_t>(gen.entry(k).GetKnownUpToDate<int64_t>(c)) == Expected(plan, k, sh), "stale",
                Cat("GetKnownUpToDate of result ", k, " is not current"));
        } else if (!gen.entry(k).is_out_of_date(c)) {
          CHECK(static_cast<uint64_t>(gen.entry(k).GetKnownUpToDate<int64_t>(c)) == Expected(plan, k, sh), "stale",
                Cat("result ", k, " claims to be up to date, but is not"));
        } else {
          MUST_THROW("out-of-date", gen.entry(k).GetKnownUpToDate<int64_t>(c), "the value is out of date");
        }
        break;
      }
      default: {
        // A computation which does not go through the cache.
        const int k = src.i(0, static_cast<int>(n) - 1);
        if (ctx->frozen) break;
        const std::vector<int> before = gen.counts;
        if (plan.nodes[static_cast<size_t>(k)].kind == nEntry) {
          auto value = gen.entry(k).Allocate();
          gen.entry(k).Calc(c, value.get());
          CHECK(static_cast<uint64_t>(value->get_value<int64_t>()) == Expected(plan, k, sh), "calc",
                Cat("Calc of result ", k, " is not current"));
        } else if (plan.nodes[static_cast<size_t>(k)].kind == nXcdot && has_xc) {
          auto d = gen.AllocateTimeDerivatives();
          gen.CalcTimeDerivatives(c, d.get());
          CHECK(Words(1, FromEigen(d->CopyToVector())) == Expected(plan, k, sh), "calc", "CalcTimeDerivatives");
        }
        // Results it read on its way are up to date now.
        for (size_t j = 0; j < n; ++j) {
          if (static_cast<int>(j) == k || gen.counts[j] == before[j]) continue;
          ctx->valid[j] = true;
          ctx->must[j] = false;
        }
      }
    }
    for (const Ctx& one : all) CheckContents(plan, gen, one, "after a change");
  }
  for (Ctx& ctx : all) {
    ctx.c->UnfreezeCache();
    ctx.frozen = false;
    for (size_t k = 0; k < n; ++k) eval(&ctx, static_cast<int>(k));
  }
  pbt::label("contexts", static_cast<long>(all.size()));
  if (fresh >= 3 && cached >= 1) pbt::nontrivial();
}

PROBE(P33, cached_results, 9000, 300000) { RunContexts(src); }

// --- Events.
constexpr double kUnit = 1. / 64.;
enum EventKind { ePublish, eDiscrete, eUnrestricted };
enum EventTrigger { tPeriodic, tPerStep, tInit, tForced };
struct EventSpec {
  int kind{ePublish};
  int trigger{tPeriodic};
  int period{1}, offset{0};  // In units.
  int member{0};             // Declared with a method: 1 without, 2 with a status.
};

constexpr int kForcedId = 100;

class Ticker : public sys::LeafSystem<double> {
 public:
  Ticker(const std::vector<EventSpec>& specs, int groups, double unit) : specs_(specs), groups_(groups) {
    for (int i = 0; i < groups; ++i) DeclareDiscreteState(BasicVector<double>(VectorXd::Constant(1, i + 1.)));
    DeclareContinuousState(1);
    DeclareAbstractState(Value<Ints>(Ints{5}));
    for (size_t i = 0; i < specs.size(); ++i) {
      const EventSpec& e = specs[i];
      const int id = static_cast<int>(i);
      auto publish = [this, id](const sys::System<double>&, const Context<double>& c,
                                const sys::PublishEvent<double>& event) {
        Triggered(id, event);
        Published(id, c);
      };
      auto discrete = [this, id](const sys::System<double>&, const Context<double>& c,
                                 const sys::DiscreteUpdateEvent<double>& event, sys::DiscreteValues<double>* xd) {
        Triggered(id, event);
        Updated(id, c, xd);
      };
      auto unrestricted = [this, id](const sys::System<double>&, const Context<double>& c,
                                     const sys::UnrestrictedUpdateEvent<double>& event, State<double>* state) {
        Triggered(id, event);
        Replaced(id, c, state);
      };
      using P = sys::PublishEvent<double>;
      using D = sys::DiscreteUpdateEvent<double>;
      using U = sys::UnrestrictedUpdateEvent<double>;
      if (e.trigger == tForced) {
        if (e.kind == ePublish)
          DeclareForcedPublishEvent(&Ticker::ForcedPublish);
        else if (e.kind == eDiscrete)
          DeclareForcedDiscreteUpdateEvent(&Ticker::ForcedDiscrete);
        else
          DeclareForcedUnrestrictedUpdateEvent(&Ticker::ForcedUnrestricted);
      } else if (e.member && i < 3) {
        if (i == 0) DeclareMember<0>(e, unit);
        if (i == 1) DeclareMember<1>(e, unit);
        if (i == 2) DeclareMember<2>(e, unit);
      } else if (e.trigger == tPeriodic) {
        const double p = e.period * unit, o = e.offset * unit;
        if (e.kind == ePublish)
          DeclarePeriodicEvent(p, o, P(i % 2 ? sys::TriggerType::kPeriodic : sys::TriggerType::kUnknown, publish));
        else if (e.kind == eDiscrete)
          DeclarePeriodicEvent(p, o, D(i % 2 ? sys::TriggerType::kPeriodic : sys::TriggerType::kUnknown, discrete));
        else
          DeclarePeriodicEvent(p, o, U(i % 2 ? sys::TriggerType::kPeriodic : sys::TriggerType::kUnknown, unrestricted));
      } else if (e.trigger == tPerStep) {
        if (e.kind == ePublish)
          DeclarePerStepEvent(P(i % 2 ? sys::TriggerType::kPerStep : sys::TriggerType::kUnknown, publish));
        else if (e.kind == eDiscrete)
          DeclarePerStepEvent(D(i % 2 ? sys::TriggerType::kPerStep : sys::TriggerType::kUnknown, discrete));
        else
          DeclarePerStepEvent(U(i % 2 ? sys::TriggerType::kPerStep : sys::TriggerType::kUnknown, unrestricted));
      } else if (e.trigger == tInit) {
        if (e.kind == ePublish)
          DeclareInitializationEvent(
              P(i % 2 ? sys::TriggerType::kInitialization : sys::TriggerType::kUnknown, publish));
        else if (e.kind == eDiscrete)
          DeclareInitializationEvent(
              D(i % 2 ? sys::TriggerType::kInitialization : sys::TriggerType::kUnknown, discrete));
        else
          DeclareInitializationEvent(
              U(i % 2 ? sys::TriggerType::kInitialization : sys::TriggerType::kUnknown, unrestricted));
      }
    }
  }
  mutable std::vector<int> log;
  mutable Nums seen;

 private:
  // An event knows what triggered it, however it was made.
  void Triggered(int id, const sys::Event<double>& event) const {
    const int trigger = specs_[static_cast<size_t>(id)].trigger;
    const sys::TriggerType expected = trigger == tPeriodic  ? sys::TriggerType::kPeriodic
                                      : trigger == tPerStep ? sys::TriggerType::kPerStep
                                                            : sys::TriggerType::kInitialization;
    CHECK(event.get_trigger_type() == expected, "event-trigger",
          Cat("event ", id, " has trigger ", static_cast<int>(event.get_trigger_type()), " instead of ",
              static_cast<int>(expected)));
  }
  void Published(int id, const Context<double>& c) const {
    log.push_back(id);
    seen.push_back(c.get_discrete_state(id % groups_).GetAtIndex(0));
  }
  void Updated(int id, const Context<double>& c, sys::DiscreteValues<double>* xd) const {
    log.push_back(id);
    const int g = id % groups_;
    // What is there is the value of the context, plus that of events handled before.
    xd->get_mutable_vector(g).SetAtIndex(0, xd->get_vector(g).GetAtIndex(0) + 10. * (id + 1));
    seen.push_back(c.get_discrete_state(g).GetAtIndex(0));
  }
  void Replaced(int id, const Context<double>&, State<double>* state) const {
    log.push_back(id);
    auto& xc = state->get_mutable_continuous_state().get_mutable_vector();
    xc.SetAtIndex(0, xc.GetAtIndex(0) + 100. * (id + 1));
    state->get_mutable_abstract_state().get_mutable_value(0).get_mutable_value<Ints>().push_back(id);
  }
  sys::EventStatus ForcedPublish(const Context<double>& c) const {
    Published(kForcedId, c);
    return sys::EventStatus::Succeeded();
  }
  sys::EventStatus ForcedDiscrete(const Context<double>& c, sys::DiscreteValues<double>* xd) const {
    Updated(kForcedId, c, xd);
    return sys::EventStatus::Succeeded();
  }
  sys::EventStatus ForcedUnrestricted(const Context<double>& c, State<double>* state) const {
    Replaced(kForcedId, c, state);
    return sys::EventStatus::Succeeded();
  }
  template <int I>
  void Publish0(const Context<double>& c) const {
    Published(I, c);
  }
  template <int I>
  sys::EventStatus Publish1(const Context<double>& c) const {
    Published(I, c);
    return sys::EventStatus::Succeeded();
  }
  template <int I>
  void Discrete0(const Context<double>& c, sys::DiscreteValues<double>* xd) const {
    Updated(I, c, xd);
  }
  template <int I>
  sys::EventStatus Discrete1(const Context<double>& c, sys::DiscreteValues<double>* xd) const {
    Updated(I, c, xd);
    return sys::EventStatus::Succeeded();
  }
  template <int I>
  void Unrestricted0(const Context<double>& c, State<double>* x) const {
    Replaced(I, c, x);
  }
  template <int I>
  sys::EventStatus Unrestricted1(const Context<double>& c, State<double>* x) const {
    Replaced(I, c, x);
    return sys::EventStatus::Succeeded();
  }
  template <int I>
  void DeclareMember(const EventSpec& e, double unit) {
    const double p = e.period * unit, o = e.offset * unit;
    switch (e.trigger * 3 + e.kind) {
      case tPeriodic * 3 + ePublish:
        if (e.member == 1)
          DeclarePeriodicPublishEvent(p, o, &Ticker::Publish0<I>);
        else
          DeclarePeriodicPublishEvent(p, o, &Ticker::Publish1<I>);
        break;
      case tPeriodic * 3 + eDiscrete:
        if (e.member == 1)
          DeclarePeriodicDiscreteUpdateEvent(p, o, &Ticker::Discrete0<I>);
        else
          DeclarePeriodicDiscreteUpdateEvent(p, o, &Ticker::Discrete1<I>);
        break;
      case tPeriodic * 3 + eUnrestricted:
        if (e.member == 1)
          DeclarePeriodicUnrestrictedUpdateEvent(p, o, &Ticker::Unrestricted0<I>);
        else
          DeclarePeriodicUnrestrictedUpdateEvent(p, o, &Ticker::Unrestricted1<I>);
        break;
      case tPerStep * 3 + ePublish:
        DeclarePerStepPublishEvent(&Ticker::Publish1<I>);
        break;
      case tPerStep * 3 + eDiscrete:
        DeclarePerStepDiscreteUpdateEvent(&Ticker::Discrete1<I>);
        break;
      case tPerStep * 3 + eUnrestricted:
        DeclarePerStepUnrestrictedUpdateEvent(&Ticker::Unrestricted1<I>);
        break;
      case tInit * 3 + ePublish:
        DeclareInitializationPublishEvent(&Ticker::Publish1<I>);
        break;
      case tInit * 3 + eDiscrete:
        DeclareInitializationDiscreteUpdateEvent(&Ticker::Discrete1<I>);
        break;
      default:
        DeclareInitializationUnrestrictedUpdateEvent(&Ticker::Unrestricted1<I>);
    }
  }

  std::vector<EventSpec> specs_;
  int groups_;
};

using Composite = sys::CompositeEventCollection<double>;

// Handles what is due the way a simulator does, and compares with the events expected.
void Handle(const Ticker& t, const std::vector<EventSpec>& specs, const std::vector<int>& due, const Composite& events,
            Context<double>* c, Nums* xd, double* xc, Ints* xa, const std::string& what) {
  auto of_kind = [&](int kind) {
    std::vector<int> r;
    for (int id : due)
      if (specs[static_cast<size_t>(id)].kind == kind) r.push_back(id);
    return r;
  };
  auto compare = [&](int kind) {
    std::vector<int> got = t.log;
    t.log.clear();
    std::sort(got.begin(), got.end());
    CHECK(got == of_kind(kind), "handlers",
          Cat(what, ": ", got.size(), " handlers of kind ", kind, " ran, expected ", of_kind(kind).size()));
  };
  t.log.clear();
  CHECK(events.HasEvents() == !due.empty(), "has-events", what);
  CHECK(events.HasPublishEvents() == !of_kind(ePublish).empty(), "has-events", what);
  CHECK(events.HasDiscreteUpdateEvents() == !of_kind(eDiscrete).empty(), "has-events", what);
  CHECK(events.HasUnrestrictedUpdateEvents() == !of_kind(eUnrestricted).empty(), "has-events", what);
  if (events.HasUnrestrictedUpdateEvents()) {
    auto state = c->CloneState();
    // Whatever the output held before does not matter.
    state->get_mutable_continuous_state().get_mutable_vector().SetAtIndex(0, -77.);
    t.CalcUnrestrictedUpdate(*c, events.get_unrestricted_update_events(), state.get());
    compare(eUnrestricted);
    CHECK(c->get_continuous_state_vector().GetAtIndex(0) == *xc, "update-writes", "the context changed early");
    t.ApplyUnrestrictedUpdate(events.get_unrestricted_update_events(), state.get(), c);
    for (int id : of_kind(eUnrestricted)) {
      *xc += 100. * (id + 1);
      xa->push_back(id);
    }
  }
  if (events.HasDiscreteUpdateEvents()) {
    auto next = t.AllocateDiscreteVariables();
    t.seen.clear();
    t.CalcDiscreteVariableUpdates(*c, events.get_discrete_update_events(), next.get());
    compare(eDiscrete);
    for (double v : t.seen)
      CHECK(std::find(xd->begin(), xd->end(), v) != xd->end(), "update-writes", "a handler saw another state");
    t.ApplyDiscreteVariableUpdate(events.get_discrete_update_events(), next.get(), c);
    for (int id : of_kind(eDiscrete)) (*xd)[static_cast<size_t>(id) % xd->size()] += 10. * (id + 1);
  }
  if (events.HasPublishEvents()) {
    t.Publish(*c, events.get_publish_events());
    compare(ePublish);
  }
  for (size_t g = 0; g < xd->size(); ++g)
    CHECK(c->get_discrete_state(static_cast<int>(g)).GetAtIndex(0) == (*xd)[g], "discrete-state",
          Cat(what, ": group ", g));
  CHECK(c->get_continuous_state_vector().GetAtIndex(0) == *xc, "continuous-state", what);
  Ints got = c->get_abstract_state<Ints>(0), want = *xa;
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  CHECK(got == want, "abstract-state", what);
}

PROBE(P33, events, 6000, 200000) {
  // Many events at once now and then.
  const bool crowd = src.b(1, 25);
  std::vector<EventSpec> specs(static_cast<size_t>(crowd ? src.i(30, 40) : src.i(0, 6)));
  int periodic = 0;
  for (EventSpec& e : specs) {
    e.kind = crowd && !src.b(1, 12) ? specs[0].kind : src.i(0, 2);
    e.trigger = crowd && !src.b(1, 12) ? specs[0].trigger : src.weighted({5, 1, 1, 1});
    e.member = src.i(0, 2);
    e.period = src.b(1, 3) ? 1 << src.i(0, 6) : src.i(1, 100);
    e.offset = src.b(1, 3) ? 0 : src.i(0, 150);
    periodic += e.trigger == tPeriodic ? 1 : 0;
    if (periodic > 1 && src.b(crowd ? 9 : 3, crowd ? 10 : 9)) {  // The same timing as another one.
      e.period = specs[0].period;
      e.offset = specs[0].offset;
    }
  }
  const int groups = src.i(1, 2);
  // Times which are rounded differently for every event tell little unless there is only one.
  const bool exact = periodic > 1 || src.b(1, 2);
  const double unit = exact ? kUnit : 0.01;
  const Ticker t(specs, groups, unit);
  auto c = t.CreateDefaultContext();
  auto events = t.AllocateCompositeEventCollection();
  auto merged = t.AllocateCompositeEventCollection();
  Nums xd;
  for (int i = 0; i < groups; ++i) xd.push_back(i + 1.);
  double xc = 0.;
  Ints xa{5};

  auto with_trigger = [&](int trigger) {
    std::vector<int> r;
    for (size_t i = 0; i < specs.size(); ++i)
      if (specs[i].trigger == trigger) r.push_back(static_cast<int>(i));
    return r;
  };
  // What is declared is what is reported.
  const auto reported = t.GetPeriodicEvents();
  std::map<std::pair<double, double>, size_t> want;
  std::set<std::pair<double, double>> discrete;
  for (int id : with_trigger(tPeriodic)) {
    const EventSpec& e = specs[static_cast<size_t>(id)];
    ++want[{e.period * unit, e.offset * unit}];
    if (e.kind == eDiscrete) discrete.insert({e.period * unit, e.offset * unit});
  }
  CHECK(reported.size() == want.size(), "periodic-events", Cat(reported.size(), " vs ", want.size()));
  for (const auto& [data, list] : reported) {
    const auto it = want.find({data.period_sec(), data.offset_sec()});
    CHECK(it != want.end() && it->second == list.size(), "periodic-events", "other events are reported");
  }
  const auto unique = t.GetUniquePeriodicDiscreteUpdateAttribute();
  CHECK(unique.has_value() == (discrete.size() == 1), "unique-periodic", Cat(discrete.size(), " timings"));
  if (unique)
    CHECK(unique->period_sec() == discrete.begin()->first && unique->offset_sec() == discrete.begin()->second,
          "unique-periodic", "another timing is reported");

  t.GetInitializationEvents(*c, events.get());
  Handle(t, specs, with_trigger(tInit), *events, c.get(), &xd, &xc, &xa, "initialization");
  // Forced ones are those of an update asked for directly.
  auto forced = [&](const char* what) {
    std::vector<long> n(3, 0);
    for (int id : with_trigger(tForced)) ++n[static_cast<size_t>(specs[static_cast<size_t>(id)].kind)];
    const size_t group = static_cast<size_t>(kForcedId % groups);
    auto ran = [&](int kind) {
      CHECK(t.log == std::vector<int>(static_cast<size_t>(n[static_cast<size_t>(kind)]), kForcedId), "forced",
            Cat(what, ": ", t.log.size(), " handlers of kind ", kind, " ran"));
      t.log.clear();
    };
    t.log.clear();
    t.Publish(*c);
    ran(ePublish);
    auto next = t.AllocateDiscreteVariables();
    t.CalcDiscreteVariableUpdates(*c, next.get());
    ran(eDiscrete);
    for (size_t g = 0; g < xd.size(); ++g)
      CHECK(next->get_vector(static_cast<int>(g)).GetAtIndex(0) ==
                xd[g] + (g == group ? static_cast<double>(n[eDiscrete]) * 10. * (kForcedId + 1) : 0.),
            "forced", Cat(what, ": discrete group ", g));
    auto state = c->CloneState();
    state->get_mutable_continuous_state().get_mutable_vector().SetAtIndex(0, -77.);
    t.CalcUnrestrictedUpdate(*c, state.get());
    ran(eUnrestricted);
    CHECK(state->get_continuous_state().get_vector().GetAtIndex(0) ==
              xc + static_cast<double>(n[eUnrestricted]) * 100. * (kForcedId + 1),
          "forced", Cat(what, ": continuous state"));
    CHECK(state->get_abstract_state().get_value(0).get_value<Ints>().size() ==
              xa.size() + static_cast<size_t>(n[eUnrestricted]),
          "forced", Cat(what, ": abstract state"));
  };
  forced("at the beginning");
  long now = !exact || src.b(1, 2) ? 0 : src.i(0, 300);
  c->SetTime(static_cast<double>(now) * unit);
  for (int step = src.i(1, 12); step > 0; --step) {
    long next = std::numeric_limits<long>::max();
    std::vector<int> due;
    for (int id : with_trigger(tPeriodic)) {
      const EventSpec& e = specs[static_cast<size_t>(id)];
      const long at = now < e.offset ? e.offset : e.offset + ((now - e.offset) / e.period + 1) * e.period;
      if (at < next) {
        next = at;
        due.clear();
      }
      if (at == next) due.push_back(id);
    }
    // A time perturbed backwards finds the events of the true time, if any.
    if (exact && src.b(1, 3)) {
      std::vector<int> here;
      for (int id : with_trigger(tPeriodic)) {
        const EventSpec& e = specs[static_cast<size_t>(id)];
        if (now >= e.offset && (now - e.offset) % e.period == 0) here.push_back(id);
      }
      const double at = static_cast<double>(now) * unit;
      c->PerturbTime(std::nextafter(at, -1.), at);
      CHECK(c->get_true_time() && *c->get_true_time() == at && c->get_time() < at, "perturb", "other times are kept");
      const double got = t.CalcNextUpdateTime(*c, merged.get());
      if (!here.empty() && now > 0) {
        CHECK(got == at, "perturb", Cat("the next update of ", at, " perturbed is at ", got));
        Handle(t, specs, here, *merged, c.get(), &xd, &xc, &xa, Cat("perturbed at ", at));
      } else if (here.empty()) {
        CHECK(due.empty() ? std::isinf(got) : got == static_cast<double>(next) * unit, "perturb", Cat("at ", got));
      }
      c->SetTime(at);
      CHECK(!c->get_true_time(), "perturb", "the true time outlives it");
    }
    const double got = t.CalcNextUpdateTime(*c, events.get());
    if (due.empty()) {
      CHECK(std::isinf(got) && got > 0., "next-update", Cat("nothing is due, but an update at ", got));
      CHECK(!events->HasEvents(), "next-update", "events without a time");
      break;
    }
    const double at = static_cast<double>(next) * unit;
    if (exact) {
      CHECK(got == at, "next-update", Cat("from ", c->get_time(), " the next update is at ", at, ", not ", got));
    } else {
      CHECK(got > c->get_time(), "next-update", Cat(got, " is not later than ", c->get_time()));
      CHECK(std::abs(got - at) < 1e-6, "next-update", Cat("from ", c->get_time(), " at ", at, ", not ", got));
    }
    c->SetTime(got);
    now = next;
    if (exact) {
      // Per step events come along.
      t.GetPerStepEvents(*c, merged.get());
      std::vector<int> both = with_trigger(tPerStep);
      if (src.b(1, 2)) {
        merged->AddToEnd(*events);
        both.insert(both.end(), due.begin(), due.end());
        std::sort(both.begin(), both.end());
      } else {
        Handle(t, specs, due, *events, c.get(), &xd, &xc, &xa, Cat("due at ", got));
      }
      Handle(t, specs, both, *merged, c.get(), &xd, &xc, &xa, Cat("merged at ", got));
      if (src.b(1, 4)) {
        // In between two samples.
        now += src.i(0, 40);
        c->SetTime(static_cast<double>(now) * unit);
      }
    }
  }
  forced("at the end");
  if (periodic >= 2) pbt::nontrivial();
}

// --- Constraints, witnesses and difference equations.
class Bounded : public BasicVector<double> {
 public:
  Bounded(const VectorXd& v, VectorXd lower, VectorXd upper)
      : BasicVector<double>(v), lower_(std::move(lower)), upper_(std::move(upper)) {}
  void GetElementBounds(VectorXd* lower, VectorXd* upper) const override {
    *lower = lower_;
    *upper = upper_;
  }

 private:
  Bounded* DoClone() const override { return new Bounded(VectorXd(get_value()), lower_, upper_); }
  VectorXd lower_, upper_;
};

constexpr double kInf = std::numeric_limits<double>::infinity();

// Elements of a vector, with bounds.
struct Limits {
  int kind{kXd};
  int group{0};
  std::vector<int> elements;
  Nums lower, upper;
  bool equality{false};
};

class Limited : public sys::LeafSystem<double> {
 public:
  explicit Limited(std::function<void(Limited*)> declare) { declare(this); }
  using sys::LeafSystem<double>::DeclareContinuousState;
  using sys::LeafSystem<double>::DeclareDiscreteState;
  using sys::LeafSystem<double>::DeclareAbstractState;
  using sys::LeafSystem<double>::DeclareNumericParameter;
  using sys::LeafSystem<double>::DeclareVectorInputPort;
  using sys::LeafSystem<double>::DeclareEqualityConstraint;
  using sys::LeafSystem<double>::DeclareInequalityConstraint;
  using sys::LeafSystem<double>::DeclarePeriodicEvent;
  using sys::LeafSystem<double>::MakeWitnessFunction;

  double Sum(const Context<double>& c) const { return c.get_time() + c.get_discrete_state(0).CopyToVector().sum(); }
  std::vector<const sys::WitnessFunction<double>*> witnesses;

 private:
  void DoGetWitnessFunctions(const Context<double>&,
                             std::vector<const sys::WitnessFunction<double>*>* w) const override {
    *w = witnesses;
  }
};

PROBE(P33, constraints, 6000, 150000) {
  std::vector<Limits> limits;
  Nums xc, z;
  std::vector<Nums> xd, pn, u;
  // Bounds of some elements; those without any are not constrained.
  auto bounds = [&](int kind, size_t group, size_t n) -> std::optional<std::pair<VectorXd, VectorXd>> {
    if (src.b(1, 4)) return std::nullopt;
    VectorXd lower(static_cast<Eigen::Index>(n)), upper(static_cast<Eigen::Index>(n));
    Limits l;
    l.kind = kind;
    l.group = static_cast<int>(group);
    for (int i = 0; i < static_cast<int>(n); ++i) {
      lower[i] = src.b(1, 3) ? -kInf : src.i(-8, 4) / 4.;
      upper[i] = src.b(1, 3) ? kInf : src.i(5, 12) / 4.;
      if (std::isinf(lower[i]) && std::isinf(upper[i])) continue;
      l.elements.push_back(i);
      l.lower.push_back(lower[i]);
      l.upper.push_back(upper[i]);
    }
    if (!l.elements.empty()) limits.push_back(l);
    return std::make_pair(lower, upper);
  };
  auto vector = [&](size_t n) {
    Nums v(n);
    for (double& x : v) x = src.i(-12, 16) / 4.;
    return v;
  };
  auto read = [](const Limits& l, const sys::System<double>& t, const Context<double>& c, int i) -> double {
    if (l.kind == kTime) return c.get_continuous_state_vector().GetAtIndex(i);
    if (l.kind == kXd) return c.get_discrete_state(l.group).GetAtIndex(i);
    if (l.kind == kPn) return c.get_numeric_parameter(l.group).GetAtIndex(i);
    return t.get_input_port(l.group).Eval(c)[i];
  };
  auto declare = [&](Limited* t) {
    for (int steps = src.i(0, 5); steps > 0; --steps) {
      const size_t n = static_cast<size_t>(src.i(1, 4));
      switch (src.i(0, 5)) {
        case 0: {
          const auto b = bounds(kXd, xd.size(), n);
          xd.push_back(vector(n));
          if (b)
            t->DeclareDiscreteState(Bounded(ToEigen(xd.back()), b->first, b->second));
          else
            t->DeclareDiscreteState(BasicVector<double>(ToEigen(xd.back())));
          break;
        }
        case 1: {
          const auto b = bounds(kPn, pn.size(), n);
          pn.push_back(vector(n));
          if (b)
            t->DeclareNumericParameter(Bounded(ToEigen(pn.back()), b->first, b->second));
          else
            t->DeclareNumericParameter(BasicVector<double>(ToEigen(pn.back())));
          break;
        }
        case 2: {
          const auto b = bounds(kU, u.size(), n);
          u.push_back(vector(n));
          if (b)
            t->DeclareVectorInputPort(sys::kUseDefaultName, Bounded(ToEigen(u.back()), b->first, b->second));
          else
            t->DeclareVectorInputPort(sys::kUseDefaultName, static_cast<int>(n));
          break;
        }
        case 3: {
          if (!xc.empty()) break;
          const auto b = bounds(kTime, 0, n);
          xc = vector(n);
          const int q = src.i(0, static_cast<int>(n)), v = src.i(0, std::min(q, static_cast<int>(n) - q));
          if (b)
            t->DeclareContinuousState(Bounded(ToEigen(xc), b->first, b->second), q, v, static_cast<int>(n) - q - v);
          else
            t->DeclareContinuousState(BasicVector<double>(ToEigen(xc)), q, v, static_cast<int>(n) - q - v);
          break;
        }
        default: {
          if (xd.empty()) break;
          Limits l;
          l.kind = kXd;
          l.group = src.i(0, static_cast<int>(xd.size()) - 1);
          l.equality = src.b(1, 3);
          l.elements = {static_cast<int>(src.i(0, static_cast<int>(xd[static_cast<size_t>(l.group)].size()) - 1))};
          if (src.b(1, 2)) l.elements.push_back(l.elements[0]);
          for (size_t i = 0; i < l.elements.size(); ++i) {
            l.lower.push_back(l.equality ? 0. : src.i(-8, 4) / 4.);
            l.upper.push_back(l.equality ? 0. : src.i(5, 12) / 4.);
          }
          auto calc = [l](const Context<double>& c, VectorXd* value) {
            for (size_t i = 0; i < l.elements.size(); ++i)
              (*value)[static_cast<Eigen::Index>(i)] = c.get_discrete_state(l.group).GetAtIndex(l.elements[i]);
          };
          const int side = src.i(0, 2);
          sys::SystemConstraintIndex index;
          const size_t at = limits.size();
          if (l.equality) {
            index = t->DeclareEqualityConstraint(calc, static_cast<int>(l.elements.size()), "equal");
          } else if (side == 0) {
            // One of two elements may be fixed, or all to zero.
            const size_t fixed = src.b(1, 3) ? 1 + src.idx(l.elements.size()) : 0;
            if (fixed == l.elements.size()) {
              l.lower.assign(fixed, 0.);
              l.upper.assign(fixed, 0.);
              l.equality = true;
            } else if (fixed == 1) {
              const size_t which = src.idx(l.elements.size());
              l.upper[which] = l.lower[which] = src.b() ? 0. : l.lower[which];
            }
            index = t->DeclareInequalityConstraint(calc, {ToEigen(l.lower), ToEigen(l.upper)}, "between");
          } else if (side == 1) {
            l.upper.assign(l.upper.size(), kInf);
            index = t->DeclareInequalityConstraint(calc, {ToEigen(l.lower), std::nullopt}, "above");
          } else {
            l.lower.assign(l.lower.size(), -kInf);
            index = t->DeclareInequalityConstraint(calc, {std::nullopt, ToEigen(l.upper)}, "below");
          }
          limits.push_back(l);
          CHECK(static_cast<size_t>(index) == at, "constraint-index", Cat(index, " instead of ", at));
        }
      }
    }
  };
  Limited t(declare);
  if (!xd.empty() && src.b(1, 3)) {
    Limits l;
    l.elements = {0};
    l.lower = {-1.};
    l.upper = {1.};
    limits.push_back(l);
    t.AddExternalConstraint(sys::ExternalSystemConstraint(
        "external", {ToEigen(l.lower), ToEigen(l.upper)},
        [](const sys::System<double>& s, const Context<double>& c, VectorXd* value) {
          *value = VectorXd::Constant(1, dynamic_cast<const Limited&>(s).num_discrete_state_groups() > 0
                                             ? c.get_discrete_state(0).GetAtIndex(0)
                                             : kInf);
        }));
  }
  CHECK(t.num_constraints() == static_cast<int>(limits.size()), "num-constraints",
        Cat(t.num_constraints(), " instead of ", limits.size()));
  auto c = t.CreateDefaultContext();
  t.AllocateFixedInputs(c.get());
  for (int round = 0; round < 3; ++round) {
    if (round > 0) {
      if (!xc.empty()) c->SetContinuousState(ToEigen(xc = vector(xc.size())));
      for (size_t g = 0; g < xd.size(); ++g)
        c->SetDiscreteState(static_cast<int>(g), ToEigen(xd[g] = vector(xd[g].size())));
      for (size_t g = 0; g < pn.size(); ++g)
        c->get_mutable_numeric_parameter(static_cast<int>(g)).SetFromVector(ToEigen(pn[g] = vector(pn[g].size())));
    }
    for (size_t g = 0; g < u.size(); ++g)
      t.get_input_port(static_cast<int>(g)).FixValue(c.get(), ToEigen(u[g] = vector(u[g].size())));
    // Tolerances are multiples of the grid of the values: nothing is rounded.
    const double tol = src.i(0, 3) / 4.;
    bool everything = true;
    for (size_t k = 0; k < limits.size(); ++k) {
      const Limits& l = limits[k];
      const auto& constraint = t.get_constraint(sys::SystemConstraintIndex(static_cast<int>(k)));
      CHECK(constraint.size() == static_cast<int>(l.elements.size()), "constraint-size", Cat("constraint ", k));
      CHECK(constraint.is_equality_constraint() == l.equality, "constraint-type", Cat("constraint ", k));
      CHECK(constraint.lower_bound() == ToEigen(l.lower) && constraint.upper_bound() == ToEigen(l.upper),
            "constraint-bounds", Cat("constraint ", k));
      CHECK(&constraint.get_system() == &t, "constraint-system", Cat("constraint ", k));
      bool fine = true;
      VectorXd value;
      constraint.Calc(*c, &value);
      for (size_t i = 0; i < l.elements.size(); ++i) {
        const double x = read(l, t, *c, l.elements[i]);
        CHECK(value[static_cast<Eigen::Index>(i)] == x, "constraint-value", Cat("constraint ", k, " element ", i));
        fine = fine && x >= l.lower[i] - tol && x <= l.upper[i] + tol;
      }
      CHECK(constraint.CheckSatisfied(*c, tol) == fine, "satisfied",
            Cat("constraint ", k, " is ", fine ? "kept" : "broken", " within ", tol));
      everything = everything && fine;
    }
    CHECK(t.CheckSystemConstraintsSatisfied(*c, tol) == everything, "satisfied-all",
          Cat(limits.size(), " constraints, ", everything ? "all kept" : "not all kept"));
  }
  if (limits.size() >= 2) pbt::nontrivial();
}

PROBE(P33, witnesses, 4000, 100000) {
  const int groups = src.i(0, 2);
  const bool has_xc = src.b(1, 4), has_xa = src.b(1, 4);
  std::vector<std::pair<int, int>> updates(static_cast<size_t>(src.i(0, 3)));
  bool publish = src.b(1, 2);
  int ran = 0;
  Limited t([&](Limited* s) {
    if (has_xc) s->DeclareContinuousState(1);
    if (has_xa) s->DeclareAbstractState(Value<Ints>(Ints{}));
    for (int g = 0; g < groups; ++g) s->DeclareDiscreteState(g + 1);
    if (publish) s->DeclarePeriodicEvent(3., 0.5, sys::PublishEvent<double>());
    for (auto& [period, offset] : updates) {
      period = src.i(1, 2);
      offset = src.b(2, 3) ? 0 : 1;
      s->DeclarePeriodicEvent(period, offset, sys::DiscreteUpdateEvent<double>());
    }
  });
  const std::set<std::pair<int, int>> distinct(updates.begin(), updates.end());
  double period = -1.;
  const bool difference = !has_xc && !has_xa && groups == 1 && distinct.size() == 1 && distinct.begin()->second == 0;
  CHECK(t.IsDifferenceEquationSystem(&period) == difference, "difference-equation",
        Cat(groups, " groups, ", distinct.size(), " timings"));
  CHECK(!difference || period == distinct.begin()->first, "difference-equation", Cat("period ", period));
  CHECK(t.IsDifferenceEquationSystem() == difference, "difference-equation", "without a period");
  if (groups == 0) return;

  auto c = t.CreateDefaultContext();
  using Direction = sys::WitnessFunctionDirection;
  const std::vector<Direction> directions{Direction::kNone, Direction::kPositiveThenNonPositive,
                                          Direction::kNegativeThenNonNegative, Direction::kCrossesZero};
  std::vector<std::unique_ptr<sys::WitnessFunction<double>>> owned;
  std::vector<int> kinds, dirs;
  for (int n = src.i(1, 4); n > 0; --n) {
    dirs.push_back(src.i(0, 3));
    kinds.push_back(src.i(0, 3));
    const Direction d = directions[static_cast<size_t>(dirs.back())];
    std::function<double(const Context<double>&)> calc = [&t](const Context<double>& ctx) { return t.Sum(ctx); };
    if (kinds.back() == 0)
      owned.push_back(src.b(1, 2) ? t.MakeWitnessFunction("w", d, calc) : t.MakeWitnessFunction("w", d, &Limited::Sum));
    else if (kinds.back() == 1)
      owned.push_back(t.MakeWitnessFunction(
          "w", d, calc, sys::PublishEvent<double>([&](const Context<double>&, const sys::PublishEvent<double>& e) {
            CHECK(e.get_trigger_type() == sys::TriggerType::kWitness, "trigger", "");
            ++ran;
          })));
    else if (kinds.back() == 2)
      owned.push_back(t.MakeWitnessFunction(
          "w", d, calc,
          sys::DiscreteUpdateEvent<double>([&](const Context<double>&, const sys::DiscreteUpdateEvent<double>&,
                                               sys::DiscreteValues<double>*) { ran += 10; })));
    else
      owned.push_back(t.MakeWitnessFunction(
          "w", d, calc,
          sys::UnrestrictedUpdateEvent<double>([&](const Context<double>&, const sys::UnrestrictedUpdateEvent<double>&,
                                                   State<double>*) { ran += 100; })));
    t.witnesses.push_back(owned.back().get());
  }
  std::vector<const sys::WitnessFunction<double>*> listed;
  t.GetWitnessFunctions(*c, &listed);
  CHECK(listed == t.witnesses, "witnesses", "others are listed");
  auto random = [&] {
    c->SetTime(src.i(0, 6) / 4.);
    VectorXd v(1);
    v[0] = -src.i(0, 6) / 4.;
    c->SetDiscreteState(0, v);
    return c->get_time() + v[0];
  };
  for (int round = 0; round < 3; ++round) {
    const double w0 = random();
    Nums before;
    for (const auto& w : owned) before.push_back(t.CalcWitnessValue(*c, *w));
    const double wf = random();
    auto events = t.AllocateCompositeEventCollection();
    int want = 0;
    for (size_t i = 0; i < owned.size(); ++i) {
      const double after = owned[i]->CalcWitnessValue(*c);
      CHECK(before[i] == w0 && after == wf, "witness-value", Cat(before[i], " and ", after));
      const bool down = w0 > 0. && wf <= 0., up = w0 < 0. && wf >= 0.;
      const bool fires = dirs[i] == 0 ? false : dirs[i] == 1 ? down : dirs[i] == 2 ? up : down || up;
      CHECK(owned[i]->should_trigger(w0, wf) == fires, "should-trigger",
            Cat("direction ", dirs[i], " from ", w0, " to ", wf));
      CHECK((owned[i]->get_event() != nullptr) == (kinds[i] != 0), "witness-event", Cat("kind ", kinds[i]));
      if (!fires || !kinds[i]) continue;
      auto event = owned[i]->get_event()->Clone();
      auto data = std::make_unique<sys::WitnessTriggeredEventData<double>>();
      data->set_triggered_witness(owned[i].get());
      event->set_event_data(std::move(data));
      static_cast<const sys::System<double>&>(t).AddTriggeredWitnessFunctionToCompositeEventCollection(event.get(),
                                                                                                       events.get());
      want += kinds[i] == 1 ? 1 : kinds[i] == 2 ? 10 : 100;
    }
    ran = 0;
    CHECK(events->HasEvents() == (want > 0), "witness-event", "of what fired");
    if (events->HasPublishEvents()) t.Publish(*c, events->get_publish_events());
    if (events->HasDiscreteUpdateEvents()) {
      auto xd = t.AllocateDiscreteVariables();
      t.CalcDiscreteVariableUpdates(*c, events->get_discrete_update_events(), xd.get());
    }
    if (events->HasUnrestrictedUpdateEvents()) {
      auto state = c->CloneState();
      t.CalcUnrestrictedUpdate(*c, events->get_unrestricted_update_events(), state.get());
    }
    CHECK(ran == want, "witness-handlers", Cat(ran, " instead of ", want));
  }
  pbt::nontrivial();
}

// --- Vectors and what is made of them.
PROBE(P33, vectors, 6000, 150000) {
  const int n = src.i(0, 6);
  if (n >= 2) pbt::nontrivial();
  auto make = [&] { return ToEigen(NumsOf(src, static_cast<size_t>(n))); };
  VectorXd ref = make();
  BasicVector<double> whole(ref);
  // A window onto a part of it.
  const int from = src.i(0, n), len = src.i(0, n - from);
  sys::Subvector<double> part(&whole, from, len);
  auto check = [&](const char* what) {
    CHECK(whole.size() == n && whole.CopyToVector() == ref && whole.get_value() == ref, "vector", what);
    CHECK(part.size() == len && part.CopyToVector() == ref.segment(from, len), "window", what);
    for (int i = 0; i < n; ++i) CHECK(whole.GetAtIndex(i) == ref[i] && whole[i] == ref[i], "element", what);
    for (int i = 0; i < len; ++i)
      CHECK(part.GetAtIndex(i) == ref[from + i] && part[i] == ref[from + i], "window-element", what);
  };
  check("when made");
  MUST_THROW("range", whole.GetAtIndex(n), "there is no such element");
  MUST_THROW("range", whole.GetAtIndex(-1), "there is no such element");
  MUST_THROW("range", part.GetAtIndex(len), "there is no such element");
  MUST_THROW("range", part.GetAtIndex(-1), "there is no such element");
  MUST_THROW("range", sys::Subvector<double>(&whole, from, n - from + 1), "the window is too large");
  for (int step = src.i(1, 8); step > 0; --step) {
    const bool on_part = src.b(1, 2);
    sys::VectorBase<double>& v = on_part ? static_cast<sys::VectorBase<double>&>(part) : whole;
    auto r = on_part ? ref.segment(from, len) : ref.segment(0, n);
    const int m = on_part ? len : n;
    const VectorXd a = ToEigen(NumsOf(src, static_cast<size_t>(m))), b = ToEigen(NumsOf(src, static_cast<size_t>(m)));
    const BasicVector<double> va(a), vb(b);
    const double k = src.i(-4, 4), k2 = src.i(-4, 4);
    switch (src.i(0, 10)) {
      case 0:
        v.SetFromVector(a);
        r = a;
        break;
      case 1:
        v.SetFrom(va);
        r = a;
        break;
      case 2:
        v.SetZero();
        r.setZero();
        break;
      case 3:
        v += va;
        r += a;
        break;
      case 4:
        v -= va;
        r -= a;
        break;
      case 5:
        v.PlusEqScaled(k, va);
        r += k * a;
        break;
      case 6:
        v.PlusEqScaled({{k, va}, {k2, vb}});
        r += k * a + k2 * b;
        break;
      case 7: {
        VectorXd sum = a;
        v.ScaleAndAddToVector(k, &sum);
        CHECK(sum == a + k * r, "scale-and-add", "the sum differs");
        VectorXd copy = b;
        v.CopyToPreSizedVector(&copy);
        CHECK(copy == r, "copy", "the copy differs");
        break;
      }
      case 8: {
        if (m == 0) break;
        const int i = src.i(0, m - 1);
        v.SetAtIndex(i, k);
        r[i] = k;
        break;
      }
      case 9: {
        const VectorXd wrong = VectorXd::Zero(m + 1);
        MUST_THROW("size", v.SetFromVector(wrong), "the size differs");
        MUST_THROW("size", v.SetFrom(BasicVector<double>(wrong)), "the size differs");
        MUST_THROW("size", v.PlusEqScaled(1., BasicVector<double>(wrong)), "the size differs");
        VectorXd out = wrong;
        MUST_THROW("size", v.ScaleAndAddToVector(1., &out), "the size differs");
        MUST_THROW("size", v.CopyToPreSizedVector(&out), "the size differs");
        break;
      }
      default: {
        const auto copy = whole.Clone();
        CHECK(copy->CopyToVector() == ref, "clone", "the clone differs");
        if (n > 0) copy->SetAtIndex(0, 1e6);
      }
    }
    check("after a change");
  }
}

}  // namespace
