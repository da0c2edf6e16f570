// P15 phase rings, P16 phased state providers, P17 traffic lights, P18 intersections.
#include <array>
#include <memory>

#include "maliput/base/intersection.h"
#include "maliput/base/intersection_book.h"
#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/manual_phase_ring_book.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/phase_based_right_of_way_rule_state_provider.h"
#include "maliput/base/phased_discrete_rule_state_provider.h"
#include "maliput/base/traffic_light_book.h"
#include "phasegen.h"
#include "testroad.h"

using namespace rg;
using api::rules::Bulb;
using api::rules::BulbColor;
using api::rules::BulbGroup;
using api::rules::BulbType;
using api::rules::PhaseProvider;
using api::rules::TrafficLight;
using api::rules::UniqueBulbGroupId;
using maliput::ManualPhaseProvider;
using maliput::ManualPhaseRingBook;
using maliput::ManualRulebook;

PBT_RULE(
    P15,
    "Random phase rings, well formed or with one broken attribute, and random histories over a book of rings with "
    "clashing identifiers and rules, and over a phase provider. Non-trivial: the ring has two or more phases, or the "
    "history accepted one addition and refused or removed something.");
PBT_RULE(P16,
         "Random rulebooks, rings over part of their rules, and phase changes and manual settings in random order. "
         "Non-trivial: some rule is governed by a current phase.");
PBT_RULE(
    P17,
    "Random bulbs, groups, lights and books, well formed or broken. Non-trivial: two or more elements in a group, or "
    "an attribute is broken.");
PBT_RULE(
    P18,
    "Random intersections over a random road sharing a phase provider, phase changes and all lookups. Non-trivial: "
    "two or more intersections, or a phase changed.");

namespace {

template <typename T>
bool Threw(T&& f) {
  try {
    f();
  } catch (const pbt::Failure&) {
    throw;
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

void CheckRing(const PhaseRing& ring, const PlainRing& r) {
  CHECK(ring.id().string() == r.id && ring.phases().size() == r.phases.size(), "ring-accessors", r.id);
  for (const auto& p : r.phases) {
    const auto got = ring.GetPhase(Phase::Id(p.id));
    CHECK(got.has_value() && SamePhase(*got, p), "ring-phase", p.id);
    CHECK(SamePhase(ring.phases().at(Phase::Id(p.id)), p), "ring-phase", p.id);
    const auto& next = ring.GetNextPhases(Phase::Id(p.id));
    const std::vector<PlainNext> want = r.next ? r.next->at(p.id) : std::vector<PlainNext>();
    CHECK(next.size() == want.size(), "ring-next", p.id);
    for (size_t k = 0; k < want.size(); ++k)
      CHECK(next[k].id.string() == want[k].id && next[k].duration_until == want[k].duration, "ring-next", p.id);
  }
  CHECK(!ring.GetPhase(Phase::Id("nowhere")).has_value(), "ring-phase", "unknown");
  bool out_of_range = false;
  try {
    ring.GetNextPhases(Phase::Id("nowhere"));
  } catch (const std::out_of_range&) {
    out_of_range = true;
  }
  CHECK(out_of_range, "ring-next", "unknown");
}

std::string Str(const PlainRing& r) {
  std::string s = r.id + ":";
  for (const auto& p : r.phases) {
    s += " " + p.id + "(";
    for (const auto& kv : p.right_of_way) s += kv.first + " ";
    s += "|";
    for (const auto& kv : p.discrete) s += " " + kv.first;
    s += "|";
    if (p.bulbs)
      for (const auto& kv : *p.bulbs) s += " " + kv.first[0] + kv.first[1] + kv.first[2];
    else
      s += " none";
    s += ")";
  }
  if (r.next)
    for (const auto& kv : *r.next) {
      s += " " + kv.first + "->";
      for (const auto& n : kv.second) s += n.id + ",";
    }
  return s;
}

// Breaks one attribute of some phase of the ring, or of its next phases.
void Break(pbt::Src& src, PlainRing* r) {
  PlainPhase& p = r->phases[src.idx(r->phases.size())];
  switch (src.idx(10)) {
    case 0:
      r->phases.clear();
      break;
    case 1:
      r->phases.push_back(p);
      break;
    case 2:
      p.right_of_way["w_extra"] = "s";
      break;
    case 3:
      p.discrete["r_extra"] = RandomState(src, false, false);
      break;
    case 4:
      if (!p.right_of_way.empty()) {
        p.right_of_way.erase(p.right_of_way.begin());
        if (src.b()) p.right_of_way["w_other"] = "s";
      }
      break;
    case 5:
      if (!p.discrete.empty()) {
        const PlainState s = p.discrete.begin()->second;
        p.discrete.erase(p.discrete.begin());
        if (src.b()) p.discrete["r_other"] = s;
      }
      break;
    case 6:
      if (p.bulbs) {
        p.bulbs = std::nullopt;
      } else {
        p.bulbs.emplace();
        (*p.bulbs)[{"t", "g", "b"}] = BulbState::kOn;
      }
      break;
    case 7:
      if (p.bulbs && !p.bulbs->empty()) p.bulbs->erase(p.bulbs->begin());
      if (p.bulbs && src.b()) (*p.bulbs)[{"t9", "g9", "b9"}] = BulbState::kOn;
      break;
    case 8:
      if (r->next) {
        if (src.b()) {
          (*r->next)["p_extra"] = {};
        } else {
          r->next->erase(r->next->begin());
        }
        if (src.b(1, 3)) (*r->next)["p_other"] = {};
      }
      break;
    default:
      if (r->next) {
        auto& v = (*r->next)[p.id];
        v.insert(v.begin() + static_cast<long>(src.idx(v.size() + 1)), PlainNext{"p_unknown", 1.});
      }
  }
}

}  // namespace

PROBE(P15, ring, 60000, 1800000) {
  PlainRing r =
      RandomRing(src, "ring", SomeNames(src, "w", 4, 3), SomeNames(src, "r", 4, 3), SomeBulbs(src, 3), src.b());
  if (src.b()) Break(src, &r);
  bool vague;
  const bool valid = ValidRing(r, &vague);
  if (r.phases.size() >= 2) pbt::nontrivial();
  pbt::label(vague ? "vague" : valid ? "valid" : "invalid");
  NOTE(Str(r) << (valid ? " valid" : " invalid"));
  bool threw = false;
  std::optional<PhaseRing> ring;
  threw = Threw([&] { ring.emplace(ToRing(r)); });
  if (vague && valid) return;
  CHECK(threw == !valid, "ring-validation", (threw ? "refused " : "accepted ") << Str(r));
  if (valid) {
    CheckRing(*ring, r);
    const PhaseRing copy = *ring;
    CheckRing(copy, r);
  }
}

PROBE(P15, ring_book, 12000, 360000) {
  ManualPhaseRingBook book;
  std::map<std::string, PlainRing> m;
  int refused = 0;
  bool accepted = false;
  for (int64_t op = src.i(1, 20); op > 0; --op) {
    const std::string id = N("ring", src.i(0, 4));
    if (src.b(3, 5)) {
      const PlainRing r =
          RandomRing(src, id, SomeNames(src, "w", 8, 3), SomeNames(src, "r", 8, 3), SomeBulbs(src, 2), src.b());
      bool valid = !m.count(id);
      for (const auto& kv : m) {
        for (const auto& x : kv.second.phases[0].right_of_way)
          if (r.phases[0].right_of_way.count(x.first)) valid = false;
        for (const auto& x : kv.second.phases[0].discrete)
          if (r.phases[0].discrete.count(x.first)) valid = false;
      }
      NOTE("add " << Str(r) << (valid ? "" : " refused"));
      const bool threw = Threw([&] { book.AddPhaseRing(ToRing(r)); });
      CHECK(threw == !valid, "ring-book-add", (threw ? "refused " : "accepted ") << Str(r));
      if (valid) {
        m[id] = r;
        accepted = true;
      } else {
        ++refused;
      }
    } else {
      const bool valid = m.count(id) > 0;
      NOTE("remove " << id << (valid ? "" : " refused"));
      const bool threw = Threw([&] { book.RemovePhaseRing(PhaseRing::Id(id)); });
      CHECK(threw == !valid, "ring-book-remove", id << (threw ? " refused" : " accepted"));
      m.erase(id);
      ++refused;
    }
    std::set<std::string> ids;
    for (const auto& x : book.GetPhaseRings()) CHECK(ids.insert(x.string()).second, "ring-book-contents", x.string());
    std::set<std::string> want;
    for (const auto& kv : m) want.insert(kv.first);
    CHECK(ids == want, "ring-book-contents", ids.size() << " rings, expected " << want.size());
    for (int k = 0; k < 5; ++k) {
      const std::string x = N("ring", k);
      const auto got = book.GetPhaseRing(PhaseRing::Id(x));
      CHECK(got.has_value() == (m.count(x) > 0), "ring-book-get", x);
      if (got.has_value()) CheckRing(*got, m[x]);
    }
    for (int k = 0; k < 8; ++k) {
      const std::string w = N("w", k), r = N("r", k);
      std::string want_w, want_r;
      for (const auto& kv : m) {
        if (kv.second.phases[0].right_of_way.count(w)) want_w = kv.first;
        if (kv.second.phases[0].discrete.count(r)) want_r = kv.first;
      }
      const auto got_w = book.FindPhaseRing(RightOfWayRule::Id(w));
      CHECK((got_w.has_value() ? got_w->id().string() : "") == want_w, "ring-book-find", w << " expected " << want_w);
      const auto got_r = book.FindPhaseRing(Rule::Id(r));
      CHECK((got_r.has_value() ? got_r->id().string() : "") == want_r, "ring-book-find", r << " expected " << want_r);
    }
  }
  if (accepted && refused > 0) pbt::nontrivial();
}

namespace {

struct PhaseModel {
  std::string phase;
  std::optional<std::string> next;
  std::optional<double> duration;
};
std::optional<Phase::Id> OptId(const std::optional<std::string>& s) {
  if (!s) return std::nullopt;
  return Phase::Id(*s);
}
void CheckPhaseResult(const std::optional<PhaseProvider::Result>& got, const PhaseModel* want, const std::string& id) {
  CHECK(got.has_value() == (want != nullptr), "phase-known", id);
  if (!want) return;
  CHECK(got->state.string() == want->phase, "phase-current",
        id << " got " << got->state.string() << " expected " << want->phase);
  CHECK(got->next.has_value() == want->next.has_value(), "phase-next", id);
  if (want->next)
    CHECK(got->next->state.string() == *want->next && got->next->duration_until == want->duration, "phase-next", id);
}

}  // namespace

PROBE(P15, phase_provider, 30000, 900000) {
  std::unique_ptr<ManualPhaseProvider> provider;
  std::map<std::string, PhaseModel> m;
  if (src.b(1, 3)) {  // From a book.
    ManualPhaseRingBook book;
    std::map<std::string, PlainRing> rings;
    for (int64_t k = src.i(0, 3); k > 0; --k) {
      const PlainRing r = RandomRing(src, N("ring", k), {}, {}, {}, false);
      book.AddPhaseRing(ToRing(r));
      rings[r.id] = r;
    }
    provider = ManualPhaseProvider::GetDefaultPopulatedManualPhaseProvider(&book);
    for (const auto& kv : rings) {
      const auto got = provider->GetPhase(PhaseRing::Id(kv.first));
      CHECK(got.has_value(), "phase-default", kv.first);
      const std::string p = got->state.string();
      bool found = false;
      for (const auto& x : kv.second.phases) found = found || x.id == p;
      CHECK(found, "phase-default", kv.first << " starts in " << p << ", no phase of the ring");
      const std::vector<PlainNext> next = kv.second.next ? kv.second.next->at(p) : std::vector<PlainNext>();
      PhaseModel want{p, {}, {}};
      if (!next.empty()) {
        CHECK(got->next.has_value(), "phase-default", kv.first << " has next phases, none was chosen");
        CHECK(std::count(next.begin(), next.end(), PlainNext{got->next->state.string(), got->next->duration_until}) > 0,
              "phase-default",
              kv.first << " next " << got->next->state.string() << " is none of the next phases of " << p);
        want.next = got->next->state.string();
        want.duration = got->next->duration_until;
      } else {
        CHECK(!got->next.has_value(), "phase-default", kv.first << " has no next phase");
      }
      m[kv.first] = want;
    }
    if (rings.size() >= 2) pbt::nontrivial();
  } else {
    provider = std::make_unique<ManualPhaseProvider>();
  }
  int refused = 0;
  bool set = false;
  for (int64_t op = src.i(1, 15); op > 0; --op) {
    const std::string id = N("ring", src.i(1, 5));
    PhaseModel p{N("p", src.i(1, 4)), {}, {}};
    if (src.b()) p.next = N("p", src.i(1, 4));
    if (src.b()) p.duration = src.b(1, 8) ? 0. : RandomDuration(src);
    const bool add = src.b();
    const bool valid = (add ? !m.count(id) : m.count(id)) && (p.next || !p.duration);
    NOTE((add ? "add " : "set ") << id << " " << p.phase << (p.next ? " next " + *p.next : "")
                                 << (p.duration ? " after" : "") << (valid ? "" : " refused"));
    const bool threw = Threw([&] {
      if (add) {
        provider->AddPhaseRing(PhaseRing::Id(id), Phase::Id(p.phase), OptId(p.next), p.duration);
      } else {
        provider->SetPhase(PhaseRing::Id(id), Phase::Id(p.phase), OptId(p.next), p.duration);
      }
    });
    CHECK(threw == !valid, "phase-set", id << (threw ? " refused" : " accepted"));
    if (valid) {
      m[id] = p;
      set = set || !add;
    } else {
      ++refused;
    }
    for (int k = 1; k < 7; ++k) {
      const std::string x = N("ring", k);
      CheckPhaseResult(provider->GetPhase(PhaseRing::Id(x)), m.count(x) ? &m[x] : nullptr, x);
    }
  }
  if (set && refused) pbt::nontrivial();
}

PROBE(P16, phased_providers, 40000, 1200000) {
  const int n_lanes = 3;
  ManualRulebook rulebook;
  ManualPhaseRingBook ring_book;
  ManualPhaseProvider phases;
  struct R {
    std::string type;
    std::vector<LaneSRange> zone;
    std::vector<PlainState> states;
  };
  std::map<std::string, R> rules;
  for (int64_t k = src.i(1, 5); k > 0; --k) {
    R r{N("t", src.i(0, 1)), RandomRanges(src, 1, 3, n_lanes), RandomStates(src, false, false, 1, 4)};
    rulebook.AddRule(
        DiscreteValueRule(Rule::Id(N("r", k)), Rule::TypeId(r.type), LaneSRoute(r.zone), Discretes(r.states)));
    rules[N("r", k)] = r;
  }
  std::map<std::string, PlainRing> rings;
  std::map<std::string, std::string> ring_of, ring_of_row;
  for (int64_t k = src.i(0, 3); k > 0; --k) {
    std::vector<std::string> d, w;
    for (const auto& kv : rules)
      if (!ring_of.count(kv.first) && src.b()) d.push_back(kv.first);
    for (int x = 0; x < 3; ++x)
      if (!ring_of_row.count(N("w", x)) && src.b()) w.push_back(N("w", x));
    const PlainRing r = RandomRing(src, N("ring", k), w, d, {}, false);
    for (const auto& x : d) ring_of[x] = r.id;
    for (const auto& x : w) ring_of_row[x] = r.id;
    ring_book.AddPhaseRing(ToRing(r));
    rings[r.id] = r;
  }
  std::map<std::string, PhaseModel> m;
  struct Manual {
    PlainState state;
    std::optional<PlainState> next;
    std::optional<double> duration;
  };
  std::map<std::string, Manual> manual;
  std::unique_ptr<maliput::PhasedDiscreteRuleStateProvider> provider;
  if (src.b(1, 3)) {
    provider = maliput::PhasedDiscreteRuleStateProvider::GetDefaultPhasedDiscreteRuleStateProvider(&rulebook,
                                                                                                   &ring_book, &phases);
    for (const auto& kv : rules) manual[kv.first] = {kv.second.states[0], {}, {}};
  } else {
    provider = std::make_unique<maliput::PhasedDiscreteRuleStateProvider>(&rulebook, &ring_book, &phases);
  }
  const maliput::PhaseBasedRightOfWayRuleStateProvider right_of_way(&ring_book, &phases);
  if (src.b(1, 20)) {
    MUST_THROW("phased-null", maliput::PhasedDiscreteRuleStateProvider(nullptr, &ring_book, &phases), "");
    MUST_THROW("phased-null", maliput::PhasedDiscreteRuleStateProvider(&rulebook, nullptr, &phases), "");
    MUST_THROW("phased-null", maliput::PhasedDiscreteRuleStateProvider(&rulebook, &ring_book, nullptr), "");
  }
  std::vector<std::unique_ptr<tr::TLane>> lanes;
  for (int k = 0; k < n_lanes; ++k) lanes.push_back(std::make_unique<tr::TLane>(LaneId(N("l", k)), tr::LaneGeom()));
  // Expected state of a rule.
  auto expected = [&](const std::string& id) -> std::optional<Manual> {
    const auto ring = ring_of.find(id);
    if (ring != ring_of.end() && m.count(ring->second)) {
      const PhaseModel& p = m[ring->second];
      const PlainRing& r = rings[ring->second];
      Manual want{r.phase(p.phase).discrete.at(id), {}, {}};
      if (p.next) {
        want.next = r.phase(*p.next).discrete.at(id);
        want.duration = p.duration;
      }
      return want;
    }
    if (manual.count(id)) return manual[id];
    return std::nullopt;
  };
  auto same = [](const api::rules::DiscreteValueRuleStateProvider::StateResult& got, const Manual& want) {
    return Plain(got.state) == want.state && got.next.has_value() == want.next.has_value() &&
           (!want.next || (Plain(got.next->state) == *want.next && got.next->duration_until == want.duration));
  };
  for (int64_t op = src.i(1, 16); op > 0; --op) {
    switch (src.idx(3)) {
      case 0: {
        if (rings.empty()) break;
        const PlainRing& r = rings[N("ring", src.i(1, static_cast<int64_t>(rings.size())))];
        PhaseModel p{src.pick(r.phases).id, {}, {}};
        if (src.b()) {
          p.next = src.pick(r.phases).id;
          if (src.b()) p.duration = RandomDuration(src);
        }
        NOTE("phase of " << r.id << " = " << p.phase << (p.next ? " next " + *p.next : ""));
        if (m.count(r.id)) {
          phases.SetPhase(PhaseRing::Id(r.id), Phase::Id(p.phase), OptId(p.next), p.duration);
        } else {
          phases.AddPhaseRing(PhaseRing::Id(r.id), Phase::Id(p.phase), OptId(p.next), p.duration);
        }
        m[r.id] = p;
        break;
      }
      case 1: {
        const std::string id = N("r", src.i(1, static_cast<int64_t>(rules.size())));
        Manual s{src.pick(rules[id].states), {}, {}};
        if (src.b()) s.next = src.pick(rules[id].states);
        if (s.next && src.b()) s.duration = RandomDuration(src);
        NOTE("set " << id);
        provider->SetState(Rule::Id(id), ToDiscrete(s.state),
                           s.next ? std::optional<DiscreteValue>(ToDiscrete(*s.next)) : std::nullopt, s.duration);
        manual[id] = s;
        break;
      }
      default: {
        const double tol = Tolerance(src), s = Coord(src);
        const int lane = static_cast<int>(src.i(0, n_lanes - 1));
        const std::string type = N("t", src.i(0, 2));
        const LaneSRange at(LaneId(N("l", lane)), SRange(s, s));
        bool stateless = false, ok = false, any = false, threw = false;
        std::optional<api::rules::DiscreteValueRuleStateProvider::StateResult> got;
        try {
          got = provider->GetState(api::RoadPosition(lanes[static_cast<size_t>(lane)].get(), {s, 0., 0.}),
                                   Rule::TypeId(type), tol);
        } catch (const std::exception&) {
          threw = true;
        }
        for (const auto& kv : rules) {
          if (kv.second.type != type || !Touch(kv.second.zone, {at}, tol)) continue;
          any = true;
          const auto want = expected(kv.first);
          if (!want) {
            stateless = true;
          } else if (got && same(*got, *want)) {
            ok = true;
          }
        }
        NOTE("query " << type << " at l" << lane << " " << s);
        if (!any) {
          CHECK(!threw && !got.has_value(), "phased-by-position",
                "no rule of the type is there, but a state was found");
        } else if (threw || !got) {
          CHECK(stateless, "phased-by-position", "every applicable rule has a state, but none was reported");
        } else {
          CHECK(ok, "phased-by-position",
                "got " << rg::Str(Plain(got->state)) << ", which is the state of no applicable rule");
        }
      }
    }
    for (const auto& kv : rules) {
      const auto got = provider->GetState(Rule::Id(kv.first));
      const auto want = expected(kv.first);
      if (ring_of.count(kv.first) && m.count(ring_of[kv.first])) pbt::nontrivial();
      CHECK(got.has_value() == want.has_value(), "phased-known", kv.first << (got ? " has a state" : " has no state"));
      if (want)
        CHECK(same(*got, *want), "phased-state",
              kv.first << " got " << rg::Str(Plain(got->state)) << " expected " << rg::Str(want->state));
    }
    CHECK(!provider->GetState(Rule::Id("unknown")).has_value(), "phased-known", "unknown rule");
    for (int k = 0; k < 4; ++k) {
      const std::string id = N("w", k);
      const auto got = right_of_way.GetState(RightOfWayRule::Id(id));
      const bool known = ring_of_row.count(id) && m.count(ring_of_row[id]);
      CHECK(got.has_value() == known, "phased-right-of-way", id << (got ? " has a state" : " has no state"));
      if (!known) continue;
      const PhaseModel& p = m[ring_of_row[id]];
      const PlainRing& r = rings[ring_of_row[id]];
      CHECK(got->state.string() == r.phase(p.phase).right_of_way.at(id), "phased-right-of-way",
            id << " got " << got->state.string());
      CHECK(got->next.has_value() == p.next.has_value(), "phased-right-of-way", id << " next");
      if (p.next)
        CHECK(got->next->state.string() == r.phase(*p.next).right_of_way.at(id) &&
                  got->next->duration_until == p.duration,
              "phased-right-of-way", id << " next " << got->next->state.string());
    }
  }
}

namespace {

bool SameXyz(const api::InertialPosition& a, const api::InertialPosition& b) { return a.xyz() == b.xyz(); }
bool SameQuat(const api::Rotation& a, const api::Rotation& b) { return a.quat().coeffs() == b.quat().coeffs(); }

struct BulbSpec {
  std::string id;
  api::InertialPosition pos;
  api::Rotation rot;
  BulbColor color;
  BulbType type;
  std::optional<double> arrow;
  std::optional<std::vector<BulbState>> states;
  Bulb::BoundingBox box;
  bool valid() const { return (type == BulbType::kArrow) == arrow.has_value(); }
};
api::InertialPosition RandomXyz(pbt::Src& src) { return {src.sym(9.), src.sym(9.), src.sym(9.)}; }
api::Rotation RandomRot(pbt::Src& src) { return api::Rotation::FromRpy(src.sym(3.), src.sym(1.5), src.sym(3.)); }
BulbSpec RandomBulb(pbt::Src& src, bool faults) {
  BulbSpec b{N("b", src.i(0, faults ? 6 : 200)),
             RandomXyz(src),
             RandomRot(src),
             static_cast<BulbColor>(src.i(0, 2)),
             static_cast<BulbType>(src.i(0, 1)),
             {},
             {},
             {}};
  if ((b.type == BulbType::kArrow) != (faults && src.b(1, 12))) b.arrow = src.sym(3.);
  if (src.b()) {
    b.states.emplace();
    for (int64_t k = src.i(0, 3); k > 0; --k) b.states->push_back(static_cast<BulbState>(src.i(0, 2)));
  }
  if (src.b()) b.box.p_BMax = {src.real(0., 1.), src.real(0., 1.), src.real(0., 1.)};
  if (src.b()) b.box.p_BMin = {-src.real(0., 1.), -src.real(0., 1.), -src.real(0., 1.)};
  return b;
}
std::unique_ptr<Bulb> MakeBulb(const BulbSpec& b) {
  return std::make_unique<Bulb>(Bulb::Id(b.id), b.pos, b.rot, b.color, b.type, b.arrow, b.states, b.box);
}
void CheckBulb(const Bulb& bulb, const BulbSpec& b) {
  CHECK(bulb.id().string() == b.id && SameXyz(bulb.position_bulb_group(), b.pos) &&
            SameQuat(bulb.orientation_bulb_group(), b.rot) && bulb.color() == b.color && bulb.type() == b.type &&
            bulb.arrow_orientation_rad() == b.arrow && bulb.bounding_box().p_BMin == b.box.p_BMin &&
            bulb.bounding_box().p_BMax == b.box.p_BMax,
        "bulb-accessors", b.id);
  const std::vector<BulbState> states =
      b.states && !b.states->empty() ? *b.states : std::vector<BulbState>{BulbState::kOff, BulbState::kOn};
  const std::set<BulbState> want(states.begin(), states.end());
  CHECK(std::set<BulbState>(bulb.states().begin(), bulb.states().end()) == want, "bulb-states", b.id);
  for (const BulbState s : {BulbState::kOff, BulbState::kOn, BulbState::kBlinking})
    CHECK(bulb.IsValidState(s) == (want.count(s) > 0), "bulb-states", b.id);
  const BulbState def = want.count(BulbState::kOff)        ? BulbState::kOff
                        : want.count(BulbState::kBlinking) ? BulbState::kBlinking
                                                           : BulbState::kOn;
  CHECK(bulb.GetDefaultState() == def, "bulb-default", b.id);
}

struct GroupSpec {
  std::string id;
  api::InertialPosition pos;
  api::Rotation rot;
  std::vector<BulbSpec> bulbs;
  int null_at{-1};
  bool valid() const {
    std::set<std::string> ids;
    for (const auto& b : bulbs)
      if (!ids.insert(b.id).second) return false;
    return !bulbs.empty() && null_at < 0;
  }
};
GroupSpec RandomGroup(pbt::Src& src, bool faults) {
  GroupSpec g{N("g", src.i(0, faults ? 6 : 200)), RandomXyz(src), RandomRot(src), {}, -1};
  for (int64_t k = faults && src.b(1, 12) ? 0 : src.i(1, 4); k > 0; --k) {
    BulbSpec b = RandomBulb(src, faults);
    if (!b.valid()) b.arrow = b.type == BulbType::kArrow ? std::optional<double>(0.5) : std::nullopt;
    if (!faults || src.b(9, 10)) b.id += N("x", k);
    g.bulbs.push_back(b);
  }
  if (faults && src.b(1, 12)) g.null_at = static_cast<int>(src.idx(g.bulbs.size() + 1));
  return g;
}
std::unique_ptr<BulbGroup> MakeGroup(const GroupSpec& g) {
  std::vector<std::unique_ptr<Bulb>> bulbs;
  for (const auto& b : g.bulbs) bulbs.push_back(MakeBulb(b));
  if (g.null_at >= 0) bulbs.insert(bulbs.begin() + g.null_at, nullptr);
  return std::make_unique<BulbGroup>(BulbGroup::Id(g.id), g.pos, g.rot, std::move(bulbs));
}
void CheckGroup(const BulbGroup& group, const GroupSpec& g) {
  CHECK(group.id().string() == g.id && SameXyz(group.position_traffic_light(), g.pos) &&
            SameQuat(group.orientation_traffic_light(), g.rot),
        "group-accessors", g.id);
  const auto bulbs = group.bulbs();
  CHECK(bulbs.size() == g.bulbs.size(), "group-bulbs", g.id);
  for (size_t k = 0; k < bulbs.size(); ++k) {
    CheckBulb(*bulbs[k], g.bulbs[k]);
    CHECK(group.GetBulb(bulbs[k]->id()) == bulbs[k], "group-get", g.bulbs[k].id);
    CHECK(bulbs[k]->bulb_group() == &group, "group-parent", g.bulbs[k].id);
  }
  CHECK(group.GetBulb(Bulb::Id("nowhere")) == nullptr, "group-get", "unknown");
}
struct LightSpec {
  std::string id;
  api::InertialPosition pos;
  api::Rotation rot;
  std::vector<GroupSpec> groups;
  int null_at{-1};
  bool valid() const {
    std::set<std::string> ids;
    for (const auto& b : groups)
      if (!ids.insert(b.id).second) return false;
    return null_at < 0;
  }
};
LightSpec RandomLight(pbt::Src& src, bool faults) {
  LightSpec l{N("t", src.i(0, 5)), RandomXyz(src), RandomRot(src), {}, -1};
  for (int64_t k = src.i(0, 3); k > 0; --k) {
    l.groups.push_back(RandomGroup(src, false));
    if (!faults || src.b(9, 10)) l.groups.back().id += N("x", k);
    if (faults && l.groups.size() > 1 && src.b(1, 8)) l.groups.back().id = l.groups[0].id;
  }
  if (faults && src.b(1, 12)) l.null_at = static_cast<int>(src.idx(l.groups.size() + 1));
  return l;
}
std::unique_ptr<TrafficLight> MakeLight(const LightSpec& l) {
  std::vector<std::unique_ptr<BulbGroup>> groups;
  for (const auto& g : l.groups) groups.push_back(MakeGroup(g));
  if (l.null_at >= 0) groups.insert(groups.begin() + l.null_at, nullptr);
  return std::make_unique<TrafficLight>(TrafficLight::Id(l.id), l.pos, l.rot, std::move(groups));
}
void CheckLight(const TrafficLight& light, const LightSpec& l) {
  CHECK(light.id().string() == l.id && SameXyz(light.position_road_network(), l.pos) &&
            SameQuat(light.orientation_road_network(), l.rot),
        "light-accessors", l.id);
  const auto groups = light.bulb_groups();
  CHECK(groups.size() == l.groups.size(), "light-groups", l.id);
  for (size_t k = 0; k < groups.size(); ++k) {
    CheckGroup(*groups[k], l.groups[k]);
    CHECK(light.GetBulbGroup(groups[k]->id()) == groups[k], "light-get", l.groups[k].id);
    CHECK(groups[k]->traffic_light() == &light, "light-parent", l.groups[k].id);
    const UniqueBulbGroupId gid = groups[k]->unique_id();
    CHECK(gid.traffic_light_id().string() == l.id && gid.bulb_group_id().string() == l.groups[k].id &&
              gid.string() == l.id + "-" + l.groups[k].id,
          "unique-id", gid.string());
    for (const Bulb* b : groups[k]->bulbs()) {
      const UniqueBulbId bid = b->unique_id();
      CHECK(FromBulb(bid) == (BulbKey{l.id, l.groups[k].id, b->id().string()}) &&
                bid.string() == l.id + "-" + l.groups[k].id + "-" + b->id().string(),
            "unique-id", bid.string());
    }
  }
  CHECK(light.GetBulbGroup(BulbGroup::Id("nowhere")) == nullptr, "light-get", "unknown");
}

}  // namespace

PROBE(P17, elements, 120000, 3600000) {
  switch (src.idx(3)) {
    case 0: {
      const BulbSpec b = RandomBulb(src, true);
      NOTE("bulb " << b.id << " type " << static_cast<int>(b.type) << (b.arrow ? " arrow" : "")
                   << (b.valid() ? "" : " refused"));
      if (!b.valid() || b.states) pbt::nontrivial();
      std::unique_ptr<Bulb> bulb;
      const bool threw = Threw([&] { bulb = MakeBulb(b); });
      CHECK(threw == !b.valid(), "bulb-validation", (threw ? "refused" : "accepted"));
      if (threw) break;
      CheckBulb(*bulb, b);
      CHECK(bulb->bulb_group() == nullptr, "group-parent", b.id);
      MUST_THROW("unique-id", bulb->unique_id(), "bulb without a group");
      break;
    }
    case 1: {
      const GroupSpec g = RandomGroup(src, true);
      if (g.bulbs.size() > 1 || !g.valid()) pbt::nontrivial();
      NOTE("group of " << g.bulbs.size() << (g.valid() ? "" : " refused"));
      std::unique_ptr<BulbGroup> group;
      const bool threw = Threw([&] { group = MakeGroup(g); });
      CHECK(threw == !g.valid(), "group-validation", (threw ? "refused" : "accepted"));
      if (threw) break;
      CheckGroup(*group, g);
      CHECK(group->traffic_light() == nullptr, "light-parent", g.id);
      MUST_THROW("unique-id", group->unique_id(), "group without a light");
      MUST_THROW("unique-id", group->bulbs()[0]->unique_id(), "bulb whose group has no light");
      break;
    }
    default: {
      const LightSpec l = RandomLight(src, true);
      if (l.groups.size() > 1 || !l.valid()) pbt::nontrivial();
      NOTE("light of " << l.groups.size() << (l.valid() ? "" : " refused"));
      std::unique_ptr<TrafficLight> light;
      const bool threw = Threw([&] { light = MakeLight(l); });
      CHECK(threw == !l.valid(), "light-validation", (threw ? "refused" : "accepted"));
      if (!threw) CheckLight(*light, l);
    }
  }
}

PROBE(P17, book, 24000, 700000) {
  maliput::TrafficLightBook book;
  std::map<std::string, LightSpec> m;
  std::map<std::string, const TrafficLight*> ptr;
  for (int64_t op = src.i(1, 8); op > 0; --op) {
    if (src.b(1, 15)) MUST_THROW("light-book-add", book.AddTrafficLight(nullptr), "");
    const LightSpec l = RandomLight(src, false);
    const bool valid = !m.count(l.id);
    if (!valid) pbt::nontrivial();
    auto light = MakeLight(l);
    const TrafficLight* p = light.get();
    NOTE("add " << l.id);
    const bool threw = Threw([&] { book.AddTrafficLight(std::move(light)); });
    CHECK(threw == !valid, "light-book-add", l.id);
    if (valid) {
      m[l.id] = l;
      ptr[l.id] = p;
    }
    std::set<const TrafficLight*> all;
    for (const TrafficLight* t : book.TrafficLights()) CHECK(all.insert(t).second, "light-book-all", "repeated");
    CHECK(all.size() == m.size(), "light-book-all", all.size());
    for (int k = 0; k < 6; ++k) {
      const std::string id = N("t", k);
      const TrafficLight* got = book.GetTrafficLight(TrafficLight::Id(id));
      CHECK((got != nullptr) == (m.count(id) > 0), "light-book-get", id);
      if (!got) continue;
      CHECK(got == ptr[id] && all.count(got), "light-book-get", id);
      CheckLight(*got, m[id]);
    }
  }
}

PROBE(P17, unique_ids, 40000, 1200000) {
  // Identity of bulb identifiers is identity of the three parts, also in ordered and hashed containers.
  auto part = [&] { return src.pick(std::vector<std::string>{"a", "b", "a-b", "b-a", "-", "a-"}); };
  const BulbKey a{part(), part(), part()}, b{part(), part(), part()};
  const UniqueBulbId x = ToBulb(a), y = ToBulb(b);
  NOTE(a[0] << "|" << a[1] << "|" << a[2] << " vs " << b[0] << "|" << b[1] << "|" << b[2]);
  if (a != b) pbt::nontrivial();
  CHECK((x == y) == (a == b) && (x != y) == (a != b), "unique-id-equality", "");
  const std::less<UniqueBulbId> less;
  CHECK(less(x, y) == (a < b) && less(y, x) == (b < a), "unique-id-order", "");
  std::unordered_map<UniqueBulbId, int> h{{x, 1}};
  CHECK((h.count(y) > 0) == (a == b), "unique-id-hash", "");
  CHECK(h.count(ToBulb(a)) == 1, "unique-id-hash", "");
  CHECK(FromBulb(x) == a && x.string() == a[0] + "-" + a[1] + "-" + a[2], "unique-id", x.string());
  const UniqueBulbGroupId gx{TrafficLight::Id(a[0]), BulbGroup::Id(a[1])},
      gy{TrafficLight::Id(b[0]), BulbGroup::Id(b[1])};
  const std::pair<std::string, std::string> ga{a[0], a[1]}, gb{b[0], b[1]};
  CHECK((gx == gy) == (ga == gb) && (gx != gy) == (ga != gb), "unique-id-equality", "group");
  const std::less<UniqueBulbGroupId> gless;
  CHECK(gless(gx, gy) == (ga < gb) && gless(gy, gx) == (gb < ga), "unique-id-order", "group");
  std::unordered_map<UniqueBulbGroupId, int> gh{{gx, 1}};
  CHECK((gh.count(gy) > 0) == (ga == gb), "unique-id-hash", "group");
}

PROBE(P18, intersections, 24000, 700000) {
  tr::RoadSpec spec = tr::ScatteredRoad(src, 20., 3, 3);
  spec.linear_tolerance = 0.01;
  spec.translation = src.b(1, 3) ? tr::V3{src.sym(50.), src.sym(50.), src.sym(5.)} : tr::V3{};
  const tr::Road road = tr::Build(spec);
  const auto lanes = spec.lanes();
  const double tol = spec.linear_tolerance;
  ManualPhaseProvider phases;
  maliput::IntersectionBook book(road.rg.get());
  MUST_THROW("intersection-book-null", maliput::IntersectionBook(nullptr), "");
  struct I {
    PlainRing ring;
    std::vector<LaneSRange> region;
    api::Intersection* p{};
  };
  std::map<std::string, I> m;
  std::map<std::string, PhaseModel> current;
  auto region = [&](int min_n, int max_n) {
    std::vector<LaneSRange> r;
    for (int64_t k = src.i(min_n, max_n); k > 0; --k) {
      const auto* l = lanes[src.idx(lanes.size())];
      const double grid = l->geom.length / 8.;
      r.emplace_back(LaneId(l->id),
                     SRange(grid * static_cast<double>(src.i(0, 8)), grid * static_cast<double>(src.i(0, 8))));
    }
    return r;
  };
  auto may_touch = [](const std::vector<LaneSRange>& a, const std::vector<LaneSRange>& b, double t) {
    return Touch(a, b, t);
  };
  bool changed = false;
  for (int64_t op = src.i(1, 14); op > 0; --op) {
    switch (src.weighted({4, 4, 2, 3})) {
      case 0: {  // Add.
        if (src.b(1, 15)) MUST_THROW("intersection-add", book.AddIntersection(nullptr), "");
        const std::string id = N("i", src.i(0, 3));
        I i;
        i.ring = RandomRing(src, N("ring", src.i(0, 3)), SomeNames(src, "w", 4, 2), SomeNames(src, "r", 4, 2),
                            SomeBulbs(src, 3), src.b(3, 4));
        // Rings of a given identifier are the same everywhere.
        for (const auto& kv : m)
          if (kv.second.ring.id == i.ring.id) i.ring = kv.second.ring;
        i.region = region(1, 3);  // Empty regions are outside of the contract of position queries.
        const bool valid = !m.count(id);
        NOTE("add " << id << " " << Str(i.ring) << " with " << i.region.size() << " ranges"
                    << (valid ? "" : " refused"));
        if (src.b(1, 15))
          MUST_THROW("intersection-null",
                     maliput::Intersection(api::Intersection::Id(id), i.region, ToRing(i.ring), nullptr), "");
        auto x = std::make_unique<maliput::Intersection>(api::Intersection::Id(id), i.region, ToRing(i.ring), &phases);
        i.p = x.get();
        const bool threw = Threw([&] { book.AddIntersection(std::move(x)); });
        CHECK(threw == !valid, "intersection-add", id << (threw ? " refused" : " accepted"));
        if (valid) m[id] = i;
        break;
      }
      case 1: {  // Change the phase, through the intersection or the provider.
        if (m.empty()) break;
        auto it = m.begin();
        std::advance(it, static_cast<long>(src.idx(m.size())));
        const I& i = it->second;
        PhaseModel p{src.pick(i.ring.phases).id, {}, {}};
        if (src.b()) p.next = src.pick(i.ring.phases).id;
        if (src.b()) p.duration = RandomDuration(src);
        bool valid = p.next || !p.duration;
        const bool known = current.count(i.ring.id) > 0;
        NOTE("phase of " << it->first << " = " << p.phase << (known ? "" : " (new)") << (valid ? "" : " refused"));
        bool threw;
        if (!known && src.b(3, 4)) {
          threw = Threw(
              [&] { phases.AddPhaseRing(PhaseRing::Id(i.ring.id), Phase::Id(p.phase), OptId(p.next), p.duration); });
        } else {
          valid = valid && known;
          threw = Threw([&] { i.p->SetPhase(Phase::Id(p.phase), OptId(p.next), p.duration); });
        }
        CHECK(threw == !valid, "intersection-set-phase", it->first << (threw ? " refused" : " accepted"));
        if (valid) {
          changed = changed || known;
          current[i.ring.id] = p;
        }
        break;
      }
      case 2: {  // By region.
        const auto q = region(0, 3);
        const double t = src.b() ? 0. : src.real(0., 3.);
        std::set<api::Intersection*> got;
        for (auto* x : book.FindIntersections(q, t)) CHECK(got.insert(x).second, "intersection-find", "repeated");
        NOTE("find by " << q.size() << " ranges");
        for (const auto& kv : m) {
          if (may_touch(kv.second.region, q, t - 1e-9)) {
            CHECK(got.count(kv.second.p), "intersection-find", kv.first << " was missed, tolerance " << t);
          } else if (!may_touch(kv.second.region, q, t + 1e-9)) {
            CHECK(!got.count(kv.second.p), "intersection-find", kv.first << " was found, tolerance " << t);
          }
        }
        break;
      }
      default: {  // By point.
        const auto* l = lanes[src.idx(lanes.size())];
        const tr::LaneGeom& g = l->geom;
        tr::V3 local = g.to_xyz({g.length * src.real(0., 1.), g.r_min + (g.r_max - g.r_min) * src.real(0., 1.),
                                 g.h_min + (g.h_max - g.h_min) * src.real(0., 1.)});
        if (src.b(1, 4)) local = local + tr::V3{src.sym(3.), src.sym(3.), src.sym(3.)};
        const api::InertialPosition p = tr::ip(local + spec.translation);
        bool any_must = false;
        std::set<const api::Intersection*> may_be;
        for (const auto& kv : m) {
          bool must = false, may = false;
          for (const auto& r : kv.second.region) {
            tr::V3 srh, xyz;
            double d;
            spec.lane(r.lane_id().string())->geom.nearest(local, false, &srh, &xyz, &d);
            const double lo = std::min(r.s_range().s0(), r.s_range().s1()),
                         hi = std::max(r.s_range().s0(), r.s_range().s1());
            const double off = std::max({lo - srh.x, srh.x - hi, 0.});
            must = must || (d <= tol * 0.999 && off <= tol * 0.999);
            may = may || (d <= tol * 1.001 && off <= tol * 1.001);
          }
          const bool got = kv.second.p->Includes(p, road.rg.get());
          if (must) CHECK(got, "intersection-includes", kv.first << " holds " << local);
          if (!may) CHECK(!got, "intersection-includes", kv.first << " does not hold " << local);
          any_must = any_must || must;
          if (may) may_be.insert(kv.second.p);
        }
        const api::Intersection* found = book.FindIntersection(p);
        NOTE("find by point " << local);
        if (found)
          CHECK(may_be.count(found), "intersection-find-point", found->id().string() << " does not hold " << local);
        if (any_must) CHECK(found != nullptr, "intersection-find-point", "an intersection holds " << local);
      }
    }
    // Contents.
    std::set<api::Intersection*> all;
    for (auto* x : book.GetIntersections()) CHECK(all.insert(x).second, "intersection-book", "repeated");
    CHECK(all.size() == m.size(), "intersection-book", all.size() << " expected " << m.size());
    for (int k = 0; k < 5; ++k) {
      const std::string id = N("i", k);
      auto* got = book.GetIntersection(api::Intersection::Id(id));
      CHECK(got == (m.count(id) ? m[id].p : nullptr), "intersection-get", id);
      if (!got) continue;
      const I& i = m[id];
      CHECK(all.count(got) && got->id().string() == id && Same(got->region(), i.region) &&
                got->ring_id().string() == i.ring.id,
            "intersection-accessors", id);
      const bool known = current.count(i.ring.id) > 0;
      CheckPhaseResult(got->Phase(), known ? &current[i.ring.id] : nullptr, id);
      const auto bulbs = got->bulb_states();
      const auto discrete = got->DiscreteValueRuleStates();
      const auto rules = got->RuleStates();
      if (!known) {
        CHECK(!bulbs && !discrete && !rules, "intersection-states", id << " has no current phase");
        continue;
      }
      const PlainPhase& p = i.ring.phase(current[i.ring.id].phase);
      CHECK(bulbs.has_value() == p.bulbs.has_value() && discrete && rules, "intersection-states", id);
      if (bulbs) CHECK(PlainBulbStates(*bulbs) == *p.bulbs, "intersection-states", id << " bulbs");
      CHECK(PlainDiscreteStates(*discrete) == p.discrete, "intersection-states", id << " rules");
      CHECK(PlainRuleStates(*rules) == p.right_of_way, "intersection-states", id << " right of way");
    }
    // Lookups by what intersections hold. Those without a current phase are not judged.
    auto lookup = [&](const std::string& what, auto holds, auto includes, const api::Intersection* found) {
      bool any = false, vague = false, ok = false;
      for (const auto& kv : m) {
        const bool h = holds(kv.second.ring);
        if (!current.count(kv.second.ring.id)) {
          vague = vague || h;
        } else {
          CHECK(includes(kv.second.p) == h, "intersection-includes", kv.first << " " << what);
          any = any || h;
        }
        if (h && kv.second.p == found) ok = true;
      }
      if (found) CHECK(ok, "intersection-find-id", what << " found in " << found->id().string());
      if (any) CHECK(found != nullptr, "intersection-find-id", what << " not found");
    };
    for (int k = 0; k < 4; ++k) {
      const std::string w = N("w", k), r = N("r", k), t = N("t", k);
      lookup(
          w, [&](const PlainRing& x) { return x.phases[0].right_of_way.count(w) > 0; },
          [&](const api::Intersection* x) { return x->Includes(RightOfWayRule::Id(w)); },
          book.FindIntersection(RightOfWayRule::Id(w)));
      lookup(
          r, [&](const PlainRing& x) { return x.phases[0].discrete.count(r) > 0; },
          [&](const api::Intersection* x) { return x->Includes(Rule::Id(r)); }, book.FindIntersection(Rule::Id(r)));
      lookup(
          t,
          [&](const PlainRing& x) {
            if (x.phases[0].bulbs)
              for (const auto& kv : *x.phases[0].bulbs)
                if (kv.first[0] == t) return true;
            return false;
          },
          [&](const api::Intersection* x) { return x->Includes(TrafficLight::Id(t)); },
          book.FindIntersection(TrafficLight::Id(t)));
    }
  }
  if (m.size() >= 2 || changed) pbt::nontrivial();
}
