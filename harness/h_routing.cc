// P08 lane sequences and lane routes, P09 routing graph, P10 distance router, P11 routes and phases.
#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
#include <set>

#include "maliput/api/lane_data.h"
#include "maliput/api/regions.h"
#include "maliput/base/distance_router.h"
#include "maliput/routing/derive_lane_s_routes.h"
#include "maliput/routing/find_lane_sequences.h"
#include "maliput/routing/graph/graph.h"
#include "maliput/routing/graph/graph_utils.h"
#include "maliput/routing/phase.h"
#include "maliput/routing/route.h"
#include "network.h"
#include "testroad.h"
#include "topology.h"

using namespace tr;
using api::Lane;
using api::LaneEnd;
using api::LaneId;
using api::LanePosition;
using api::LaneSRange;
using api::LaneSRoute;
using api::RoadPosition;
using api::Segment;
using api::SRange;

namespace rt = maliput::routing;
namespace gr = maliput::routing::graph;

PBT_RULE(
    P08,
    "Random lane graphs (random topologies, and smooth connected roads with rings and parallel ways), lanes to go "
    "from and to, and length limits, some at the exact length of a sequence. Non-trivial: some sequence has three or "
    "more lanes.");
PBT_RULE(
    P09,
    "Random road topologies with rings, parallel ways and segments joined over subsets of their lanes. Non-trivial: "
    "some node joins two or more segments and two edge sequences or more are compared.");

PBT_RULE(
    P10,
    "Random smooth connected roads with rings, parallel ways, partial merges and lanes in both directions; start and "
    "end positions, tolerances and constraints. Non-trivial: some route has two or more phases.");

namespace {

struct End {
  const LaneSpec* lane{};
  bool start{};
};
int bp(const End& e) { return e.start ? e.lane->start_bp : e.lane->finish_bp; }
bool side(const End& e) { return e.start ? e.lane->start_a : e.lane->finish_a; }

// All connections (end of a, end of b) between two lanes.
std::vector<std::pair<bool, bool>> Connections(const LaneSpec* a, const LaneSpec* b) {
  std::vector<std::pair<bool, bool>> r;
  for (bool sa : {true, false})
    for (bool sb : {true, false})
      if (bp({a, sa}) == bp({b, sb}) && side({a, sa}) != side({b, sb})) r.emplace_back(sa, sb);
  return r;
}

using Seq = std::vector<const LaneSpec*>;

// All sequences of distinct, consecutively connected lanes from `at.back()` to `end`, of any length of the lanes
// between. False: there are too many.
bool AllSequences(const std::vector<const LaneSpec*>& lanes, Seq* at, const LaneSpec* end, std::vector<Seq>* out,
                  int* budget) {
  for (const LaneSpec* next : lanes) {
    if (std::find(at->begin(), at->end(), next) != at->end()) continue;
    const int ways = static_cast<int>(Connections(at->back(), next).size());
    if (ways == 0) continue;
    // The code under test explores each way.
    *budget -= ways * ways;
    if (*budget < 0) return false;
    at->push_back(next);
    if (next == end) {
      out->push_back(*at);
    } else if (!AllSequences(lanes, at, end, out, budget)) {
      return false;
    }
    at->pop_back();
  }
  return true;
}

// False: there are too many.
bool AllSequences(const RoadSpec& spec, const LaneSpec* start, const LaneSpec* end, std::vector<Seq>* out) {
  Seq at{start};
  int budget = 600;
  if (start != end) return AllSequences(spec.lanes(), &at, end, out, &budget);
  out->push_back(at);
  return true;
}

// A lane which can often be reached from `start`.
const LaneSpec* Destination(pbt::Src& src, const RoadSpec& spec, const LaneSpec* start) {
  const auto lanes = spec.lanes();
  if (src.b(1, 5)) return lanes[src.idx(lanes.size())];
  const LaneSpec* at = start;
  const int steps = static_cast<int>(src.i(1, 5));
  std::set<const LaneSpec*> visited{start};
  for (int k = 0; k < steps; ++k) {
    Seq next;
    for (const LaneSpec* l : lanes)
      if (!visited.count(l) && !Connections(at, l).empty()) next.push_back(l);
    if (next.empty()) break;
    at = next[src.idx(next.size())];
    visited.insert(at);
  }
  return at;
}

double Between(const Seq& seq) {
  double r = 0.;
  for (size_t k = 1; k + 1 < seq.size(); ++k) r += seq[k]->geom.length;
  return r;
}

// Whether some, or every, way to traverse the sequence goes against itself within a lane.
void UTurns(const Seq& seq, bool* some, bool* all) {
  *some = false;
  *all = true;
  std::function<void(size_t, bool, bool)> go = [&](size_t k, bool entered_at_start, bool turned) {
    if (k + 1 == seq.size()) {
      *some = *some || turned;
      *all = *all && turned;
      return;
    }
    for (const auto& c : Connections(seq[k], seq[k + 1]))
      go(k + 1, c.second, turned || (k > 0 && c.first == entered_at_start));
  };
  go(0, true, false);
}

std::string Show(const Seq& seq) {
  std::string r;
  for (const LaneSpec* l : seq) r += (r.empty() ? "" : "-") + l->id;
  return "[" + r + "]";
}

std::string ShowAll(const std::vector<Seq>& all) {
  std::string r;
  for (const Seq& s : all) r += Show(s) + " ";
  return r;
}

}  // namespace

PROBE(P08, sequences, 40000, 1200000) {
  Road road = Build(AnyRoad(src, 9));
  const RoadSpec& spec = road.spec;
  const auto lanes = spec.lanes();
  const LaneSpec* start = lanes[src.idx(lanes.size())];
  const LaneSpec* end = Destination(src, spec, start);
  NOTE(Describe(spec));
  std::vector<Seq> all;
  if (!AllSequences(spec, start, end, &all)) {
    pbt::label("too many sequences");
    return;
  }
  double limit = src.b(1, 3) ? 1e9 : src.b(1, 8) ? -src.real(0., 1.) : src.real(0., 20.);
  if (!all.empty() && src.b(1, 2)) {
    // About the length of a sequence.
    limit = Between(all[src.idx(all.size())]);
    const size_t how = src.weighted({2, 1, 1});
    if (how == 1) limit -= 1e-3;
    if (how == 2) limit += 1e-3;
  }
  NOTE("from " << start->id << " to " << end->id << " limit " << limit);
  auto spec_of = [&](const Lane* l) { return spec.lane(l->id().string()); };
  std::vector<Seq> must, may;  // Within rounding of the limit, either.
  bool ring = false;
  for (const Seq& s : all) {
    const double d = Between(s);
    if (s.size() == 1 || d <= limit - 1e-9) {
      must.push_back(s);
    } else if (d <= limit + 1e-9) {
      may.push_back(s);
    }
    if (s.size() >= 3) pbt::nontrivial();
    for (size_t k = 0; k + 1 < s.size(); ++k) ring = ring || Connections(s[k], s[k + 1]).size() > 1;
  }
  // Sums of halves are exact: at the limit is within it.
  if (src.b(1, 1)) {
    for (const Seq& s : may)
      if (Between(s) <= limit) {
        bool halves = true;
        for (const LaneSpec* l : s) halves = halves && l->geom.length * 2. == std::floor(l->geom.length * 2.);
        if (halves) must.push_back(s);
      }
  }
  pbt::label(all.size() > 4 ? "many sequences" : all.size() > 1 ? "several sequences" : "one or none");
  const Lane* ls = road.lanes.at(start->id);
  const Lane* le = road.lanes.at(end->id);
  for (const int mode : {0, 1, 2}) {  // Plain, with U-turns, without.
    const auto got = mode == 0 ? rt::FindLaneSequences(ls, le, limit) : rt::FindLaneSequences(ls, le, limit, mode == 2);
    std::vector<Seq> seqs;
    for (const auto& g : got) {
      Seq s;
      for (const Lane* l : g) {
        CHECK(l != nullptr && road.lanes.at(l->id().string()) == l, "sequence-foreign",
              "a lane which is not the road's");
        s.push_back(spec_of(l));
      }
      seqs.push_back(s);
    }
    for (size_t k = 0; k < seqs.size(); ++k) {
      const Seq& s = seqs[k];
      CHECK(std::find(must.begin(), must.end(), s) != must.end() || std::find(may.begin(), may.end(), s) != may.end(),
            "sequence-wrong",
            "mode " << mode << ": got " << Show(s) << " of length " << Between(s)
                    << ", which is no sequence within the limit " << limit);
      if (!ring)
        CHECK(std::count(seqs.begin(), seqs.end(), s) == 1, "sequence-repeated", "mode " << mode << ": " << Show(s));
      bool some, every;
      UTurns(s, &some, &every);
      if (mode == 2)
        CHECK(!every || s.size() <= 2, "sequence-u-turn",
              Show(s) << " turns against itself whichever way it is traversed");
    }
    for (const Seq& s : must) {
      bool some, every;
      UTurns(s, &some, &every);
      if (mode == 2 && some) continue;
      CHECK(std::find(seqs.begin(), seqs.end(), s) != seqs.end(),
            mode == 2 ? "sequence-without-turn-missing" : "sequence-missing",
            "mode " << mode << ": " << Show(s) << " is missing; got " << ShowAll(seqs));
    }
  }
}

PROBE(P08, lane_routes, 30000, 900000) {
  Road road = Build(AnyRoad(src, 9));
  const RoadSpec& spec = road.spec;
  const auto lanes = spec.lanes();
  const LaneSpec* start = lanes[src.idx(lanes.size())];
  const LaneSpec* end = Destination(src, spec, start);
  const double s0 = src.real(0., 1.) * start->geom.length, s1 = src.real(0., 1.) * end->geom.length;
  const double limit = src.b(1, 2) ? 1e9 : 0.25 + 0.5 * static_cast<double>(src.i(0, 20));
  NOTE(Describe(spec));
  NOTE("from " << start->id << " at " << s0 << " to " << end->id << " at " << s1 << " limit " << limit);
  std::vector<Seq> all;
  if (!AllSequences(spec, start, end, &all)) {
    pbt::label("too many sequences");
    return;
  }
  const auto got = rt::DeriveLaneSRoutes({road.lanes.at(start->id), LanePosition(s0, src.sym(1.), 0.)},
                                         {road.lanes.at(end->id), LanePosition(s1, src.sym(1.), 0.)}, limit);
  std::vector<Seq> seqs;
  for (const LaneSRoute& route : got) {
    Seq s;
    for (const LaneSRange& r : route.ranges()) s.push_back(spec.lane(r.lane_id().string()));
    seqs.push_back(s);
    if (s.size() >= 3) pbt::nontrivial();
    CHECK(std::find(all.begin(), all.end(), s) != all.end() && (s.size() <= 2 || Between(s) <= limit + 1e-9),
          "lane-route-wrong",
          Show(s) << " is no sequence from " << start->id << " to " << end->id << " within " << limit);
    const auto& ranges = route.ranges();
    CHECK(ranges.front().s_range().s0() == s0, "lane-route-start",
          Show(s) << " starts at " << ranges.front().s_range().s0());
    CHECK(ranges.back().s_range().s1() == s1, "lane-route-end", Show(s) << " ends at " << ranges.back().s_range().s1());
    for (size_t k = 0; k + 1 < ranges.size(); ++k) {
      const double a = ranges[k].s_range().s1(), b = ranges[k + 1].s_range().s0();
      const double la = s[k]->geom.length, lb = s[k + 1]->geom.length;
      CHECK((a == 0. || a == la) && (b == 0. || b == lb), "lane-route-border",
            Show(s) << ": leaves range " << k << " at " << a << " of " << la << ", enters the next at " << b << " of "
                    << lb);
      const auto ways = Connections(s[k], s[k + 1]);
      CHECK(std::find(ways.begin(), ways.end(), std::make_pair(a == 0., b == 0.)) != ways.end(), "lane-route-jump",
            Show(s) << ": leaves " << s[k]->id << " at " << a << " of " << la << " and enters " << s[k + 1]->id
                    << " at " << b << " of " << lb << ", which do not meet");
    }
  }
  for (const Seq& s : all) {
    if (s.size() > 1 && Between(s) > limit - 1e-9) continue;
    CHECK(std::find(seqs.begin(), seqs.end(), s) != seqs.end(), "lane-route-missing",
          Show(s) << " is missing; got " << ShowAll(seqs));
  }
  for (const LaneSpec* a : lanes)
    for (const LaneSpec* b : lanes) {
      const auto ways = Connections(a, b);
      const auto s = rt::DetermineEdgeS(*road.lanes.at(a->id), *road.lanes.at(b->id));
      CHECK(s.has_value() == !ways.empty(), "edge-s", a->id << " to " << b->id << " connected: " << !ways.empty());
      if (!s) continue;
      bool ok = false;
      for (const auto& w : ways) ok = ok || *s == (w.first ? 0. : a->geom.length);
      CHECK(ok, "edge-s-value", a->id << " meets " << b->id << " at " << *s << " of " << a->geom.length);
    }
  if (src.b(1, 16)) {
    const RoadPosition good(road.lanes.at(start->id), LanePosition(s0, 0., 0.));
    MUST_THROW("lane-route-null", rt::DeriveLaneSRoutes({nullptr, LanePosition(0., 0., 0.)}, good, limit), "");
    MUST_THROW("lane-route-null", rt::DeriveLaneSRoutes(good, {nullptr, LanePosition(0., 0., 0.)}, limit), "");
  }
}

namespace {

// Bundles of branch points: those at one end of a segment belong together.
struct Bundles {
  std::vector<int> of;
  int root(int k) {
    while (of[k] != k) k = of[k] = of[of[k]];
    return k;
  }
};

Bundles MakeBundles(const RoadSpec& spec) {
  Bundles b;
  for (size_t k = 0; k < spec.branch_points.size(); ++k) b.of.push_back(static_cast<int>(k));
  for (const auto& j : spec.junctions)
    for (const auto& s : j.segments)
      for (bool start : {true, false})
        for (const auto& l : s.lanes) b.of[b.root(bp({&l, start}))] = b.root(bp({&s.lanes.front(), start}));
  for (size_t k = 0; k < b.of.size(); ++k) b.of[k] = b.root(static_cast<int>(k));
  return b;
}

struct SegmentRef {
  const SegmentSpec* spec;
  int a, b;  // Bundles at the start and finish.
};

std::vector<SegmentRef> Segments(const RoadSpec& spec, const Bundles& bundles) {
  std::vector<SegmentRef> r;
  for (const auto& j : spec.junctions)
    for (const auto& s : j.segments)
      r.push_back({&s, bundles.of[s.lanes.front().start_bp], bundles.of[s.lanes.front().finish_bp]});
  return r;
}

// Whether some lane of x, at that end, continues in some lane of y, at that end; and whether only touching ones exist.
bool Drivable(const SegmentSpec& x, bool x_start, const SegmentSpec& y, bool y_start) {
  for (const auto& a : x.lanes)
    for (const auto& b : y.lanes)
      if (bp({&a, x_start}) == bp({&b, y_start}) && side({&a, x_start}) != side({&b, y_start})) return true;
  return false;
}

}  // namespace

PROBE(P09, graph, 80000, 2000000) {
  Road road = Build(AnyRoad(src, 9));
  const RoadSpec& spec = road.spec;
  const Bundles bundles = MakeBundles(spec);
  const auto segments = Segments(spec, bundles);
  NOTE(Describe(spec));
  gr::Graph graph;
  MUST_NOT_THROW("graph-throws", graph = gr::BuildGraph(road.rg.get()), "");
  // Edges: one per segment.
  CHECK(graph.edges.size() == segments.size(), "graph-edges", graph.edges.size() << " edges of " << segments.size());
  std::map<std::string, int> bundle_of_node;
  std::map<int, std::string> node_of_bundle;
  auto bind = [&](const gr::NodeId& id, int bundle, const std::string& what) {
    CHECK(graph.nodes.count(id) == 1, "graph-node-missing", what << " names node " << id.string());
    CHECK(!bundle_of_node.count(id.string()) || bundle_of_node[id.string()] == bundle, "graph-node-shared",
          what << ": node " << id.string() << " is of branch points which no segment end holds together");
    CHECK(!node_of_bundle.count(bundle) || node_of_bundle[bundle] == id.string(), "graph-node-split",
          what << ": nodes " << id.string() << " and " << node_of_bundle[bundle]
               << " are of branch points which segment ends hold together");
    bundle_of_node[id.string()] = bundle;
    node_of_bundle[bundle] = id.string();
  };
  for (const auto& s : segments) {
    const gr::EdgeId id(s.spec->id);
    CHECK(graph.edges.count(id) == 1, "graph-edge-missing", s.spec->id);
    const gr::Edge& e = graph.edges.at(id);
    CHECK(e.id == id && e.segment == road.rg->ById().GetSegment(api::SegmentId(s.spec->id)), "graph-edge-segment",
          s.spec->id);
    bind(e.node_a, s.a, s.spec->id + " start");
    bind(e.node_b, s.b, s.spec->id + " finish");
  }
  CHECK(graph.nodes.size() == bundle_of_node.size(), "graph-nodes",
        graph.nodes.size() << " nodes of " << bundle_of_node.size());
  bool joins = false;
  for (const auto& n : graph.nodes) {
    CHECK(n.second.id == n.first && bundle_of_node.count(n.first.string()), "graph-node-id", n.first.string());
    const int bundle = bundle_of_node[n.first.string()];
    std::set<const api::BranchPoint*> want_bps;
    for (size_t k = 0; k < bundles.of.size(); ++k)
      if (bundles.of[k] == bundle) want_bps.insert(road.branch_points[k]);
    CHECK(n.second.branch_points == want_bps, "graph-branch-points",
          "node " << n.first.string() << " has " << n.second.branch_points.size() << " branch points of "
                  << want_bps.size());
    std::set<gr::EdgeId> want_edges;
    for (const auto& s : segments)
      if (s.a == bundle || s.b == bundle) want_edges.insert(gr::EdgeId(s.spec->id));
    CHECK(n.second.edges == want_edges, "graph-node-edges",
          "node " << n.first.string() << " has " << n.second.edges.size() << " edges of " << want_edges.size());
    joins = joins || want_edges.size() > 1;
  }
  // The node at each lane end.
  for (const LaneSpec* l : spec.lanes())
    for (bool start : {true, false}) {
      const auto node = gr::FindNode(graph, *road.lanes.at(l->id), start ? LaneEnd::kStart : LaneEnd::kFinish);
      CHECK(node.has_value(), "find-node-missing", l->id << (start ? " start" : " finish"));
      CHECK(node->id.string() == node_of_bundle[bundles.of[bp({l, start})]], "find-node-wrong",
            l->id << (start ? " start" : " finish"));
    }
  // Which end of an edge touches another edge.
  for (const auto& x : segments)
    for (const auto& y : segments) {
      const auto end =
          gr::DetermineEdgeEnd(graph, graph.edges.at(gr::EdgeId(x.spec->id)), graph.edges.at(gr::EdgeId(y.spec->id)));
      const bool at_start = x.a == y.a || x.a == y.b, at_finish = x.b == y.a || x.b == y.b;
      if (&x == &y) {
        CHECK(!end.has_value(), "edge-end-itself", x.spec->id);
        continue;
      }
      CHECK(end.has_value() == (at_start || at_finish), "edge-end", x.spec->id << " and " << y.spec->id);
      if (end)
        CHECK(*end == LaneEnd::kStart ? at_start : at_finish, "edge-end-wrong",
              x.spec->id << " touches " << y.spec->id << " at its " << (*end == LaneEnd::kStart ? "start" : "finish"));
    }
  // Sequences of edges.
  const LaneSpec* any = spec.lanes()[src.idx(spec.lanes().size())];
  const LaneSpec* other = Destination(src, spec, any);
  const int from = bundles.of[src.b() ? any->start_bp : any->finish_bp];
  const int to = bundles.of[src.b() ? other->start_bp : other->finish_bp];
  using Edges = std::vector<std::string>;
  std::set<Edges> want;
  if (from != to) {
    std::vector<int> visited{from};
    std::vector<std::pair<const SegmentRef*, bool>> at;  // Segment, entered at its start.
    std::function<void(int)> go = [&](int node) {
      for (const auto& s : segments)
        for (bool at_start : {true, false}) {
          if ((at_start ? s.a : s.b) != node || s.a == s.b) continue;
          const int next = at_start ? s.b : s.a;
          if (std::find(visited.begin(), visited.end(), next) != visited.end()) continue;
          if (!at.empty() && !Drivable(*at.back().first->spec, !at.back().second, *s.spec, at_start)) continue;
          at.emplace_back(&s, at_start);
          visited.push_back(next);
          if (next == to) {
            Edges e;
            for (const auto& x : at) e.push_back(x.first->spec->id);
            want.insert(e);
          } else {
            go(next);
          }
          visited.pop_back();
          at.pop_back();
        }
    };
    go(from);
  }
  const auto got = gr::FindAllEdgeSequences(graph, graph.nodes.at(gr::NodeId(node_of_bundle[from])),
                                            graph.nodes.at(gr::NodeId(node_of_bundle[to])));
  std::set<Edges> seen;
  for (const auto& g : got) {
    Edges e;
    for (const auto& x : g) e.push_back(x.id.string());
    CHECK(seen.insert(e).second, "edge-sequence-repeated", pbt::join(e));
    CHECK(want.count(e), "edge-sequence-wrong", pbt::join(e) << " from " << from << " to " << to);
  }
  for (const auto& e : want)
    CHECK(seen.count(e), "edge-sequence-missing", pbt::join(e) << " from " << from << " to " << to);
  if (joins && want.size() >= 2) pbt::nontrivial();
  pbt::label(want.size() >= 2 ? "several sequences" : want.size() == 1 ? "one sequence" : "no sequence");
  const gr::Node foreign{gr::NodeId("foreign"), {}, {}};
  MUST_THROW("edge-sequence-foreign", gr::FindAllEdgeSequences(graph, foreign, graph.nodes.begin()->second), "");
  MUST_THROW("edge-sequence-foreign", gr::FindAllEdgeSequences(graph, graph.nodes.begin()->second, foreign), "");
  MUST_THROW("graph-null", gr::BuildGraph(nullptr), "");
}

namespace {

// A way through a road: segments, each with the end it is left through (the first) or entered through (the others).
struct Way {
  std::vector<const SegmentRef*> segments;
  std::vector<bool> at_start;  // First: left through its start. Others: entered through it.
};
bool operator<(const Way& a, const Way& b) {
  return std::tie(a.segments, a.at_start) < std::tie(b.segments, b.at_start);
}
std::string Show(const Way& w) {
  std::string r;
  for (size_t k = 0; k < w.segments.size(); ++k)
    r += (k ? " " : "") + w.segments[k]->spec->id +
         (w.segments.size() == 1      ? ""
          : w.at_start[k] == (k == 0) ? "-"
                                      : "+");
  return r;
}

bool Holds(const SegmentRef& s, const LaneSpec* l) { return l >= &s.spec->lanes.front() && l <= &s.spec->lanes.back(); }

// The end of segment k of a way which meets the next (or the previous) one.
bool LeftThroughStart(const Way& w, size_t k) { return k == 0 ? w.at_start[0] : !w.at_start[k]; }

// All ways which go through every bundle of branch points at most once.
std::vector<Way> AllWays(const std::vector<SegmentRef>& segments, const LaneSpec* from, const LaneSpec* to) {
  std::vector<Way> r;
  for (const auto& first : segments) {
    if (!Holds(first, from)) continue;
    if (Holds(first, to)) r.push_back({{&first}, {true}});
    for (bool leave_at_start : {true, false}) {
      Way w{{&first}, {leave_at_start}};
      std::vector<int> visited{first.a};
      if (!leave_at_start) {
        if (first.b == first.a) continue;
        visited.push_back(first.b);
      }
      std::function<void()> go = [&]() {
        const size_t k = w.segments.size() - 1;
        const bool exit = LeftThroughStart(w, k);
        const int joint = exit ? w.segments[k]->a : w.segments[k]->b;
        for (const auto& next : segments)
          for (bool entry : {true, false}) {
            if ((entry ? next.a : next.b) != joint) continue;
            if (!Drivable(*w.segments[k]->spec, exit, *next.spec, entry)) continue;
            w.segments.push_back(&next);
            w.at_start.push_back(entry);
            // It ends here, at the finish of the last segment or before it.
            // A segment which starts and finishes at the same points is not left just to enter it again.
            if (!(&next == &first && first.a == first.b) && Holds(next, to) &&
                (!entry || std::find(visited.begin(), visited.end(), next.b) == visited.end()))
              r.push_back(w);
            const int far = entry ? next.b : next.a;
            if (std::find(visited.begin(), visited.end(), far) == visited.end() && w.segments.size() < 12) {
              visited.push_back(far);
              go();
              visited.pop_back();
            }
            w.segments.pop_back();
            w.at_start.pop_back();
          }
      };
      go();
    }
  }
  return r;
}

// The lane the start lane leads to, without lane switches, at each segment of the way; null once there is none.
bool NeedsSwitch(const Way& w, const LaneSpec* from, const LaneSpec* to) {
  const LaneSpec* at = from;
  for (size_t k = 0; k + 1 < w.segments.size(); ++k) {
    const LaneSpec* next = nullptr;
    for (const LaneSpec& l : w.segments[k + 1]->spec->lanes) {
      const End e{at, LeftThroughStart(w, k)}, f{&l, w.at_start[k + 1]};
      if (bp(e) == bp(f) && side(e) != side(f)) next = &l;
    }
    if (next == nullptr) return true;
    at = next;
  }
  return at != to;
}

double PhaseCost(const rt::Phase& phase) {
  double r = std::numeric_limits<double>::infinity();
  for (const auto& range : phase.lane_s_ranges()) r = std::min(r, range.s_range().size());
  return r;
}

}  // namespace

PROBE(P10, routes, 20000, 500000) {
  ConnectedOptions options;
  options.max_strips = static_cast<int>(src.i(1, 8));
  options.defaults = false;
  Road road = Build(ConnectedRoad(src, options));
  const RoadSpec& spec = road.spec;
  const Bundles bundles = MakeBundles(spec);
  const auto segments = Segments(spec, bundles);
  if (segments.size() > 12) return;
  const auto lanes = spec.lanes();
  const LaneSpec* from = lanes[src.idx(lanes.size())];
  const LaneSpec* to = Destination(src, spec, from);
  if (src.b(1, 8)) to = from;
  if (src.b(1, 3)) {  // Any lane of its segment: reaching it may need a lane switch.
    for (const auto& x : segments)
      if (Holds(x, to)) {
        to = &x.spec->lanes[src.idx(x.spec->lanes.size())];
        break;
      }
  }
  auto s_on = [&](const LaneSpec* l) {
    return src.b(1, 4) ? (src.b() ? l->geom.length : 0.) : src.real(0., 1.) * l->geom.length;
  };
  const RoadPosition start(road.lanes.at(from->id),
                           LanePosition(s_on(from), src.b() ? 0. : src.sym(1.), src.real(0., 1.)));
  const RoadPosition end(road.lanes.at(to->id), LanePosition(s_on(to), src.b() ? 0. : src.sym(1.), 0.));
  const double tolerance = src.pick(std::vector<double>{1e-3, 1e-6, 0.05, 0.});
  const auto* rg = road.rg.get();
  const auto network = MakeNetwork(&road);
  NOTE(Describe(spec));
  NOTE("from " << from->id << " at " << start.pos << " to " << to->id << " at " << end.pos << " tolerance "
               << tolerance);
  if (src.b(1, 20)) MUST_THROW("router-tolerance", maliput::DistanceRouter(*network, -src.real(1e-9, 1.)), "");
  std::unique_ptr<maliput::DistanceRouter> router;
  MUST_NOT_THROW("router-construction", router = std::make_unique<maliput::DistanceRouter>(*network, tolerance), "");

  const std::vector<Way> must = AllWays(segments, from, to);
  auto read = [&](const rt::Route& route) {
    Way w;
    for (int k = 0; k < route.size(); ++k) {
      const rt::Phase& phase = route.Get(k);
      CHECK(phase.index() == k, "route-phase-index", "phase " << k << " has index " << phase.index());
      CHECK(phase.lane_s_range_tolerance() == tolerance, "route-phase-tolerance", phase.lane_s_range_tolerance());
      const auto& ranges = phase.lane_s_ranges();
      const LaneSpec* l0 = spec.lane(ranges.front().lane_id().string());
      const SegmentRef* segment = nullptr;
      for (const auto& x : segments)
        if (Holds(x, l0)) segment = &x;
      CHECK(segment && ranges.size() == segment->spec->lanes.size(), "route-phase-lanes",
            "phase " << k << " has " << ranges.size() << " of " << segment->spec->lanes.size() << " lanes");
      std::set<std::string> ids;
      for (const auto& r : ranges) {
        ids.insert(r.lane_id().string());
        CHECK(Holds(*segment, spec.lane(r.lane_id().string())), "route-phase-lanes", r.lane_id().string());
      }
      CHECK(ids.size() == ranges.size(), "route-phase-lanes", "phase " << k << " repeats a lane");
      w.segments.push_back(segment);
      const RoadPosition& at = k == 0 ? phase.end_positions().front() : phase.start_positions().front();
      w.at_start.push_back(route.size() == 1 || at.pos.s() == 0.);
    }
    // It goes on from each phase to the next one.
    for (int k = 0; k + 1 < route.size(); ++k) {
      const rt::Phase& a = route.Get(k);
      const rt::Phase& b = route.Get(k + 1);
      const bool exit = LeftThroughStart(w, k), entry = w.at_start[k + 1];
      std::set<std::string> want_a, want_b, got_a, got_b;
      for (const auto& x : w.segments[k]->spec->lanes)
        for (const auto& y : w.segments[k + 1]->spec->lanes) {
          const End e{&x, exit}, f{&y, entry};
          if (bp(e) == bp(f) && side(e) != side(f)) {
            want_a.insert(x.id);
            want_b.insert(y.id);
          }
        }
      CHECK(!want_a.empty(), "route-not-drivable",
            Show(w) << ": " << w.segments[k]->spec->id << " does not go on to " << w.segments[k + 1]->spec->id);
      for (const auto& pos : a.end_positions()) {
        const LaneSpec* l = spec.lane(pos.lane->id().string());
        got_a.insert(l->id);
        CHECK(pos.pos.s() == (exit ? 0. : l->geom.length) && pos.pos.r() == 0. && pos.pos.h() == 0.,
              "route-joint-position", Show(w) << ": phase " << k << " ends on " << l->id << " at " << pos.pos);
      }
      for (const auto& pos : b.start_positions()) {
        const LaneSpec* l = spec.lane(pos.lane->id().string());
        got_b.insert(l->id);
        CHECK(pos.pos.s() == (entry ? 0. : l->geom.length) && pos.pos.r() == 0. && pos.pos.h() == 0.,
              "route-joint-position", Show(w) << ": phase " << k + 1 << " starts on " << l->id << " at " << pos.pos);
      }
      CHECK(got_a == want_a && got_b == want_b, "route-joint-lanes",
            Show(w) << ": phases " << k << " and " << k + 1 << " meet on " << got_a.size() << " and " << got_b.size()
                    << " lanes, of " << want_a.size());
    }
    CHECK(route.Get(0).start_positions().size() == 1 && route.start_route_position().lane == start.lane &&
              of(route.start_route_position().pos).x == start.pos.s(),
          "route-start", Show(w) << " starts elsewhere");
    CHECK(route.Get(route.size() - 1).end_positions().size() == 1 && route.end_route_position().lane == end.lane &&
              route.end_route_position().pos.s() == end.pos.s(),
          "route-end", Show(w) << " ends elsewhere");
    CHECK(route.ValidateEndToEndConnectivity().empty(), "route-connectivity",
          Show(w) << ": " << pbt::join(route.ValidateEndToEndConnectivity()));
    // Each range runs along the same stretch.
    for (int k = 0; k < route.size(); ++k)
      for (const auto& r : route.Get(k).lane_s_ranges()) {
        const double L = spec.lane(r.lane_id().string())->geom.length;
        const double s0 = k == 0 ? start.pos.s() / from->geom.length * L : w.at_start[k] ? 0. : L;
        const double s1 = k + 1 == route.size() ? end.pos.s() / to->geom.length * L : LeftThroughStart(w, k) ? 0. : L;
        CHECK(std::fabs(r.s_range().s0() - s0) <= tolerance + 1e-9 &&
                  std::fabs(r.s_range().s1() - s1) <= tolerance + 1e-9,
              "route-range",
              Show(w) << ": phase " << k << " runs on " << r.lane_id().string() << " from " << r.s_range().s0()
                      << " to " << r.s_range().s1() << ", not from " << s0 << " to " << s1);
      }
    return w;
  };
  struct Known {
    Way way;
    double max_phase{0.}, total{0.};
    bool needs_switch;
  };
  std::vector<Known> known;
  std::vector<rt::Route> all;
  MUST_NOT_THROW("router-throws", all = router->ComputeRoutes(start, end, {}), "");
  std::set<Way> seen;
  for (const auto& route : all) {
    Known k;
    k.way = read(route);
    CHECK(seen.insert(k.way).second, "route-repeated", Show(k.way));
    for (int p = 0; p < route.size(); ++p) {
      const double c = PhaseCost(route.Get(p));
      k.max_phase = std::max(k.max_phase, c);
      k.total += c;
    }
    k.needs_switch = NeedsSwitch(k.way, from, to);
    known.push_back(k);
    if (route.size() > 1) pbt::nontrivial();
    pbt::label(route.size() == 1 ? "one phase" : route.size() == 2 ? "two phases" : "more phases");
    if (!k.needs_switch && route.size() > 1) pbt::label("no switch needed");
    if (k.needs_switch && route.size() > 1) pbt::label("switch needed");
    if (route.size() > 1 && k.way.segments.front() == k.way.segments.back())
      pbt::label(k.needs_switch == (from != to) ? "back at the segment" : "back at the segment, otherwise");
  }
  for (const Way& w : must) CHECK(seen.count(w), "route-missing", Show(w) << " is missing");
  // Under constraints, exactly those which comply remain.
  for (int round = 0; round < 3; ++round) {
    rt::RoutingConstraints constraints;
    constraints.allow_lane_switch = src.b();
    if (src.b()) {
      constraints.max_phase_cost = !known.empty() && src.b(2, 3) ? known[src.idx(known.size())].max_phase *
                                                                       src.pick(std::vector<double>{1., 0.99, 1.01})
                                                                 : src.real(0., 60.);
    }
    if (src.b()) {
      constraints.max_route_cost = !known.empty() && src.b(2, 3) ? known[src.idx(known.size())].total *
                                                                       src.pick(std::vector<double>{1., 0.99, 1.01})
                                                                 : src.real(0., 100.);
      if (constraints.max_phase_cost)
        constraints.max_phase_cost = std::min(*constraints.max_phase_cost, *constraints.max_route_cost);
    }
    std::vector<rt::Route> got;
    MUST_NOT_THROW("router-throws", got = router->ComputeRoutes(start, end, constraints), "");
    std::set<Way> ways;
    for (const auto& route : got) ways.insert(read(route));
    CHECK(ways.size() == got.size(), "route-repeated", "under constraints");
    auto show = [&]() {
      std::ostringstream os;
      os << "switch allowed: " << constraints.allow_lane_switch
         << " phase cost: " << constraints.max_phase_cost.value_or(-1.)
         << " route cost: " << constraints.max_route_cost.value_or(-1.);
      return os.str();
    };
    size_t matched = 0;
    for (const Known& k : known) {
      const bool got_it = ways.count(k.way) > 0;
      matched += got_it;
      auto over = [](const std::optional<double>& limit, double cost, double slack) {
        return limit && cost > *limit + slack;
      };
      const bool surely_out = over(constraints.max_phase_cost, k.max_phase, 1e-9) ||
                              over(constraints.max_route_cost, k.total, 1e-9) ||
                              (!constraints.allow_lane_switch && k.needs_switch);
      const bool maybe_out = surely_out || over(constraints.max_phase_cost, k.max_phase, -1e-9) ||
                             over(constraints.max_route_cost, k.total, -1e-9);
      CHECK(!(got_it && surely_out), "constraint-violated",
            Show(k.way) << " costs " << k.total << ", at most " << k.max_phase
                        << " a phase, needs a lane switch: " << k.needs_switch << "; " << show());
      CHECK(got_it || maybe_out, "constraint-complying-missing",
            Show(k.way) << " costs " << k.total << ", at most " << k.max_phase
                        << " a phase, needs a lane switch: " << k.needs_switch << "; " << show());
    }
    CHECK(matched == ways.size(), "constraint-new-route", show());
  }
  if (src.b(1, 8)) {
    rt::RoutingConstraints bad;
    switch (src.i(0, 2)) {
      case 0:
        bad.max_phase_cost = -src.real(1e-9, 5.);
        break;
      case 1:
        bad.max_route_cost = -src.real(1e-9, 5.);
        break;
      default:
        bad.max_route_cost = src.real(0., 5.);
        bad.max_phase_cost = *bad.max_route_cost + src.real(1e-9, 5.);
    }
    MUST_THROW("router-bad-constraints", router->ComputeRoutes(start, end, bad), "");
    MUST_THROW("router-null", router->ComputeRoutes({nullptr, LanePosition(0., 0., 0.)}, end, {}), "");
    MUST_THROW("router-null", router->ComputeRoutes(start, {nullptr, LanePosition(0., 0., 0.)}, {}), "");
    Road other = Build(spec);
    MUST_THROW("router-foreign", router->ComputeRoutes({other.lanes.at(from->id), start.pos}, end, {}), "");
    MUST_THROW("router-foreign", router->ComputeRoutes(start, {other.lanes.at(to->id), end.pos}, {}), "");
  }
  (void)rg;
}
