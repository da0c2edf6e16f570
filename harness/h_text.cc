// P31: road geometries as text and as graphs, and segments which flow together.
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

#include "maliput/routing/graph/graph.h"
#include "maliput/routing/phase.h"
#include "maliput/routing/route.h"
#include "maliput/utility/generate_dot.h"
#include "maliput/utility/generate_string.h"
#include "maliput/utility/segment_analysis.h"
#include "network.h"
#include "topology.h"
#include "walks.h"

using namespace tr;
using maliput::utility::AnalyzeConfluentSegments;
using maliput::utility::FindConfluentSegments;
using maliput::utility::GenerateDotStream;
using maliput::utility::GenerateString;
using maliput::utility::GenerateStringOptions;
namespace rt = maliput::routing;
namespace gr = maliput::routing::graph;

PBT_RULE(P31,
         "Random topologies and smooth connected roads with all combinations of options, routes along random walks and "
         "graphs of other roads. Non-trivial: two or more segments take part.");

namespace {

int segments_of(const RoadSpec& spec) {
  int n = 0;
  for (const auto& j : spec.junctions) n += static_cast<int>(j.segments.size());
  return n;
}

std::vector<std::string> split(const std::string& text) {
  std::vector<std::string> lines;
  std::string line;
  for (char c : text) {
    if (c == '\n') {
      lines.push_back(line);
      line.clear();
    } else {
      line += c;
    }
  }
  if (!line.empty()) lines.push_back(line);
  return lines;
}

std::string str(const std::vector<std::string>& lines) { return pbt::join(lines, " | "); }

// Expected text of `x` (default stream format).
template <typename T>
std::string text_of(const T& x) {
  std::ostringstream os;
  os << x;
  return os.str();
}

// Parses the subset of DOT which undirected graphs with labels need. Edges become "a b label color", a < b.
bool parse_dot(const std::string& text, std::multiset<std::string>* edges, std::string* error) {
  std::string rest = text;
  const auto skip = [&rest]() {
    size_t k = 0;
    while (k < rest.size() && std::isspace(static_cast<unsigned char>(rest[k]))) ++k;
    rest = rest.substr(k);
  };
  const auto token = [&]() {
    skip();
    if (rest.empty()) return std::string();
    size_t k = 1;
    if (rest[0] == '"') {
      while (k < rest.size() && rest[k] != '"') ++k;
      k = std::min(k + 1, rest.size());
    } else if (std::isalnum(static_cast<unsigned char>(rest[0])) || rest[0] == '_') {
      while (k < rest.size() && (std::isalnum(static_cast<unsigned char>(rest[k])) || rest[k] == '_')) ++k;
    } else if (rest.compare(0, 2, "--") == 0) {
      k = 2;
    }
    const std::string t = rest.substr(0, k);
    rest = rest.substr(k);
    return t;
  };
  const auto want = [&](const std::string& what) {
    const std::string t = token();
    if (t == what) return true;
    *error = "want " + what + " got " + t;
    return false;
  };
  if (!want("graph") || !want("{")) return false;
  while (true) {
    std::string a = token();
    if (a == "}") break;
    if (a.empty()) {
      *error = "ends early";
      return false;
    }
    if (!want("--")) return false;
    std::string b = token();
    if (!want("[")) return false;
    std::map<std::string, std::string> attributes;
    while (true) {
      const std::string name = token();
      if (name == "]") break;
      if (name == "," || name == ";") continue;
      if (name.empty() || !want("=")) {
        *error = "attribute " + name;
        return false;
      }
      std::string value = token();
      if (value.size() >= 2 && value[0] == '"') value = value.substr(1, value.size() - 2);
      if (attributes.count(name)) {
        *error = "attribute " + name + " twice";
        return false;
      }
      attributes[name] = value;
    }
    skip();
    if (!rest.empty() && rest[0] == ';') rest = rest.substr(1);
    if (b < a) std::swap(a, b);
    std::string line = a + " " + b + " " + attributes["label"] + " " + attributes["color"];
    for (const auto& kv : attributes) {
      if (kv.first != "label" && kv.first != "color") line += " " + kv.first + "=" + kv.second;
    }
    edges->insert(line);
  }
  skip();
  if (!rest.empty()) *error = "more after the end: " + rest;
  return rest.empty();
}

void check_dot(const std::string& text, const gr::Graph& graph, const std::set<std::string>& red) {
  std::multiset<std::string> got, want;
  std::string error;
  CHECK(parse_dot(text, &got, &error), "dot-syntax", error << " in " << text);
  for (const auto& e : graph.edges) {
    std::string a = e.second.node_a.string(), b = e.second.node_b.string();
    if (b < a) std::swap(a, b);
    const std::string id = e.second.segment->id().string();
    want.insert(a + " " + b + " " + id + " " + (red.count(id) ? "red" : ""));
  }
  CHECK(got == want, "dot-edges", str({got.begin(), got.end()}) << " want " << str({want.begin(), want.end()}));
}

}  // namespace

PROBE(P31, text, 20000, 400000) {
  const RoadSpec spec = AnyRoad(src, 5);
  const Road road = Build(spec);
  GenerateStringOptions o;
  const bool all = src.b(1, 3);
  o.include_type_labels = src.b();
  o.include_road_geometry_id = all || src.b();
  o.include_junction_ids = all || src.b();
  o.include_segment_ids = all || src.b();
  o.include_lane_ids = all || src.b();
  o.include_lane_details = src.b();
  NOTE(Describe(spec));
  NOTE("labels " << o.include_type_labels << " rg " << o.include_road_geometry_id << " junctions "
                 << o.include_junction_ids << " segments " << o.include_segment_ids << " lanes " << o.include_lane_ids
                 << " details " << o.include_lane_details);
  if (segments_of(spec) > 1) pbt::nontrivial();

  std::vector<std::string> want;
  int depth = 0;
  const auto push = [&](int level, bool labels, const std::string& label, const std::string& text) {
    want.push_back(std::string(2 * level, ' ') + (labels ? label + ": " : "") + text);
  };
  const bool labels = o.include_type_labels;
  if (o.include_road_geometry_id) push(depth++, labels, "geometry", spec.id);
  for (const auto& j : spec.junctions) {
    int dj = depth;
    if (o.include_junction_ids) push(dj++, labels, "junction", j.id);
    for (const auto& s : j.segments) {
      int ds = dj;
      if (o.include_segment_ids) push(ds++, labels, "segment", s.id);
      if (!o.include_lane_ids) continue;
      for (size_t k = 0; k < s.lanes.size(); ++k) {
        const LaneSpec& l = s.lanes[k];
        push(ds, labels, "lane", l.id);
        if (!o.include_lane_details) continue;
        const api::Lane* lane = road.lanes.at(l.id);
        push(ds + 1, true, "length", text_of(l.geom.length));
        push(ds + 1, false, "", "geo positions:");
        push(ds + 2, true, "s_min", text_of(lane->ToInertialPosition({0., 0., 0.})));
        push(ds + 2, true, "s_max", text_of(lane->ToInertialPosition({l.geom.length, 0., 0.})));
        push(ds + 1, true, "to left", k + 1 < s.lanes.size() ? s.lanes[k + 1].id : "");
        push(ds + 1, true, "to right", k > 0 ? s.lanes[k - 1].id : "");
      }
    }
  }
  const std::string got = GenerateString(*road.rg, o);
  const auto lines = split(got);
  CHECK(lines.size() == want.size(), "text-lines", str(lines) << " want " << str(want));
  for (size_t k = 0; k < want.size(); ++k) {
    CHECK(lines[k] == want[k], "text-line", k << ": '" << lines[k] << "' want '" << want[k] << "'");
  }
  CHECK(got.empty() || got.back() != '\n', "text-end", "ends with a line break");
  pbt::label("lines", static_cast<int64_t>(want.size()));
}

PROBE(P31, dot, 15000, 300000) {
  ConnectedOptions options;
  options.max_strips = static_cast<int>(src.i(1, 7));
  options.defaults = false;
  const RoadSpec spec = ConnectedRoad(src, options);
  Road road = Build(spec);
  const gr::Graph graph = gr::BuildGraph(road.rg.get());
  const RoadSpec other_spec = ConnectedRoad(src, options);
  const Road other = Build(other_spec);
  const auto walk = Walk(src, spec, 6);
  const auto network = MakeNetwork(&road);
  NOTE(Describe(spec));
  if (segments_of(spec) > 1) pbt::nontrivial();
  {
    std::ostringstream os;
    GenerateDotStream(graph, &os);
    check_dot(os.str(), graph, {});
    MUST_THROW("dot-null", GenerateDotStream(graph, nullptr), "no stream");
  }
  std::vector<rt::Phase> phases;
  std::set<std::string> red;
  const double tolerance = spec.linear_tolerance;
  for (const auto& range : walk) {
    if (range.length() < 10. * tolerance) break;
    const auto* lane = road.lanes.at(range.lane_id().string());
    phases.emplace_back(static_cast<int>(phases.size()), tolerance,
                        std::vector<api::RoadPosition>{{lane, {range.s_range().s0(), 0., 0.}}},
                        std::vector<api::RoadPosition>{{lane, {range.s_range().s1(), 0., 0.}}},
                        std::vector<api::LaneSRange>{range}, network.get());
    red.insert(lane->segment()->id().string());
  }
  if (phases.empty()) return;
  const rt::Route route(phases, network.get());
  pbt::label("phases", route.size());
  NOTE("route through " << str({red.begin(), red.end()}));
  std::ostringstream os;
  GenerateDotStream(graph, route, &os);
  check_dot(os.str(), graph, red);
  MUST_THROW("dot-null", GenerateDotStream(graph, route, nullptr), "no stream");
  // A graph with one of the route's segments missing, and the graph of another road.
  gr::Graph less = graph;
  const std::string missing = *std::next(red.begin(), src.idx(red.size()));
  for (auto it = less.edges.begin(); it != less.edges.end(); ++it) {
    if (it->second.segment->id().string() == missing) {
      less.edges.erase(it);
      break;
    }
  }
  std::ostringstream sink;
  MUST_THROW("dot-foreign", GenerateDotStream(less, route, &sink), "a segment of the route is not in the graph");
  const gr::Graph foreign = gr::BuildGraph(other.rg.get());
  MUST_THROW("dot-foreign", GenerateDotStream(foreign, route, &sink), "a graph of another road");
}

PROBE(P31, confluence, 30000, 800000) {
  const RoadSpec spec = AnyRoad(src, 9);
  const Road road = Build(spec);
  NOTE(Describe(spec));
  if (segments_of(spec) > 1) pbt::nontrivial();
  // Components: segments with ends on one side of a branch point.
  std::map<std::string, std::string> root;
  std::map<std::pair<int, bool>, std::string> at;
  for (const auto& j : spec.junctions) {
    for (const auto& s : j.segments) root[s.id] = s.id;
  }
  const auto merge = [&](const std::string& a, const std::string& b) {
    const std::string ra = root.at(a), rb = root.at(b);
    for (auto& r : root) {
      if (r.second == rb) r.second = ra;
    }
  };
  for (const auto& j : spec.junctions) {
    for (const auto& s : j.segments) {
      for (const auto& l : s.lanes) {
        for (const auto& key : {std::make_pair(l.start_bp, l.start_a), std::make_pair(l.finish_bp, l.finish_a)}) {
          if (key.first < 0) continue;
          const auto it = at.find(key);
          if (it == at.end()) {
            at[key] = s.id;
          } else {
            merge(it->second, s.id);
          }
        }
      }
    }
  }
  std::map<std::string, std::set<std::string>> want;
  for (const auto& r : root) want[r.second].insert(r.first);
  std::multiset<std::set<std::string>> want_all, got_all;
  for (const auto& w : want) want_all.insert(w.second);
  const auto ids = [](const std::unordered_set<const api::Segment*>& segments) {
    std::set<std::string> r;
    for (const auto* s : segments) r.insert(s->id().string());
    return r;
  };
  const auto show = [](const std::multiset<std::set<std::string>>& all) {
    std::vector<std::string> v;
    for (const auto& c : all) v.push_back("{" + pbt::join({c.begin(), c.end()}, " ") + "}");
    return pbt::join(v, " ");
  };
  for (const auto& component : AnalyzeConfluentSegments(road.rg.get())) got_all.insert(ids(component));
  CHECK(got_all == want_all, "components", show(got_all) << " want " << show(want_all));
  for (int j = 0; j < road.rg->num_junctions(); ++j) {
    for (int s = 0; s < road.rg->junction(j)->num_segments(); ++s) {
      const api::Segment* segment = road.rg->junction(j)->segment(s);
      const auto got = ids(FindConfluentSegments(segment));
      const auto& w = want.at(root.at(segment->id().string()));
      CHECK(got == w, "component", "of " << segment->id().string() << ": " << show({got}) << " want " << show({w}));
    }
  }
  pbt::label("components", static_cast<int64_t>(want.size()));
}
