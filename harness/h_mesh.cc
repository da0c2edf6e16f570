// P27: meshes (container, OBJ text) and their simplification.
#include <algorithm>
#include <array>
#include <cmath>
#include <iterator>
#include <map>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "maliput/math/vector.h"
#include "maliput/utility/mesh.h"
#include "maliput/utility/mesh_simplification.h"
#include "pbt.h"

namespace {

using namespace maliput::utility::mesh;
using maliput::api::InertialPosition;
using maliput::math::Vector3;

PBT_RULE(P27, "at least two faces that share an edge, or at least three vertices to process");

using P3 = std::array<double, 3>;
P3 operator-(const P3& a, const P3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
P3 operator+(const P3& a, const P3& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
P3 operator*(double k, const P3& a) { return {k * a[0], k * a[1], k * a[2]}; }
double dot(const P3& a, const P3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
P3 cross(const P3& a, const P3& b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
double norm(const P3& a) { return std::sqrt(dot(a, a)); }
P3 unit(const P3& a) { return 1. / norm(a) * a; }
P3 of(const Vector3& v) { return {v.x(), v.y(), v.z()}; }
Vector3 to(const P3& v) { return {v[0], v[1], v[2]}; }
std::string str(const P3& v) {
  std::ostringstream os;
  os.precision(17);
  os << "(" << v[0] << "," << v[1] << "," << v[2] << ")";
  return os.str();
}
GeoVertex gv(const P3& v) { return GeoVertex(InertialPosition(v[0], v[1], v[2])); }
GeoNormal gn(const P3& v) { return GeoNormal(InertialPosition(v[0], v[1], v[2])); }

// ---------------------------------------------------------------------------------------------------------------------
// The container
// ---------------------------------------------------------------------------------------------------------------------

using ModelFace = std::vector<std::pair<P3, P3>>;

P3 lattice_point(pbt::Src& src) {
  static const std::vector<double> kValues{0., 1., -1., -0., 0.1, 1e-17, 123456.789, 1e9 + 0.25};
  return {src.pick(kValues), src.pick(kValues), src.pick(kValues)};
}

ModelFace random_face(pbt::Src& src, const std::vector<P3>& pool) {
  ModelFace f;
  const int n = static_cast<int>(src.i(3, 6));
  for (int k = 0; k < n; ++k) f.push_back({src.pick(pool), src.pick(pool)});
  return f;
}

void check_mesh_is(const GeoMesh& mesh, const std::vector<ModelFace>& faces, const std::string& what) {
  // Vertices and normals in the order of their first appearance, each distinct value once.
  std::vector<P3> vertices, normals;
  const auto index = [](std::vector<P3>* v, const P3& p) {
    for (size_t k = 0; k < v->size(); ++k) {
      if ((*v)[k] == p) return static_cast<int>(k);
    }
    v->push_back(p);
    return static_cast<int>(v->size()) - 1;
  };
  CHECK(mesh.faces().size() == faces.size(), "mesh-face-count", what << " " << mesh.faces().size());
  for (size_t f = 0; f < faces.size(); ++f) {
    const auto& got = mesh.faces()[f].vertices();
    CHECK(got.size() == faces[f].size(), "mesh-face-size", what << " face " << f);
    for (size_t k = 0; k < got.size(); ++k) {
      const int v = index(&vertices, faces[f][k].first);
      const int n = index(&normals, faces[f][k].second);
      CHECK(got[k].vertex_index == v, "mesh-vertex-index", what << " face " << f << " vertex " << k);
      CHECK(got[k].normal_index == n, "mesh-normal-index", what << " face " << f << " vertex " << k);
    }
  }
  CHECK(mesh.num_vertices() == static_cast<int>(vertices.size()), "mesh-vertex-count", what);
  CHECK(mesh.num_normals() == static_cast<int>(normals.size()), "mesh-normal-count", what);
  for (size_t k = 0; k < vertices.size(); ++k) {
    CHECK(of(mesh.get_vertex(static_cast<int>(k)).v().xyz()) == vertices[k], "mesh-vertex", what << " vertex " << k);
    CHECK(of(mesh.vertices()[k]->v().xyz()) == vertices[k], "mesh-vertex", what << " vertex " << k);
  }
  for (size_t k = 0; k < normals.size(); ++k) {
    CHECK(of(mesh.get_normal(static_cast<int>(k)).n().xyz()) == normals[k], "mesh-normal", what << " normal " << k);
    CHECK(of(mesh.normals()[k]->n().xyz()) == normals[k], "mesh-normal", what << " normal " << k);
  }
}

GeoFace geo(const ModelFace& f, bool one_by_one) {
  std::vector<GeoVertex> v;
  std::vector<GeoNormal> n;
  GeoFace pushed;
  for (const auto& x : f) {
    v.push_back(gv(x.first));
    n.push_back(gn(x.second));
    pushed.push_vn(v.back(), n.back());
  }
  return one_by_one ? pushed : GeoFace(v, n);
}

PROBE(P27, container, 20000, 200000) {
  std::vector<P3> pool;
  const int n = static_cast<int>(src.i(1, 8));
  for (int k = 0; k < n; ++k) pool.push_back(lattice_point(src));
  const int meshes = static_cast<int>(src.i(1, 3));
  std::vector<GeoMesh> mesh(meshes);
  std::vector<std::vector<ModelFace>> model(meshes);
  const int ops = static_cast<int>(src.i(1, 8));
  for (int o = 0; o < ops; ++o) {
    const size_t a = src.idx(meshes);
    const size_t b = src.idx(meshes);
    if (src.b(2, 3) || a == b) {
      model[a].push_back(random_face(src, pool));
      mesh[a].PushFace(geo(model[a].back(), src.b()));
    } else {
      mesh[a].AddFacesFrom(mesh[b]);
      model[a].insert(model[a].end(), model[b].begin(), model[b].end());
    }
  }
  if (ops >= 3) pbt::nontrivial();
  for (int m = 0; m < meshes; ++m) check_mesh_is(mesh[m], model[m], "mesh " + std::to_string(m));

  // The meshes one after another as OBJ text.
  const int precision = static_cast<int>(src.i(0, 12));
  const P3 origin = src.b(1, 3) ? P3{0., 0., 0.} : lattice_point(src);
  std::ostringstream os;
  std::tuple<int, int> offsets{0, 0};
  std::vector<std::string> materials;
  for (int m = 0; m < meshes; ++m) {
    materials.push_back(src.b(1, 4) ? "" : "m" + std::to_string(m));
    offsets = mesh[m].EmitObj(os, materials.back(), precision, InertialPosition(origin[0], origin[1], origin[2]),
                              std::get<0>(offsets), std::get<1>(offsets));
  }
  std::vector<P3> v, vn;
  std::vector<std::pair<std::string, ModelFace>> faces;
  std::string material;
  std::istringstream is(os.str());
  std::string line;
  while (std::getline(is, line)) {
    std::istringstream ls(line);
    std::string word;
    ls >> word;
    if (word.empty() || word[0] == '#') continue;
    if (word == "v" || word == "vn") {
      P3 p;
      ls >> p[0] >> p[1] >> p[2];
      CHECK(!ls.fail(), "obj-line", line);
      (word == "v" ? v : vn).push_back(p);
    } else if (word == "usemtl") {
      ls >> material;
    } else if (word == "f") {
      ModelFace f;
      std::string ref;
      while (ls >> ref) {
        const size_t at = ref.find("//");
        CHECK(at != std::string::npos, "obj-line", line);
        const int vi = std::stoi(ref.substr(0, at));
        const int ni = std::stoi(ref.substr(at + 2));
        CHECK(vi >= 1 && vi <= static_cast<int>(v.size()), "obj-vertex-reference", line);
        CHECK(ni >= 1 && ni <= static_cast<int>(vn.size()), "obj-normal-reference", line);
        f.push_back({v[vi - 1], vn[ni - 1]});
      }
      faces.push_back({material, f});
    } else {
      CHECK(false, "obj-line", line);
    }
  }
  CHECK(std::get<0>(offsets) == static_cast<int>(v.size()), "obj-vertex-offset", std::get<0>(offsets));
  CHECK(std::get<1>(offsets) == static_cast<int>(vn.size()), "obj-normal-offset", std::get<1>(offsets));
  const double eps = 0.5 * std::pow(10., -precision);
  size_t at = 0;
  for (int m = 0; m < meshes; ++m) {
    for (const auto& f : model[m]) {
      CHECK(at < faces.size(), "obj-face-count", "");
      if (!materials[m].empty()) CHECK(faces[at].first == materials[m], "obj-material", faces[at].first);
      CHECK(faces[at].second.size() == f.size(), "obj-face-size", "");
      for (size_t k = 0; k < f.size(); ++k) {
        for (int c = 0; c < 3; ++c) {
          const double want = f[k].first[c] - origin[c];
          CHECK(std::abs(faces[at].second[k].first[c] - want) <= eps * (1. + 1e-6) + 1e-15 * std::abs(want) * 4.,
                "obj-vertex", "want " << want << " got " << faces[at].second[k].first[c]);
          const double wantn = f[k].second[c];
          CHECK(std::abs(faces[at].second[k].second[c] - wantn) <= eps * (1. + 1e-6) + 1e-15 * std::abs(wantn) * 4.,
                "obj-normal", "want " << wantn << " got " << faces[at].second[k].second[c]);
        }
      }
      ++at;
    }
  }
  CHECK(at == faces.size(), "obj-face-count", at << " of " << faces.size());
}

// ---------------------------------------------------------------------------------------------------------------------
// Distances
// ---------------------------------------------------------------------------------------------------------------------

P3 random_p3(pbt::Src& src, double m) { return {src.sym(m), src.sym(m), src.sym(m)}; }

PROBE(P27, distances, 20000, 200000) {
  const double scale = src.pick(std::vector<double>{1., 100., 1e-3, 1e5});
  P3 n = random_p3(src, 1.);
  if (norm(n) < 0.05) n = {0., 0., 1.};
  n = src.pick(std::vector<double>{1., 0.01, 50.}) * n;
  const P3 p = random_p3(src, scale);
  const P3 q = src.b(1, 8) ? p : random_p3(src, scale);
  pbt::nontrivial();
  NOTE("n " << str(n) << " p " << str(p) << " q " << str(q));
  const double eps = 1e-11 * scale;
  CHECK(std::abs(DistanceToAPlane(to(n), to(p), to(q)) - std::abs(dot(unit(n), q - p))) <= eps, "distance-to-plane",
        DistanceToAPlane(to(n), to(p), to(q)));
  // The line through p along n (of any length): distance by the parallelogram's area.
  const double want = norm(cross(unit(n), q - p));
  CHECK(std::abs(DistanceToALine(to(p), to(n), to(q)) - want) <= eps, "distance-to-line",
        DistanceToALine(to(p), to(n), to(q)) << " want " << want);
}

// ---------------------------------------------------------------------------------------------------------------------
// Height fields
// ---------------------------------------------------------------------------------------------------------------------

struct Face {
  std::vector<int> v;
  P3 n;       // Unit, upwards, in the local frame.
  int plane;  // Faces of one plane id lie on the same plane.
};

// Cells (i, j) in columns that are folded along lines of constant x: z is a piecewise linear function of x. Each column
// holds the cells of an interval of rows which overlaps that of the next column, so the region has no holes.
struct Field {
  std::vector<P3> v;  // Local frame, exact.
  std::vector<Face> faces;
  bool bumps{false};
  int columns{0};
  double edge_total{0.};
  // Placement.
  P3 ex, ey, ez, t;
  double jitter{0.};
  P3 place(const P3& p) const { return p[0] * ex + p[1] * ey + p[2] * ez + t; }
  P3 turn(const P3& p) const { return p[0] * ex + p[1] * ey + p[2] * ez; }
  P3 local(const P3& q) const {
    const P3 d = q - t;
    return {dot(d, ex), dot(d, ey), dot(d, ez)};
  }
};

Field random_field(pbt::Src& src, bool allow_bumps) {
  Field f;
  // A plane around one or more bumps.
  const bool ring = allow_bumps && src.b(1, 3);
  const int nx = f.columns = static_cast<int>(src.i(ring ? 3 : 1, 5));
  const int ny = static_cast<int>(src.i(ring ? 3 : 1, 5));
  const int bump_i = ring ? 1 + static_cast<int>(src.idx(nx - 2)) : -1,
            bump_j = ring ? 1 + static_cast<int>(src.idx(ny - 2)) : -1;
  std::vector<double> x{0.}, z{0.}, y{0.}, slope;
  for (int i = 0; i < nx; ++i) {
    slope.push_back(i > 0 && (ring || src.b(1, 2)) ? slope.back() : src.pick(std::vector<double>{0., 0.5, -0.5, 1.}));
    const double w = src.pick(std::vector<double>{1., 2., 1.3});
    x.push_back(x.back() + w);
    z.push_back(z.back() + slope.back() * w);
  }
  for (int j = 0; j < ny; ++j) y.push_back(y.back() + src.pick(std::vector<double>{1., 2., 1.7}));
  std::vector<std::pair<int, int>> rows;
  for (int i = 0; i < nx; ++i) {
    while (true) {
      const int a = ring || src.b(1, 2) ? 0 : static_cast<int>(src.idx(ny));
      const int b = ring || src.b(1, 2) ? ny - 1 : static_cast<int>(a + src.idx(ny - a));
      if (i > 0 && (b < rows.back().first || a > rows.back().second)) {
        rows.push_back({std::min(a, rows.back().second), std::max(b, rows.back().first)});
      } else {
        rows.push_back({a, b});
      }
      break;
    }
  }
  const auto corner = [&](int i, int j) { return j * (nx + 1) + i; };
  for (int j = 0; j <= ny; ++j) {
    for (int i = 0; i <= nx; ++i) f.v.push_back({x[i], y[j], z[i]});
  }
  std::vector<int> plane(nx);
  for (int i = 0; i < nx; ++i) plane[i] = i > 0 && slope[i] == slope[i - 1] ? plane[i - 1] : i;
  int planes = nx;
  for (int i = 0; i < nx; ++i) {
    const P3 n = unit({-slope[i], 0., 1.});
    for (int j = rows[i].first; j <= rows[i].second; ++j) {
      const std::vector<int> q{corner(i, j), corner(i + 1, j), corner(i + 1, j + 1), corner(i, j + 1)};
      const bool bump = i == bump_i && j == bump_j;
      switch (bump          ? 3
              : ring        ? src.weighted({12, 1, 1, 1})
              : allow_bumps ? src.weighted({6, 1, 1, 2})
                            : src.weighted({4, 1, 1})) {
        case 0:
          f.faces.push_back({q, n, plane[i]});
          break;
        case 1:
          f.faces.push_back({{q[0], q[1], q[2]}, n, plane[i]});
          f.faces.push_back({{q[0], q[2], q[3]}, n, plane[i]});
          break;
        case 2:
          f.faces.push_back({{q[0], q[1], q[3]}, n, plane[i]});
          f.faces.push_back({{q[1], q[2], q[3]}, n, plane[i]});
          break;
        default: {  // A pyramid or a pit.
          f.bumps = true;
          const P3 c = 0.25 * (f.v[q[0]] + f.v[q[1]] + f.v[q[2]] + f.v[q[3]]);
          const int apex = static_cast<int>(f.v.size());
          f.v.push_back(c + P3{0., 0., src.b() ? 0.7337 : -0.9171});
          for (int k = 0; k < 4; ++k) {
            const P3& a = f.v[q[k]];
            const P3& b = f.v[q[(k + 1) % 4]];
            f.faces.push_back({{q[k], q[(k + 1) % 4], apex}, unit(cross(b - a, f.v[apex] - a)), planes++});
          }
        }
      }
    }
  }
  for (const auto& face : f.faces) {
    for (size_t k = 0; k < face.v.size(); ++k) {
      f.edge_total += norm(f.v[face.v[k]] - f.v[face.v[(k + 1) % face.v.size()]]);
    }
  }
  // Placement.
  if (src.b(1, 4)) {
    f.ex = {1., 0., 0.};
    f.ey = {0., 1., 0.};
    f.ez = {0., 0., 1.};
  } else {
    P3 a = random_p3(src, 1.), b = random_p3(src, 1.);
    if (norm(cross(a, b)) < 0.05) a = {1., 0., 0.}, b = {0.3, 1., 0.2};
    f.ex = unit(a);
    f.ez = unit(cross(a, b));
    f.ey = cross(f.ez, f.ex);
  }
  f.t = src.b(1, 3) ? P3{0., 0., 0.} : random_p3(src, 200.);
  // Order of the faces, and first vertex of each.
  src.shuffle(&f.faces);
  for (auto& face : f.faces) std::rotate(face.v.begin(), face.v.begin() + src.idx(face.v.size()), face.v.end());
  return f;
}

// The mesh of `f`; the vertices are off by at most f.jitter in each local direction.
// `smooth`: the normals of vertices other than the first of each face lean, which is no part of where the face is.
GeoMesh mesh_of(pbt::Src& src, const Field& f, bool smooth = false) {
  std::vector<P3> placed;
  for (const auto& p : f.v) {
    P3 q = p;
    if (f.jitter > 0.) {
      for (int c = 0; c < 3; ++c) q[c] += src.fine(-f.jitter, f.jitter);
    }
    placed.push_back(f.place(q));
  }
  GeoMesh mesh;
  for (const auto& face : f.faces) {
    GeoFace g;
    for (size_t k = 0; k < face.v.size(); ++k) {
      P3 n = face.n;
      if (smooth && k > 0) {
        for (int c = 0; c < 3; ++c) n[c] += 0.125 * static_cast<double>(src.i(-1, 1));
        n = (1. / std::sqrt(dot(n, n))) * n;
      }
      g.push_vn(gv(placed[face.v[k]]), gn(f.turn(n)));
    }
    mesh.PushFace(g);
  }
  return mesh;
}

void note_field(const Field& f) {
  if (!pbt::noting()) return;
  std::ostringstream os;
  for (const auto& face : f.faces) {
    os << " [";
    for (int v : face.v) os << " " << f.v[v][0] << "," << f.v[v][1] << "," << f.v[v][2];
    os << " ]";
  }
  NOTE(f.faces.size() << " faces, jitter " << f.jitter << ":" << os.str());
}

// By definition: the adjacent face of each edge.
std::vector<std::vector<FaceEdgeIndex>> brute_adjacency(const GeoMesh& mesh) {
  const auto& faces = mesh.faces();
  std::vector<std::vector<FaceEdgeIndex>> r(faces.size());
  for (size_t f = 0; f < faces.size(); ++f) {
    const auto& v = faces[f].vertices();
    for (size_t k = 0; k < v.size(); ++k) {
      FaceEdgeIndex found;
      for (size_t g = 0; g < faces.size(); ++g) {
        const auto& w = faces[g].vertices();
        for (size_t l = 0; l < w.size(); ++l) {
          if (w[l].vertex_index == v[(k + 1) % v.size()].vertex_index &&
              w[(l + 1) % w.size()].vertex_index == v[k].vertex_index) {
            found = {static_cast<int>(g), static_cast<int>(l)};
          }
        }
      }
      r[f].push_back(found);
    }
  }
  return r;
}

PROBE(P27, adjacency_and_contours, 15000, 150000) {
  const Field field = random_field(src, src.b(1, 3));
  const GeoMesh mesh = mesh_of(src, field);
  note_field(field);
  const auto& faces = mesh.faces();
  const int n = static_cast<int>(faces.size());

  const InverseFaceEdgeMap inverse = ComputeInverseFaceEdgeMap(faces);
  size_t edges = 0;
  for (int f = 0; f < n; ++f) {
    const auto& v = faces[f].vertices();
    for (size_t k = 0; k < v.size(); ++k) {
      ++edges;
      const auto it = inverse.find({v[k].vertex_index, v[(k + 1) % v.size()].vertex_index});
      CHECK(it != inverse.end(), "inverse-edge-missing", "face " << f << " edge " << k);
      CHECK((it->second == FaceEdgeIndex{f, static_cast<int>(k)}), "inverse-edge", "face " << f << " edge " << k);
    }
  }
  CHECK(inverse.size() == edges, "inverse-edge-count", inverse.size() << " of " << edges);

  const FaceAdjacencyMap adjacent = ComputeFaceAdjacencyMap(faces);
  const auto want = brute_adjacency(mesh);
  CHECK(adjacent.size() == want.size(), "adjacency-size", adjacent.size());
  bool shares = false;
  for (int f = 0; f < n; ++f) {
    const auto it = adjacent.find(f);
    CHECK(it != adjacent.end(), "adjacency-face", f);
    CHECK(it->second.size() == want[f].size(), "adjacency-face-size", f);
    for (size_t k = 0; k < want[f].size(); ++k) {
      CHECK(it->second[k] == want[f][k], "adjacency",
            "face " << f << " edge " << k << " got " << it->second[k].face_index << "/" << it->second[k].edge_index
                    << " want " << want[f][k].face_index << "/" << want[f][k].edge_index);
      if (want[f][k].face_index >= 0) shares = true;
    }
  }
  if (shares) pbt::nontrivial();

  // A simply connected set of faces, grown face by face: its Euler characteristic stays one, and no vertex is pinched.
  std::set<int> region{static_cast<int>(src.idx(n))};
  const auto disk = [&](const std::set<int>& r) {
    std::set<int> vertices;
    std::set<std::pair<int, int>> undirected;
    std::map<int, int> out;
    for (int f : r) {
      const auto& v = faces[f].vertices();
      for (size_t k = 0; k < v.size(); ++k) {
        const int a = v[k].vertex_index, b = v[(k + 1) % v.size()].vertex_index;
        vertices.insert(a);
        undirected.insert({std::min(a, b), std::max(a, b)});
        if (r.count(want[f][k].face_index) == 0) ++out[a];
      }
    }
    for (const auto& o : out) {
      if (o.second > 1) return false;
    }
    return static_cast<int>(vertices.size()) - static_cast<int>(undirected.size()) + static_cast<int>(r.size()) == 1;
  };
  const int grow = static_cast<int>(src.i(0, 20));
  for (int g = 0; g < grow; ++g) {
    std::set<int> next;
    for (int f : region) {
      for (const auto& a : want[f]) {
        if (a.face_index >= 0 && region.count(a.face_index) == 0) next.insert(a.face_index);
      }
    }
    if (next.empty()) break;
    auto it = next.begin();
    std::advance(it, src.idx(next.size()));
    region.insert(*it);
    if (!disk(region)) region.erase(*it);
  }
  pbt::label("region faces", region.size());
  // Its outer edges, from each start vertex.
  std::map<int, std::pair<FaceEdgeIndex, int>> outer;
  for (int f : region) {
    const auto& v = faces[f].vertices();
    for (size_t k = 0; k < v.size(); ++k) {
      if (region.count(want[f][k].face_index) == 0) {
        outer[v[k].vertex_index] = {{f, static_cast<int>(k)}, v[(k + 1) % v.size()].vertex_index};
      }
    }
  }
  const FaceEdgeIndex first = FindOuterFaceEdgeIndex(region, adjacent);
  CHECK(region.count(first.face_index) > 0, "outer-edge-face", first.face_index);
  CHECK(region.count(want[first.face_index].at(first.edge_index).face_index) == 0, "outer-edge", first.edge_index);
  const auto contour = ComputeMeshFacesContour(region, adjacent);
  CHECK(contour.size() == outer.size(), "contour-size", contour.size() << " of " << outer.size());
  for (size_t k = 0; k < contour.size(); ++k) {
    const auto& here = MeshFaceVertexAt(mesh, contour[k]);
    const auto& next = MeshFaceVertexAt(mesh, contour[(k + 1) % contour.size()]);
    const auto it = outer.find(here.vertex_index);
    CHECK(it != outer.end(), "contour-vertex", "not on the outline: " << here.vertex_index);
    CHECK(
        it->second.first.face_index == contour[k].face_index && it->second.first.edge_index == contour[k].vertex_index,
        "contour-face-edge", "at " << k);
    CHECK(it->second.second == next.vertex_index, "contour-order", "at " << k);
    CHECK(of(GetMeshFaceVertexPosition(mesh, here)) == of(mesh.get_vertex(here.vertex_index).v().xyz()),
          "vertex-position", "");
    CHECK(of(GetMeshFaceVertexNormal(mesh, here)) == of(mesh.get_normal(here.normal_index).n().xyz()), "vertex-normal",
          "");
  }
}

// ---------------------------------------------------------------------------------------------------------------------
// Coplanarity
// ---------------------------------------------------------------------------------------------------------------------

PROBE(P27, coplanar_groups, 15000, 150000) {
  Field field = random_field(src, src.b(1, 4));
  const double tolerance = src.pick(std::vector<double>{1e-2, 1e-3, 0.3, 1.});
  field.jitter = src.pick(std::vector<double>{0., 0.4, 1., 2.}) * tolerance;
  // Normals off the plane's one, of any length for vertices (their direction counts).
  const bool tilt = src.b(1, 3);
  const bool scaled = src.b(1, 4);
  std::vector<P3> placed;
  for (const auto& p : field.v) {
    P3 q = p;
    for (int c = 0; c < 3; ++c) q[c] += field.jitter > 0. ? src.fine(-field.jitter, field.jitter) : 0.;
    placed.push_back(field.place(q));
  }
  GeoMesh mesh;
  for (const auto& face : field.faces) {
    GeoFace g;
    for (int v : face.v) {
      P3 n = face.n;
      if (tilt) n = unit(n + random_p3(src, 0.5));
      if (scaled) n = src.pick(std::vector<double>{1., 0.2, 7.}) * n;
      g.push_vn(gv(placed[v]), gn(field.turn(n)));
    }
    mesh.PushFace(g);
  }
  note_field(field);
  const auto& faces = mesh.faces();
  const int n = static_cast<int>(faces.size());
  if (n >= 2) pbt::nontrivial();

  // Signed margin of a vertex: the way along its normal to the plane, relative to the tolerance.
  bool close = false;
  const auto on_plane = [&](const IndexFace::Vertex& v, const P3& pn, const P3& pp) {
    const P3 x = of(mesh.get_vertex(v.vertex_index).v().xyz());
    const P3 xn = unit(of(mesh.get_normal(v.normal_index).n().xyz()));
    const double c = std::abs(dot(unit(pn), xn));
    const double d = std::abs(dot(unit(pn), x - pp));
    if (c < 1e-6 || std::abs(d / c - tolerance) < 1e-9 * (1. + tolerance)) close = true;
    return d / c < tolerance;
  };
  std::vector<P3> plane_n(n), plane_p(n);
  std::vector<bool> planar(n);
  for (int f = 0; f < n; ++f) {
    const auto& v = faces[f].vertices();
    plane_n[f] = of(mesh.get_normal(v[0].normal_index).n().xyz());
    plane_p[f] = of(mesh.get_vertex(v[0].vertex_index).v().xyz());
    planar[f] = true;
    for (size_t k = 1; k < v.size(); ++k) planar[f] = on_plane(v[k], plane_n[f], plane_p[f]) && planar[f];
  }
  const auto coplanar = [&](int f, int start) {
    bool r = true;
    for (const auto& v : faces[f].vertices()) r = on_plane(v, plane_n[start], plane_p[start]) && r;
    return r;
  };
  const auto want_adjacent = brute_adjacency(mesh);
  const FaceAdjacencyMap adjacent = ComputeFaceAdjacencyMap(faces);
  for (int f = 0; f < n; ++f) {
    Vector3 gn_, gp_;
    const bool got = IsMeshFacePlanar(mesh, faces[f], tolerance, &gn_, &gp_);
    if (close) return;
    CHECK(got == planar[f], "planar", "face " << f << " got " << got);
    CHECK(of(gn_) == plane_n[f] && of(gp_) == plane_p[f], "planar-plane", "face " << f);
  }
  std::set<int> visited;
  for (int f = 0; f < n; ++f) {
    if (src.b(1, 8)) visited.insert(f);
  }
  int groups = 0;
  for (int start = 0; start < n; ++start) {
    if (visited.count(start) > 0) continue;
    ++groups;
    std::set<int> want{start};
    if (planar[start]) {
      std::vector<int> todo{start};
      while (!todo.empty()) {
        const int f = todo.back();
        todo.pop_back();
        for (const auto& a : want_adjacent[f]) {
          if (a.face_index < 0 || want.count(a.face_index) > 0 || visited.count(a.face_index) > 0) continue;
          if (!coplanar(a.face_index, start)) continue;
          want.insert(a.face_index);
          todo.push_back(a.face_index);
        }
      }
    }
    std::set<int> want_visited = visited;
    want_visited.insert(want.begin(), want.end());
    std::set<int> got_visited = visited;
    const auto got = AggregateAdjacentCoplanarMeshFaces(mesh, start, adjacent, tolerance, &got_visited);
    if (close) return;
    CHECK(got == want, "coplanar-group", "from face " << start << " got " << got.size() << " want " << want.size());
    CHECK(got_visited == want_visited, "coplanar-visited", "from face " << start);
    for (int f : got) {
      CHECK(IsMeshFaceCoplanarWithPlane(mesh, faces[f], to(plane_n[start]), to(plane_p[start]), tolerance) ==
                coplanar(f, start),
            "coplanar", "face " << f);
    }
    visited = want_visited;
  }
  pbt::label(groups < n ? "merging groups" : "no merge");
}

// ---------------------------------------------------------------------------------------------------------------------
// Contours
// ---------------------------------------------------------------------------------------------------------------------

void check_simplified(const GeoMesh& mesh, const std::vector<FaceVertexIndex>& contour,
                      const std::vector<FaceVertexIndex>& got, double tolerance, double scale) {
  const auto position = [&](const FaceVertexIndex& i) {
    return of(GetMeshFaceVertexPosition(mesh, MeshFaceVertexAt(mesh, i)));
  };
  const auto same = [](const FaceVertexIndex& a, const FaceVertexIndex& b) {
    return a.face_index == b.face_index && a.vertex_index == b.vertex_index;
  };
  CHECK(got.size() >= 2, "contour-too-small", got.size());
  CHECK(same(got.front(), contour.front()) && same(got.back(), contour.back()), "contour-ends", "");
  size_t k = 0;
  for (size_t g = 0; g < got.size(); ++g) {
    const size_t from = k;
    while (k < contour.size() && !same(contour[k], got[g])) ++k;
    CHECK(k < contour.size(), "contour-not-a-subsequence", "at " << g);
    if (g > 0) {
      const P3 a = position(got[g - 1]), b = position(got[g]);
      for (size_t s = from; s < k; ++s) {
        const P3 x = position(contour[s]);
        const double d = norm(b - a) > 0. ? norm(cross(unit(b - a), x - a)) : norm(x - a);
        CHECK(d <= tolerance + 1e-9 * scale, "contour-dropped-vertex",
              "vertex " << s << " " << str(x) << " is " << d << " off the line through " << str(a) << " " << str(b));
      }
    }
    ++k;
  }
}

PROBE(P27, contour_simplification, 20000, 200000) {
  const double tolerance = src.pick(std::vector<double>{0.01, 0.1, 1e-4, 1., 10.});
  std::vector<P3> polygon;
  int corners = 0;
  if (src.b()) {  // Anything.
    const int n = static_cast<int>(src.i(3, 14));
    P3 p = random_p3(src, 10.);
    for (int k = 0; k < n; ++k) {
      polygon.push_back(p);
      p = p + random_p3(src, src.pick(std::vector<double>{1., 10., 0.1}));
    }
    corners = n;
  } else {  // A convex polygon with points along its sides, less than the tolerance off them.
    corners = static_cast<int>(src.i(3, 6));
    std::vector<P3> c;
    const double r = 20. * tolerance + src.real(5., 50.);
    for (int k = 0; k < corners; ++k) {
      const double a = 2. * M_PI * (k + src.fine(-0.2, 0.2)) / corners;
      c.push_back({r * std::cos(a), r * std::sin(a), 0.3 * r * std::cos(a)});
    }
    for (int k = 0; k < corners; ++k) {
      const P3 a = c[k], b = c[(k + 1) % corners];
      polygon.push_back(a);
      const int m = static_cast<int>(src.i(0, 6));
      for (int s = 1; s <= m; ++s) {
        polygon.push_back(a + (s / (m + 1.)) * (b - a) + P3{0., 0., src.fine(-0.2, 0.2) * tolerance});
      }
    }
    std::rotate(polygon.begin(), polygon.begin() + src.idx(polygon.size()), polygon.end());
  }
  NOTE(polygon.size() << " vertices, tolerance " << tolerance);
  // Vertices spread over several faces.
  GeoMesh mesh;
  std::vector<FaceVertexIndex> contour;
  GeoFace face;
  int face_index = 0;
  for (const auto& p : polygon) {
    if (face.vertices().size() >= 3 && src.b(1, 3)) {
      mesh.PushFace(face);
      face = GeoFace();
      ++face_index;
    }
    contour.push_back({face_index, static_cast<int>(face.vertices().size())});
    face.push_vn(gv(p), gn({0., 0., 1.}));
  }
  mesh.PushFace(face);
  const auto got = SimplifyMeshFacesContour(mesh, contour, tolerance);
  if (contour.size() <= 3) {
    CHECK(got.size() == contour.size(), "contour-triangle", got.size());
    return;
  }
  pbt::nontrivial();
  check_simplified(mesh, contour, got, tolerance, 100.);
  CHECK(static_cast<int>(got.size()) <= 4 * corners + 4, "contour-not-simplified",
        got.size() << " vertices left of " << contour.size() << " with " << corners << " corners");
  pbt::label(got.size() < contour.size() ? "vertices dropped" : "nothing dropped");
}

// ---------------------------------------------------------------------------------------------------------------------
// The whole simplification
// ---------------------------------------------------------------------------------------------------------------------

bool inside(const std::vector<P3>& polygon, double x, double y) {
  bool in = false;
  for (size_t k = 0, l = polygon.size() - 1; k < polygon.size(); l = k++) {
    const P3 &a = polygon[k], &b = polygon[l];
    if ((a[1] > y) != (b[1] > y) && x < (b[0] - a[0]) * (y - a[1]) / (b[1] - a[1]) + a[0]) in = !in;
  }
  return in;
}

double area_xy(const std::vector<P3>& p) {
  double r = 0.;
  for (size_t k = 0; k < p.size(); ++k) {
    const P3 &a = p[k], &b = p[(k + 1) % p.size()];
    r += 0.5 * (a[0] * b[1] - a[1] * b[0]);
  }
  return r;
}

PROBE(P27, simplified_surface, 15000, 150000) {
  Field field = random_field(src, src.b(1, 3));
  const double tolerance = src.pick(std::vector<double>{1e-3, 1e-6, 1e-2});
  // Sides of bumps may be almost in the plane next to them; jitter would make that ambiguous.
  field.jitter = !field.bumps && src.b(1, 3) ? 0.15 * tolerance : 0.;
  const bool smooth = src.b(1, 3);
  const GeoMesh mesh = mesh_of(src, field, smooth);
  note_field(field);
  NOTE("tolerance " << tolerance << (smooth ? ", normals of vertices lean" : ""));
  if (field.faces.size() >= 2) pbt::nontrivial();
  const GeoMesh got = SimplifyMeshFaces(mesh, tolerance);

  std::set<std::pair<P3, P3>> known;
  for (const auto& f : mesh.faces()) {
    for (const auto& v : f.vertices()) {
      known.insert({of(mesh.get_vertex(v.vertex_index).v().xyz()), of(mesh.get_normal(v.normal_index).n().xyz())});
    }
  }
  double area = 0., want_area = 0.;
  std::vector<std::vector<P3>> polygons;
  for (const auto& f : got.faces()) {
    std::vector<P3> p;
    for (const auto& v : f.vertices()) {
      const P3 x = of(got.get_vertex(v.vertex_index).v().xyz());
      CHECK(known.count({x, of(got.get_normal(v.normal_index).n().xyz())}) > 0, "simplified-vertex",
            "not a vertex of the mesh with its normal: " << str(x));
      p.push_back(field.local(x));
    }
    CHECK(p.size() >= 3, "simplified-face-size", p.size());
    CHECK(area_xy(p) > 0., "simplified-orientation", "face " << polygons.size() << " area " << area_xy(p));
    area += area_xy(p);
    polygons.push_back(p);
  }
  // Groups of faces of a plane which share edges.
  const auto adjacent = brute_adjacency(mesh);
  const int n = static_cast<int>(field.faces.size());
  std::vector<int> group(n);
  for (int f = 0; f < n; ++f) group[f] = f;
  for (int round = 0; round < n; ++round) {
    for (int f = 0; f < n; ++f) {
      for (const auto& a : adjacent[f]) {
        if (a.face_index >= 0 && field.faces[a.face_index].plane == field.faces[f].plane) {
          group[f] = group[a.face_index] = std::min(group[f], group[a.face_index]);
        }
      }
    }
  }
  const int groups = static_cast<int>(std::set<int>(group.begin(), group.end()).size());
  pbt::label("faces", n);
  pbt::label("groups", groups);
  if (field.bumps) pbt::label("with bumps");
  // Without bumps each group is a region without holes, which becomes one face.
  if (!field.bumps) {
    CHECK(static_cast<int>(polygons.size()) == groups, "simplified-face-count",
          polygons.size() << " faces, want " << groups << " of " << n);
  } else {
    CHECK(static_cast<int>(polygons.size()) <= n, "simplified-face-count", polygons.size() << " faces of " << n);
  }
  // Each place of the surface is covered once, and by a face on its plane.
  for (int f = 0; f < n; ++f) {
    std::vector<P3> p;
    P3 c{0., 0., 0.};
    for (int v : field.faces[f].v) {
      p.push_back(field.v[v]);
      c = c + 1. / static_cast<double>(field.faces[f].v.size()) * field.v[v];
    }
    want_area += area_xy(p);
    for (size_t k = 0; k <= p.size(); ++k) {
      const P3 at = k < p.size() ? 0.8 * p[k] + 0.2 * c : c;
      int covers = 0;
      for (size_t g = 0; g < polygons.size(); ++g) {
        if (!inside(polygons[g], at[0], at[1])) continue;
        ++covers;
        for (const auto& q : polygons[g]) {
          const double d = std::abs(dot(field.faces[f].n, q - at));
          CHECK(d <= 4. * tolerance + 1e-9, "simplified-height",
                "face " << f << " at " << str(at) << " is covered by face " << g << " which is " << d << " off");
        }
      }
      CHECK(covers == 1, "simplified-cover", "face " << f << " at " << str(at) << " is covered by " << covers);
    }
  }
  CHECK(std::abs(area - want_area) <= 4. * tolerance * field.edge_total + 1e-9, "simplified-area",
        area << " want " << want_area);
}

}  // namespace
