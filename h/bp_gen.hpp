// Random Blueprint meshes with a reference model, and an independent reader of mesh nodes.
#pragma once
#include "vf.hpp"
#include <conduit_blueprint.hpp>
#include <conduit_blueprint_mesh.hpp>
#include <conduit_blueprint_mesh_utils.hpp>
#include <array>
namespace bg {
using namespace vf;
using namespace conduit;
typedef std::vector<int64_t> IV;
typedef std::array<double, 3> P3;
struct Elem { std::string shape; IV v; std::vector<IV> faces; };  // faces: polyhedra only, v then holds the distinct vertices
struct Mesh {
  int dim = 0;      // axes of the coordset
  int tdim = 0;     // dimension of the elements
  std::vector<P3> x;
  std::vector<Elem> e;
  std::string ctype, ttype, shape; // node types it was realized with
  int64_t n[3] = {0, 0, 0};        // lattice cells (uniform, rectilinear, structured)
  std::vector<std::string> axes;
};
inline const std::vector<IV> &faces_of(const std::string &s) {
  static const std::map<std::string, std::vector<IV>> F = {
    {"tri", {{0, 1}, {1, 2}, {2, 0}}}, {"quad", {{0, 1}, {1, 2}, {2, 3}, {3, 0}}}, {"line", {{0}, {1}}}, {"point", {}},
    {"tet", {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}}},
    {"hex", {{0, 3, 2, 1}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}, {4, 5, 6, 7}}},
    {"wedge", {{0, 2, 1}, {0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}, {3, 4, 5}}},
    {"pyramid", {{0, 3, 2, 1}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}}};
  return F.at(s);
}
inline int shape_dim(const std::string &s) { return s == "point" ? 0 : s == "line" ? 1 : (s == "tri" || s == "quad" || s == "polygonal") ? 2 : 3; }
inline std::vector<IV> elem_faces(const Elem &e) { // sets of vertex ids of the (dim-1) entities
  if (e.shape == "polyhedral") return e.faces;
  std::vector<IV> o;
  if (e.shape == "polygonal") { for (size_t i = 0; i < e.v.size(); i++) o.push_back({e.v[i], e.v[(i + 1) % e.v.size()]}); return o; }
  for (auto &f : faces_of(e.shape)) { IV q; for (auto i : f) q.push_back(e.v[i]); o.push_back(q); }
  return o;
}
inline std::vector<IV> face_edges(const IV &f) { std::vector<IV> o; for (size_t i = 0; i < f.size(); i++) o.push_back({f[i], f[(i + 1) % f.size()]}); return o; }
inline std::vector<IV> elem_edges(const Elem &e) {
  int d = shape_dim(e.shape); std::vector<IV> o;
  if (d == 0) return o;
  if (d == 1) { o.push_back(e.v); return o; }
  if (d == 2) return elem_faces(e);
  std::set<IV> s; for (auto &f : elem_faces(e)) for (auto &g : face_edges(f)) { IV k = g; std::sort(k.begin(), k.end()); if (s.insert(k).second) o.push_back(g); }
  return o;
}
inline IV sorted(IV v) { std::sort(v.begin(), v.end()); return v; }

// ------------------------------------------------ numbers into nodes, in any layout and type
struct NumOpts { bool strided = true, external = true; std::vector<int> idts = {DataType::INT32_ID, DataType::INT64_ID}, fdts = {DataType::FLOAT64_ID, DataType::FLOAT32_ID}; };
template <class T> void put_array(Rng &r, Node &n, const std::vector<T> &v, int dt, Arena &ar, const NumOpts &o) {
  Val q; q.k = V_LEAF; q.dt = dt; q.n = (int64_t)v.size(); int es = esize(dt); q.bytes.resize(v.size() * es);
  for (size_t i = 0; i < v.size(); i++) dispatch_num(dt, [&](auto t) { decltype(t) x = (decltype(t))v[i]; memcpy(&q.bytes[i * es], &x, es); return 0; });
  RealOpts ro; ro.external = o.external; ro.strided = o.strided; ro.offsets = o.strided; real_leaf(r, q, n, ar, ro);
}
// several components, sometimes interleaved in one buffer
inline void put_comps(Rng &r, Node &n, const std::vector<std::string> &names, const std::vector<std::vector<double>> &v, int dt, Arena &ar, const NumOpts &o) {
  if (o.external && names.size() > 1 && r.chance(0.3) && !v[0].empty()) {
    int es = esize(dt); size_t nc = names.size(), m = v[0].size(); uint8_t *p = ar.get(es * nc * m);
    for (size_t c = 0; c < nc; c++) { for (size_t i = 0; i < m; i++) dispatch_num(dt, [&](auto t) { decltype(t) x = (decltype(t))v[c][i]; memcpy(p + (i * nc + c) * es, &x, es); return 0; }); n[names[c]].set_external(DataType(dt, m, c * es, nc * es, es, Endianness::machine_default()), p); }
    return;
  }
  for (size_t c = 0; c < names.size(); c++) put_array(r, n[names[c]], v[c], dt, ar, o);
}

// ------------------------------------------------ independent reader
inline std::vector<double> nums(const Node &n) { float64_accessor a = n.as_float64_accessor(); std::vector<double> o(n.dtype().number_of_elements()); for (size_t i = 0; i < o.size(); i++) o[i] = a[i]; return o; }
inline IV ints(const Node &n) { int64_accessor a = n.as_int64_accessor(); IV o(n.dtype().number_of_elements()); for (size_t i = 0; i < o.size(); i++) o[i] = a[i]; return o; }
struct BadMesh : std::runtime_error { using std::runtime_error::runtime_error; };
inline std::vector<std::string> axes_of(const Node &cs) {
  std::string t = cs["type"].as_string(); const char *sys[3][3] = {{"x", "y", "z"}, {"z", "r", ""}, {"r", "theta", "phi"}};
  std::vector<std::string> o;
  if (t != "uniform") {
    const Node &v = cs["values"];
    if (v.has_child("theta") || v.has_child("phi")) { for (auto a : sys[2]) if (v.has_child(a)) o.push_back(a); }
    else if (v.has_child("r")) { for (auto a : {"z", "r"}) if (v.has_child(a)) o.push_back(a); }
    else for (auto a : sys[0]) if (v.has_child(a)) o.push_back(a);
    return o;
  }
  int s = 0; if (cs.has_child("origin")) { if (cs["origin"].has_child("theta")) s = 2; else if (cs["origin"].has_child("r")) s = 1; } if (!s && cs.has_child("spacing")) { if (cs["spacing"].has_child("dtheta")) s = 2; else if (cs["spacing"].has_child("dr")) s = 1; }
  int nd = (int)cs["dims"].number_of_children(); for (int d = 0; d < nd && d < 3; d++) o.push_back(sys[s][d]);
  return o;
}
inline void read_coords(const Node &cs, Mesh &m) {
  m.ctype = cs["type"].as_string(); m.axes = axes_of(cs); m.dim = (int)m.axes.size(); m.x.clear();
  std::vector<std::vector<double>> a;
  if (m.ctype == "uniform") {
    for (int d = 0; d < m.dim; d++) { std::string l = std::string(1, "ijk"[d]); int64_t k = cs["dims"][l].to_int64(); double o = cs.has_child("origin") && cs["origin"].has_child(m.axes[d]) ? cs["origin"][m.axes[d]].to_float64() : 0, s = cs.has_child("spacing") && cs["spacing"].has_child("d" + m.axes[d]) ? cs["spacing"]["d" + m.axes[d]].to_float64() : 1; std::vector<double> q; for (int64_t i = 0; i < k; i++) q.push_back(o + i * s); a.push_back(q); }
  } else for (auto &s : m.axes) a.push_back(nums(cs["values"][s]));
  if (m.ctype == "explicit") { for (auto &q : a) if (q.size() != a[0].size()) throw BadMesh("coordinate arrays differ in length"); m.x.resize(a.empty() ? 0 : a[0].size(), P3{{0, 0, 0}}); for (int d = 0; d < m.dim; d++) for (size_t i = 0; i < m.x.size(); i++) m.x[i][d] = a[d][i]; return; }
  for (int d = 0; d < 3; d++) m.n[d] = d < m.dim ? (int64_t)a[d].size() - 1 : 0;
  for (size_t k = 0; k < (m.dim > 2 ? a[2].size() : 1); k++) for (size_t j = 0; j < (m.dim > 1 ? a[1].size() : 1); j++) for (size_t i = 0; i < a[0].size(); i++) m.x.push_back(P3{{a[0][i], m.dim > 1 ? a[1][j] : 0, m.dim > 2 ? a[2][k] : 0}});
}
inline void lattice_elems(Mesh &m, int dim, const int64_t *n) {
  int64_t nx = n[0] + 1, ny = dim > 1 ? n[1] + 1 : 1; m.e.clear(); m.tdim = dim; m.shape = dim == 1 ? "line" : dim == 2 ? "quad" : "hex";
  for (int64_t k = 0; k < (dim > 2 ? n[2] : 1); k++) for (int64_t j = 0; j < (dim > 1 ? n[1] : 1); j++) for (int64_t i = 0; i < n[0]; i++) {
    auto id = [&](int64_t a, int64_t b, int64_t c) { return (i + a) + nx * ((j + b) + ny * (k + c)); }; Elem e; e.shape = m.shape;
    if (dim == 1) e.v = {id(0, 0, 0), id(1, 0, 0)}; else if (dim == 2) e.v = {id(0, 0, 0), id(1, 0, 0), id(1, 1, 0), id(0, 1, 0)};
    else e.v = {id(0, 0, 0), id(1, 0, 0), id(1, 1, 0), id(0, 1, 0), id(0, 0, 1), id(1, 0, 1), id(1, 1, 1), id(0, 1, 1)};
    m.e.push_back(e);
  }
}
inline int64_t nverts(const std::string &s) { return s == "point" ? 1 : s == "line" ? 2 : s == "tri" ? 3 : s == "quad" || s == "tet" ? 4 : s == "pyramid" ? 5 : s == "wedge" ? 6 : s == "hex" ? 8 : -1; }
inline std::vector<IV> read_o2m(const Node &n, const std::string &what, bool need_sizes) {
  IV c = ints(n[what]), sz, of; std::vector<IV> o; if (!n.has_child("sizes")) { if (need_sizes) throw BadMesh("no sizes"); return o; } sz = ints(n["sizes"]);
  if (n.has_child("offsets")) of = ints(n["offsets"]); else { int64_t p = 0; for (auto s : sz) { of.push_back(p); p += s; } }
  if (of.size() != sz.size()) throw BadMesh("sizes and offsets differ in length");
  for (size_t i = 0; i < sz.size(); i++) { IV q; for (int64_t k = 0; k < sz[i]; k++) { int64_t p = of[i] + k; if (p < 0 || p >= (int64_t)c.size()) throw BadMesh("offset past the connectivity"); q.push_back(c[p]); } o.push_back(q); }
  return o;
}
inline Mesh read_topo(const Node &dom, const std::string &tn) {
  const Node &t = dom["topologies"][tn]; Mesh m; read_coords(dom["coordsets"][t["coordset"].as_string()], m); m.ttype = t["type"].as_string();
  if (m.ttype == "points") { m.tdim = 0; m.shape = "point"; for (size_t i = 0; i < m.x.size(); i++) { Elem e; e.shape = "point"; e.v = {(int64_t)i}; m.e.push_back(e); } return m; }
  if (m.ttype == "uniform" || m.ttype == "rectilinear") { lattice_elems(m, m.dim, m.n); return m; }
  if (m.ttype == "structured") { const Node &d = t["elements/dims"]; int64_t n[3] = {d["i"].to_int64(), d.has_child("j") ? d["j"].to_int64() : 0, d.has_child("k") ? d["k"].to_int64() : 0}; int td = d.has_child("k") ? 3 : d.has_child("j") ? 2 : 1; for (int q = 0; q < 3; q++) m.n[q] = n[q]; lattice_elems(m, td, n); for (auto &e : m.e) for (auto v : e.v) if (v >= (int64_t)m.x.size()) throw BadMesh("structured topology larger than its coordset"); return m; }
  const Node &el = t["elements"]; m.shape = el["shape"].as_string();
  if (m.shape == "polyhedral" || (m.shape == "mixed" && t.has_child("subelements"))) {
    std::vector<IV> fc = read_o2m(t["subelements"], "connectivity", true), pl = read_o2m(el, "connectivity", true); IV sh; if (m.shape == "mixed") sh = ints(el["shapes"]);
    std::map<int64_t, std::string> nm; if (m.shape == "mixed") { const Node &sm = el["shape_map"]; for (index_t i = 0; i < sm.number_of_children(); i++) nm[sm.child(i).to_int64()] = sm.child(i).name(); }
    for (size_t i = 0; i < pl.size(); i++) { Elem e; e.shape = m.shape == "mixed" ? nm[sh[i]] : "polyhedral"; if (e.shape != "polyhedral") { e.v = pl[i]; m.e.push_back(e); continue; } std::set<int64_t> seen; for (auto f : pl[i]) { if (f < 0 || f >= (int64_t)fc.size()) throw BadMesh("face id out of range"); e.faces.push_back(fc[f]); for (auto v : fc[f]) if (seen.insert(v).second) e.v.push_back(v); } m.e.push_back(e); }
  } else if (m.shape == "polygonal") for (auto &q : read_o2m(el, "connectivity", true)) { Elem e; e.shape = "polygonal"; e.v = q; m.e.push_back(e); }
  else if (m.shape == "mixed") { std::map<int64_t, std::string> nm; const Node &sm = el["shape_map"]; for (index_t i = 0; i < sm.number_of_children(); i++) nm[sm.child(i).to_int64()] = sm.child(i).name(); IV sh = ints(el["shapes"]); auto q = read_o2m(el, "connectivity", true); if (q.size() != sh.size()) throw BadMesh("shapes and sizes differ in length"); for (size_t i = 0; i < q.size(); i++) { Elem e; e.shape = nm[sh[i]]; e.v = q[i]; m.e.push_back(e); } }
  else { int64_t k = nverts(m.shape); IV c = ints(el["connectivity"]); if (k < 1 || c.size() % k) throw BadMesh("connectivity length"); for (size_t i = 0; i < c.size() / k; i++) { Elem e; e.shape = m.shape; e.v.assign(c.begin() + i * k, c.begin() + (i + 1) * k); m.e.push_back(e); } }
  for (auto &e : m.e) { m.tdim = std::max(m.tdim, shape_dim(e.shape)); for (auto v : e.v) if (v < 0 || v >= (int64_t)m.x.size()) throw BadMesh("vertex id " + std::to_string(v) + " out of range"); }
  return m;
}

// ------------------------------------------------ generator
struct MOpts {
  int dim = 0;                          // 0 any
  bool drop = true, permute = true, unused = true, jitter = true;
  bool poly = true, mixed = true, wedges = true, low_dim = true, implicit = true, points = true, curvi = true;
  bool dup_faces = false;              // polyhedra that store a shared face once per element
  bool axes_any = false;                // cylindrical, spherical
  int max_n = 3;
  NumOpts num;
};
inline void use_lattice(Rng &r, Mesh &m, const int64_t *n, const MOpts &o) {
  int64_t nx = n[0] + 1, ny = m.dim > 1 ? n[1] + 1 : 1, nz = m.dim > 2 ? n[2] + 1 : 1; m.x.clear();
  for (int64_t k = 0; k < nz; k++) for (int64_t j = 0; j < ny; j++) for (int64_t i = 0; i < nx; i++) { P3 p{{(double)i, m.dim > 1 ? (double)j : 0, m.dim > 2 ? (double)k : 0}}; if (o.jitter) for (int d = 0; d < m.dim; d++) p[d] += r.range(-12, 12) / 64.0; m.x.push_back(p); }
}
// unstructured mesh cut from a lattice
inline Mesh gen_unstructured(Rng &r, const MOpts &o) {
  Mesh m; m.dim = o.dim ? o.dim : (int)r.range(1, 3); int64_t n[3]; for (int d = 0; d < 3; d++) n[d] = r.range(1, o.max_n); Mesh L; L.dim = m.dim; use_lattice(r, m, n, o); lattice_elems(L, m.dim, n);
  std::vector<std::string> st; m.ttype = "unstructured"; m.ctype = "explicit";
  if (o.low_dim || m.dim == 1) st.push_back("line"); if (o.low_dim) st.push_back("point");
  if (m.dim == 2 || (m.dim == 3 && o.low_dim)) { st.push_back("tri"); st.push_back("quad"); if (o.poly) st.push_back("polygonal"); if (o.mixed) st.push_back("mixed2"); }
  if (m.dim == 3) { for (int k = 0; k < 2; k++) { st.push_back("tet"); st.push_back("hex"); if (o.poly) st.push_back("polyhedral"); } if (o.wedges) { st.push_back("wedge"); st.push_back("pyramid"); if (o.mixed) st.push_back("mixed3"); } }
  std::string s = r.pick(st); m.shape = s;
  auto add = [&](const std::string &sh, const IV &v) { Elem e; e.shape = sh; e.v = v; m.e.push_back(e); };
  std::vector<Elem> base = L.e;
  if (m.dim == 3 && (s == "tri" || s == "quad" || s == "polygonal" || s == "mixed2")) { std::set<IV> seen; base.clear(); for (auto &h : L.e) for (auto &f : elem_faces(h)) if (seen.insert(sorted(f)).second) { Elem q; q.shape = "quad"; q.v = f; base.push_back(q); } }
  if (s == "line" && m.dim > 1) { std::set<IV> seen; base.clear(); for (auto &h : L.e) for (auto &f : elem_edges(h)) if (seen.insert(sorted(f)).second) { Elem q; q.shape = "line"; q.v = f; base.push_back(q); } }
  std::set<size_t> gone;
  for (size_t b = 0; b < base.size(); b++) {
    const IV v = base[b].v; if (gone.count(b)) continue; auto col = [&] { return (b % (n[0] * n[1])); };
    if (s == "point") { add("point", {v[r.below(v.size())]}); }
    else if (s == "line") add("line", v);
    else if (s == "quad" || s == "hex") add(s, v);
    else if (s == "tri") { add("tri", {v[0], v[1], v[2]}); add("tri", {v[0], v[2], v[3]}); }
    else if (s == "polygonal") {
      if (m.dim == 2 && r.chance(0.3) && b % n[0] + 1 < (size_t)n[0]) { size_t k = (size_t)r.range(1, (int64_t)(n[0] - 1 - b % n[0])); IV lo{v[0], v[1]}, hi{v[3], v[2]}; for (size_t j = 1; j <= k; j++) { const IV &w = base[b + j].v; gone.insert(b + j); lo.push_back(w[1]); hi.push_back(w[2]); } lo.insert(lo.end(), hi.rbegin(), hi.rend()); add("polygonal", lo); } // several cells as one polygon
      else if (r.chance(0.3)) { add("polygonal", {v[0], v[1], v[2]}); add("polygonal", {v[0], v[2], v[3]}); } else add("polygonal", v);
    } else if (s == "mixed2") { if (r.chance(0.5)) { add("tri", {v[0], v[1], v[2]}); add("tri", {v[0], v[2], v[3]}); } else add("quad", v); }
    else if (s == "tet") { static const int K[6][4] = {{0, 1, 2, 6}, {0, 2, 3, 6}, {0, 3, 7, 6}, {0, 7, 4, 6}, {0, 4, 5, 6}, {0, 5, 1, 6}}; for (auto &k : K) add("tet", {v[k[0]], v[k[1]], v[k[2]], v[k[3]]}); }
    else if (s == "wedge" || (s == "mixed3" && mix64(col() * 7919 + n[0]) % 2)) { add("wedge", {v[0], v[1], v[2], v[4], v[5], v[6]}); add("wedge", {v[0], v[2], v[3], v[4], v[6], v[7]}); }
    else if (s == "mixed3") add("hex", v);
    else if (s == "pyramid") { P3 c{{0, 0, 0}}; for (auto i : v) for (int d = 0; d < 3; d++) c[d] += m.x[i][d] / 8; int64_t ci = (int64_t)m.x.size(); m.x.push_back(c); Elem h; h.shape = "hex"; h.v = v; for (auto f : elem_faces(h)) { std::reverse(f.begin(), f.end()); f.push_back(ci); add("pyramid", f); } }
    else { Elem e; e.shape = "polyhedral"; Elem h; h.shape = "hex"; h.v = v; if (r.chance(0.25) && base.size() == (size_t)(n[0] * n[1] * n[2]) && b % n[0] + 1 < (size_t)n[0]) { // several cells in a row as one polyhedron
        size_t k = (size_t)r.range(1, (int64_t)(n[0] - 1 - b % n[0])); std::map<IV, std::pair<int, IV>> fs; std::vector<IV> order; std::set<int64_t> vs; for (size_t j = 0; j <= k; j++) { if (j) gone.insert(b + j); Elem q; q.shape = "hex"; q.v = base[b + j].v; vs.insert(q.v.begin(), q.v.end()); for (auto &f : elem_faces(q)) { auto &x = fs[sorted(f)]; if (!x.first++) { x.second = f; order.push_back(sorted(f)); } } }
        for (auto &f : order) if (fs[f].first == 1) e.faces.push_back(fs[f].second); e.v.assign(vs.begin(), vs.end()); m.e.push_back(e); }
      else if (r.chance(0.3)) { for (int w = 0; w < 2; w++) { Elem q; q.shape = "wedge"; q.v = w ? IV{v[0], v[2], v[3], v[4], v[6], v[7]} : IV{v[0], v[1], v[2], v[4], v[5], v[6]}; Elem p; p.shape = "polyhedral"; p.faces = elem_faces(q); p.v = q.v; m.e.push_back(p); } } else { e.faces = elem_faces(h); e.v = v; m.e.push_back(e); } }
  }
  if (s == "mixed2" || s == "mixed3") m.shape = "mixed";
  if (o.drop && m.e.size() > 1 && r.chance(0.5)) { std::vector<Elem> k; double p = r.unit() * 0.6; for (auto &e : m.e) if (!r.chance(p)) k.push_back(e); if (!k.empty()) m.e = k; }
  if (o.permute && r.chance(0.5)) for (size_t i = m.e.size(); i > 1; i--) std::swap(m.e[i - 1], m.e[r.below(i)]);
  // vertex renumbering, unused vertices dropped or kept
  IV map(m.x.size(), -1); std::vector<bool> used(m.x.size(), o.unused && r.chance(0.4)); for (auto &e : m.e) for (auto v : e.v) used[v] = true;
  IV ord; for (size_t i = 0; i < m.x.size(); i++) if (used[i]) ord.push_back(i); if (o.permute && r.chance(0.5)) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
  std::vector<P3> nx; for (size_t i = 0; i < ord.size(); i++) { map[ord[i]] = i; nx.push_back(m.x[ord[i]]); } m.x = nx;
  for (auto &e : m.e) { for (auto &v : e.v) v = map[v]; for (auto &f : e.faces) for (auto &v : f) v = map[v]; }
  for (auto &e : m.e) m.tdim = std::max(m.tdim, shape_dim(e.shape));
  static const char *A[3][3] = {{"x", "y", "z"}, {"z", "r", ""}, {"r", "theta", "phi"}}; int sys = o.axes_any ? (int)r.below(3) : 0; if (sys == 1 && m.dim != 2) sys = 0; if (sys == 2 && m.dim != 3) sys = 0; for (int d = 0; d < m.dim; d++) m.axes.push_back(A[sys][d]);
  return m;
}
inline Mesh gen_lattice(Rng &r, const MOpts &o) {
  Mesh m; m.dim = o.dim ? o.dim : (int)r.range(1, 3); for (int d = 0; d < 3; d++) m.n[d] = d < m.dim ? r.range(1, o.max_n + 1) : 0; m.ttype = r.pick(std::vector<std::string>{"uniform", "rectilinear", "structured"}); m.ctype = m.ttype == "structured" ? "explicit" : m.ttype;
  static const char *A[3][3] = {{"x", "y", "z"}, {"z", "r", ""}, {"r", "theta", "phi"}}; int sys = o.axes_any ? (int)r.below(3) : 0; if (sys == 1 && m.dim != 2) sys = 0; if (sys == 2 && m.dim != 3) sys = 0; for (int d = 0; d < m.dim; d++) m.axes.push_back(A[sys][d]);
  if (m.ttype == "structured") use_lattice(r, m, m.n, o);
  else {
    std::vector<std::vector<double>> a(3, std::vector<double>{0}); for (int d = 0; d < m.dim; d++) { a[d].clear(); double p = r.range(-8, 8), s = r.range(1, 8) / 4.0; for (int64_t i = 0; i <= m.n[d]; i++) { a[d].push_back(p); p += m.ttype == "uniform" ? s : r.range(1, 8) / 4.0; } }
    for (auto z : a[2]) for (auto y : a[1]) for (auto x : a[0]) m.x.push_back(P3{{x, y, z}});
  }
  lattice_elems(m, m.dim, m.n); return m;
}
inline Mesh gen_mesh(Rng &r, const MOpts &o) {
  if (o.implicit && r.chance(0.35)) return gen_lattice(r, o);
  Mesh m = gen_unstructured(r, o);
  if (o.points && r.chance(0.05)) { m.ttype = "points"; m.shape = "point"; m.tdim = 0; m.e.clear(); for (size_t i = 0; i < m.x.size(); i++) { Elem e; e.shape = "point"; e.v = {(int64_t)i}; m.e.push_back(e); } }
  return m;
}
// coordset and topology nodes of a mesh
inline void realize_mesh(Rng &r, const Mesh &m, Node &dom, Arena &ar, const MOpts &o, const std::string &cn = "coords", const std::string &tn = "topo") {
  Node &cs = dom["coordsets"][cn]; Node &t = dom["topologies"][tn]; cs["type"] = m.ctype; int fdt = r.pick(o.num.fdts), idt = r.pick(o.num.idts);
  auto axis = [&](int d) { std::vector<double> a; int64_t st = 1; for (int q = 0; q < d; q++) st *= m.n[q] + 1; for (int64_t i = 0; i <= m.n[d]; i++) a.push_back(m.x[i * st][d]); return a; };
  if (m.ctype == "uniform") { for (int d = 0; d < m.dim; d++) { auto a = axis(d); std::string l(1, "ijk"[d]); if (r.chance(0.5)) cs["dims"][l] = (int64)(m.n[d] + 1); else cs["dims"][l] = (int32)(m.n[d] + 1); } for (int d = 0; d < m.dim; d++) { auto a = axis(d); cs["origin"][m.axes[d]] = a[0]; cs["spacing"]["d" + m.axes[d]] = a[1] - a[0]; } }
  else if (m.ctype == "rectilinear") { for (int d = 0; d < m.dim; d++) put_array(r, cs["values"][m.axes[d]], axis(d), fdt, ar, o.num); }
  else { std::vector<std::vector<double>> v(m.dim); for (int d = 0; d < m.dim; d++) for (auto &p : m.x) v[d].push_back(p[d]); put_comps(r, cs["values"], m.axes, v, fdt, ar, o.num); }
  t["type"] = m.ttype; t["coordset"] = cn;
  if (m.ttype == "structured") { for (int d = 0; d < m.dim; d++) { std::string l(1, "ijk"[d]); if (idt == DataType::INT32_ID) t["elements/dims"][l] = (int32)m.n[d]; else t["elements/dims"][l] = (int64)m.n[d]; } }
  if (m.ttype != "unstructured") return;
  Node &el = t["elements"]; el["shape"] = m.shape; IV conn, sizes, offs;
  if (m.shape == "polyhedral") {
    std::map<IV, int64_t> id; IV fc, fs, fo; t["subelements/shape"] = "polygonal"; bool dup = o.dup_faces && r.chance(0.15);
    for (auto &e : m.e) { offs.push_back(conn.size()); sizes.push_back(e.faces.size()); for (auto &f : e.faces) { auto it = id.find(sorted(f)); int64_t q; if (it == id.end() || dup) { q = fs.size(); id[sorted(f)] = q; fo.push_back(fc.size()); fs.push_back(f.size()); fc.insert(fc.end(), f.begin(), f.end()); } else q = it->second; conn.push_back(q); } }
    Node &su = t["subelements"]; put_array(r, su["connectivity"], fc, idt, ar, o.num); put_array(r, su["sizes"], fs, idt, ar, o.num); put_array(r, su["offsets"], fo, idt, ar, o.num);
  } else for (auto &e : m.e) { offs.push_back(conn.size()); sizes.push_back(e.v.size()); conn.insert(conn.end(), e.v.begin(), e.v.end()); }
  put_array(r, el["connectivity"], conn, idt, ar, o.num);
  if (m.shape == "mixed") { std::map<std::string, int64_t> id; IV sh; for (auto &e : m.e) { if (!id.count(e.shape)) { static const std::map<std::string, int64_t> vtk = {{"tri", 5}, {"quad", 9}, {"tet", 10}, {"hex", 12}, {"wedge", 13}, {"pyramid", 14}}; id[e.shape] = vtk.at(e.shape); } sh.push_back(id[e.shape]); } for (auto &k : id) el["shape_map"][k.first] = (int32)k.second; put_array(r, el["shapes"], sh, idt, ar, o.num); }
  if (m.shape == "mixed" || m.shape == "polygonal" || m.shape == "polyhedral") { put_array(r, el["sizes"], sizes, idt, ar, o.num); put_array(r, el["offsets"], offs, idt, ar, o.num); }
}
// fields whose values name the entity they belong to
struct FVal { std::string name, assoc; std::vector<std::string> comps; std::vector<std::vector<double>> v; int dt; };
inline std::vector<FVal> gen_fields(Rng &r, const Mesh &m, Node &dom, Arena &ar, const MOpts &o, const std::string &tn = "topo", double base = 0, int nmax = 4) {
  std::vector<FVal> out; int k = (int)r.range(1, nmax);
  for (int i = 0; i < k; i++) {
    FVal f; f.name = std::string(r.chance(0.5) ? "f" : "g") + std::to_string(i); f.assoc = r.chance(0.5) ? "vertex" : "element"; f.dt = r.pick(std::vector<int>{DataType::FLOAT64_ID, DataType::FLOAT32_ID, DataType::INT32_ID, DataType::INT64_ID});
    size_t n = f.assoc == "vertex" ? m.x.size() : m.e.size(); int nc = r.chance(0.3) ? (int)r.range(2, 3) : 1; static const char *C[3] = {"u", "v", "w"};
    for (int c = 0; c < nc; c++) { std::vector<double> v(n); for (size_t q = 0; q < n; q++) v[q] = base + (double)(q * 10 + c) + i * 1000; f.v.push_back(v); if (nc > 1) f.comps.push_back(C[c]); }
    Node &fn = dom["fields"][f.name]; fn["association"] = f.assoc; fn["topology"] = tn;
    if (nc == 1) put_array(r, fn["values"], f.v[0], f.dt, ar, o.num); else put_comps(r, fn["values"], f.comps, f.v, f.dt, ar, o.num);
    out.push_back(f);
  }
  return out;
}
inline std::string desc(const Mesh &m) { std::ostringstream s; s << m.ttype << "/" << m.shape << " dim " << m.dim << " nv " << m.x.size() << " ne " << m.e.size(); return s.str(); }
inline uint64_t mhash(const Mesh &m) { uint64_t h = hash_str(desc(m)); for (auto &e : m.e) { for (auto v : e.v) h = mix64(h ^ (uint64_t)v); h = mix64(h + e.faces.size()); } return h; }
inline bool near(double a, double b, double tol = 1e-5) { return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
inline bool near(const P3 &a, const P3 &b, double tol = 1e-5) { return near(a[0], b[0], tol) && near(a[1], b[1], tol) && near(a[2], b[2], tol); }
inline std::string verify_err(const Node &dom) { Node info; if (blueprint::mesh::verify(dom, info)) return ""; std::string s = info.to_yaml(); size_t p = s.find("errors"); return "verify refuses it: " + s.substr(p == std::string::npos ? 0 : p, 400); }
// measure of an element
inline P3 sub(const P3 &a, const P3 &b) { return P3{{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
inline P3 cross(const P3 &a, const P3 &b) { return P3{{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
inline double dot(const P3 &a, const P3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
} // namespace bg
