// C31 conversions between coordset and topology types, C32 derived topologies.
#include "bp_gen.hpp"
using namespace bg;
namespace bm = conduit::blueprint::mesh;
namespace bu = conduit::blueprint::mesh::utils;

static bool same_points(const Mesh &a, const Mesh &b, std::string &why) {
  if (a.x.size() != b.x.size()) { why = "number of points " + std::to_string(a.x.size()) + " want " + std::to_string(b.x.size()); return false; }
  for (size_t i = 0; i < a.x.size(); i++) if (!near(a.x[i], b.x[i])) { why = "point " + std::to_string(i) + " moved"; return false; }
  return true;
}
static bool same_elems(const Mesh &a, const Mesh &b, std::string &why) {
  if (a.e.size() != b.e.size()) { why = "number of elements " + std::to_string(a.e.size()) + " want " + std::to_string(b.e.size()); return false; }
  for (size_t i = 0; i < a.e.size(); i++) if (a.e[i].shape != b.e[i].shape || a.e[i].v != b.e[i].v) { why = "element " + std::to_string(i) + " differs"; return false; }
  return true;
}
static Mesh reread(const Node &dom, const std::string &tn, Ctx &c, const char *what) {
  try { return read_topo(dom, tn); } catch (std::exception &e) { VCHECK(false, what, "the result cannot be read as a mesh: ", e.what(), " ", dom["topologies"][tn].to_json().substr(0, 600)); }
  return Mesh();
}

FAMILY_LEAK("C31", "implicit", 2500, 60000) {
  Rng &r = c.rng; MOpts o; o.axes_any = true; Mesh m = gen_lattice(r, o); Node src; Arena ar; realize_mesh(r, m, src, ar, o); bool org = r.chance(0.2); if (org) for (int d = 0; d < m.dim; d++) src["topologies/topo/origin"][std::string(1, "ijk"[d]) + "0"] = (int32)r.range(-9, 99); c.seen(mhash(m)); c.tr(desc(m)); c.tr(src.to_json());
  Val before = snap(src); Node &cs = src["coordsets/coords"], &tp = src["topologies/topo"]; std::string w;
  VCHECK(verify_err(src).empty(), "harness", verify_err(src));
  VCHECK(bm::coordset::dims(cs) == m.dim, "dims", "coordset dims ", bm::coordset::dims(cs)); VCHECK(bm::coordset::length(cs) == (index_t)m.x.size(), "length", "coordset length ", bm::coordset::length(cs), " want ", m.x.size());
  VCHECK(bm::topology::dims(tp) == m.dim, "dims", "topology dims ", bm::topology::dims(tp)); VCHECK(bm::topology::length(tp) == (index_t)m.e.size(), "length", "topology length ", bm::topology::length(tp), " want ", m.e.size());
  { Mesh q = reread(src, "topo", c, "harness"); VCHECK(same_points(q, m, w) && same_elems(q, m, w), "harness", w); }
  auto points_like = [&](const Node &cset, const std::string &type, const char *what) { Mesh q; read_coords(cset, q); VCHECK(cset["type"].as_string() == type, what, "type ", cset["type"].as_string()); VCHECK(q.axes == m.axes, what, "axes changed: ", q.axes.size()); VCHECK(same_points(q, m, w), what, w); Node info; VCHECK(bm::coordset::verify(cset, info), what, "verify refuses the result"); };
  if (m.ctype == "uniform") { Node d; d["old"] = 1; bm::coordset::uniform::to_rectilinear(cs, d); points_like(d, "rectilinear", "coords-rect"); Node d2; bm::coordset::uniform::to_explicit(cs, d2); points_like(d2, "explicit", "coords-explicit"); Node d3; bm::coordset::rectilinear::to_explicit(d, d3); points_like(d3, "explicit", "coords-explicit"); }
  if (m.ctype == "rectilinear") { Node d; bm::coordset::rectilinear::to_explicit(cs, d); points_like(d, "explicit", "coords-explicit"); }
  { Node d; bm::coordset::to_explicit(cs, d); points_like(d, "explicit", "coords-to-explicit"); }
  typedef void (*Fn)(const Node &, Node &, Node &);
  std::vector<std::pair<std::string, Fn>> fn;
  if (m.ttype == "uniform") fn = {{"rectilinear", bm::topology::uniform::to_rectilinear}, {"structured", bm::topology::uniform::to_structured}, {"unstructured", bm::topology::uniform::to_unstructured}};
  if (m.ttype == "rectilinear") fn = {{"structured", bm::topology::rectilinear::to_structured}, {"unstructured", bm::topology::rectilinear::to_unstructured}};
  if (m.ttype == "structured") fn = {{"unstructured", bm::topology::structured::to_unstructured}};
  for (auto &f : fn) {
    Node out; Node &oc = out["coordsets/c2"], &ot = out["topologies/t2"]; if (r.chance(0.3)) { oc["junk"] = 1; ot["junk"] = 2; } f.second(tp, ot, oc);
    VCHECK(ot["type"].as_string() == f.first && ot["coordset"].as_string() == "c2", "topo-type", ot["type"].as_string(), " ", ot["coordset"].as_string());
    VCHECK(verify_err(out).empty(), "topo-verify", f.first, ": ", verify_err(out));
    Mesh q = reread(out, "t2", c, "topo-read"); VCHECK(same_points(q, m, w), "topo-points", m.ttype, "->", f.first, ": ", w); VCHECK(same_elems(q, m, w), "topo-elements", m.ttype, "->", f.first, ": ", w);
    if (org) { VCHECK(ot.has_child("origin") && snap(ot["origin"]) == snap(tp["origin"]), "topo-origin", m.ttype, "->", f.first, " lost the logical origin"); c.count("origins_kept"); } VCHECK(q.axes == m.axes, "topo-axes", "coordinate system changed"); VCHECK(bm::topology::length(ot) == (index_t)m.e.size(), "length", f.first);
    c.count("to_" + f.first);
    if (f.first == "structured") { Node o2; Node &c3 = o2["coordsets/c3"], &t3 = o2["topologies/t3"]; bm::topology::structured::to_unstructured(ot, t3, c3); Mesh q2 = reread(o2, "t3", c, "topo-read"); VCHECK(same_points(q2, m, w) && same_elems(q2, m, w), "topo-chain", w); }
  }
  VCHECK(snap(src) == before, "source-changed", "a conversion changed its source");
}
static bool cyc_eq(const IV &a, const IV &b) { // same cycle, either direction
  if (a.size() != b.size()) return false; size_t n = a.size();
  for (size_t s = 0; s < n; s++) { bool f = true, g = true; for (size_t i = 0; i < n; i++) { f &= a[i] == b[(s + i) % n]; g &= a[i] == b[(s + n - i) % n]; } if (f || g) return true; }
  return false;
}
FAMILY_LEAK("C31", "poly", 2500, 60000) {
  Rng &r = c.rng; MOpts o; o.implicit = false; o.mixed = false; o.points = false; o.wedges = false; Mesh m = gen_unstructured(r, o); if (shape_dim(m.e[0].shape) < 2) return;
  Node src; Arena ar; realize_mesh(r, m, src, ar, o); Node &tp = src["topologies/topo"]; c.tr(desc(m)); c.tr(src.to_json()); c.seen(mhash(m)); std::string w; Val before = snap(src);
  VCHECK(verify_err(src).empty(), "harness", verify_err(src));
  Node out; out["coordsets/coords"].set_external(src["coordsets/coords"]); Node &t2 = out["topologies/t2"]; if (r.chance(0.5)) bm::topology::unstructured::to_polygonal(tp, t2); else bm::topology::unstructured::to_polytopal(tp, t2);
  VCHECK(verify_err(out).empty(), "poly-verify", verify_err(out)); Mesh q = reread(out, "t2", c, "poly-read");
  VCHECK(q.shape == (m.tdim == 3 ? "polyhedral" : "polygonal") && q.e.size() == m.e.size(), "poly", "shape ", q.shape, " elements ", q.e.size(), " want ", m.e.size());
  for (size_t i = 0; i < m.e.size(); i++) {
    if (m.tdim == 2) { VCHECK(q.e[i].v == m.e[i].v, "poly-vertices", "element ", i); continue; }
    auto a = elem_faces(m.e[i]), b = q.e[i].faces; VCHECK(a.size() == b.size(), "poly-faces", "element ", i, " has ", b.size(), " faces, want ", a.size());
    for (auto &f : a) { bool hit = false; for (auto &g : b) hit |= cyc_eq(f, g); VCHECK(hit, "poly-faces", "element ", i, " lost a face"); }
  }
  if (m.shape == "tet" || m.shape == "hex") { std::set<IV> u; for (auto &e : m.e) for (auto &f : elem_faces(e)) u.insert(sorted(f)); index_t nf = t2["subelements/sizes"].dtype().number_of_elements(); VCHECK(nf == (index_t)u.size(), "poly-shared", nf, " faces stored, ", u.size(), " distinct ones"); c.count("polyhedral"); }
  VCHECK(snap(src) == before, "source-changed", "to_polygonal changed its source"); c.count("poly_conversions");
}
FAMILY_LEAK("C31", "offsets", 2500, 60000) {
  Rng &r = c.rng; MOpts o; o.implicit = false; o.points = false; Mesh m = gen_unstructured(r, o); Node src; Arena ar; realize_mesh(r, m, src, ar, o); Node &tp = src["topologies/topo"]; c.tr(desc(m)); c.tr(tp.to_json()); c.seen(mhash(m));
  IV eo, so; int64_t p = 0; for (auto &e : m.e) { eo.push_back(p); p += m.shape == "polyhedral" ? e.faces.size() : e.v.size(); }
  if (m.shape == "polyhedral") { p = 0; for (auto s : ints(tp["subelements/sizes"])) { so.push_back(p); p += s; } }
  VCHECK(bm::topology::length(tp) == (index_t)m.e.size(), "length", m.shape, " length ", bm::topology::length(tp), " want ", m.e.size());
  if (m.shape != "mixed") VCHECK(bm::topology::dims(tp) == m.tdim, "dims", bm::topology::dims(tp), " want ", m.tdim);
  bool has = tp["elements"].has_child("offsets"); if (has && m.shape != "mixed" && r.chance(0.7)) { tp["elements"].remove("offsets"); has = false; } bool hs = m.shape == "polyhedral"; if (hs && r.chance(0.5)) { tp["subelements"].remove("offsets"); hs = false; }
  if (m.shape == "mixed" && !has) return;
  VCHECK(bm::topology::length(tp) == (index_t)m.e.size(), "length", m.shape, " length without offsets ", bm::topology::length(tp), " want ", m.e.size());
  Val before = snap(src); Node a, b; a["junk"] = 1; if (r.chance(0.5)) bm::topology::unstructured::generate_offsets(tp, a); else bm::topology::unstructured::generate_offsets(tp, a, b);
  // the two argument form only reports what is missing
  if (!(m.shape == "polyhedral" && has && !hs)) VCHECK(ints(a) == eo, "offsets", "element offsets ", a.to_json());
  VCHECK(snap(src) == before, "source-changed", "generate_offsets changed its source");
  bm::topology::unstructured::generate_offsets_inline(tp); VCHECK(ints(tp["elements/offsets"]) == eo, "offsets-inline", tp["elements"].to_json().substr(0, 400));
  if (m.shape == "polyhedral") VCHECK(ints(tp["subelements/offsets"]) == so, "offsets-inline", "subelements");
  VCHECK(verify_err(src).empty(), "offsets-verify", verify_err(src)); c.count("offset_runs");
}
FAMILY_LEAK("C31", "strip", 1200, 20000) {
  Rng &r = c.rng; MOpts o; o.dim = 1; Mesh m = gen_lattice(r, o);
  Node src; Arena ar; realize_mesh(r, m, src, ar, o); FVal f; Node &fn = src["fields/f"]; fn["association"] = "element"; fn["topology"] = "topo"; std::vector<double> fv; for (size_t i = 0; i < m.e.size(); i++) fv.push_back(i * 3 + 1.0); put_array(r, fn["values"], fv, DataType::FLOAT64_ID, ar, o.num);
  c.tr(src.to_json()); c.seen(mhash(m)); Node info; VCHECK(bm::can_generate_strip(src, "topo", info), "can-strip", info.to_json());
  bm::generate_strip(src, "topo", "strip"); VCHECK(verify_err(src).empty(), "strip-verify", verify_err(src)); Mesh q = reread(src, "strip", c, "strip-read");
  VCHECK(q.e.size() == m.e.size() && q.shape == "quad", "strip", q.e.size(), " ", q.shape, " elements, want ", m.e.size(), " quads");
  for (size_t i = 0; i < m.e.size(); i++) { double lo = m.x[m.e[i].v[0]][0], hi = m.x[m.e[i].v[1]][0]; std::set<double> ys, xs; for (auto v : q.e[i].v) { ys.insert(std::round(q.x[v][1] * 1e4)); xs.insert(q.x[v][0]); } VCHECK(xs.size() == 2 && ys == (std::set<double>{std::round(lo * 1e4), std::round(hi * 1e4)}), "strip-geometry", "quad ", i); }
  bool found = false; for (index_t i = 0; i < src["fields"].number_of_children(); i++) { const Node &g = src["fields"].child(i); if (g["topology"].as_string() == "strip") { found = true; VCHECK(nums(g["values"]) == fv, "strip-field", "values"); } } VCHECK(found, "strip-field", "no field on the strip"); c.count("strips");
}
// ---------------------------------------------------------------- C32
static std::vector<IV> omap(const Node &n, Ctx &c) { try { return read_o2m(n, "values", true); } catch (std::exception &e) { VCHECK(false, "map-read", e.what(), " ", n.to_json().substr(0, 300)); } return {}; }
static void check_maps(const std::vector<IV> &s2d, const std::vector<IV> &d2s, size_t ns, size_t nd, Ctx &c) {
  VCHECK(s2d.size() == ns && d2s.size() == nd, "map-size", "maps have ", s2d.size(), "/", d2s.size(), " entries, want ", ns, "/", nd);
  std::set<std::pair<int64_t, int64_t>> a, b; size_t na = 0, nb = 0;
  for (size_t i = 0; i < ns; i++) for (auto d : s2d[i]) { VCHECK(d >= 0 && d < (int64_t)nd, "map-range", d); a.insert({(int64_t)i, d}); na++; }
  for (size_t i = 0; i < nd; i++) for (auto s : d2s[i]) { VCHECK(s >= 0 && s < (int64_t)ns, "map-range", s); b.insert({s, (int64_t)i}); nb++; }
  VCHECK(a == b, "map-inverse", "the two maps are not inverse to each other"); VCHECK(a.size() == na && b.size() == nb, "map-repeat", "an entry is repeated");
}
FAMILY_LEAK("C32", "entities", 2500, 60000) {
  Rng &r = c.rng; MOpts o; o.implicit = false; o.points = false; o.mixed = false; o.wedges = false; Mesh m = gen_unstructured(r, o); if (m.tdim == 0) return;
  Node src; Arena ar; realize_mesh(r, m, src, ar, o); Node &tp = src["topologies/topo"]; c.tr(desc(m)); c.tr(src.to_json()); c.seen(mhash(m)); Val before = snap(src); VCHECK(verify_err(src).empty(), "harness", verify_err(src));
  int d = (int)r.below(m.tdim == 3 ? 3 : m.tdim + 0 + 1); if (d > m.tdim) d = m.tdim; if (d == 0 && r.chance(0.3)) d = std::min(m.tdim, 1);
  Node out; out["coordsets/coords"].set_external(src["coordsets/coords"]); Node &t2 = out["topologies/t2"], s2dn, d2sn; if (r.chance(0.3)) { t2["junk"] = 1; s2dn["junk"] = 1; d2sn["junk"] = 2; }
  c.tr("dimension ", d);
  if (d == 0) bm::topology::unstructured::generate_points(tp, t2, s2dn, d2sn); else if (d == 1) bm::topology::unstructured::generate_lines(tp, t2, s2dn, d2sn); else bm::topology::unstructured::generate_faces(tp, t2, s2dn, d2sn);
  VCHECK(verify_err(out).empty(), "entity-verify", verify_err(out)); Mesh q = reread(out, "t2", c, "entity-read"); auto s2d = omap(s2dn, c), d2s = omap(d2sn, c);
  std::vector<std::vector<IV>> want(m.e.size()); std::set<IV> all;
  for (size_t i = 0; i < m.e.size(); i++) { const Elem &e = m.e[i]; std::vector<IV> x; if (d == 0) for (auto v : e.v) x.push_back({v}); else if (d == 1) x = elem_edges(e); else if (m.tdim == 2) x = {e.v}; else x = elem_faces(e); for (auto &s : x) { want[i].push_back(s); all.insert(sorted(s)); } }
  std::set<IV> got; for (auto &e : q.e) { VCHECK(shape_dim(e.shape) == d, "entity-dim", e.shape); VCHECK(got.insert(sorted(e.v)).second, "entity-twice", "an entity appears twice"); }
  if (d == 0) for (size_t i = 0; i < q.e.size(); i++) if (i < d2s.size() && d2s[i].empty() && !all.count(sorted(q.e[i].v))) got.erase(sorted(q.e[i].v)); // points no element uses may be kept
  VCHECK(got == all, "entity-set", got.size(), " entities of dimension ", d, ", want ", all.size());
  check_maps(s2d, d2s, m.e.size(), q.e.size(), c);
  for (size_t i = 0; i < m.e.size(); i++) { std::set<IV> a, b; for (auto &s : want[i]) a.insert(sorted(s)); for (auto k : s2d[i]) b.insert(sorted(q.e[k].v)); VCHECK(a == b, "map-entities", "element ", i, " maps to ", b.size(), " entities, want ", a.size()); for (auto k : s2d[i]) if (d == 2) { bool hit = false; for (auto &s : want[i]) hit |= cyc_eq(s, q.e[k].v); VCHECK(hit, "entity-cycle", "face ", k, " has its vertices in another order than element ", i); } }
  VCHECK(snap(src) == before, "source-changed", "generate changed its source"); c.count("dim" + std::to_string(d));
}
// measures by fans around the mean point
static P3 mean(const std::vector<P3> &x) { P3 c{{0, 0, 0}}; for (auto &p : x) for (int d = 0; d < 3; d++) c[d] += p[d] / x.size(); return c; }
static std::vector<P3> pts(const Mesh &m, const IV &v) { std::vector<P3> o; for (auto i : v) o.push_back(m.x[i]); return o; }
static double area_fan(const Mesh &m, const IV &f) { auto p = pts(m, f); P3 c = mean(p); double s = 0; for (size_t i = 0; i < p.size(); i++) { P3 a = cross(sub(p[i], c), sub(p[(i + 1) % p.size()], c)); s += 0.5 * std::sqrt(dot(a, a)); } return s; }
static double vol_fan(const Mesh &m, const Elem &e, const P3 &c) { double s = 0; for (auto &f : elem_faces(e)) { auto p = pts(m, f); P3 fc = mean(p); for (size_t i = 0; i < p.size(); i++) s += std::fabs(dot(sub(fc, c), cross(sub(p[i], c), sub(p[(i + 1) % p.size()], c)))) / 6; } return s; }
static double measure(const Mesh &m, const Elem &e) { if (m.tdim == 2) return area_fan(m, e.v); return vol_fan(m, e, mean(pts(m, e.v))); }
FAMILY_LEAK("C32", "decompose", 2000, 40000) {
  Rng &r = c.rng; MOpts o; o.implicit = false; o.points = false; o.mixed = false; o.wedges = false; o.low_dim = r.chance(0.1); Mesh m = gen_unstructured(r, o); if (m.tdim < 2 || m.dim != m.tdim) return; if (m.shape == "polyhedral" && r.chance(0.3)) return;
  Node src; Arena ar; realize_mesh(r, m, src, ar, o); Node &tp = src["topologies/topo"]; c.tr(desc(m)); c.tr(src.to_json()); c.seen(mhash(m)); Val before = snap(src);
  Node out, s2dn, d2sn; Node &cd = out["coordsets/c2"], &td = out["topologies/t2"]; int what = (int)r.below(3); c.tr("decompose ", what); std::vector<P3> cen; for (auto &e : m.e) cen.push_back(mean(pts(m, e.v)));
  if (what == 0) {
    bm::topology::unstructured::generate_centroids(tp, td, cd, s2dn, d2sn); VCHECK(verify_err(out).empty(), "centroid-verify", verify_err(out)); Mesh q = reread(out, "t2", c, "centroid-read"); VCHECK(q.e.size() == m.e.size() && q.x.size() == m.e.size(), "centroid-count", q.e.size());
    for (size_t i = 0; i < m.e.size(); i++) { VCHECK(q.e[i].v == IV{(int64_t)i}, "centroid", "element ", i); VCHECK(near(q.x[i], cen[i], 1e-4), "centroid", "centroid ", i, " at ", q.x[i][0], ",", q.x[i][1], ",", q.x[i][2], " want ", cen[i][0], ",", cen[i][1], ",", cen[i][2]); }
    // these maps are lists of (1, id)
    IV w; for (size_t i = 0; i < m.e.size(); i++) { w.push_back(1); w.push_back(i); } VCHECK(ints(s2dn) == w && ints(d2sn) == w, "centroid-map", s2dn.to_json().substr(0, 200)); c.count("centroids");
  } else {
    if (what == 1) bm::topology::unstructured::generate_sides(tp, td, cd, s2dn, d2sn); else bm::topology::unstructured::generate_corners(tp, td, cd, s2dn, d2sn);
    const char *nm = what == 1 ? "sides" : "corners"; VCHECK(verify_err(out).empty(), nm, verify_err(out)); Mesh q = reread(out, "t2", c, nm); auto s2d = omap(s2dn, c), d2s = omap(d2sn, c); check_maps(s2d, d2s, m.e.size(), q.e.size(), c);
    for (auto &k : d2s) VCHECK(k.size() == 1, nm, "a piece belongs to ", k.size(), " elements");
    for (size_t i = 0; i < m.e.size(); i++) {
      size_t n = 0; if (what == 1) { if (m.tdim == 2) n = m.e[i].v.size(); else for (auto &f : elem_faces(m.e[i])) n += f.size(); } else n = std::set<int64_t>(m.e[i].v.begin(), m.e[i].v.end()).size();
      VCHECK(s2d[i].size() == n, nm, "element ", i, " has ", s2d[i].size(), " pieces, want ", n);
      // sides: pieces fill the element (fan around the centroids)
      double tot = 0, want = m.tdim == 2 ? [&] { double s = 0; auto p = pts(m, m.e[i].v); for (size_t k = 0; k < p.size(); k++) { P3 a = cross(sub(p[k], cen[i]), sub(p[(k + 1) % p.size()], cen[i])); s += 0.5 * std::sqrt(dot(a, a)); } return s; }() : vol_fan(m, m.e[i], cen[i]);
      for (auto k : s2d[i]) { const Elem &e = q.e[k]; if (what == 1) { VCHECK(e.shape == (m.tdim == 2 ? "tri" : "tet"), nm, "shape ", e.shape); if (m.tdim == 2) { P3 a = cross(sub(q.x[e.v[1]], q.x[e.v[0]]), sub(q.x[e.v[2]], q.x[e.v[0]])); tot += 0.5 * std::sqrt(dot(a, a)); } else tot += std::fabs(dot(sub(q.x[e.v[1]], q.x[e.v[0]]), cross(sub(q.x[e.v[2]], q.x[e.v[0]]), sub(q.x[e.v[3]], q.x[e.v[0]])))) / 6; }
        else { // a corner of a 2D element is the quad vertex, edge middles, centroid; in 3D the same plus face centers
          bool hasv = false, hasc = false; for (auto v : e.v) { for (auto u : m.e[i].v) hasv |= near(q.x[v], m.x[u], 1e-4); hasc |= near(q.x[v], cen[i], 1e-4); } VCHECK(hasv && hasc, nm, "corner ", k, " lacks its vertex or its element's centroid");
          if (m.tdim == 2) { auto p = pts(q, e.v); VCHECK(p.size() == 4, nm, "corner with ", p.size(), " vertices"); double s = 0; for (int z = 0; z < 4; z++) s += p[z][0] * p[(z + 1) % 4][1] - p[(z + 1) % 4][0] * p[z][1]; tot += std::fabs(s) / 2; } } }
      if (what == 1 || m.tdim == 2) VCHECK(near(tot, want, 1e-4), nm, "pieces of element ", i, " measure ", tot, ", the element ", want);
    }
    // shared points appear once
    std::set<std::array<long, 3>> uniq; for (auto &p : q.x) { std::array<long, 3> k{{std::lround(p[0] * 1e4), std::lround(p[1] * 1e4), std::lround(p[2] * 1e4)}}; uniq.insert(k); }
    c.count(nm);
  }
  VCHECK(snap(src) == before, "source-changed", "decomposition changed its source");
}
FAMILY_LEAK("C32", "side_fields", 1200, 25000) {
  Rng &r = c.rng; MOpts o; o.implicit = false; o.points = false; o.mixed = false; o.wedges = false; o.low_dim = false; Mesh m = gen_unstructured(r, o); if (m.tdim < 2 || m.dim != m.tdim) return;
  Node src; Arena ar; realize_mesh(r, m, src, ar, o); Node &tp = src["topologies/topo"]; src["topologies/other"] = tp;
  struct F { std::string name; bool vert, vol, lin; int dt; std::vector<double> v; bool other; }; std::vector<F> fs; int k = (int)r.range(1, 4);
  for (int i = 0; i < k; i++) { F f; f.name = std::string(1, "pqrs"[i]); f.vert = r.chance(0.4); f.vol = !f.vert && r.chance(0.4); f.lin = r.chance(0.6); f.other = r.chance(0.15);
    f.dt = r.pick(std::vector<int>{DataType::FLOAT64_ID, DataType::FLOAT32_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT32_ID, DataType::UINT64_ID}); if (f.vert && f.lin) f.dt = DataType::FLOAT64_ID;
    size_t n = f.vert ? m.x.size() : m.e.size(); for (size_t q = 0; q < n; q++) f.v.push_back(f.vert && f.lin ? 3 + 2 * m.x[q][0] - m.x[q][1] + 5 * m.x[q][2] : (double)r.range(1, 1000));
    Node &fn = src["fields"][f.name]; fn["association"] = f.vert ? "vertex" : "element"; fn["topology"] = f.other ? "other" : "topo"; if (f.vol) fn["volume_dependent"] = "true"; else if (r.chance(0.5)) fn["volume_dependent"] = "false"; put_array(r, fn["values"], f.v, f.dt, ar, o.num); fs.push_back(f); }
  Node opt; std::string pre; if (r.chance(0.4)) { pre = "p_"; opt["field_prefix"] = pre; } std::set<std::string> sel; bool bad = false;
  if (r.chance(0.4)) { for (auto &f : fs) if (r.chance(0.5)) sel.insert(f.name); if (sel.size() == 1 && r.chance(0.5)) opt["field_names"] = *sel.begin(); else for (auto &s : sel) opt["field_names"].append() = s; for (auto &f : fs) if (sel.count(f.name) && f.other) bad = true; if (!opt.has_child("field_names")) sel.clear(); }
  c.tr(desc(m)); c.tr(src.to_json()); c.tr(opt.to_json()); c.seen(mhash(m)); Val before = snap(src);
  Node out, s2dn, d2sn; Node &cd = out["coordsets/coords"], &td = out["topologies/topo"], &fd = out["fields"]; bool threw = false;
  try { if (opt.dtype().is_empty() && r.chance(0.5)) bm::topology::unstructured::generate_sides(tp, td, cd, fd, s2dn, d2sn); else bm::topology::unstructured::generate_sides(tp, td, cd, fd, s2dn, d2sn, opt); } catch (conduit::Error &e) { threw = true; VCHECK(bad, "side-fields", "refused: ", e.message()); }
  VCHECK(snap(src) == before, "source-changed", "generate_sides changed its source");
  if (bad) { VCHECK(threw, "side-fields", "a selected field of another topology was accepted"); c.count("refused"); return; }
  VCHECK(verify_err(out).empty(), "side-fields", verify_err(out)); Mesh q = reread(out, "topo", c, "side-fields"); auto d2s = omap(d2sn, c), s2d = omap(s2dn, c);
  auto meas = [&](size_t i) { const Elem &e = q.e[i]; if (m.tdim == 2) return 0.5 * ((q.x[e.v[1]][0] - q.x[e.v[0]][0]) * (q.x[e.v[2]][1] - q.x[e.v[0]][1]) - (q.x[e.v[2]][0] - q.x[e.v[0]][0]) * (q.x[e.v[1]][1] - q.x[e.v[0]][1])); return std::fabs(dot(sub(q.x[e.v[1]], q.x[e.v[0]]), cross(sub(q.x[e.v[2]], q.x[e.v[0]]), sub(q.x[e.v[3]], q.x[e.v[0]]))))/ 6; };
  std::vector<double> tot(m.e.size(), 0); for (size_t i = 0; i < q.e.size(); i++) tot[d2s[i][0]] += meas(i);
  std::set<std::string> want = {pre + "original_element_ids", pre + "original_vertex_ids"}; bool anyvol = false;
  for (auto &f : fs) { if (f.other || (!sel.empty() && !sel.count(f.name))) continue; want.insert(pre + f.name); if (f.vol) { want.insert(pre + "volume"); anyvol = true; } }
  std::set<std::string> got; for (auto &s : fd.child_names()) got.insert(s); VCHECK(got == want, "side-fields", "fields ", fd.schema().to_json().substr(0, 500));
  IV oe = ints(fd[pre + "original_element_ids/values"]), ov = ints(fd[pre + "original_vertex_ids/values"]); VCHECK(oe.size() == q.e.size() && ov.size() == q.x.size(), "side-ids", "sizes");
  for (size_t i = 0; i < q.e.size(); i++) VCHECK(d2s[i].size() == 1 && oe[i] == d2s[i][0], "side-ids", "element ", i);
  for (size_t i = 0; i < q.x.size(); i++) { VCHECK(ov[i] == (i < m.x.size() ? (int64_t)i : -1), "side-ids", "vertex ", i); if (ov[i] >= 0) VCHECK(near(q.x[i], m.x[i], 1e-6), "side-ids", "point ", i, " moved"); }
  if (anyvol) { auto vv = nums(fd[pre + "volume/values"]); for (size_t i = 0; i < q.e.size(); i++) VCHECK(near(vv[i], meas(i), 1e-4), "side-volume", "side ", i, " volume ", vv[i], " want ", meas(i)); }
  for (auto &f : fs) { if (f.other || (!sel.empty() && !sel.count(f.name))) continue; const Node &fn = fd[pre + f.name]; auto v = nums(fn["values"]); VCHECK(v.size() == (f.vert ? q.x.size() : q.e.size()), "side-values", f.name, " has ", v.size(), " values");
    VCHECK(fn["association"].as_string() == (f.vert ? "vertex" : "element"), "side-values", "association"); if (!f.vert && !f.vol) VCHECK(fn["values"].dtype().id() == f.dt, "side-values", "type changed to ", fn["values"].dtype().name());
    if (!f.vert) { std::vector<double> sum(m.e.size(), 0); for (size_t i = 0; i < q.e.size(); i++) { double w = f.v[d2s[i][0]]; if (f.vol) w *= meas(i) / tot[d2s[i][0]]; sum[d2s[i][0]] += v[i]; VCHECK(near(v[i], w, 1e-3 * (1 + std::fabs(w))), "side-values", f.name, "[", i, "] = ", v[i], " want ", w); } if (f.vol) for (size_t i = 0; i < m.e.size(); i++) VCHECK(near(sum[i], f.v[i], 1e-6 * (1 + f.v[i])), "side-conserve", f.name, " of element ", i, " sums to ", sum[i], " want ", f.v[i]); c.count(f.vol ? "volume_fields" : "element_fields"); continue; }
    std::vector<std::set<int64_t>> nb(q.x.size()); for (auto &e : q.e) for (auto a : e.v) for (auto b : e.v) if (a >= (int64_t)m.x.size() && b < (int64_t)m.x.size()) nb[a].insert(b);
    for (size_t i = 0; i < q.x.size(); i++) { double w = 0; if (i < m.x.size()) w = f.v[i]; else { for (auto b : nb[i]) w += f.v[b] / nb[i].size(); if (f.lin && m.shape != "polyhedral") VCHECK(near(v[i], 3 + 2 * q.x[i][0] - q.x[i][1] + 5 * q.x[i][2], 1e-4), "side-linear", "a linear field is not linear at new point ", i); } VCHECK(near(v[i], w, 1e-6 * (1 + std::fabs(w))), "side-values", f.name, "[", i, "] = ", v[i], " want ", w); } c.count("vertex_fields"); }
}
