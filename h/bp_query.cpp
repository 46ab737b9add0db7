// C40: point and entity queries, reordering, slicing and the measures of coordsets and topologies.
#include "bp_dom.hpp"
#include "conduit_blueprint_mesh_utils.hpp"
using namespace bg;
namespace U = conduit::blueprint::mesh::utils;
static bool same(const Val &a, const Val &b) { return a == b; }
static const std::vector<std::string> XYZ = {"x", "y", "z"};
static std::vector<index_t> perm(Rng &r, size_t n) { std::vector<index_t> o(n); for (size_t i = 0; i < n; i++) o[i] = (index_t)i; for (size_t i = n; i > 1; i--) std::swap(o[i - 1], o[r.below(i)]); return o; }
static bool is_perm(const std::vector<index_t> &o, size_t n) { if (o.size() != n) return false; std::vector<char> s(n, 0); for (auto q : o) { if (q < 0 || q >= (index_t)n || s[q]) return false; s[q] = 1; } return true; }
// ---------------------------------------------------------------- points
struct Cloud { int dim; bool f32, same; std::vector<P3> x; double big = 0; };
static double rnd(double v, bool f32) { return f32 ? (double)(float)v : v; }
static Cloud gen_cloud(Rng &r, Node &cs, Arena &ar, bool large) {
  Cloud q; q.dim = (int)r.range(large ? 2 : 1, 3); q.f32 = r.chance(0.4); q.same = r.chance(large ? 0.95 : 0.8); NumOpts no; size_t n;
  double off[3], sc[3]; for (int d = 0; d < 3; d++) { off[d] = r.pick(std::vector<double>{0, 0, -1, 1, -50, 1000, -100000, 1e7}); if (q.f32 && std::fabs(off[d]) > 1e5) off[d] = 1000; sc[d] = r.pick(std::vector<double>{1, 1, 0.1, 0.25, 8, 0}); }
  std::string ty = large ? "explicit" : r.pick(std::vector<std::string>{"explicit", "explicit", "explicit", "uniform", "rectilinear"});
  if (r.chance(0.6) || ty != "explicit") { // a lattice: points lie on the planes that halve it
    int64_t k[3] = {1, 1, 1}; if (large) { if (q.dim == 2) { k[0] = r.range(120, 140); k[1] = (15624 / k[0]) + r.range(1, 4); } else { k[0] = r.range(22, 30); k[1] = r.range(22, 28); k[2] = 15624 / (k[0] * k[1]) + r.range(1, 2); } } else for (int d = 0; d < q.dim; d++) k[d] = r.range(1, 6);
    std::vector<double> a[3]; for (int d = 0; d < 3; d++) { if (ty == "uniform" && sc[d] == 0) sc[d] = 0.5; for (int64_t i = 0; i < k[d]; i++) a[d].push_back(ty == "rectilinear" ? (i ? a[d].back() : off[d]) + r.range(1, 8) / 8.0 : ty == "uniform" ? off[d] + i * sc[d] : off[d] + i * sc[d]); if (ty == "rectilinear") for (auto &v : a[d]) v = rnd(v, q.f32); }
    for (auto z : a[2]) for (auto y : a[1]) for (auto x : a[0]) q.x.push_back(P3{{x, q.dim > 1 ? y : 0, q.dim > 2 ? z : 0}});
    if (ty == "explicit") { for (auto &p : q.x) for (auto &v : p) v = rnd(v, q.f32); if (r.chance(0.4)) { auto o = perm(r, q.x.size()); auto c = q.x; for (size_t i = 0; i < o.size(); i++) q.x[i] = c[o[i]]; } }
    cs["type"] = ty; if (ty == "uniform") { for (int d = 0; d < q.dim; d++) { cs["dims"][std::string(1, "ijk"[d])] = (int64)k[d]; cs["origin"][XYZ[d]] = off[d]; cs["spacing"]["d" + XYZ[d]] = sc[d]; } q.f32 = false; }
    if (ty == "rectilinear") for (int d = 0; d < q.dim; d++) put_array(r, cs["values"][XYZ[d]], a[d], q.f32 ? DataType::FLOAT32_ID : DataType::FLOAT64_ID, ar, no);
    n = q.x.size();
  } else { n = large ? 15625 + r.below(300) - 3 : r.below(40) + 1; bool clus = r.chance(0.3); for (size_t i = 0; i < n; i++) { P3 p{{0, 0, 0}}; for (int d = 0; d < q.dim; d++) p[d] = rnd(off[d] + sc[d] * (clus ? std::pow(r.unit(), 6) * 100 : r.unit() * 10), q.f32); q.x.push_back(p); } if (r.chance(0.3)) for (int k = 0; k < 5; k++) q.x[r.below(n)] = q.x[r.below(n)]; }
  if (cs.dtype().is_empty()) cs["type"] = "explicit";
  if (cs["type"].as_string() == "explicit") { std::vector<std::vector<double>> v(q.dim); for (int d = 0; d < q.dim; d++) for (auto &p : q.x) v[d].push_back(p[d]); std::vector<std::string> ax(XYZ.begin(), XYZ.begin() + q.dim); int dt = q.f32 ? DataType::FLOAT32_ID : DataType::FLOAT64_ID; if (q.same) put_comps(r, cs["values"], ax, v, dt, ar, no); else for (int d = 0; d < q.dim; d++) put_array(r, cs["values"][ax[d]], v[d], d == 0 ? DataType::FLOAT64_ID : dt, ar, no); }
  for (auto &p : q.x) for (auto v : p) q.big = std::max(q.big, std::fabs(v));
  return q;
}
static void point_query(Ctx &c, bool large) {
  Rng &r = c.rng; Node mesh; Arena ar; int nd = large ? 1 : (int)r.range(1, 3); std::vector<Cloud> cl; std::vector<int> id; bool multi = nd > 1 || r.chance(0.3);
  for (int d = 0; d < nd; d++) { id.push_back(r.chance(0.5) ? d : d * 5 + 3); Node &dm = multi ? mesh["d" + std::to_string(d)] : mesh; dm["state/domain_id"] = id[d]; cl.push_back(gen_cloud(r, dm["coordsets/cc"], ar, large)); dm["topologies/t/type"] = "points"; dm["topologies/t/coordset"] = "cc"; c.seen(mix64(hash_str(dm["coordsets/cc/type"].as_string()) + cl[d].x.size() * 8 + cl[d].dim * 2 + cl[d].f32)); }
  if (nd > 1 && r.chance(0.3)) { Node s; s.swap(mesh); for (index_t i = nd; i-- > 0;) mesh[s.child(i).name()].set_external(s.child(i)); Val before = snap(mesh); (void)before; Node keep; keep.set(mesh); mesh.reset(); mesh.set(keep); }
  Val before = snap(mesh); U::query::PointQuery Q(mesh); double tol = 1e-9; if (r.chance(0.4)) { tol = r.pick(std::vector<double>{1e-6, 1e-3, 1e-12, 0.02}); Q.setPointTolerance(tol); } c.tr("tolerance " + std::to_string(tol) + (large ? " large" : ""));
  int rounds = r.chance(0.2) ? 2 : 1;
  while (rounds--) {
    std::vector<std::vector<P3>> ask(nd); size_t nq = r.range(1, large ? 60 : 30);
    for (size_t k = 0; k < nq; k++) { int d = (int)r.below(nd); Cloud &q = cl[d]; P3 p = q.x[r.below(q.x.size())]; if (nd > 1 && r.chance(0.3)) { int d2 = (int)r.below(nd); p = cl[d2].x[r.below(cl[d2].x.size())]; for (int a = q.dim; a < 3; a++) p[a] = 0; }
      int kind = (int)r.below(6); double len = kind == 1 || kind == 5 ? 0.9 * tol : kind == 2 ? 1.2 * tol : 0; if (kind == 1 || kind == 2) { int a = (int)r.below(q.dim); p[a] += r.chance(0.5) ? len : -len; } if (kind == 5) for (int a = 0; a < q.dim; a++) p[a] += (r.chance(0.5) ? len : -len) / 2; if (kind == 3) for (int a = 0; a < q.dim; a++) p[a] += (r.unit() - 0.5) * 3; if (kind == 4 && r.chance(0.3)) p[r.below(q.dim)] = r.pick(std::vector<double>{1e9, -1e9, 0});
      if (r.chance(0.1)) for (int a = q.dim; a < 3; a++) p[a] = 7; // coordinates the coordset does not have
      double b[3] = {p[0], p[1], p[2]}; index_t ix = Q.add(id[d], b); VCHECK(ix == (index_t)ask[d].size(), "add", "query " + std::to_string(ask[d].size()) + " of domain " + std::to_string(id[d]) + " got index " + std::to_string(ix)); ask[d].push_back(p); }
    Q.execute("cc"); std::vector<int> want; for (int d = 0; d < nd; d++) if (!ask[d].empty()) want.push_back(id[d]); std::sort(want.begin(), want.end()); VCHECK(Q.queryDomainIds() == want, "domains", "queryDomainIds lists other domains than were asked");
    for (int d = 0; d < nd; d++) { if (ask[d].empty()) continue; Cloud &q = cl[d]; auto &res = Q.results(id[d]); auto &in = Q.inputs(id[d]); VCHECK(res.size() == ask[d].size() && in.size() == 3 * res.size(), "size", std::to_string(res.size()) + " results for " + std::to_string(ask[d].size()) + " questions");
      for (size_t k = 0; k < res.size(); k++) { P3 p = ask[d][k]; double mag = q.big; for (int a = 0; a < q.dim; a++) mag = std::max(mag, std::fabs(p[a])); double eps = (q.f32 ? 2.5e-7 : 1e-15) * mag + (q.f32 ? 1e-4 : 1e-6) * tol; auto dist = [&](size_t i) { double s = 0; for (int a = 0; a < q.dim; a++) s += (q.x[i][a] - p[a]) * (q.x[i][a] - p[a]); return std::sqrt(s); };
        size_t best = 0; double bd = 1e300; for (size_t i = 0; i < q.x.size(); i++) { double t = dist(i); if (t < bd) { bd = t; best = i; } } std::ostringstream m; m.precision(17); m << "point " << p[0] << " " << p[1] << " " << p[2] << " dim " << q.dim << " of " << q.x.size() << (q.f32 ? " float" : " double") << ", nearest " << best << " at " << bd << ", answer " << res[k] << ", tolerance " << tol;
        bool exact = bd == 0; if (res[k] == U::query::PointQuery::NotFound) { VCHECK(!exact && bd >= tol - eps, "missed", m.str()); c.count("points_absent"); } else { VCHECK(res[k] >= 0 && res[k] < (int)q.x.size() && dist(res[k]) <= tol + eps, "wrong point", m.str()); c.count(exact ? "points_found_exactly" : "points_found_nearby"); } } }
    if (rounds) { Q.reset(); VCHECK(Q.queryDomainIds().empty(), "reset", "domains left after reset"); }
  }
  VCHECK(same(before, snap(mesh)), "input", "the mesh changed");
}
FAMILY_LEAK("C40", "points", 3000, 60000) { point_query(c, false); }
FAMILY_LEAK("C40", "many_points", 60, 1500) { point_query(c, true); }
// ---------------------------------------------------------------- measures
FAMILY_LEAK("C40", "measures", 2500, 50000) {
  Rng &r = c.rng; Node dom; Arena ar; MOpts o; Mesh m = gen_mesh(r, o); realize_mesh(r, m, dom, ar, o); c.tr(desc(m)); c.seen(mhash(m)); Val before = snap(dom); const Node &cs = dom["coordsets/coords"], &t = dom["topologies/topo"];
  VCHECK(U::coordset::dims(cs) == m.dim && blueprint::mesh::coordset::dims(cs) == m.dim, "coordset dims", std::to_string(U::coordset::dims(cs)) + " for " + std::to_string(m.dim));
  VCHECK(U::coordset::length(cs) == (index_t)m.x.size() && blueprint::mesh::coordset::length(cs) == (index_t)m.x.size(), "coordset length", std::to_string(U::coordset::length(cs)) + " for " + std::to_string(m.x.size()));
  VCHECK(U::coordset::axes(cs) == m.axes, "axes", "other axes");
  auto ext = U::coordset::extents(cs); VCHECK(ext.size() == 2 * (size_t)m.dim, "extents", "size " + std::to_string(ext.size())); for (int d = 0; d < m.dim; d++) { double lo = 1e300, hi = -1e300; for (auto &p : m.x) { lo = std::min(lo, p[d]); hi = std::max(hi, p[d]); } VCHECK(near(ext[2 * d], lo, 1e-6) && near(ext[2 * d + 1], hi, 1e-6), "extents", "axis " + std::to_string(d) + ": " + std::to_string(ext[2 * d]) + ".." + std::to_string(ext[2 * d + 1]) + " for " + std::to_string(lo) + ".." + std::to_string(hi)); }
  VCHECK(U::topology::length(t) == (index_t)m.e.size() && blueprint::mesh::topology::length(t) == (index_t)m.e.size(), "topology length", std::to_string(U::topology::length(t)) + " for " + std::to_string(m.e.size()));
  if (m.shape != "mixed" && m.ttype != "points") VCHECK(U::topology::dims(t) == m.tdim && blueprint::mesh::topology::dims(t) == m.tdim, "topology dims", std::to_string(U::topology::dims(t)) + " for " + std::to_string(m.tdim));
  VCHECK(&U::topology::coordset(t) == &cs, "coordset", "another coordset");
  index_t ld[3] = {1, 1, 1}; U::coordset::logical_dims(cs, ld, 3); if (m.ctype != "explicit") { for (int d = 0; d < m.dim; d++) VCHECK(ld[d] == m.n[d] + 1, "logical dims", "axis " + std::to_string(d) + ": " + std::to_string(ld[d])); } else VCHECK(ld[0] == (index_t)m.x.size(), "logical dims", std::to_string(ld[0]));
  if (m.ttype != "unstructured" && m.ttype != "points") { index_t te[3] = {0, 0, 0}; U::topology::logical_dims(t, te, 3); for (int d = 0; d < m.dim; d++) VCHECK(te[d] == m.n[d], "topology logical dims", "axis " + std::to_string(d) + ": " + std::to_string(te[d])); }
  if (m.ctype == "explicit") { size_t i = r.below(m.x.size()); auto p = U::coordset::_explicit::coords(cs, i); VCHECK(p.size() == (size_t)m.dim, "coords", "size"); for (int d = 0; d < m.dim; d++) VCHECK(near(p[d], m.x[i][d], 1e-6), "coords", "point " + std::to_string(i)); }
  if (m.ttype == "unstructured" && m.shape != "mixed") for (size_t k = 0; k < m.e.size(); k++) { auto p = U::topology::unstructured::points(t, k); IV a(p.begin(), p.end()), b = sorted(m.e[k].v); b.erase(std::unique(b.begin(), b.end()), b.end()); VCHECK(a == b, "points", "element " + std::to_string(k)); if (m.shape != "polyhedral") { auto q = U::topology::unstructured::points(t, k, false); IV a2(q.begin(), q.end()); VCHECK(a2 == m.e[k].v, "points", "order of element " + std::to_string(k)); } }
  VCHECK(same(before, snap(dom)), "input", "the mesh changed");
}
// ---------------------------------------------------------------- order
FAMILY_LEAK("C40", "orders", 2000, 40000) {
  Rng &r = c.rng; Node dom; Arena ar; MOpts o; o.implicit = false; o.points = false; o.mixed = false; if (r.chance(0.1)) o.max_n = 8; Mesh m = gen_mesh(r, o); realize_mesh(r, m, dom, ar, o); c.tr(desc(m)); c.seen(mhash(m)); Val before = snap(dom); const Node &t = dom["topologies/topo"];
  auto s = U::topology::spatial_ordering(t), h = U::topology::hilbert_ordering(t);
  VCHECK(is_perm(s, m.e.size()), "spatial", "spatial_ordering is no order of the " + std::to_string(m.e.size()) + " elements: " + std::to_string(s.size()));
  VCHECK(is_perm(h, m.e.size()), "hilbert", "hilbert_ordering is no order of the " + std::to_string(m.e.size()) + " elements");
  VCHECK(s == U::topology::spatial_ordering(t) && h == U::topology::hilbert_ordering(t), "repeat", "a second call gives another order"); VCHECK(same(before, snap(dom)), "input", "the mesh changed");
}
FAMILY_LEAK("C40", "reorder", 3000, 60000) {
  Rng &r = c.rng; Node dom; Arena ar; MOpts o; o.implicit = false; o.points = false; o.mixed = false; Mesh m; do m = gen_mesh(r, o); while (m.shape == "polyhedral"); realize_mesh(r, m, dom, ar, o); Node &t = dom["topologies/topo"]; auto fs = gen_fields(r, m, dom, ar, o);
  if (!t["elements"].has_child("sizes")) { IV sz, of; int64_t at = 0; for (auto &e : m.e) { sz.push_back(e.v.size()); of.push_back(at); at += e.v.size(); } int dt = r.pick(o.num.idts); put_array(r, t["elements/sizes"], sz, dt, ar, o.num); put_array(r, t["elements/offsets"], of, dt, ar, o.num); }
  Node other; other["association"] = "element"; other["topology"] = "elsewhere"; other["values"].set(std::vector<int32>{1, 2, 3}); if (r.chance(0.3)) dom["fields/zother"].set(other);
  auto ord = perm(r, m.e.size()); int how = (int)r.below(4); if (how == 1) ord.resize(r.range(1, (int64_t)ord.size())); if (how == 2) ord = U::topology::hilbert_ordering(t); c.tr(desc(m) + " order " + std::to_string(how)); c.seen(mhash(m));
  Val before = snap(dom); Node out; bool inplace = r.chance(0.3); if (inplace) { Node k; if (r.chance(0.5)) { k.set(dom); out.set(k); } else { dom.compact_to(out); } } Node &dt = out["topologies/topo"], &dc = out["coordsets/coords"], &df = out["fields"]; std::vector<index_t> o2n; if (r.chance(0.2)) o2n.assign(3, 5);
  if (inplace) U::topology::unstructured::reorder(dt, dc, df, ord, dt, dc, df, o2n); else U::topology::unstructured::reorder(t, dom["coordsets/coords"], dom["fields"], ord, dt, dc, df, o2n);
  if (!inplace) VCHECK(same(before, snap(dom)), "input", "the mesh changed"); Node k2; k2.set(out); if (k2["fields"].has_child("zother")) k2["fields"].remove("zother"); std::string ve = verify_err(k2); VCHECK(ve.empty(), "verify", ve);
  Mesh g = read_topo(out, "topo"); VCHECK(g.e.size() == ord.size(), "count", std::to_string(g.e.size()) + " elements for " + std::to_string(ord.size())); VCHECK(g.shape == m.shape, "shape", g.shape); VCHECK(o2n.size() == m.x.size(), "map size", std::to_string(o2n.size()));
  std::vector<int64_t> n2o(g.x.size(), -1); for (size_t i = 0; i < o2n.size(); i++) { if (o2n[i] < 0) continue; VCHECK(o2n[i] < (index_t)g.x.size() && n2o[o2n[i]] < 0, "map", "point " + std::to_string(i) + " goes to " + std::to_string(o2n[i])); n2o[o2n[i]] = i; VCHECK(near(m.x[i], g.x[o2n[i]], 1e-6), "coordinates", "point " + std::to_string(i) + " moved"); }
  int64_t next = 0; for (size_t i = 0; i < ord.size(); i++) { auto &a = m.e[ord[i]].v, &b = g.e[i].v; VCHECK(a.size() == b.size(), "element size", "element " + std::to_string(i)); for (size_t q = 0; q < a.size(); q++) { VCHECK(o2n[a[q]] == b[q], "connectivity", "element " + std::to_string(i)); VCHECK(b[q] <= next, "first use", "points are not numbered in their order of use"); if (b[q] == next) next++; } } VCHECK(next == (int64_t)g.x.size(), "points", "points no element uses");
  for (auto &f : fs) { VCHECK(df.has_child(f.name), "field", f.name + " missing"); const Node &v = df[f.name]["values"]; VCHECK(df[f.name]["association"].as_string() == f.assoc && df[f.name]["topology"].as_string() == "topo", "field", f.name + " attributes");
    for (size_t k = 0; k < f.v.size(); k++) { const Node &cv = f.comps.empty() ? v : v[f.comps[k]]; VCHECK(cv.dtype().id() == f.dt, "field type", f.name); auto g2 = nums(cv); size_t n = f.assoc == "element" ? ord.size() : g.x.size(); VCHECK(g2.size() == n, "field size", f.name); for (size_t i = 0; i < n; i++) VCHECK(g2[i] == f.v[k][f.assoc == "element" ? ord[i] : n2o[i]], "field value", f.name + " at " + std::to_string(i)); } }
  if (df.has_child("zother")) { VCHECK(inplace && same(snap(other), snap(df["zother"])), "other field", "a field of another topology was touched"); } c.count(inplace ? "reordered_in_place" : "reordered");
}
// ---------------------------------------------------------------- slices
FAMILY_LEAK("C40", "slices", 3000, 60000) {
  Rng &r = c.rng; Arena ar; NumOpts no; size_t n = r.range(1, 30); int dt = r.pick(std::vector<int>{DataType::INT8_ID, DataType::INT16_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID, DataType::UINT16_ID, DataType::UINT32_ID, DataType::UINT64_ID, DataType::FLOAT32_ID, DataType::FLOAT64_ID}); Node s, d; int nc = (int)r.below(4); std::vector<std::vector<double>> v; std::vector<std::string> nm;
  for (int k = 0; k < std::max(nc, 1); k++) { v.emplace_back(); nm.push_back(std::string(1, "uvw"[k])); for (size_t i = 0; i < n; i++) v[k].push_back((double)((i * 3 + k * 31) % 120)); } if (nc) put_comps(r, s, nm, v, dt, ar, no); else put_array(r, s, v[0], dt, ar, no);
  std::vector<index_t> ids; size_t k = r.below(20); for (size_t i = 0; i < k; i++) ids.push_back((index_t)r.below(n)); std::vector<int> ids32(ids.begin(), ids.end()); bool self = r.chance(0.25), wide = r.chance(0.5); if (r.chance(0.3)) { d = "old text"; } if (r.chance(0.3) && nc) { d.reset(); d["u"] = "x"; } c.tr(s.to_json()); c.seen(mix64(dt * 64 + nc * 512 + n * 4096 + k));
  if (nc && r.chance(0.3) && !self) d.reset(); Val before = snap(s); Node &out = self ? s : d; if (nc && out.dtype().is_string()) out.reset(); if (nc || r.chance(0.5)) { if (wide) U::slice_field(s, ids, out); else U::slice_field(s, ids32, out); } else { if (wide) U::slice_array(s, ids, out); else U::slice_array(s, ids32, out); }
  if (!self) VCHECK(same(before, snap(s)), "input", "the source changed"); for (size_t q = 0; q < v.size(); q++) { const Node &g = nc ? out[nm[q]] : out; VCHECK(g.dtype().id() == dt, "type", g.dtype().name()); auto w = nums(g); VCHECK(w.size() == k, "size", std::to_string(w.size())); for (size_t i = 0; i < k; i++) VCHECK(w[i] == v[q][ids[i]], "value", "entry " + std::to_string(i)); }
}
// ---------------------------------------------------------------- entities
struct Ents { std::vector<IV> v; };
static std::set<K3> keyset(const Mesh &m, const IV &v) { std::set<K3> s; for (auto q : v) s.insert(key(m.x[q])); return s; }
FAMILY_LEAK("C40", "entities", 2500, 50000) {
  Rng &r = c.rng; Arena ar; MOpts o; o.points = false; o.mixed = false; o.implicit = false; o.num.fdts = {DataType::FLOAT64_ID}; o.dim = (int)r.range(1, 3); o.low_dim = false; int nd = (int)r.range(1, 3); auto ds = gen_domains(r, o, nd, r.chance(0.3)); for (auto &d : ds) { if (d.m.ctype != "explicit") d.m.ctype = "explicit"; if (d.m.ttype != "unstructured") { d.m.ttype = "unstructured"; d.m.shape = d.m.dim == 1 ? "line" : d.m.dim == 2 ? "quad" : "hex"; d.m.tdim = d.m.dim; } }
  Node mesh; std::vector<int> id; for (size_t i = 0; i < ds.size(); i++) { Node &dm = mesh["d" + std::to_string(i)]; realize_mesh(r, ds[i].m, dm, ar, o); dm["state/domain_id"] = (int64)ds[i].id; id.push_back((int)ds[i].id); c.tr(desc(ds[i].m)); c.seen(mhash(ds[i].m)); }
  Val before = snap(mesh); // builder
  auto pickents = [&](const Mesh &m, size_t most) { std::vector<IV> o2; std::vector<IV> all; for (auto &e : m.e) for (auto &f : elem_faces(e)) all.push_back(f); size_t k = r.range(1, (int64_t)most); for (size_t i = 0; i < k && !all.empty(); i++) { IV f = all[r.below(all.size())]; if (r.chance(0.4)) { size_t s = r.below(f.size()); std::rotate(f.begin(), f.begin() + s, f.end()); } if (r.chance(0.3)) std::reverse(f.begin(), f.end()); if (r.chance(0.1)) f[r.below(f.size())] = (int64_t)r.below(m.x.size()); o2.push_back(f); } return o2; };
  size_t a = r.below(ds.size()), b = r.below(ds.size()); Mesh &A = ds[a].m, &B = ds[b].m; auto ea = pickents(A, 30), eb = pickents(B, 30); std::string shape = A.dim == 1 ? "point" : A.dim == 2 ? "line" : "polygonal"; Node na, nb;
  auto build = [&](const Mesh &m, const Node &topo, std::vector<IV> &ents, Node &out) { U::topology::TopologyBuilder tb(topo); for (int pass = 0; pass < (r.chance(0.2) ? 2 : 1); pass++) { for (size_t i = 0; i < ents.size(); i++) { std::vector<index_t> v(ents[i].begin(), ents[i].end()); size_t q = r.chance(0.5) ? tb.add(v) : tb.add(v.data(), (index_t)v.size()); VCHECK(q == i, "add", "entity " + std::to_string(i) + " got id " + std::to_string(q)); } tb.execute(out, shape); }
    auto rel = out["topologies/topo/elements"].has_child("sizes") ? read_o2m(out["topologies/topo/elements"], "connectivity", true) : std::vector<IV>(); VCHECK(rel.size() == ents.size(), "entities", std::to_string(rel.size()) + " built for " + std::to_string(ents.size())); Mesh g; g.dim = m.dim; read_coords(out["coordsets/coords"], g); std::set<int64_t> used; for (auto &e : ents) used.insert(e.begin(), e.end()); VCHECK(g.x.size() == used.size(), "built points", std::to_string(g.x.size()) + " points for " + std::to_string(used.size()));
    for (size_t i = 0; i < rel.size(); i++) { VCHECK(rel[i].size() == ents[i].size(), "entity size", std::to_string(i)); for (size_t k = 0; k < rel[i].size(); k++) VCHECK(near(g.x.at(rel[i][k]), m.x[ents[i][k]], 1e-12), "entity point", "entity " + std::to_string(i)); } };
  build(A, mesh.child(a)["topologies/topo"], ea, na); build(B, mesh.child(b)["topologies/topo"], eb, nb);
  auto dupkeys = [](const Mesh &m) { std::set<K3> s; for (auto &p : m.x) s.insert(key(p)); return s.size() != m.x.size(); };
  if (!dupkeys(A) && !dupkeys(B)) { auto ex = U::topology::search(na["topologies/topo"], nb["topologies/topo"]); VCHECK(ex.size() == eb.size(), "search", std::to_string(ex.size()) + " answers for " + std::to_string(eb.size())); std::multiset<std::multiset<K3>> S; for (auto &e : ea) { std::multiset<K3> s; for (auto q : e) s.insert(key(A.x[q])); S.insert(s); } for (size_t i = 0; i < eb.size(); i++) { std::multiset<K3> s; for (auto q : eb[i]) s.insert(key(B.x[q])); bool w = S.count(s) > 0; VCHECK(ex[i] == (w ? 1 : 0), "search", "entity " + std::to_string(i) + (w ? " exists but was not found" : " was found but does not exist")); c.count(w ? "entities_found" : "entities_absent"); } }
  // queries between domains
  if (ds.size() > 1) { bool dup = false; for (auto &d : ds) dup = dup || dupkeys(d.m); U::query::MatchQuery Q(mesh); if (r.chance(0.9)) Q.selectTopology("topo"); else Q.selectTopology("topo"); std::map<std::pair<int, int>, std::vector<std::pair<size_t, IV>>> ask; std::vector<std::pair<size_t, size_t>> prs; for (size_t i = 0; i < ds.size(); i++) for (size_t j = 0; j < ds.size(); j++) if (i != j && (i < j || true)) prs.push_back({i, j}); if (!dup) { for (auto &p : prs) { for (auto &f : pickents(ds[p.first].m, 40)) { std::vector<index_t> v(f.begin(), f.end()); size_t q = Q.add(id[p.first], id[p.second], v); auto &w = ask[{id[p.first], id[p.second]}]; VCHECK(q == w.size(), "match add", "entity got id " + std::to_string(q)); w.push_back({p.first, f}); } }
    Q.execute(); std::vector<std::pair<int, int>> ks; for (auto &q : ask) ks.push_back(q.first); VCHECK(Q.queryDomainIds() == ks, "match domains", "other pairs than were asked"); for (auto &q : ask) { auto &other = ask[{q.first.second, q.first.first}]; std::set<std::multiset<K3>> S; for (auto &e : other) { std::multiset<K3> s; for (auto p : e.second) s.insert(key(ds[e.first].m.x[p])); S.insert(s); } auto &res = Q.results(q.first.first, q.first.second); VCHECK(res.size() == q.second.size(), "match size", "results"); for (size_t i = 0; i < q.second.size(); i++) { std::multiset<K3> s; for (auto p : q.second[i].second) s.insert(key(ds[q.second[i].first].m.x[p])); bool w = S.count(s) > 0; VCHECK(Q.exists(q.first.first, q.first.second, i) == w && (res[i] > 0) == w, "match", "entity " + std::to_string(i)); c.count(w ? "matches" : "non_matches"); } } } }
  VCHECK(same(before, snap(mesh)), "input", "the mesh changed");
}
// ---------------------------------------------------------------- renumbering
FAMILY_LEAK("C40", "renumber", 2500, 50000) {
  Rng &r = c.rng; Arena ar; MOpts o; o.points = false; o.mixed = true; o.implicit = false; o.num.fdts = {DataType::FLOAT64_ID}; Mesh m = gen_mesh(r, o); Node dom; realize_mesh(r, m, dom, ar, o); c.tr(desc(m)); c.seen(mhash(m)); dom["state/domain_id"] = 3;
  // a coordset that holds the points in another order, with others among them
  auto p = perm(r, m.x.size()); Mesh big = m; big.x.clear(); std::vector<int64_t> to(m.x.size()); for (auto q : p) { while (r.chance(0.2)) big.x.push_back(P3{{r.range(1000, 2000) * 1.0, m.dim > 1 ? r.unit() : 0, m.dim > 2 ? r.unit() : 0}}); to[q] = (int64_t)big.x.size(); big.x.push_back(m.x[q]); }
  Node &bm = dom; Node &bc = bm["coordsets/big"]; bc["type"] = "explicit"; std::vector<std::vector<double>> v(m.dim); for (int d = 0; d < m.dim; d++) for (auto &q : big.x) v[d].push_back(q[d]); put_comps(r, bc["values"], m.axes, v, DataType::FLOAT64_ID, ar, o.num);
  auto check = [&](const Node &dm, const char *who) { Mesh g = read_topo(dm, "topo"); VCHECK(g.e.size() == m.e.size(), who, "element count"); VCHECK(dm["topologies/topo/coordset"].as_string() == "big", who, "coordset name"); for (size_t i = 0; i < m.e.size(); i++) { VCHECK(g.e[i].v.size() == m.e[i].v.size(), who, "size of element " + std::to_string(i)); if (m.shape == "polyhedral") { VCHECK(g.e[i].faces.size() == m.e[i].faces.size(), who, "faces"); for (size_t f = 0; f < m.e[i].faces.size(); f++) { IV w; for (auto q : m.e[i].faces[f]) w.push_back(to[q]); VCHECK(sorted(g.e[i].faces[f]) == sorted(w), who, "face of element " + std::to_string(i)); } } else for (size_t k = 0; k < m.e[i].v.size(); k++) VCHECK(g.e[i].v[k] == to[m.e[i].v[k]], who, "element " + std::to_string(i)); } };
  { Node od, gv; od["values"].set(std::vector<int64>()); std::vector<int64_t> oldg, newg; int64_t base = r.range(0, 1000), st = r.range(1, 3); for (size_t i = 0; i < big.x.size(); i++) newg.push_back(base + st * (int64_t)((i * 7919) % (big.x.size() * 7919 + 1))); for (size_t i = 0; i < m.x.size(); i++) oldg.push_back(newg[to[i]]); Node og, ng; int gt = r.pick(o.num.idts); put_array(r, og["values"], oldg, gt, ar, o.num); put_array(r, ng["values"], newg, gt, ar, o.num); Val before = snap(dom); Node out; out["coordsets/big"].set_external(bc); Node &ot = out["topologies/topo"]; bool self = r.chance(0.2); if (self) ot.set(dom["topologies/topo"]); U::topology::reindex_coords(self ? ot : dom["topologies/topo"], bc, og, ng, ot); VCHECK(same(before, snap(dom)), "input", "the mesh changed"); check(out, "reindex_coords"); }
  std::set<K3> s; for (auto &q : big.x) s.insert(key(q)); if (s.size() == big.x.size()) { dom.remove("state"); U::topology::unstructured::rewrite_connectivity(dom["topologies/topo"], bc); check(dom, "rewrite_connectivity"); c.count("rewritten"); }
}
