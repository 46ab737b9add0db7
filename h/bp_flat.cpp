// C37: multi-component arrays, nd-array indices; C38: tables of mesh data (flatten).
#include "bp_dom.hpp"
#include <conduit_blueprint_mcarray.hpp>
#include <conduit_blueprint_ndarray_index.hpp>
using namespace bg;
namespace bm = conduit::blueprint::mesh;
namespace mc = conduit::blueprint::mcarray;
static const std::vector<int> NUMIDS = {DataType::INT8_ID, DataType::INT16_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID, DataType::UINT16_ID, DataType::UINT32_ID, DataType::UINT64_ID, DataType::FLOAT32_ID, DataType::FLOAT64_ID};
FAMILY_LEAK("C37", "mcarray", 4000, 100000) {
  Rng &r = c.rng; Arena ar; Node n; int nc = (int)r.range(1, 5); size_t len = r.chance(0.1) ? 0 : (size_t)r.range(1, r.chance(0.1) ? 300 : 9); bool list = r.chance(0.2), same = r.chance(0.5); int dt0 = r.pick(NUMIDS); NumOpts no; std::vector<std::string> nm = {"x", "y", "z", "u/v", "comp 3"}; std::vector<Val> vals; std::vector<std::string> names;
  if (nm[3].find('/') != std::string::npos) nm[3] = "uv";
  if (same && !list && nc > 1 && len && r.chance(0.4)) { int es = esize(dt0); size_t pad = r.below(2) * es; size_t st = es * nc + pad; uint8_t *p = ar.get(st * len); for (size_t i = 0; i < st * len; i++) p[i] = (uint8_t)r.below(dt0 == DataType::FLOAT32_ID || dt0 == DataType::FLOAT64_ID ? 60 : 256); for (int k = 0; k < nc; k++) n[nm[k]].set_external(DataType(dt0, (index_t)len, k * es, (index_t)st, es, Endianness::DEFAULT_ID), p); c.count("interleaved_inputs"); }
  else for (int k = 0; k < nc; k++) { Node &t = list ? n.append() : n[nm[k]]; int dt = same ? dt0 : r.pick(NUMIDS); std::vector<double> v; for (size_t i = 0; i < len; i++) v.push_back((double)r.range(0, 100)); if (len == 0) t.set(DataType(dt, 0)); else put_array(r, t, v, dt, ar, no); }
  c.tr(n.schema().to_json(), n.to_json()); c.seen(mix64(hash_str(n.to_json() + n.schema().to_json()))); Node info; VCHECK(mc::verify(n, info), "verify", info.to_json()); Val before = snap(n); bool empty = len == 0;
  for (int round = 0; round < 3; round++) { bool inter = r.chance(0.5); Node d; if (r.chance(0.3)) d["junk"] = 1; bool ok = inter ? mc::to_interleaved(n, d) : mc::to_contiguous(n, d); VCHECK(ok, "convert", "conversion reports failure"); VCHECK(snap(n) == before, "source-changed", "conversion changed its input");
    Val got = snap(d); VCHECK(got == before, inter ? "interleaved-values" : "contiguous-values", "result differs: ", d.to_json().substr(0, 500), " ", d.schema().to_json().substr(0, 600)); info.reset(); VCHECK(mc::verify(d, info), "verify-result", info.to_json()); if (empty) continue;
    if (inter) { VCHECK(mc::is_interleaved(d), "is-interleaved", "to_interleaved result is not interleaved"); index_t st = 0; for (int k = 0; k < nc; k++) st += d[k].dtype().element_bytes(); index_t off = 0; for (int k = 0; k < nc; k++) { VCHECK(d[k].dtype().stride() == st && (uint8_t *)d[k].element_ptr(0) - (uint8_t *)d[0].element_ptr(0) == off, "interleaved-layout", "component ", k, " stride ", d[k].dtype().stride()); off += d[k].dtype().element_bytes(); } c.count("interleaved"); }
    else { uint8_t *p = (uint8_t *)d[0].element_ptr(0); for (int k = 0; k < nc; k++) { VCHECK((uint8_t *)d[k].element_ptr(0) == p && (len < 2 || d[k].dtype().stride() == d[k].dtype().element_bytes()), "contiguous-layout", "component ", k); p += d[k].dtype().element_bytes() * (index_t)len; } if (nc > 1 && len > 1) VCHECK(!mc::is_interleaved(d), "is-interleaved", "a contiguous array is said to be interleaved"); c.count("contiguous"); }
    if (r.chance(0.5)) { Node d2; if (r.chance(0.5)) mc::to_contiguous(d, d2); else mc::to_interleaved(d, d2); VCHECK(snap(d2) == before, "chain", "second conversion differs"); } }
  { Node bad; bad.set(n); std::string why; switch (r.below(3)) { case 0: { why = "length"; Node &t = list ? bad.append() : bad["zz"]; t.set(DataType::int32((index_t)len + 1 + (index_t)r.below(3))); break; } case 1: { why = "type"; Node &t = list ? bad.append() : bad["zz"]; t.set("text"); break; } default: { why = "nested"; Node &t = list ? bad.append() : bad["zz"]; t["a"] = 1; } } info.reset(); VCHECK(!mc::verify(bad, info), "verify-accepts", "an mcarray broken by ", why, " verifies: ", bad.schema().to_json().substr(0, 300)); VCHECK(info["valid"].as_string() == "false", "verify-info", info.to_json()); }
}
namespace nd = conduit::blueprint::ndarray;
FAMILY("C37", "ndindex", 6000, 150000) {
  Rng &r = c.rng; int dim = (int)r.range(1, 4); std::vector<index_t> sh, of, st, ost; for (int d = 0; d < dim; d++) { sh.push_back((index_t)r.range(1, 6)); of.push_back((index_t)r.range(0, 3)); st.push_back((index_t)r.range(1, 50)); } bool ho = r.chance(0.5), hs = r.chance(0.5); Node n; Arena ar; NumOpts no; int dt = r.pick(std::vector<int>{DataType::INT32_ID, DataType::INT64_ID, DataType::UINT16_ID, DataType::INT8_ID, DataType::UINT64_ID}); put_array(r, n["shape"], sh, dt, ar, no); if (ho) put_array(r, n["offset"], of, dt, ar, no); if (hs) put_array(r, n["stride"], st, dt, ar, no); c.tr(n.to_json()); c.seen(mix64(hash_str(n.to_json())));
  ost = st; if (!hs) { ost[0] = 1; for (int d = 1; d < dim; d++) ost[d] = ost[d - 1] * ((ho ? of[d - 1] : 0) + sh[d - 1]); } nd::NDIndex a(n), b(&n), e, k(dim, sh.data(), ho ? of.data() : NULL, hs ? st.data() : NULL); e = a; nd::NDIndex f(e); const nd::NDIndex *all[] = {&a, &b, &e, &k, &f};
  for (auto *x : all) { VCHECK(x->ndims() == dim, "ndims", x->ndims()); for (int d = 0; d < dim; d++) VCHECK(x->shape(d) == sh[d] && x->offset(d) == (ho ? of[d] : 0) && x->stride(d) == ost[d], "shape", "dimension ", d, " stride ", x->stride(d), " want ", ost[d]);
    for (int t = 0; t < 5; t++) { index_t q[4] = {0, 0, 0, 0}, want = 0; for (int d = 0; d < dim; d++) { q[d] = (index_t)r.below(sh[d]); want += ((ho ? of[d] : 0) + q[d]) * ost[d]; } index_t got = dim == 1 ? x->index(q[0]) : dim == 2 ? x->index(q[0], q[1]) : dim == 3 ? x->index(q[0], q[1], q[2]) : x->index(q[0], q[1], q[2], q[3]); VCHECK(got == want, "flat-index", "index = ", got, " want ", want); c.count("flat_indices"); } }
  Node info; a.info(info); for (int d = 0; d < dim; d++) VCHECK(ints(info["stride"])[d] == ost[d] && ints(info["shape"])[d] == sh[d], "info", info.to_json());
}
struct FF { std::string name; bool vert; int nc; std::vector<int> has; int dt; };
static double ffval(size_t f, int64_t dom, size_t i, int k) { return (double)((int64_t)(mix64(f * 1000003 + dom * 7919 + i * 17 + k) % 20000) - 10000); }
FAMILY_LEAK("C38", "flatten", 2500, 60000) {
  Rng &r = c.rng; MOpts o; o.mixed = false; o.points = false; bool fdt_any = r.chance(0.5); o.num.fdts = {fdt_any ? DataType::FLOAT64_ID : DataType::FLOAT32_ID}; if (r.chance(0.2)) o.num.fdts = {DataType::FLOAT64_ID, DataType::FLOAT32_ID}; bool lat = r.chance(0.5); auto in = gen_domains(r, o, (int)r.range(1, 4), lat); Node src; Arena ar; size_t nd = in.size(); bool multi = nd > 1 || r.chance(0.3); bool named = r.chance(0.5), ids = r.chance(0.6); for (auto &d : in) (void)d; if (!ids) for (size_t i = 0; i < nd; i++) in[i].id = (int64_t)i;
  std::vector<FF> fs; int nf = (int)r.range(0, 3); for (int i = 0; i < nf; i++) { FF f; f.name = std::string(1, "abc"[i]); f.vert = r.chance(0.5); f.nc = r.chance(0.3) ? (int)r.range(2, 3) : 1; f.dt = r.pick(std::vector<int>{DataType::FLOAT64_ID, DataType::FLOAT32_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::INT16_ID, DataType::UINT32_ID}); bool any = false; for (size_t d = 0; d < nd; d++) { f.has.push_back(r.chance(0.8)); any |= f.has[d]; } if (!any) f.has[r.below(nd)] = 1; fs.push_back(f); }
  auto fv = [&](size_t f, size_t d, size_t i, int k) { double v = ffval(f, in[d].id, i, k); return fs[f].dt == DataType::UINT32_ID ? std::fabs(v) : v; };
  std::vector<Node *> dn; for (size_t d = 0; d < nd; d++) { Node &n = !multi ? src : named ? src["dom" + std::to_string(d)] : src.append(); dn.push_back(&n); if (ids) n["state/domain_id"] = (int64)in[d].id; realize_mesh(r, in[d].m, n, ar, o);
    for (size_t f = 0; f < fs.size(); f++) if (fs[f].has[d]) { Node &fn = n["fields"][fs[f].name]; fn["association"] = fs[f].vert ? "vertex" : "element"; fn["topology"] = "topo"; size_t len = fs[f].vert ? in[d].m.x.size() : in[d].m.e.size(); std::vector<std::vector<double>> v(fs[f].nc); for (int k = 0; k < fs[f].nc; k++) for (size_t i = 0; i < len; i++) v[k].push_back(fv(f, d, i, k)); static const std::vector<std::string> C = {"u", "v", "w"}; if (fs[f].nc == 1) put_array(r, fn["values"], v[0], fs[f].dt, ar, o.num); else put_comps(r, fn["values"], std::vector<std::string>(C.begin(), C.begin() + fs[f].nc), v, fs[f].dt, ar, o.num); } }
  Node opt; bool di = true, ec = true, vl = true; double fill = 0; if (r.chance(0.3)) { di = r.chance(0.5); opt["add_domain_info"] = di ? 1 : 0; } if (r.chance(0.3)) { ec = r.chance(0.5); opt["add_element_centers"] = ec ? 1 : 0; } if (r.chance(0.3)) { vl = r.chance(0.5); opt["add_vertex_locations"] = vl ? 1 : 0; } if (r.chance(0.3)) opt["topology"] = "topo"; double ffill = 0, ifill = 0; (void)fill; if (r.chance(0.3)) { if (r.chance(0.5)) { ffill = ifill = (double)r.range(1, 100); opt["fill_value"] = ffill; } else { ffill = 7.5; ifill = 9; opt["fill_value/float"] = ffill; opt["fill_value/int"] = (int64)ifill; } }
  std::vector<size_t> sel; for (size_t f = 0; f < fs.size(); f++) sel.push_back(f); if (!fs.empty() && r.chance(0.3)) { std::vector<size_t> q; for (auto f : sel) if (q.empty() || r.chance(0.5)) q.push_back(f); if (q.size() > 1 && r.chance(0.5)) std::reverse(q.begin(), q.end()); sel = q; for (auto f : sel) opt["field_names"].append() = fs[f].name; if (r.chance(0.2)) opt["field_names"].append() = "no_such"; }
  c.tr(opt.to_json(), src.to_json()); c.seen(mix64(mhash(in[0].m) + hash_str(opt.to_json()))); Val before = snap(src); Node out; if (r.chance(0.3)) out["junk"] = 1; bm::flatten(src, opt, out); VCHECK(snap(src) == before, "source-changed", "flatten changed its input"); c.tr(out.to_json());
  size_t nv = 0, ne = 0; for (auto &d : in) { nv += d.m.x.size(); ne += d.m.e.size(); } bool vf = false, ef = false; for (auto f : sel) (fs[f].vert ? vf : ef) = true; bool hv = vl || vf, he = ec || ef; VCHECK(out.has_child("vertex_data") == hv && out.has_child("element_data") == he && (index_t)(hv + he) == out.number_of_children(), "tables", out.schema().to_json().substr(0, 500)); if (!hv && !he) return; Node info; VCHECK(blueprint::table::verify(out, info), "verify", info.to_json().substr(0, 600));
  auto cols = [&](const char *t, const std::set<std::string> &want) { auto q = out[t]["values"].child_names(); VCHECK(std::set<std::string>(q.begin(), q.end()) == want, "columns", t, " has ", out[t]["values"].schema().to_json().substr(0, 600)); };
  std::set<std::string> vc, ecs; if (vl) vc.insert("coords"); if (ec) ecs.insert("element_centers"); for (auto f : sel) (fs[f].vert ? vc : ecs).insert(fs[f].name); if (di) { vc.insert("domain_id"); vc.insert("vertex_id"); ecs.insert("domain_id"); ecs.insert("element_id"); } if (hv) cols("vertex_data", vc); if (he) cols("element_data", ecs);
  auto col = [&](const Node &n, size_t want) { auto v = nums(n); VCHECK(v.size() == want, "rows", n.name(), " has ", v.size(), " rows, want ", want); return v; };
  auto check = [&](bool vert) { const Node &V = out[vert ? "vertex_data" : "element_data"]["values"]; size_t n = vert ? nv : ne; std::vector<double> dd, ii; if (di) { dd = col(V["domain_id"], n); ii = col(V[vert ? "vertex_id" : "element_id"], n); } std::vector<std::vector<double>> X; if (vert ? vl : ec) { const Node &P = V[vert ? "coords" : "element_centers"]; VCHECK(P.number_of_children() == in[0].m.dim, "axes", P.schema().to_json().substr(0, 300)); for (int d = 0; d < in[0].m.dim; d++) { VCHECK(P.has_child(in[0].m.axes[d]), "axes", P.schema().to_json().substr(0, 300)); X.push_back(col(P[in[0].m.axes[d]], n)); } }
    size_t row = 0; for (size_t d = 0; d < nd; d++) { size_t m = vert ? in[d].m.x.size() : in[d].m.e.size(); for (size_t i = 0; i < m; i++, row++) { if (di) VCHECK(dd[row] == (double)in[d].id && ii[row] == (double)i, "ids", "row ", row, " is ", ii[row], " of domain ", dd[row]); if (!X.empty()) { P3 w{{0, 0, 0}}; if (vert) w = in[d].m.x[i]; else { auto &e = in[d].m.e[i]; IV q; for (auto &f : e.faces) q.insert(q.end(), f.begin(), f.end()); if (q.empty()) q = e.v; /* polyhedra: every corner of every face counts */ for (auto v : q) for (int k = 0; k < 3; k++) w[k] += in[d].m.x[v][k] / (double)q.size(); } for (int k = 0; k < in[0].m.dim; k++) VCHECK(near(X[k][row], w[k]), vert ? "location" : "center", "row ", row, " axis ", k, " = ", X[k][row], " want ", w[k]); } } }
    for (auto f : sel) if (fs[f].vert == vert) for (int k = 0; k < fs[f].nc; k++) { static const std::vector<std::string> C = {"u", "v", "w"}; VCHECK(fs[f].nc == 1 ? V[fs[f].name].dtype().is_number() : V[fs[f].name].has_child(C[k]), "field-column", fs[f].name); const Node &q = fs[f].nc == 1 ? V[fs[f].name] : V[fs[f].name][C[k]]; auto v = col(q, n); VCHECK(q.dtype().id() == fs[f].dt, "field-type", fs[f].name, " became ", q.dtype().name()); size_t row2 = 0; bool fl = q.dtype().is_floating_point(); for (size_t d = 0; d < nd; d++) { size_t m = vert ? in[d].m.x.size() : in[d].m.e.size(); for (size_t i = 0; i < m; i++, row2++) { double w = fs[f].has[d] ? fv(f, d, i, k) : fl ? ffill : ifill; VCHECK(v[row2] == w, "field-value", fs[f].name, " row ", row2, " = ", v[row2], " want ", w); } } c.count("field_columns"); } };
  if (hv) check(true); if (he) check(false); c.count("flattened"); if (nd > 1) c.count("multi_domain"); c.count("rows", (long)(nv + ne));
}
