// Reading and judging partitioned meshes.
#pragma once
#include "bp_dom.hpp"
using namespace bg;
namespace bm = conduit::blueprint::mesh;
struct FSpec { std::string name; bool vert; int dt; int nc; bool mix; int vd = 0; };
static double fval(const FSpec &f, const Dom &d, size_t i, int c) { return f.vert ? posval(d.m.x[i], c) : (double)(d.id * 5000 + (long)i * 10 + c); }
static std::vector<std::string> cnames(int nc) { static const std::vector<std::string> n = {"u", "v", "w"}; return std::vector<std::string>(n.begin(), n.begin() + nc); }
static void put_fields(Rng &r, const std::vector<FSpec> &fs, const Dom &d, Node &n, Arena &ar, const MOpts &o) {
  for (auto &f : fs) { Node &fn = n["fields"][f.name]; fn["association"] = f.vert ? "vertex" : "element"; fn["topology"] = "topo"; if (f.vd) fn["volume_dependent"] = f.vd == 1 ? "true" : "false"; std::vector<std::vector<double>> v(f.nc); size_t k = f.vert ? d.m.x.size() : d.m.e.size(); for (int c = 0; c < f.nc; c++) for (size_t i = 0; i < k; i++) v[c].push_back(fval(f, d, i, c)); int dt = f.mix ? r.pick(std::vector<int>{DataType::FLOAT64_ID, DataType::FLOAT32_ID, DataType::INT32_ID, DataType::INT64_ID}) : f.dt; if (f.nc == 1) put_array(r, fn["values"], v[0], dt, ar, o.num); else put_comps(r, fn["values"], cnames(f.nc), v, dt, ar, o.num); }
}
// materials of an element, by where it comes from
typedef std::map<std::string, double> MV;
static const std::vector<std::string> MATS = {"steel", "air", "b", "gas 2"};
static bool no_void = false; // every element has a material
static MV mats_of(int64_t dom, int64_t e) { uint64_t h = mix64((uint64_t)(dom * 7919 + e) + 5); MV m; int k = (int)(h % 4); if (k == 0) k = no_void || (h >> 8) % 5 ? 1 : 0; double left = 1; for (int i = 0; i < k; i++) { double w = i + 1 == k ? left : left / 2; left -= w; m[MATS[((h >> 16) + i) % 4]] = w; } return m; }
static void put_matset(Rng &r, const Dom &d, Node &n, Arena &ar, const std::string &form, int fdt, int idt) {
  Node &ms = n["matsets/matset"]; ms["topology"] = "topo"; NumOpts o; size_t ne = d.m.e.size(); auto pf = [&](Node &t, const std::vector<double> &v) { if (v.empty()) t.set(DataType(fdt, 0)); else put_array(r, t, v, fdt, ar, o); }; auto pi = [&](Node &t, const IV &v) { if (v.empty()) t.set(DataType(idt, 0)); else put_array(r, t, v, idt, ar, o); };
  if (form != "full" || r.chance(0.5)) for (size_t i = 0; i < MATS.size(); i++) ms["material_map"][MATS[i]] = (int32)(i * 3 + 1);
  if (form == "full") for (auto &s : MATS) { std::vector<double> v; for (size_t e = 0; e < ne; e++) { MV m = mats_of(d.id, e); v.push_back(m.count(s) ? m[s] : 0); } pf(ms["volume_fractions"][s], v); }
  else if (form == "sbm") for (auto &s : MATS) { std::vector<double> v; IV id; for (size_t e = 0; e < ne; e++) { MV m = mats_of(d.id, e); if (m.count(s)) { v.push_back(m[s]); id.push_back(e); } } pf(ms["volume_fractions"][s], v); pi(ms["element_ids"][s], id); }
  else { std::vector<double> v; IV id, sz(ne), of(ne), ix; std::vector<size_t> ord(ne); for (size_t i = 0; i < ne; i++) ord[i] = i; if (r.chance(0.3)) for (size_t i = ne; i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]); for (auto e : ord) { of[e] = v.size(); for (auto &kv : mats_of(d.id, e)) { v.push_back(kv.second); id.push_back((std::find(MATS.begin(), MATS.end(), kv.first) - MATS.begin()) * 3 + 1); sz[e]++; } }
    if (form == "sbei" && !v.empty()) { std::vector<size_t> p(v.size()); for (size_t i = 0; i < p.size(); i++) p[i] = i; for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[r.below(i)]); auto V = v; auto I = id; for (size_t i = 0; i < p.size(); i++) { V[p[i]] = v[i]; I[p[i]] = id[i]; ix.push_back(p[i]); } v = V; id = I; pi(ms["indices"], ix); }
    pf(ms["volume_fractions"], v); pi(ms["material_ids"], id); pi(ms["sizes"], sz); pi(ms["offsets"], of); }
}
static std::vector<MV> read_matset(const Node &ms, size_t ne, Ctx &c) {
  std::vector<MV> g(ne); auto put = [&](int64_t e, const std::string &s, double v) { VCHECK(e >= 0 && e < (int64_t)ne, "matset-element", "element id ", e, " of ", ne); if (v != 0) VCHECK(g[e].emplace(s, v).second, "matset-twice", s, " in element ", e); };
  if (ms["volume_fractions"].dtype().is_object()) { for (auto &s : ms["volume_fractions"].child_names()) { const Node &vn = ms["volume_fractions"][s]; auto v = vn.dtype().is_empty() ? std::vector<double>() : nums(vn.dtype().is_object() ? vn["values"] : vn); if (ms.has_child("element_ids")) { IV id; if (ms["element_ids"].has_child(s) && !ms["element_ids"][s].dtype().is_empty()) id = ints(ms["element_ids"][s]); VCHECK(id.size() == v.size(), "matset-length", s, " ", id.size(), " ", v.size()); for (size_t i = 0; i < v.size(); i++) put(id[i], s, v[i]); } else { VCHECK(v.size() == ne, "matset-length", s, " ", v.size(), " want ", ne); for (size_t i = 0; i < v.size(); i++) put(i, s, v[i]); } } return g; }
  std::map<int64_t, std::string> nm; for (auto &s : ms["material_map"].child_names()) nm[ms["material_map"][s].to_int64()] = s; auto v = nums(ms["volume_fractions"]); IV id = ints(ms["material_ids"]), sz(ne, 1), of; for (size_t i = 0; i < ne; i++) of.push_back(i); if (ms.has_child("sizes")) { sz = ints(ms["sizes"]); of = ints(ms["offsets"]); } VCHECK(sz.size() == ne && of.size() == ne && id.size() == v.size(), "matset-length", sz.size(), " entries for ", ne, " elements"); IV ix; if (ms.has_child("indices")) ix = ints(ms["indices"]);
  for (size_t e = 0; e < ne; e++) for (int64_t k = 0; k < sz[e]; k++) { int64_t at = of[e] + k; if (!ix.empty()) at = ix[at]; VCHECK(at >= 0 && at < (int64_t)v.size() && nm.count(id[at]), "matset-id", at, " ", ms.to_json().substr(0, 800)); put(e, nm[id[at]], v[at]); } return g;
}
static std::vector<std::set<K3>> face_keys(const Mesh &m, const Elem &e) { std::vector<std::set<K3>> o; for (auto &f : elem_faces(e)) { std::set<K3> s; for (auto v : f) s.insert(key(m.x[v])); o.push_back(s); } std::sort(o.begin(), o.end()); return o; }
static bool same_elem(const Mesh &a, const Elem &x, const Mesh &b, const Elem &y) {
  if (shape_dim(x.shape) != shape_dim(y.shape)) return false; int d = shape_dim(x.shape);
  if (d == 3 && (x.shape == "polyhedral" || y.shape == "polyhedral")) return face_keys(a, x) == face_keys(b, y);
  if (x.v.size() != y.v.size()) return false;
  for (size_t i = 0; i < x.v.size(); i++) if (key(a.x[x.v[i]]) != key(b.x[y.v[i]])) return false; // same order
  return true;
}
static bool keeps_attributes = false; // combined domains have no volume_dependent
struct Out { const Node *n; Mesh m; std::vector<DE> e, v; };
// reads the output and checks everything that must hold of any partition
static std::vector<Out> check_output(const Node &out, const std::vector<Dom> &in, const std::vector<FSpec> &fs, const std::set<std::string> *sel, Ctx &c, const std::string &en, const std::string &vn, bool mapping) {
  std::vector<Out> os; std::map<int64_t, const Dom *> by; for (auto &d : in) by[d.id] = &d; std::set<int64_t> ids;
  for (auto *n : doms_of(out)) {
    Out o; o.n = n; const Node *vn_ = n; Node fixed; // known finding: a selected domain's material without elements is an empty node
    if (n->has_child("matsets")) { bool bare = false; for (auto &ms : (*n)["matsets"].child_names()) { const Node &m = (*n)["matsets"][ms]; if (!m.has_child("element_ids") || !m["element_ids"].dtype().is_object()) continue; for (auto &mat : m["element_ids"].child_names()) if (m["element_ids"][mat].dtype().is_empty() && m["volume_fractions"][mat].dtype().is_empty()) { if (!bare) fixed.set(*n); bare = true; fixed["matsets"][ms]["element_ids"][mat].set(DataType::int64(0)); fixed["matsets"][ms]["volume_fractions"][mat].set(DataType::float64(0)); } }
      if (bare) { vn_ = &fixed; c.count("absent_materials"); static int told = 0; if (!told++) c.record("absent-material-empty-node", "material without elements left as an empty node: " + (*n)["matsets"].to_json().substr(0, 600)); } }
    std::string e = verify_err(*vn_); VCHECK(e.empty(), "verify", e, " ", n->to_json().substr(0, 1500)); VCHECK(ids.insert((*n)["state/domain_id"].to_int64()).second, "domain-id", "two output domains have the same id");
    VCHECK((*n)["topologies"].has_child("topo") && (*n)["topologies"].number_of_children() == 1, "topology", n->schema().to_json().substr(0, 500));
    try { o.m = read_topo(*n, "topo"); } catch (std::exception &x) { VCHECK(false, "read", x.what(), " ", n->to_json().substr(0, 1500)); }
    std::set<std::string> want, got; for (auto &f : fs) if (!sel || sel->count(f.name)) want.insert(f.name);
    if (n->has_child("fields")) for (auto &s : (*n)["fields"].child_names()) if (s != en && s != vn) got.insert(s);
    VCHECK(got == want, "fields", "fields of the output: ", n->has_child("fields") ? (*n)["fields"].schema().to_json().substr(0, 700) : "none");
    if (mapping) {
      VCHECK(n->has_path("fields/" + en) && n->has_path("fields/" + vn), "mapping", "mapping fields missing");
      auto rd = [&](const std::string &f) { const Node &v = (*n)["fields"][f]["values"]; IV a = ints(v["domains"]), b = ints(v["ids"]); VCHECK(a.size() == b.size(), "mapping", f, " lengths"); std::vector<DE> q; for (size_t i = 0; i < a.size(); i++) q.push_back({a[i], b[i]}); return q; };
      o.e = rd(en); o.v = rd(vn); VCHECK(o.e.size() == o.m.e.size(), "mapping", o.e.size(), " element ids, ", o.m.e.size(), " elements"); VCHECK(o.v.size() == o.m.x.size(), "mapping", o.v.size(), " vertex ids, ", o.m.x.size(), " points");
      for (size_t i = 0; i < o.e.size(); i++) { auto it = by.find(o.e[i].first); VCHECK(it != by.end() && o.e[i].second >= 0 && o.e[i].second < (int64_t)it->second->m.e.size(), "mapping", "element ", i, " comes from domain ", o.e[i].first, " element ", o.e[i].second); VCHECK(same_elem(o.m, o.m.e[i], it->second->m, it->second->m.e[o.e[i].second]), "element", "element ", i, " (", o.m.e[i].shape, ") is not element ", o.e[i].second, " of domain ", o.e[i].first, " ", n->to_json().substr(0, 2500)); }
      for (size_t i = 0; i < o.v.size(); i++) { auto it = by.find(o.v[i].first); VCHECK(it != by.end() && o.v[i].second >= 0 && o.v[i].second < (int64_t)it->second->m.x.size(), "mapping", "point ", i, " comes from domain ", o.v[i].first, " point ", o.v[i].second); VCHECK(key(o.m.x[i]) == key(it->second->m.x[o.v[i].second]), "point", "point ", i, " is not point ", o.v[i].second, " of domain ", o.v[i].first, " ", n->to_json().substr(0, 2500)); }
    }
    std::set<K3> uq; for (auto &p : o.m.x) VCHECK(uq.insert(key(p)).second, "merge", "a point appears twice in output domain ", os.size(), " ", n->to_json().substr(0, 1500));
    for (auto &f : fs) { if (sel && !sel->count(f.name)) continue; const Node &fn = (*n)["fields"][f.name]; VCHECK(fn["topology"].as_string() == "topo" && fn["association"].as_string() == (f.vert ? "vertex" : "element"), "field", "header of ", f.name); if (f.vd && keeps_attributes) VCHECK(fn.has_child("volume_dependent") && fn["volume_dependent"].as_string() == (f.vd == 1 ? "true" : "false"), "field", "volume dependence of ", f.name, " was lost ", fn.schema().to_json().substr(0, 400));
      for (int k = 0; k < f.nc; k++) { VCHECK(f.nc == 1 ? !fn["values"].dtype().is_object() : fn["values"].has_child(cnames(f.nc)[k]), "field", f.name, " components"); const Node &vn2 = f.nc == 1 ? fn["values"] : fn["values"][cnames(f.nc)[k]]; auto v = nums(vn2); VCHECK(v.size() == (f.vert ? o.m.x.size() : o.m.e.size()), "field", f.name, " has ", v.size(), " values");
        VCHECK(f.mix || vn2.dtype().id() == f.dt, "field-type", f.name, " became ", vn2.dtype().name());
        for (size_t i = 0; i < v.size(); i++) { double w; if (f.vert) w = posval(o.m.x[i], k); else if (mapping) w = o.e[i].first * 5000 + o.e[i].second * 10 + k; else w = v[i]; VCHECK(v[i] == w, "field-value", f.name, "[", i, "] component ", k, " = ", v[i], " want ", w, " ", n->to_json().substr(0, 2500)); } } }
    os.push_back(o);
  }
  return os;
}
static Node *build(Rng &r, const std::vector<Dom> &in, const std::vector<FSpec> &fs, Node &src, Arena &ar, const MOpts &o) {
  bool multi = in.size() > 1 || r.chance(0.3), named = r.chance(0.5); bool withid = false; for (size_t i = 0; i < in.size(); i++) withid |= in[i].id != (int64_t)i; if (!withid) withid = r.chance(0.5);
  for (size_t i = 0; i < in.size(); i++) { Node &n = !multi ? src : named ? src["domain" + std::to_string(i)] : src.append(); if (withid) { if (r.chance(0.5)) n["state/domain_id"] = (int64)in[i].id; else n["state/domain_id"] = (int32)in[i].id; n["state/cycle"] = 7; } realize_mesh(r, in[i].m, n, ar, o); put_fields(r, fs, in[i], n, ar, o); }
  return &src;
}
static std::vector<FSpec> gen_fspecs(Rng &r) { std::vector<FSpec> fs; int k = (int)r.range(1, 3); for (int i = 0; i < k; i++) { FSpec f; f.name = std::string(1, "abc"[i]); f.vert = r.chance(0.5); f.nc = r.chance(0.3) ? (int)r.range(2, 3) : 1; f.dt = r.pick(std::vector<int>{DataType::FLOAT64_ID, DataType::FLOAT32_ID, DataType::INT32_ID, DataType::INT64_ID}); f.mix = r.chance(0.1); f.vd = (int)r.below(3); fs.push_back(f); } return fs; }
static MOpts part_opts(Rng &r) { MOpts o; o.mixed = false; o.points = false; o.num.fdts = {r.chance(0.7) ? DataType::FLOAT64_ID : DataType::FLOAT32_ID}; o.num.idts = {r.chance(0.5) ? DataType::INT32_ID : DataType::INT64_ID}; return o; }
static void put_ids(Rng &r, Node &n, const IV &v) { if (v.empty()) { n.set(DataType::int64(0)); return; } if (r.chance(0.5)) { std::vector<int64> q(v.begin(), v.end()); n.set(q); } else { std::vector<int32> q(v.begin(), v.end()); n.set(q); } }

