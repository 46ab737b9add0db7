// C30: the verdicts of blueprint verify, against a specification written from the protocol documentation.
#include "bp_gen.hpp"
using namespace bg;
namespace bp = conduit::blueprint;
typedef const Node &N;
// ---------------------------------------------------------------- the specification
static bool g_dc; // the documentation leaves this tree open
static bool open_() { g_dc = true; return true; }
static const std::set<std::string> SHAPES = {"point", "line", "tri", "quad", "tet", "hex", "wedge", "pyramid", "polygonal", "polyhedral", "mixed"}, AXES = {"x", "y", "z", "r", "theta", "phi"};
static bool str(N n, const std::string &c) { return n.has_child(c) && n[c].dtype().is_string(); }
static bool in(N n, const std::string &c, const std::set<std::string> &s) { return str(n, c) && s.count(n[c].as_string()); }
static bool integer(N n, const std::string &c) { return n.has_child(c) && n[c].dtype().is_integer(); }
static bool object(N n, const std::string &c) { return n.has_child(c) && n[c].dtype().is_object() && n[c].number_of_children() > 0; }
static bool assoc(N n) { return in(n, "association", {"vertex", "element"}); }
static bool ldims(N n) { if (!n.dtype().is_object()) return false; for (auto &s : n.child_names()) if (s != "i" && s != "j" && s != "k") open_(); if (n.has_child("k") && !n.has_child("j")) open_(); return integer(n, "i") && (!n.has_child("j") || integer(n, "j")) && (!n.has_child("k") || integer(n, "k")); }
static bool mca(N n) { if (!n.dtype().is_object() && !n.dtype().is_list()) return false; if (!n.number_of_children()) return open_(); index_t k = -1; for (index_t i = 0; i < n.number_of_children(); i++) { N q = n.child(i); if (!q.dtype().is_number()) return false; if (k == -1) k = q.dtype().number_of_elements(); if (q.dtype().number_of_elements() != k) return false; } return true; }
static bool has_list(N n) { if (n.dtype().is_list()) return true; for (index_t i = 0; i < n.number_of_children(); i++) if (has_list(n.child(i))) return true; return false; }
static bool mla(N n, int lo, int hi) { // every leaf numeric, all at one depth, the same names at every level
  if (n.dtype().is_empty()) return false; if (has_list(n)) return open_();
  std::vector<const Node *> lv = {&n}; int d = 0;
  while (1) { std::vector<const Node *> nx; std::set<std::string> names; bool first = true, same = true; for (auto p : lv) { auto v = p->child_names(); std::set<std::string> s(v.begin(), v.end()); if (first) names = s; else same &= s == names; first = false; for (index_t i = 0; i < p->number_of_children(); i++) nx.push_back(&p->child(i)); } if (nx.empty()) break; if (!same) return false; lv = nx; d++; }
  for (auto p : lv) if (!p->dtype().is_number()) return false;
  return d >= lo && d <= hi;
}
static bool o2m(N n) {
  if (!n.dtype().is_object()) return false;
  for (auto s : {"sizes", "offsets", "indices"}) if (n.has_child(s) && !integer(n, s)) return false;
  if (n.has_child("sizes") != n.has_child("offsets")) return false;
  if (n.has_child("sizes") && n["sizes"].dtype().number_of_elements() != n["offsets"].dtype().number_of_elements()) return false;
  for (auto &s : n.child_names()) if (s != "sizes" && s != "offsets" && s != "indices" && n[s].dtype().is_number()) return true;
  return false;
}
static bool coordset(N n) {
  if (!in(n, "type", {"uniform", "rectilinear", "explicit"})) return false; std::string t = n["type"].as_string();
  if (t == "explicit") return n.has_child("values") && mca(n["values"]);
  if (t == "rectilinear") { if (!n.has_child("values")) return false; N v = n["values"]; if (!(v.dtype().is_object() || v.dtype().is_list()) || !v.number_of_children()) return false; for (index_t i = 0; i < v.number_of_children(); i++) if (!v.child(i).dtype().is_number()) return false; return true; }
  bool ok = object(n, "dims") && ldims(n["dims"]);
  for (auto s : {"origin", "spacing"}) if (n.has_child(s)) { N o = n[s]; if (!o.dtype().is_object()) open_(); std::string p = std::string(s) == "origin" ? "" : "d"; for (auto &a : AXES) if (o.has_child(p + a) && !o[p + a].dtype().is_number()) ok = false; }
  return ok;
}
static bool mixed(N e) {
  if (!in(e, "shape", SHAPES) || !object(e, "shape_map") || !integer(e, "shapes")) return false;
  std::set<int64_t> ids; N m = e["shape_map"]; for (auto &s : m.child_names()) { if (!SHAPES.count(s)) return false; if (s == "mixed") open_(); if (!m[s].dtype().is_integer()) return false; if (m[s].dtype().number_of_elements() != 1) { open_(); return true; } int64_t v = m[s].to_int64(); if (v != (int32_t)v) open_(); ids.insert(v); }
  for (auto v : ints(e["shapes"])) { if (v != (int32_t)v) { open_(); return true; } if (!ids.count(v)) return false; }
  return o2m(e);
}
static bool poly(N topo, N e, const std::string &name) { // name: of the group of elements, "" when there is one
  if (!str(e, "shape")) return true; std::string s = e["shape"].as_string(); if (s != "polygonal" && s != "polyhedral") return true;
  if (!o2m(e)) return false; if (s == "polygonal") return true;
  if (!object(topo, "subelements")) return false; const Node *q = &topo["subelements"]; if (!name.empty()) { if (!q->has_child(name)) return false; q = &(*q)[name]; }
  return in(*q, "shape", {"polygonal"}) && integer(*q, "connectivity") && o2m(*q);
}
static bool topology(N n) {
  if (n.has_child("grid_function") && !str(n, "grid_function")) return false;
  if (!in(n, "type", {"points", "uniform", "rectilinear", "structured", "unstructured"}) || !str(n, "coordset")) return false; std::string t = n["type"].as_string();
  if (t == "structured") return object(n, "elements") && object(n["elements"], "dims") && ldims(n["elements"]["dims"]);
  if (t != "unstructured") return true;
  if (!object(n, "elements")) return false; N e = n["elements"];
  if (e.has_child("shape")) {
    if (!in(e, "shape", SHAPES) || !integer(e, "connectivity")) return false;
    if (e["shape"].as_string() == "mixed") return mixed(e) && (!n.has_child("subelements") || mixed(n["subelements"]));
    return poly(n, e, "");
  }
  if (e.has_child("element_types")) return open_();
  for (auto &s : e.child_names()) { N q = e[s]; if (!in(q, "shape", SHAPES) || !integer(q, "connectivity") || !poly(n, q, s)) return false; }
  return true;
}
static bool matmap(N n) { if (!object(n, "material_map")) return false; N m = n["material_map"]; for (index_t i = 0; i < m.number_of_children(); i++) if (!m.child(i).dtype().is_integer()) return false; return true; }
static bool matset(N n) {
  if (!str(n, "topology") || !n.has_child("volume_fractions")) return false; N v = n["volume_fractions"];
  if (v.dtype().is_number()) return integer(n, "material_ids") && o2m(n) && matmap(n) && (!n.has_child("element_ids") || integer(n, "element_ids"));
  if (!v.dtype().is_object() || !v.number_of_children()) return false;
  for (index_t i = 0; i < v.number_of_children(); i++) { N q = v.child(i); if (q.dtype().is_object() ? !o2m(q) : !q.dtype().is_number()) return false; }
  if (n.has_child("material_map")) { if (!matmap(n)) return false; for (auto &s : n["material_map"].child_names()) if (!v.has_child(s)) return false; }
  if (n.has_child("element_ids")) { N e = n["element_ids"]; if (!e.dtype().is_object() || e.number_of_children() != v.number_of_children()) return false; for (auto &s : e.child_names()) if (!v.has_child(s) || !integer(e, s)) return false; }
  return true;
}
static bool field(N n) {
  bool a = n.has_child("association"), b = n.has_child("basis"), t = n.has_child("topology"), m = n.has_child("matset"), v = n.has_child("values"), w = n.has_child("matset_values");
  if (!a && !b) return false; if (a && !assoc(n)) return false; if (b && !str(n, "basis")) return false; if (!t && !m) return false; if (t != v || m != w) return false;
  if (t && !(str(n, "topology") && mla(n["values"], 0, 1))) return false; if (m && !(str(n, "matset") && mla(n["matset_values"], 0, 2))) return false; return true;
}
static bool specset(N n) {
  if (!str(n, "matset") || !object(n, "matset_values")) return false; N v = n["matset_values"]; index_t k = -1;
  for (index_t i = 0; i < v.number_of_children(); i++) { if (!mca(v.child(i))) return false; if (!v.child(i).number_of_children()) { open_(); continue; } index_t l = v.child(i).child(0).dtype().number_of_elements(); if (k == -1) k = l; if (l != k) return false; }
  return true;
}
static bool adjset(N n) {
  if (!str(n, "topology") || !assoc(n) || !n.has_child("groups") || !n["groups"].dtype().is_object()) return false; N g = n["groups"];
  for (index_t i = 0; i < g.number_of_children(); i++) {
    N q = g.child(i); if (!integer(q, "neighbors")) return false;
    if (q.has_child("values")) { if (!integer(q, "values")) return false; if (q.has_child("windows") || q.has_child("orientation")) open_(); }
    else if (q.has_child("windows")) { if (!object(q, "windows")) return false; N w = q["windows"]; for (index_t j = 0; j < w.number_of_children(); j++) { N x = w.child(j); for (auto s : {"origin", "dims", "ratio"}) if (!x.has_child(s) || !ldims(x[s]) || x[s].number_of_children() != x["origin"].number_of_children()) return false; } if (q.has_child("orientation") && !integer(q, "orientation")) return false; }
    else open_();
  }
  return true;
}
static bool nestset(N n) {
  if (!str(n, "topology") || !assoc(n) || !object(n, "windows")) return false; N w = n["windows"];
  for (index_t j = 0; j < w.number_of_children(); j++) { N x = w.child(j); if (!integer(x, "domain_id") || !in(x, "domain_type", {"parent", "child"})) return false; if (!x.has_child("ratio") || !ldims(x["ratio"])) return false; for (auto s : {"origin", "dims"}) if (x.has_child(s) && (!ldims(x[s]) || x[s].number_of_children() != x["ratio"].number_of_children())) return false; }
  return true;
}
static bool csys(N n) {
  if (!in(n, "type", {"cartesian", "cylindrical", "spherical"}) || !object(n, "axes")) return false; std::string t = n["type"].as_string(); std::set<std::string> ok = t == "cartesian" ? std::set<std::string>{"x", "y", "z"} : t == "cylindrical" ? std::set<std::string>{"r", "z"} : std::set<std::string>{"r", "theta", "phi"};
  for (auto &s : n["axes"].child_names()) if (!ok.count(s)) return false; return true;
}
static bool coordset_i(N n) { return in(n, "type", {"uniform", "rectilinear", "explicit"}) && str(n, "path") && object(n, "coord_system") && csys(n["coord_system"]); }
static bool topology_i(N n) { return in(n, "type", {"points", "uniform", "rectilinear", "structured", "unstructured"}) && str(n, "coordset") && str(n, "path") && (!n.has_child("grid_function") || str(n, "grid_function")); }
static bool matset_i(N n) { return str(n, "topology") && str(n, "path") && (n.has_child("material_map") ? matmap(n) : object(n, "materials")); }
static bool specset_i(N n) { return str(n, "matset") && str(n, "path") && object(n, "species"); }
static bool field_i(N n) { bool a = n.has_child("association"), b = n.has_child("basis"), t = n.has_child("topology"), m = n.has_child("matset"); return (a || b) && (!a || assoc(n)) && (!b || str(n, "basis")) && (t || m) && (!t || str(n, "topology")) && (!m || str(n, "matset")) && integer(n, "number_of_components") && str(n, "path"); }
static bool adjset_i(N n) { return str(n, "topology") && assoc(n) && str(n, "path"); }
static bool nestset_i(N n) { return adjset_i(n); }
struct Sec { const char *sec, *one; bool (*f)(N), (*fi)(N); std::vector<std::array<const char *, 2>> refs; bool optref; };
static const std::vector<Sec> SECS = {{"coordsets", "coordset", coordset, coordset_i, {}, false}, {"topologies", "topology", topology, topology_i, {{{"coordset", "coordsets"}}}, false}, {"matsets", "matset", matset, matset_i, {{{"topology", "topologies"}}}, false}, {"specsets", "specset", specset, specset_i, {{{"matset", "matsets"}}}, false}, {"fields", "field", field, field_i, {{{"topology", "topologies"}}, {{"matset", "matsets"}}}, true}, {"adjsets", "adjset", adjset, adjset_i, {{{"topology", "topologies"}}}, false}, {"nestsets", "nestset", nestset, nestset_i, {{{"topology", "topologies"}}}, false}};
static bool ref(N n, N item, const char *f, const char *sec) { if (!str(item, f)) return false; std::string s = item[f].as_string(); return n.has_child(sec) && n[sec].dtype().is_object() && n[sec].has_child(s); }
static bool domain(N n, bool index) {
  bool ok = true;
  for (size_t i = 0; i < SECS.size(); i++) {
    const Sec &s = SECS[i]; if (i > 1 && !n.has_child(s.sec)) continue; if (!object(n, s.sec)) { ok = false; continue; } N q = n[s.sec];
    for (index_t k = 0; k < q.number_of_children(); k++) { N x = q.child(k); ok &= (index ? s.fi : s.f)(x); for (auto &r : s.refs) if (!s.optref || x.has_child(r[0])) ok &= ref(n, x, r[0], r[1]); if (!index && i == 1 && x.has_child("grid_function")) ok &= ref(n, x, "grid_function", "fields"); }
  }
  return ok;
}
static bool mesh(N n) {
  if (n.has_child("coordsets")) return domain(n, false); if (n.dtype().is_empty()) return true; if (!n.dtype().is_object() && !n.dtype().is_list()) return false;
  bool ok = true; for (index_t i = 0; i < n.number_of_children(); i++) ok &= domain(n.child(i), false); return ok;
}
static bool table1(N n) {
  if (!n.has_child("values")) return false; N v = n["values"]; if (!v.dtype().is_object() && !v.dtype().is_list()) return false; index_t k = -1;
  if (!v.number_of_children()) return open_();
  for (index_t i = 0; i < v.number_of_children(); i++) { N q = v.child(i); index_t l; if (q.dtype().is_object() || q.dtype().is_list()) { if (!mca(q)) return false; if (!q.number_of_children()) { open_(); return true; } l = q.child(0).dtype().number_of_elements(); } else if (q.dtype().is_empty()) return false; else { if (!q.dtype().is_number()) open_(); l = q.dtype().number_of_elements(); } if (k == -1) k = l; if (l != k) return false; }
  return true;
}
static bool table(N n) { if (n.has_child("values")) return table1(n); if (!n.number_of_children()) return false; bool ok = true; for (index_t i = 0; i < n.number_of_children(); i++) ok &= table1(n.child(i)); return ok; }
// ---------------------------------------------------------------- valid trees
struct G {
  Rng &r; Arena &ar;
  int idt() { return r.pick(std::vector<int>{DataType::INT8_ID, DataType::INT16_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID, DataType::UINT16_ID, DataType::UINT32_ID, DataType::UINT64_ID}); }
  int ndt() { return r.chance(0.4) ? idt() : r.chance(0.5) ? DataType::FLOAT64_ID : DataType::FLOAT32_ID; }
  void num(Node &n, size_t k, int dt, int64_t hi = 6) { std::vector<int64_t> v; for (size_t i = 0; i < k; i++) v.push_back(r.range(0, hi)); NumOpts o; if (v.empty()) n.set(DataType(dt, 0)); else put_array(r, n, v, dt, ar, o); }
  void vals(Node &n, const std::vector<int64_t> &v, int dt) { NumOpts o; put_array(r, n, v, dt, ar, o); }
  void idims(Node &n, int d) { const char *a[] = {"i", "j", "k"}; for (int i = 0; i < d; i++) num(n[a[i]], 1, idt()); }
  std::vector<std::string> axes(int d) { std::vector<std::vector<std::string>> t[3] = {{{"x"}, {"r"}}, {{"x", "y"}, {"r", "z"}, {"r", "theta"}}, {{"x", "y", "z"}, {"r", "theta", "phi"}}}; return r.pick(t[d - 1]); }
  void coordset(Node &n) {
    int d = (int)r.range(1, 3); auto a = axes(d); int t = (int)r.below(3); n["type"] = t == 0 ? "uniform" : t == 1 ? "rectilinear" : "explicit";
    if (t == 0) { idims(n["dims"], d); if (r.chance(0.6)) for (auto &s : a) num(n["origin"][s], 1, ndt()); if (r.chance(0.6)) for (auto &s : a) num(n["spacing"]["d" + s], 1, ndt()); }
    else { size_t k = r.below(5); bool list = t == 1 && r.chance(0.1); for (auto &s : a) num(list ? n["values"].append() : n["values"][s], t == 1 ? r.below(5) : k, ndt()); }
  }
  void o2mfields(Node &n, size_t k) { int d = idt(); num(n["sizes"], k, d); num(n["offsets"], k, r.chance(0.5) ? d : idt()); if (r.chance(0.2)) num(n["indices"], r.below(6), idt()); }
  void mixed(Node &e) { static const std::vector<std::string> S = {"tri", "quad", "tet", "hex", "wedge", "pyramid", "polygonal", "polyhedral", "line", "point"}; e["shape"] = "mixed"; std::vector<int64_t> ids; int k = (int)r.range(1, 4); int dt = r.chance(0.5) ? DataType::INT32_ID : r.chance(0.5) ? DataType::INT64_ID : idt(); for (int i = 0; i < k; i++) { std::string s = r.pick(S); if (e.has_path("shape_map/" + s)) continue; int64_t id = r.range(0, 100); ids.push_back(id); vals(e["shape_map"][s], {id}, dt); } std::vector<int64_t> sh; size_t ne = (size_t)r.range(0, 5); for (size_t i = 0; i < ne; i++) sh.push_back(ids[r.below(ids.size())]); if (ne) vals(e["shapes"], sh, idt()); else e["shapes"].set(DataType(idt(), 0)); o2mfields(e, ne); num(e["connectivity"], r.below(9), idt()); }
  void group(Node &topo, Node &e, const std::string &name) {
    static const std::vector<std::string> S = {"point", "line", "tri", "quad", "tet", "hex", "wedge", "pyramid", "polygonal", "polyhedral"}; std::string s = r.pick(S); e["shape"] = s; num(e["connectivity"], r.below(9), idt());
    if (s == "polygonal" || s == "polyhedral") { if (r.chance(0.9)) o2mfields(e, r.below(4)); }
    if (s == "polyhedral") { Node &q = name.empty() ? topo["subelements"] : topo["subelements"][name]; q["shape"] = "polygonal"; num(q["connectivity"], r.below(9), idt()); o2mfields(q, r.below(4)); }
  }
  void topology(Node &n, const std::string &cs) {
    static const std::vector<std::string> T = {"points", "uniform", "rectilinear", "structured", "unstructured", "unstructured", "unstructured"}; std::string t = r.pick(T); n["type"] = t; n["coordset"] = cs;
    if (t == "structured") { idims(n["elements/dims"], (int)r.range(1, 3)); if (r.chance(0.2)) idims(n["elements/origin"], 2); }
    if (t == "unstructured") { int k = (int)r.below(4); if (k == 0) { mixed(n["elements"]); if (r.chance(0.4)) mixed(n["subelements"]); } else if (k == 1) { int m = (int)r.range(1, 3); for (int i = 0; i < m; i++) { std::string nm = std::string("g") + char('a' + i); Node tmp; group(n, n["elements"][nm], nm); } } else group(n, n["elements"], ""); }
  }
  std::vector<std::string> mats() { std::vector<std::string> p = {"steel", "air", "m 1", "b"}; p.resize((size_t)r.range(1, 4)); return p; }
  void matset(Node &n, const std::string &t) {
    n["topology"] = t; auto m = mats(); if (r.chance(0.5)) { size_t k = r.below(6); num(n["volume_fractions"], k, ndt()); num(n["material_ids"], k, idt()); for (auto &s : m) num(n["material_map"][s], 1, idt()); if (r.chance(0.7)) o2mfields(n, r.below(4)); if (r.chance(0.2)) num(n["element_ids"], k, idt()); }
    else { bool el = r.chance(0.4); for (auto &s : m) { size_t k = r.below(5); if (r.chance(0.3)) { num(n["volume_fractions"][s]["values"], k, ndt()); o2mfields(n["volume_fractions"][s], k); } else num(n["volume_fractions"][s], k, ndt()); if (el) num(n["element_ids"][s], k, idt()); } if (r.chance(0.6)) for (auto &s : m) if (r.chance(0.8)) num(n["material_map"][s], 1, idt()); }
  }
  void specset(Node &n, const std::string &m) { n["matset"] = m; size_t k = r.below(5); for (auto &s : mats()) { int c = (int)r.range(1, 3); bool list = r.chance(0.1); for (int i = 0; i < c; i++) num(list ? n["matset_values"][s].append() : n["matset_values"][s][std::string("s") + char('0' + i)], k, ndt()); } if (r.chance(0.5)) n["volume_dependent"] = "true"; }
  void mlv(Node &n, int depth) { if (!depth) { num(n, r.below(6), ndt()); return; } Node q; int w = (int)r.range(1, 3), w2 = (int)r.range(1, 3); for (int i = 0; i < w; i++) { std::string s(1, char('u' + i)); if (depth == 1) num(n[s], r.below(6), ndt()); else for (int j = 0; j < w2; j++) num(n[s][std::string(1, char('a' + j))], r.below(6), ndt()); } }
  void field(Node &n, const std::string &t, const std::string &m) { bool a = r.chance(0.8); if (a) n["association"] = r.chance(0.5) ? "vertex" : "element"; if (!a || r.chance(0.2)) n["basis"] = "H1_2D_P1"; bool mt = !m.empty() && r.chance(0.4); if (!mt || r.chance(0.6)) { n["topology"] = t; mlv(n["values"], (int)r.below(2)); } if (mt) { n["matset"] = m; mlv(n["matset_values"], (int)r.below(3)); } if (r.chance(0.3)) n["volume_dependent"] = "false"; if (r.chance(0.2)) n["units"] = "cm"; }
  void adjset(Node &n, const std::string &t) { n["topology"] = t; n["association"] = r.chance(0.5) ? "vertex" : "element"; n["groups"].set(DataType::object()); int k = (int)r.below(4); for (int i = 0; i < k; i++) { Node &g = n["groups"][std::string("group_") + char('0' + i)]; num(g["neighbors"], r.below(4), idt()); if (r.chance(0.5)) num(g["values"], r.below(5), idt()); else { int w = (int)r.range(1, 2), d = (int)r.range(1, 3); for (int j = 0; j < w; j++) { Node &x = g["windows"][std::string("window_") + char('0' + j)]; idims(x["origin"], d); idims(x["dims"], d); idims(x["ratio"], d); } if (r.chance(0.5)) num(g["orientation"], 3, idt()); } } }
  void nestset(Node &n, const std::string &t) { n["topology"] = t; n["association"] = r.chance(0.5) ? "vertex" : "element"; int w = (int)r.range(1, 3), d = (int)r.range(1, 3); for (int j = 0; j < w; j++) { Node &x = n["windows"][std::string("window_") + char('0' + j)]; num(x["domain_id"], 1, idt()); x["domain_type"] = r.chance(0.5) ? "parent" : "child"; idims(x["ratio"], d); if (r.chance(0.7)) idims(x["origin"], d); if (r.chance(0.7)) idims(x["dims"], d); } }
  void index_one(const std::string &what, Node &n, const std::string &a, const std::string &m) {
    n["path"] = "p/q";
    if (what == "coordset") { int d = (int)r.range(1, 3); std::string ty = r.pick(std::vector<std::string>{"cartesian", "cylindrical", "spherical"}); std::vector<std::string> ax = ty == "cartesian" ? std::vector<std::string>{"x", "y", "z"} : ty == "cylindrical" ? std::vector<std::string>{"z", "r"} : std::vector<std::string>{"r", "theta", "phi"}; n["type"] = r.pick(std::vector<std::string>{"uniform", "rectilinear", "explicit"}); n["coord_system/type"] = ty; for (size_t i = 0; i < ax.size() && (int)i < d; i++) n["coord_system/axes"][ax[i]]; }
    if (what == "topology") { n["type"] = r.pick(std::vector<std::string>{"points", "uniform", "rectilinear", "structured", "unstructured"}); n["coordset"] = a; }
    if (what == "matset") { n["topology"] = a; if (r.chance(0.6)) for (auto &s : mats()) num(n["material_map"][s], 1, idt()); else for (auto &s : mats()) n["materials"][s]; }
    if (what == "specset") { n["matset"] = m; n["species/a"]; }
    if (what == "field") { if (r.chance(0.7)) n["association"] = "vertex"; else n["basis"] = "b"; if (m.empty() || r.chance(0.6)) n["topology"] = a; else n["matset"] = m; num(n["number_of_components"], 1, idt()); }
    if (what == "adjset" || what == "nestset") { n["topology"] = a; n["association"] = "element"; }
  }
  void one(const std::string &what, Node &n, bool index) {
    if (index) { index_one(what, n, "topo", "mats"); return; }
    if (what == "coordset") coordset(n); if (what == "topology") { topology(n, "coords"); if (r.chance(0.2)) n["grid_function"] = "f"; } if (what == "matset") matset(n, "topo"); if (what == "specset") specset(n, "mats"); if (what == "field") field(n, "topo", r.chance(0.5) ? "mats" : ""); if (what == "adjset") adjset(n, "topo"); if (what == "nestset") nestset(n, "topo");
  }
  void dom(Node &n, bool index) {
    std::vector<std::string> cs, ts, ms, fs; int k = (int)r.range(1, 2); for (int i = 0; i < k; i++) cs.push_back(std::string("coords") + char('0' + i)); k = (int)r.range(1, 2); for (int i = 0; i < k; i++) ts.push_back(std::string("topo") + char('0' + i)); if (r.chance(0.5)) { k = (int)r.range(1, 2); for (int i = 0; i < k; i++) ms.push_back(std::string("mats") + char('0' + i)); } if (r.chance(0.7)) { k = (int)r.range(1, 3); for (int i = 0; i < k; i++) fs.push_back(std::string("f ") + char('0' + i)); }
    for (auto &s : cs) index ? index_one("coordset", n["coordsets"][s], "", "") : coordset(n["coordsets"][s]);
    for (auto &s : ts) { Node &t = n["topologies"][s]; index ? index_one("topology", t, r.pick(cs), "") : topology(t, r.pick(cs)); if (!fs.empty() && r.chance(0.3)) t["grid_function"] = r.pick(fs); }
    for (auto &s : ms) index ? index_one("matset", n["matsets"][s], r.pick(ts), "") : matset(n["matsets"][s], r.pick(ts));
    if (!ms.empty() && r.chance(0.4)) index ? index_one("specset", n["specsets/sp"], "", r.pick(ms)) : specset(n["specsets/sp"], r.pick(ms));
    for (auto &s : fs) index ? index_one("field", n["fields"][s], r.pick(ts), ms.empty() ? "" : r.pick(ms)) : field(n["fields"][s], r.pick(ts), ms.empty() ? "" : r.pick(ms));
    if (r.chance(0.3)) index ? index_one("adjset", n["adjsets/a"], r.pick(ts), "") : adjset(n["adjsets/a"], r.pick(ts));
    if (r.chance(0.3)) index ? index_one("nestset", n["nestsets/a"], r.pick(ts), "") : nestset(n["nestsets/a"], r.pick(ts));
    if (r.chance(0.2)) n["state/domain_id"] = 3;
  }
  void table(Node &n) { size_t k = r.below(5); int w = (int)r.range(1, 4); bool list = r.chance(0.3); for (int i = 0; i < w; i++) { Node &q = list ? n["values"].append() : n["values"][std::string("c") + char('0' + i)]; if (r.chance(0.3)) { int m = (int)r.range(1, 3); for (int j = 0; j < m; j++) num(r.chance(0.0) ? q.append() : q[std::string("v") + char('0' + j)], k, ndt()); } else num(q, k, ndt()); } }
  // ------------------------------------------------------------ damage
  void all(Node &n, std::vector<Node *> &o) { for (index_t i = 0; i < n.number_of_children(); i++) { o.push_back(&n.child(i)); all(n.child(i), o); } }
  std::string damage(Node &root) {
    static const std::vector<std::string> W = {"vertex", "element", "uniform", "rectilinear", "explicit", "structured", "unstructured", "points", "polygonal", "polyhedral", "mixed", "tri", "quad", "hex", "wedge", "parent", "child", "cartesian", "spherical", "cylindrical", "topo0", "topo1", "coords0", "coords1", "mats0", "f 0", "true", "", "zz", "Vertex", "quads"};
    static const std::vector<std::string> NM = {"sizes", "offsets", "indices", "values", "shape", "shapes", "shape_map", "connectivity", "subelements", "elements", "topology", "coordset", "matset", "association", "material_map", "volume_fractions", "windows", "i", "j", "k", "x", "dx", "type", "coordsets", "fields", "ratio", "dims", "origin", "grid_function", "path", "basis", "matset_values", "neighbors", "orientation", "element_types", "new", "steel"};
    std::vector<Node *> v; all(root, v); if (v.empty()) { root["x"] = 1; return "x"; } Node *n = r.pick(v); if (r.chance(0.5)) for (int i = 0; i < 4 && n->number_of_children(); i++) n = r.pick(v); std::string p = n->path(); int op = (int)r.below(13); std::ostringstream s; s << op << " " << p;
    switch (op) {
      case 0: case 1: { Node *q = n->parent(); index_t i = 0; while (&q->child(i) != n) i++; q->remove(i); break; }
      case 2: n->set(r.pick(W)); break;
      case 3: num(*n, r.below(5), idt(), 40); break;
      case 4: num(*n, r.below(5), DataType::FLOAT64_ID); break;
      case 5: n->reset(); if (r.chance(0.5)) n->set(r.chance(0.5) ? DataType::object() : DataType::list()); break;
      case 6: { Node t; t.set(*n); n->reset(); n->append().set(t); break; }
      case 7: { Node t; t.set(*n); n->reset(); (*n)[r.pick(NM)].set(t); break; }
      case 8: { Node t; t.set(*r.pick(v)); n->set(t); break; }
      case 9: { Node *q = n->parent(); if (q->dtype().is_object()) { std::string to = r.pick(NM); if (!q->has_child(to)) q->rename_child(n->name(), to); } break; }
      case 10: { Node t; t.set(*r.pick(v)); if (n->dtype().is_object()) { Node &q = n->add_child(r.pick(NM)); q.set(t); } else if (n->dtype().is_list()) n->append().set(t); break; }
      case 11: { Node *q = n->parent(); if (q->dtype().is_object() && q->number_of_children() > 1) { Node &o = q->child((index_t)r.below((uint64_t)q->number_of_children())); Node t; t.set(o); n->set(t); } break; }
      default: if (n->dtype().is_number()) { index_t k = n->dtype().number_of_elements(); num(*n, (size_t)(r.chance(0.5) || !k ? k + 1 : k - 1), (int)n->dtype().id()); } else if (n->dtype().is_string()) n->set(r.pick(W)); else if (n->dtype().is_object() && r.chance(0.5)) (*n)[r.pick(NM)].set(r.pick(W)); break;
    }
    return s.str();
  }
};
// ---------------------------------------------------------------- the monitor
static void ask(Ctx &c, const std::string &proto, const Node &n, bool (*spec)(N), const std::string &how, bool damaged) {
  g_dc = false; bool want = spec(n), dc = g_dc; Node keep; keep.set(n); std::string before = n.to_json("conduit_json");
  Node info; if (c.rng.chance(0.3)) { info["valid"] = "false"; info["errors"].append() = "old"; } bool got = false;
  c.tr(std::string("verify ") + proto + " " + how + "\n" + n.to_yaml().substr(0, 3000));
  try { got = bp::verify(proto, n, info); } catch (const conduit::Error &e) { VCHECK(false, "throws", proto, " verify raised: ", e.message().substr(0, 300)); }
  VCHECK(dc || got == want, want ? "refused" : "accepted", proto, " verify says ", got ? "valid" : "invalid", ", the protocol says ", want ? "valid" : "invalid", " (", how, ") ", got ? "" : info.to_json().substr(0, 1500));
  if (info.has_child("valid") || proto != "mesh/unknown") VCHECK(info.has_child("valid") && info["valid"].dtype().is_string() && (info["valid"].as_string() == "true") == got, "info", proto, " verify returned ", got, " but info says ", info.to_json().substr(0, 300));
  VCHECK(n.to_json("conduit_json") == before, "input-changed", proto, " verify changed its input");
  Node i2; bool again = bp::verify(proto, n, i2); VCHECK(again == got && i2.to_json() == info.to_json(), "stale-info", proto, " verify of the same tree reports ", i2.to_json().substr(0, 300), " then ", info.to_json().substr(0, 300));
  c.count(got ? "accepted" : "refused"); c.count(std::string("p:") + proto); if (dc) c.count("open"); if (damaged && !got) c.count("damage_found"); c.seen(hash_str(before + proto));
}
FAMILY_LEAK("C30", "mesh_verify", 6000, 180000) {
  Rng &r = c.rng; Arena ar; G g{r, ar}; Node n; int k = (int)r.below(10);
  if (k < 7) g.dom(n, false); else { int m = (int)r.below(4); bool list = r.chance(0.5); for (int i = 0; i < m; i++) g.dom(list ? n.append() : n[std::string("domain_00000") + char('0' + i)], false); }
  ask(c, "mesh", n, mesh, "whole", false); std::string how; int m = r.chance(0.7) ? 1 : (int)r.range(2, 3); for (int i = 0; i < m; i++) how += g.damage(n) + "; "; ask(c, "mesh", n, mesh, how, true);
}
FAMILY_LEAK("C30", "index_verify", 1500, 45000) {
  Rng &r = c.rng; Arena ar; G g{r, ar}; Node n; auto f = [](N q) { return domain(q, true); };
  g.dom(n, true); ask(c, "mesh/index", n, f, "whole", false); std::string how; int m = r.chance(0.7) ? 1 : (int)r.range(2, 3); for (int i = 0; i < m; i++) how += g.damage(n) + "; "; ask(c, "mesh/index", n, f, how, true);
}
FAMILY_LEAK("C30", "part_verify", 6000, 180000) {
  Rng &r = c.rng; Arena ar; G g{r, ar}; Node n; const Sec &s = SECS[r.below(SECS.size())]; bool index = r.chance(0.25); g.one(s.one, n, index); std::string p = std::string("mesh/") + s.one + (index ? "/index" : "");
  ask(c, p, n, index ? s.fi : s.f, "whole", false); std::string how; int m = r.chance(0.7) ? 1 : (int)r.range(2, 3); for (int i = 0; i < m; i++) how += g.damage(n) + "; "; ask(c, p, n, index ? s.fi : s.f, how, true);
  if (r.chance(0.05)) { const Sec &o = SECS[r.below(SECS.size())]; bool oi = r.chance(0.3); ask(c, std::string("mesh/") + o.one + (oi ? "/index" : ""), n, oi ? o.fi : o.f, "other protocol", true); }
}
FAMILY_LEAK("C30", "data_verify", 2000, 60000) {
  Rng &r = c.rng; Arena ar; G g{r, ar}; Node n; int k = (int)r.below(3); std::string p = k == 0 ? "o2mrelation" : k == 1 ? "mcarray" : "table"; bool (*f)(N) = k == 0 ? o2m : k == 1 ? mca : table;
  if (k == 0) { if (r.chance(0.8)) g.o2mfields(n, r.below(4)); g.num(n["data"], r.below(6), g.ndt()); if (r.chance(0.3)) n["note"] = "x"; } else if (k == 1) { size_t l = r.below(5); int w = (int)r.range(1, 3); bool list = r.chance(0.3); for (int i = 0; i < w; i++) g.num(list ? n.append() : n[std::string("v") + char('0' + i)], l, g.ndt()); } else if (r.chance(0.6)) g.table(n); else { int w = (int)r.range(1, 3); bool list = r.chance(0.5); for (int i = 0; i < w; i++) g.table(list ? n.append() : n[std::string("t") + char('0' + i)]); }
  ask(c, p, n, f, "whole", false); std::string how = g.damage(n); ask(c, p, n, f, how, true);
  if (r.chance(0.1)) { Node info; VCHECK(!bp::verify("mesh/nonsense", n, info), "unknown", "mesh/nonsense accepted"); VCHECK(!bp::verify("mcarray/x", n, info) && !bp::verify("o2mrelation/x", n, info) && !bp::verify("table/x", n, info), "unknown", "unknown nested protocol accepted"); bool threw = false; try { bp::verify("nonsense", n, info); } catch (const conduit::Error &) { threw = true; } VCHECK(threw, "unknown", "unknown protocol did not raise an error"); c.count("unknown_protocols"); }
}
