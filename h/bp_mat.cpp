// C35: conversions of material sets, material-dependent fields and species sets.
#include "bp_gen.hpp"
using namespace bg;
namespace bm = conduit::blueprint::mesh;
typedef std::map<std::string, double> MV;          // material -> value
struct Mats { std::vector<std::string> names; std::vector<int64_t> ids; std::vector<MV> vf, fv; std::vector<double> val; };
static const double FSCALE = 3.0;
static Mats gen_mats(Rng &r, bool holes, size_t ne_max) {
  Mats m; int nm = (int)r.range(1, 5); std::vector<std::string> pool = {"steel", "air", "water", "b", "a", "mat_0", "Zinc", "gas 2"}; for (size_t i = pool.size(); i > 1; i--) std::swap(pool[i - 1], pool[r.below(i)]);
  std::set<int64_t> used; bool seq = r.chance(0.4); for (int i = 0; i < nm; i++) { m.names.push_back(pool[i]); int64_t id = i; if (!seq) do id = r.range(0, 60); while (used.count(id)); used.insert(id); m.ids.push_back(id); }
  size_t ne = (size_t)r.range(1, (int64_t)ne_max); bool clean = r.chance(0.15);
  for (size_t e = 0; e < ne; e++) { MV v, f; int k = clean ? 1 : r.chance(0.4) ? 1 : (int)r.range(1, nm); if (holes && r.chance(0.2) && e + 1 < ne) k = 0; std::vector<int> p(nm); for (int i = 0; i < nm; i++) p[i] = i; for (int i = nm; i > 1; i--) std::swap(p[i - 1], p[r.below(i)]); double left = 1; for (int i = 0; i < k; i++) { double w = i + 1 == k ? left : left / 2; left -= w; v[m.names[p[i]]] = w; f[m.names[p[i]]] = (double)r.range(-40000, 40000) / FSCALE; } m.vf.push_back(v); m.fv.push_back(f); m.val.push_back((double)r.range(-1000, 1000) / 7.0); }
  return m;
}
static size_t lastused(const Mats &m) { size_t n = 0; for (size_t e = 0; e < m.vf.size(); e++) if (!m.vf[e].empty()) n = e + 1; return n; }
struct Real { std::string form; int idt, fdt, vdt; };
static void put_f(Rng &r, Node &n, const std::vector<double> &v, int dt, Arena &ar) { NumOpts o; if (v.empty()) { n.set(DataType(dt, 0)); return; } put_array(r, n, v, dt, ar, o); }
static void put_i(Rng &r, Node &n, const IV &v, int dt, Arena &ar) { NumOpts o; if (v.empty()) { n.set(DataType(dt, 0)); return; } put_array(r, n, v, dt, ar, o); }
// writes the material set and a field over it in one of the documented forms
static Real realize(Rng &r, const Mats &m, const std::string &form, Node &ms, Node &fl, Arena &ar, bool small) {
  Real q; q.form = form; q.idt = small && r.chance(0.3) ? r.pick(std::vector<int>{DataType::INT8_ID, DataType::UINT8_ID, DataType::INT16_ID, DataType::UINT32_ID, DataType::UINT64_ID}) : r.pick(std::vector<int>{DataType::INT32_ID, DataType::INT64_ID}); q.fdt = r.chance(0.7) ? DataType::FLOAT64_ID : DataType::FLOAT32_ID; q.vdt = r.chance(0.8) ? DataType::FLOAT64_ID : DataType::FLOAT32_ID;
  size_t ne = m.vf.size(); ms["topology"] = "topo"; fl["association"] = "element"; fl["topology"] = "topo"; fl["volume_dependent"] = r.chance(0.5) ? "true" : "false"; fl["matset"] = "matset"; put_f(r, fl["values"], m.val, q.vdt, ar);
  auto vf = [&](size_t e, const std::string &n) { auto it = m.vf[e].find(n); return it == m.vf[e].end() ? 0.0 : it->second; }; auto fv = [&](size_t e, const std::string &n) { auto it = m.fv[e].find(n); return it == m.fv[e].end() ? 0.0 : it->second; };
  bool map = form == "sbe" || form == "umat" || r.chance(0.5); if (map) for (size_t i = 0; i < m.names.size(); i++) put_i(r, ms["material_map"][m.names[i]], IV{m.ids[i]}, q.idt, ar);
  if (form == "full" || form == "full_o2m") {
    for (auto &n : m.names) { std::vector<double> v, f; for (size_t e = 0; e < ne; e++) { v.push_back(vf(e, n)); f.push_back(fv(e, n)); }
      if (form == "full") { put_f(r, ms["volume_fractions"][n], v, q.fdt, ar); put_f(r, fl["matset_values"][n], f, q.vdt, ar); }
      else { std::vector<double> V, F; IV idx; size_t pad = r.below(3); for (size_t i = 0; i < ne + pad; i++) { V.push_back(0.25); F.push_back(9); } std::vector<int64_t> p; for (size_t i = 0; i < V.size(); i++) p.push_back((int64_t)i); for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[r.below(i)]); for (size_t e = 0; e < ne; e++) { V[p[e]] = v[e]; F[p[e]] = f[e]; idx.push_back(p[e]); } put_f(r, ms["volume_fractions"][n]["values"], V, q.fdt, ar); put_i(r, ms["volume_fractions"][n]["indices"], idx, q.idt, ar); put_f(r, fl["matset_values"][n]["values"], F, q.vdt, ar); put_i(r, fl["matset_values"][n]["indices"], idx, q.idt, ar); } }
  } else if (form == "sbe") {
    std::vector<double> v, f; IV id, sz, of; std::map<std::string, int64_t> I; for (size_t i = 0; i < m.names.size(); i++) I[m.names[i]] = m.ids[i];
    std::vector<size_t> order; for (size_t e = 0; e < ne; e++) order.push_back(e); bool shuf = r.chance(0.3); if (shuf) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]); sz.resize(ne); of.resize(ne);
    for (auto e : order) { of[e] = (int64_t)v.size(); sz[e] = (int64_t)m.vf[e].size(); for (auto &kv : m.vf[e]) { v.push_back(kv.second); f.push_back(fv(e, kv.first)); id.push_back(I[kv.first]); } }
    bool indices = r.chance(0.3); IV idx; if (indices) { size_t n = v.size() + r.below(3); std::vector<int64_t> p; for (size_t i = 0; i < n; i++) p.push_back((int64_t)i); for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[r.below(i)]); std::vector<double> V(n, 0.125), F(n, 5); IV D(n, m.ids[0]); for (size_t i = 0; i < v.size(); i++) { V[p[i]] = v[i]; F[p[i]] = f[i]; D[p[i]] = id[i]; idx.push_back(p[i]); } v = V; f = F; id = D; }
    put_f(r, ms["volume_fractions"], v, q.fdt, ar); put_i(r, ms["material_ids"], id, q.idt, ar); put_i(r, ms["sizes"], sz, q.idt, ar); put_i(r, ms["offsets"], of, q.idt, ar); if (indices) put_i(r, ms["indices"], idx, q.idt, ar); put_f(r, fl["matset_values"], f, q.vdt, ar);
  } else if (form == "sbm") {
    for (auto &n : m.names) { std::vector<double> v, f; IV id; std::vector<size_t> o; for (size_t e = 0; e < ne; e++) if (m.vf[e].count(n)) o.push_back(e); if (r.chance(0.3)) for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[r.below(i)]); for (auto e : o) { v.push_back(vf(e, n)); f.push_back(fv(e, n)); id.push_back((int64_t)e); } put_f(r, ms["volume_fractions"][n], v, q.fdt, ar); put_i(r, ms["element_ids"][n], id, q.idt, ar); put_f(r, fl["matset_values"][n], f, q.vdt, ar); }
  } else { // umat: one buffer, elements named by an indirection array
    std::vector<double> v, f; IV id, el; std::map<std::string, int64_t> I; for (size_t i = 0; i < m.names.size(); i++) I[m.names[i]] = m.ids[i]; std::vector<std::pair<size_t, std::string>> o; for (size_t e = 0; e < ne; e++) for (auto &kv : m.vf[e]) o.push_back({e, kv.first}); for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[r.below(i)]);
    for (auto &k : o) { v.push_back(vf(k.first, k.second)); f.push_back(fv(k.first, k.second)); id.push_back(I[k.second]); el.push_back((int64_t)k.first); } put_f(r, ms["volume_fractions"], v, q.fdt, ar); put_i(r, ms["material_ids"], id, q.idt, ar); put_i(r, ms["element_ids"], el, q.idt, ar); put_f(r, fl["matset_values"], f, q.vdt, ar);
  }
  return q;
}
struct Got { std::vector<MV> vf, fv; };
static void need(Got &g, size_t n) { if (g.vf.size() < n) { g.vf.resize(n); g.fv.resize(n); } }
// an independent reader of the three output forms; also checks that the form is the one asked for
static Got read(const Node &ms, const Node &fl, const std::string &form, Ctx &c) {
  Got g; Node info; VCHECK(bm::matset::verify(ms, info), "verify", "matset: ", info.to_json().substr(0, 700), ms.to_json().substr(0, 900)); info.reset(); VCHECK(bm::field::verify(fl, info), "verify", "field: ", info.to_json().substr(0, 700));
  VCHECK(fl["matset"].as_string() == "new", "matset-name", "the field names matset ", fl["matset"].as_string()); bool uni = bm::matset::is_uni_buffer(ms), el = bm::matset::is_element_dominant(ms); VCHECK(uni == (form == "sbe") && el == (form != "sbm") && bm::matset::is_multi_buffer(ms) == !uni && bm::matset::is_material_dominant(ms) == !el, "form", "result is not ", form);
  const Node &mv = fl["matset_values"];
  auto put = [&](size_t e, const std::string &n, double v, double f) { need(g, e + 1); if (v != 0) { VCHECK(g.vf[e].emplace(n, v).second, "twice", "material ", n, " appears twice in element ", e); g.fv[e][n] = f; } };
  if (form == "full") for (auto &n : ms["volume_fractions"].child_names()) { auto v = nums(ms["volume_fractions"][n]); VCHECK(mv.has_child(n), "field-materials", n); auto f = nums(mv[n]); VCHECK(f.size() == v.size(), "field-length", n); need(g, v.size()); for (size_t e = 0; e < v.size(); e++) put(e, n, v[e], f[e]); }
  else if (form == "sbm") for (auto &n : ms["volume_fractions"].child_names()) { auto v = nums(ms["volume_fractions"][n]); VCHECK(mv.has_child(n) && ms["element_ids"].has_child(n), "field-materials", n); auto f = nums(mv[n]); IV e = ints(ms["element_ids"][n]); VCHECK(f.size() == v.size() && e.size() == v.size(), "field-length", n); for (size_t i = 0; i < v.size(); i++) put((size_t)e[i], n, v[i], f[i]); }
  else { std::map<int64_t, std::string> nm; for (auto &n : ms["material_map"].child_names()) VCHECK(nm.emplace(ms["material_map"][n].to_int64(), n).second, "map", "two materials with one id"); auto v = nums(ms["volume_fractions"]); IV id = ints(ms["material_ids"]), sz = ints(ms["sizes"]), of = ints(ms["offsets"]), ix; if (ms.has_child("indices")) ix = ints(ms["indices"]); auto f = nums(mv); VCHECK(f.size() == v.size() && id.size() == v.size() && sz.size() == of.size(), "field-length", f.size(), " ", v.size(), " ", id.size()); need(g, sz.size());
    for (size_t e = 0; e < sz.size(); e++) for (int64_t k = 0; k < sz[e]; k++) { int64_t at = of[e] + k; if (ms.has_child("indices")) at = ix[at]; VCHECK(nm.count(id[at]), "map", "id ", id[at], " has no name"); put(e, nm[id[at]], v[at], f[at]); } }
  return g;
}
static bool eqv(double a, double b, const Real &q) { return q.vdt == DataType::FLOAT32_ID ? a == (double)(float)b : a == b; }
static void compare(const Got &g, const Mats &m, const Real &q, bool sized, Ctx &c) {
  size_t ne = sized ? m.vf.size() : lastused(m); VCHECK(g.vf.size() == ne, "elements", g.vf.size(), " elements, want ", ne);
  for (size_t e = 0; e < ne; e++) { VCHECK(g.vf[e] == m.vf[e], "volume-fractions", "element ", e, " has ", g.vf[e].size(), " materials, want ", m.vf[e].size()); for (auto &kv : m.fv[e]) { auto it = g.fv[e].find(kv.first); VCHECK(it != g.fv[e].end() && eqv(it->second, kv.second, q), "matset-values", "element ", e, " material ", kv.first, " = ", it == g.fv[e].end() ? 0 : it->second, " want ", kv.second); } }
}
static const std::vector<std::string> FORMS = {"full", "sbe", "sbm"};
static void convert(const std::string &to, const Node &ms, const Node &fl, Node &dm, Node &df) {
  if (to == "full") { bm::matset::to_multi_buffer_full(ms, dm); bm::field::to_multi_buffer_full(ms, fl, "new", df); }
  else if (to == "sbe") { bm::matset::to_sparse_by_element(ms, dm); bm::field::to_sparse_by_element(ms, fl, "new", df); }
  else { bm::matset::to_multi_buffer_by_material(ms, dm); bm::field::to_multi_buffer_by_material(ms, fl, "new", df); }
}
FAMILY_LEAK("C35", "convert", 3000, 80000) {
  Rng &r = c.rng; bool holes = r.chance(0.2); Mats m = gen_mats(r, holes, 12); std::string form = r.pick(FORMS); Node ms, fl; Arena ar; Real q = realize(r, m, form, ms, fl, ar, true); c.tr("form ", form, " ", ms.to_json(), fl.to_json()); c.seen(mix64(hash_str(ms.to_json() + form)));
  int steps = (int)r.range(1, 4); Node cur, cf; cur.set_external(ms); cf.set_external(fl); std::vector<Node> keep(2 * steps); bool sized = form != "sbm";
  for (int s = 0; s < steps; s++) { std::string to = r.pick(FORMS); Node &dm = keep[2 * s], &df = keep[2 * s + 1]; if (r.chance(0.3)) dm["junk"] = 1; if (r.chance(0.3)) df["junk"] = 2; c.tr("to ", to); const Node &a = s ? keep[2 * s - 2] : ms, &b = s ? keep[2 * s - 1] : fl; Val va = snap(a), vb = snap(b); convert(to, a, b, dm, df); VCHECK(snap(a) == va && snap(b) == vb, "source-changed", "conversion changed its input"); if (to == "sbm") sized = false; c.tr(dm.to_json(), df.to_json()); compare(read(dm, df, to, c), m, q, sized, c); VCHECK(dm["topology"].as_string() == "topo" && df["association"].as_string() == "element" && df["topology"].as_string() == "topo" && !df.has_child("junk") && !dm.has_child("junk"), "header", df.to_json().substr(0, 400)); VCHECK(nums(df["values"]) == nums(fl["values"]), "values", "material independent values changed"); c.count("to_" + to); }
}
static void check_silo(const Node &s, const Mats &m, const Real &q, const Node *fl, Ctx &c) {
  std::map<int64_t, std::string> nm; for (auto &n : s["material_map"].child_names()) VCHECK(nm.emplace(s["material_map"][n].to_int64(), n).second, "map", "two materials with one id"); IV ml = ints(s["matlist"]), nx = ints(s["mix_next"]), mm = ints(s["mix_mat"]); auto vf = nums(s["mix_vf"]); std::vector<double> fv; if (fl) fv = nums(s["field_mixvar_values"]); VCHECK(ml.size() == m.vf.size(), "elements", ml.size(), " zones, want ", m.vf.size()); VCHECK(nx.size() == mm.size() && vf.size() == mm.size() && (!fl || fv.size() == mm.size()), "silo-length", mm.size()); std::vector<char> used(mm.size(), 0);
  for (size_t e = 0; e < ml.size(); e++) { if (m.vf[e].size() == 1) { VCHECK(ml[e] >= 0 && nm.count(ml[e]) && nm[ml[e]] == m.vf[e].begin()->first, "matlist", "clean zone ", e, " = ", ml[e]); continue; } VCHECK(ml[e] < 0, "matlist", "mixed zone ", e, " = ", ml[e]); MV got; int64_t at = -ml[e]; for (size_t k = 0; at != 0; k++) { VCHECK(at >= 1 && at <= (int64_t)mm.size() && k <= mm.size(), "mix-next", "zone ", e, " index ", at); VCHECK(!used[at - 1]++, "mix-next", "slot ", at, " used twice"); VCHECK(nm.count(mm[at - 1]), "mix-mat", mm[at - 1]); std::string n = nm[mm[at - 1]]; got[n] = vf[at - 1]; if (fl) { auto it = m.fv[e].find(n); VCHECK(it != m.fv[e].end() && eqv(fv[at - 1], it->second, q), "mixvar", "zone ", e, " material ", n, " = ", fv[at - 1]); } at = nx[at - 1]; } VCHECK(got == m.vf[e], "volume-fractions", "zone ", e); }
  for (auto u : used) VCHECK(u, "silo-slots", "a slot belongs to no zone"); if (fl) VCHECK(nums(s["field_values"]) == nums((*fl)["values"]), "field-values", "material independent values"); c.count("silo_zones", (long)ml.size());
}
FAMILY_LEAK("C35", "silo", 2500, 60000) {
  Rng &r = c.rng; Mats m = gen_mats(r, false, r.chance(0.1) ? 200 : 12); std::string form = r.pick(std::vector<std::string>{"full", "full_o2m", "sbe", "sbm", "umat"}); Node ms, fl; Arena ar; Real q = realize(r, m, form, ms, fl, ar, m.vf.size() <= 20); c.tr("form ", form, " ", ms.to_json(), fl.to_json()); c.seen(mix64(hash_str(ms.to_json() + form))); Val va = snap(ms), vb = snap(fl);
  Node s, s2; if (r.chance(0.3)) s["junk"] = 1; bm::matset::to_silo(ms, s); c.tr(s.to_json()); check_silo(s, m, q, 0, c); bm::field::to_silo(fl, ms, s2); check_silo(s2, m, q, &fl, c); VCHECK(snap(ms) == va && snap(fl) == vb, "source-changed", "to_silo changed its input"); c.count("silo_" + form);
}
FAMILY_LEAK("C35", "species", 1200, 30000) {
  Rng &r = c.rng; Mats m = gen_mats(r, false, 12); std::string form = r.pick(std::vector<std::string>{"full", "sbe", "sbm"}); Node ms, fl, sp; Arena ar; Real q = realize(r, m, form, ms, fl, ar, true); size_t ne = m.vf.size(); sp["matset"] = "matset"; sp["volume_dependent"] = "false"; std::map<std::string, std::vector<std::pair<std::string, std::vector<double>>>> mf; // material -> species -> per zone
  for (auto &n : m.names) { int k = (int)r.range(1, 3); std::vector<std::vector<double>> v(k, std::vector<double>(ne)); for (size_t e = 0; e < ne; e++) for (int i = 0; i < k; i++) v[i][e] = r.range(0, 1024) / 1024.0; for (int i = 0; i < k; i++) { std::string s = n + "_s" + std::to_string(i); put_f(r, sp["matset_values"][n][s], v[i], DataType::FLOAT64_ID, ar); mf[n].push_back({s, v[i]}); } }
  Node s, d; bool pre = r.chance(0.5); c.tr("form ", form, ms.to_json(), sp.to_json()); c.seen(mix64(hash_str(ms.to_json() + sp.to_json()))); if (pre) { bm::matset::to_silo(ms, s); bm::specset::to_silo(sp, s, d); } else { bm::matset::to_silo(ms, s); bm::specset::to_silo(sp, ms, d); } (void)q; c.tr(d.to_json());
  std::map<int64_t, std::string> nm; for (auto &n : s["material_map"].child_names()) nm[s["material_map"][n].to_int64()] = n; IV ml = ints(s["matlist"]), nx = ints(s["mix_next"]), mm = ints(s["mix_mat"]), sl = ints(d["speclist"]), xs = ints(d["mix_spec"]); auto v = nums(d["species_mf"]); VCHECK(sl.size() == ne && d["nspecies_mf"].to_int64() == (int64_t)v.size() && d["mixlen"].to_int64() == (int64_t)xs.size() && d["nmat"].to_int64() == (int64_t)m.names.size(), "species-length", d.to_json().substr(0, 400)); IV ns = ints(d["nmatspec"]); auto mn = sp["matset_values"].child_names(); for (size_t i = 0; i < mn.size(); i++) VCHECK(ns[i] == (int64_t)mf[mn[i]].size(), "nmatspec", mn[i]); size_t k = 0; for (auto &n : mn) for (auto &x : mf[n]) VCHECK(d["specnames"][k++].as_string() == x.first, "specnames", x.first);
  auto chk = [&](size_t e, const std::string &n, int64_t at) { auto &x = mf[n]; VCHECK(at >= 1 && at - 1 + (int64_t)x.size() <= (int64_t)v.size(), "species-index", at); for (size_t i = 0; i < x.size(); i++) VCHECK(v[at - 1 + i] == x[i].second[e], "species-mf", "zone ", e, " ", x[i].first, " = ", v[at - 1 + i], " want ", x[i].second[e]); c.count("species_checked"); };
  for (size_t e = 0; e < ne; e++) { if (ml[e] >= 0) { chk(e, nm[ml[e]], sl[e]); continue; } VCHECK(sl[e] < 0, "speclist", "mixed zone ", e, " = ", sl[e]); int64_t a = -sl[e], b = -ml[e]; while (b) { VCHECK(a >= 1 && a <= (int64_t)xs.size(), "mix-spec", a); chk(e, nm[mm[b - 1]], xs[a - 1]); a++; b = nx[b - 1]; } }
}
