// C33: partition, combine and map back (serial).
#include "bp_partck.hpp"
// shared points that differ by less than the merge tolerance
static void jitter(Rng &r, std::vector<Dom> &in, double tol) { for (auto &d : in) if (d.m.ctype == "explicit") for (auto &p : d.m.x) for (int k = 0; k < d.m.dim; k++) p[k] += (r.chance(0.6) ? (r.chance(0.5) ? 1 : -1) : r.unit() * 2 - 1) * tol * 0.48 / std::sqrt((double)d.m.dim); }
static void do_partition(Ctx &c, bool over) {
  Rng &r = c.rng; MOpts o = part_opts(r); if (r.chance(0.12)) o.max_n = 6; bool lat = r.chance(0.4); auto in = gen_domains(r, o, (int)r.range(1, 4), lat); auto fs = gen_fspecs(r); double tol = r.chance(0.3) ? 1e-6 : 0; if (o.num.fdts[0] == DataType::FLOAT64_ID && r.chance(0.3)) { jitter(r, in, tol ? tol : 1e-8); c.count("jittered"); } Node src; Arena ar; build(r, in, fs, src, ar, o); std::map<int64_t, IV> org; if (lat && r.chance(0.3)) { auto dn = doms_of(src); for (size_t d = 0; d < in.size(); d++) if (in[d].m.ttype != "unstructured") for (int x = 0; x < in[d].m.dim; x++) { org[in[d].id].push_back(r.range(0, 50)); (*const_cast<Node *>(dn[d]))["topologies/topo/elements/origin"][std::string(1, "ijk"[x]) + (in[d].m.ttype == "structured" ? "0" : "")] = (int32)org[in[d].id].back(); } }
  size_t total = 0; for (auto &d : in) total += d.m.e.size();
  Node opt; std::multiset<DE> want; size_t nsel = 0; bool loose = false /* a selection names elements more than once */; int mode = (int)r.below(3); std::vector<std::string> fieldsel; bool fieldmode = false;
  if (mode == 0) { for (auto &d : in) { for (size_t i = 0; i < d.m.e.size(); i++) want.insert({d.id, (int64_t)i}); nsel++; } }
  else {
    int k = (int)r.range(1, 4); std::string only; if (mode == 2) { only = "explicit"; }
    std::map<int64_t, std::vector<int64_t>> left; for (auto &d : in) for (size_t i = 0; i < d.m.e.size(); i++) left[d.id].push_back((int64_t)i);
    for (int q = 0; q < k; q++) {
      const Dom &d = in[r.below(in.size())]; int64_t ne = (int64_t)d.m.e.size(); std::string ty = mode == 2 ? "explicit" : r.pick(lat && d.m.ttype != "unstructured" ? std::vector<std::string>{"logical", "explicit", "ranges"} : std::vector<std::string>{"explicit", "ranges"}); IV ids; bool strct = d.m.ttype == "structured"; Node s; s["type"] = ty; s["domain_id"] = (int64)d.id; if (r.chance(0.5)) s["topology"] = "topo";
      if (ty == "logical") { int64_t a[3] = {0, 0, 0}, b[3] = {0, 0, 0}; for (int x = 0; x < d.m.dim; x++) { a[x] = r.range(0, d.m.n[x] - 1); b[x] = r.range(a[x], d.m.n[x] - 1); } bool clip = r.chance(0.2); IV st(a, a + 3), en(b, b + 3); if (clip) for (int x = 0; x < d.m.dim; x++) if (b[x] == d.m.n[x] - 1) en[x] += r.range(0, 3); put_ids(r, s["start"], st); put_ids(r, s["end"], en); for (int64_t z = a[2]; z <= b[2]; z++) for (int64_t y = a[1]; y <= b[1]; y++) for (int64_t x = a[0]; x <= b[0]; x++) ids.push_back(x + d.m.n[0] * (y + (d.m.dim > 1 ? d.m.n[1] : 1) * z)); }
      else if (ty == "explicit") { IV &L = left[d.id]; IV pick, rest; double p = r.unit(); for (auto e : L) (r.chance(p) ? pick : rest).push_back(e); L = rest; if (pick.empty()) { if (L.empty()) continue; pick.push_back(L.back()); L.pop_back(); } if (r.chance(0.3)) for (size_t i = pick.size(); i > 1; i--) std::swap(pick[i - 1], pick[r.below(i)]); ids = pick; put_ids(r, s["elements"], ids); }
      else { IV rg; int64_t at = 0; while (at < ne && rg.size() < 6) { int64_t a = r.range(at, ne - 1), b = r.range(a, ne - 1); rg.push_back(a); rg.push_back(b); for (int64_t i = a; i <= b; i++) ids.push_back(i); at = b + 1; if (r.chance(0.4)) break; } if (r.chance(0.3)) { int64_t a = r.range(0, ne - 1), b = r.range(a, ne - 1); rg.push_back(a); rg.push_back(b); for (int64_t i = a; i <= b; i++) ids.push_back(i); loose = true; c.count("overlapping_ranges"); } put_ids(r, s["ranges"], rg); }
      if (lat) { bool dup = false; for (auto e : ids) dup |= want.count({d.id, e}) > 0; if (dup && (strct || r.chance(0.5))) continue; }
      for (auto e : ids) want.insert({d.id, e}); opt["selections"].append().set(s); nsel++;
    }
    if (!nsel) return; (void)fieldmode;
  }
  size_t target = 0; bool beyond = false; if (r.chance(0.75)) { target = (size_t)r.range(1, (int64_t)std::min<size_t>(loose ? nsel : want.size(), 6)); if (over) { beyond = true; target = want.size() + (size_t)r.range(1, 3); } opt["target"] = (int64)target; target = std::min(target, want.size()); }
  if (mode == 0 && total == 0) return;
  std::string en = "original_element_ids", vn = "original_vertex_ids"; bool mapping = true; if (r.chance(0.15)) { en = "oe"; opt["original_element_ids"] = en; vn = "ov"; opt["original_vertex_ids"] = vn; } if (r.chance(0.2)) opt["mapping"] = 1; if (tol) opt["merge_tolerance"] = tol;
  std::set<std::string> fsel, *fp = 0; if (r.chance(0.2)) { fp = &fsel; bool obj = r.chance(0.5); for (auto &f : fs) if (fsel.empty() || r.chance(0.4)) { fsel.insert(f.name); if (obj) opt["fields"][f.name]; else opt["fields"].append() = f.name; } }
  bool mats = r.chance(0.3); if (mats) { auto dn = doms_of(src); std::string form = r.pick(std::vector<std::string>{"full", "sbe", "sbei", "sbm"}); bool each = r.chance(0.2); int fdt = r.chance(0.7) ? DataType::FLOAT64_ID : DataType::FLOAT32_ID, idt = r.pick(std::vector<int>{DataType::INT32_ID, DataType::INT64_ID, DataType::INT16_ID}); for (size_t d = 0; d < in.size(); d++) put_matset(r, in[d], *const_cast<Node *>(dn[d]), ar, each ? r.pick(std::vector<std::string>{"full", "sbe", "sbm"}) : form, fdt, idt); }
  c.tr(opt.to_json()); for (auto &d : in) c.tr("domain ", d.id, " ", desc(d.m)); c.tr(src.to_json()); c.seen(mix64(mhash(in[0].m) + hash_str(opt.to_json()))); Val before = snap(src);
  Node out; if (r.chance(0.3)) out["junk"] = 1; try { bm::partition(src, opt, out); } catch (const Error &e) { if (!beyond) throw; c.count("target_out_of_reach"); return; }
  VCHECK(snap(src) == before, "source-changed", "partition changed its input");
  keeps_attributes = !target || target >= nsel;
  auto os = check_output(out, in, fs, fp, c, en, vn, mapping);
  if (mats) for (auto &q : os) { VCHECK(q.n->has_path("matsets/matset"), "matset", "the matset was lost"); auto g = read_matset((*q.n)["matsets/matset"], q.m.e.size(), c); for (size_t i = 0; i < g.size(); i++) VCHECK(g[i] == mats_of(q.e[i].first, q.e[i].second), "matset", "materials of element ", i, " differ from element ", q.e[i].second, " of domain ", q.e[i].first, " ", (*q.n)["matsets"].to_json().substr(0, 1500)); c.count("matsets_partitioned"); }
  std::multiset<DE> got; for (auto &q : os) got.insert(q.e.begin(), q.e.end()); for (auto &e : want) VCHECK(loose ? got.count(e) >= 1 && got.count(e) <= want.count(e) : got.count(e) == want.count(e), "coverage", "element ", e.second, " of domain ", e.first, " appears ", got.count(e), " times, selected ", want.count(e), " times"); for (auto &e : got) VCHECK(want.count(e), "coverage", "element ", e.second, " of domain ", e.first, " was not selected"); VCHECK(loose ? got.size() <= want.size() : got.size() == want.size(), "coverage", got.size(), " elements out, ", want.size(), " selected");
  if (!org.empty() && (!target || target >= nsel)) for (auto &q : os) { const Node &t = (*q.n)["topologies/topo"]; std::string ty = t["type"].as_string(); const Dom *d = 0; for (auto &x : in) if (x.id == q.e[0].first) d = &x; if (ty == "unstructured" || !org.count(d->id)) continue; int64_t e = q.e[0].second; IV st = {e % d->m.n[0], d->m.dim > 1 ? e / d->m.n[0] % d->m.n[1] : 0, d->m.dim > 2 ? e / (d->m.n[0] * d->m.n[1]) : 0};
    for (int x = 0; x < d->m.dim; x++) { std::string k = std::string("elements/origin/") + "ijk"[x] + (ty == "structured" ? "0" : ""); VCHECK(t.has_path(k) && t[k].to_int64() == org[d->id][x] + st[x], "logical-origin", "output domain of domain ", d->id, " starting at element ", e, " has ", t.to_json(), " want ", k, "=", org[d->id][x] + st[x]); } c.count("logical_origins"); }
  VCHECK(os.size() == (target ? target : nsel), "target", os.size(), " output domains, want ", target ? target : nsel);
  c.count("partitions"); if (target && target < nsel) c.count("combines"); if (target > nsel) c.count("splits"); c.count(lat ? "lattices" : "unstructured_inputs");
}
FAMILY_LEAK("C33", "partition", 2500, 60000) { do_partition(c, false); }
FAMILY("C33", "target_beyond_elements", 150, 4000) { do_partition(c, true); }

FAMILY_LEAK("C33", "field_selection", 1200, 30000) {
  Rng &r = c.rng; MOpts o = part_opts(r); bool lat = r.chance(0.4); auto in = gen_domains(r, o, (int)r.range(1, 4), lat); auto fs = gen_fspecs(r); Node src; Arena ar; build(r, in, fs, src, ar, o);
  int K = (int)r.range(1, 5); bool gaps = r.chance(0.3); std::map<int64_t, std::set<DE>> want; int dt = r.pick(std::vector<int>{DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID, DataType::FLOAT64_ID}); auto dn = doms_of(src); std::set<int64_t> only; bool any = r.chance(0.7);
  for (size_t d = 0; d < in.size(); d++) { std::vector<double> v; for (size_t i = 0; i < in[d].m.e.size(); i++) { int64_t p = (int64_t)r.below(K) * (gaps ? 3 : 1); v.push_back((double)p); if (any || d == 0) want[p].insert({in[d].id, (int64_t)i}); } Node &f = (*const_cast<Node *>(dn[d]))["fields/part"]; f["topology"] = "topo"; f["association"] = "element"; put_array(r, f["values"], v, dt, ar, o.num); }
  Node opt; Node &s = opt["selections"].append(); s["type"] = "field"; s["field"] = "part"; if (any) s["domain_id"] = "any"; else s["domain_id"] = (int64)in[0].id; if (r.chance(0.5)) s["topology"] = "topo"; size_t target = 0; if (r.chance(0.4)) { target = want.size(); opt["target"] = (int64)target; }
  c.tr(opt.to_json()); for (auto &d : in) c.tr("domain ", d.id, " ", desc(d.m)); c.tr(src.to_json()); c.seen(mix64(mhash(in[0].m) + hash_str(opt.to_json())));
  Node out; bm::partition(src, opt, out); auto fs2 = fs; std::set<std::string> names; for (auto &f : fs) names.insert(f.name); // "part" itself is checked below
  for (auto *n : doms_of(out)) { VCHECK(n->has_path("fields/part/values"), "fields", "the selection field was lost"); }
  Node out2(out); for (auto *n : doms_of(out2)) const_cast<Node *>(n)->fetch("fields").remove("part");
  keeps_attributes = false;
  auto os = check_output(out2, in, fs, 0, c, "original_element_ids", "original_vertex_ids", true); VCHECK(os.size() == want.size(), "target", os.size(), " output domains for ", want.size(), " field values");
  for (auto &q : os) { int64_t id = (*q.n)["state/domain_id"].to_int64(); VCHECK(want.count(id), "domain-number", "output domain ", id, " is not a value of the field"); std::set<DE> got(q.e.begin(), q.e.end()); VCHECK(got.size() == q.e.size() && got == want[id], "coverage", "domain ", id, " has ", q.e.size(), " elements, ", want[id].size(), " were given to it"); }
  c.count("field_partitions");
}

FAMILY_LEAK("C33", "map_back", 1200, 30000) {
  Rng &r = c.rng; MOpts o = part_opts(r); bool lat = r.chance(0.4); auto in = gen_domains(r, o, (int)r.range(1, 4), lat); auto fs = gen_fspecs(r); Node src; Arena ar; build(r, in, fs, src, ar, o); auto dn = doms_of(src);
  std::map<K3, int64_t> gid; for (size_t d = 0; d < in.size(); d++) { std::vector<int64> g; for (auto &p : in[d].m.x) g.push_back(gid.emplace(key(p), (int64_t)gid.size()).first->second); Node &f = (*const_cast<Node *>(dn[d]))["fields/global_vertex_ids"]; f["topology"] = "topo"; f["association"] = "vertex"; f["values"].set(g); }
  size_t total = 0; for (auto &d : in) total += d.m.e.size(); Node opt, out; size_t target = (size_t)r.range(1, (int64_t)std::min<size_t>(total, 6)); opt["target"] = (int64)target; opt["mapping"] = 1; bool subset = r.chance(0.2); std::set<DE> covered;
  if (subset) { for (auto &d : in) { if (r.chance(0.3)) continue; IV e; for (size_t i = 0; i < d.m.e.size(); i++) if (r.chance(0.6)) { e.push_back((int64_t)i); covered.insert({d.id, (int64_t)i}); } if (e.empty()) continue; Node &s = opt["selections"].append(); s["type"] = "explicit"; s["domain_id"] = (int64)d.id; put_ids(r, s["elements"], e); } if (covered.empty()) return; opt["target"] = (int64)std::min(target, covered.size()); }
  else for (auto &d : in) for (size_t i = 0; i < d.m.e.size(); i++) covered.insert({d.id, (int64_t)i});
  c.tr(opt.to_json()); for (auto &d : in) c.tr("domain ", d.id, " ", desc(d.m)); c.tr(src.to_json()); c.seen(mix64(mhash(in[0].m) + hash_str(opt.to_json()))); bm::partition(src, opt, out);
  // the partitioned mesh computes new values
  auto fn = [](double x) { return 2 * x + 1; }; Node mo; std::vector<FSpec> back; for (auto &f : fs) if (back.empty() || r.chance(0.6)) { back.push_back(f); mo["fields"].append() = f.name; }
  for (auto *n : doms_of(out)) for (auto &f : back) { Node &v = (*const_cast<Node *>(n))["fields"][f.name]["values"]; for (int k = 0; k < f.nc; k++) { Node &q = f.nc == 1 ? v : v[cnames(f.nc)[k]]; auto a = nums(q); for (auto &z : a) z = fn(z); Node t; t.set(a); t.to_data_type(f.dt, q); } }
  int how = (int)r.below(3); // 0: the fields are still there; 1: they are gone; 2: they are arrays of the application
  std::vector<std::vector<double>> app; app.reserve(100); std::vector<const void *> at;
  if (how == 1) for (auto *n : doms_of(src)) for (auto &f : back) const_cast<Node *>(n)->fetch("fields").remove(f.name);
  if (how == 2) for (size_t d = 0; d < in.size(); d++) for (auto &f : back) { Node &v = (*const_cast<Node *>(dn[d]))["fields"][f.name]["values"]; for (int k = 0; k < f.nc; k++) { Node &q = f.nc == 1 ? v : v[cnames(f.nc)[k]]; app.push_back(nums(q)); q.set_external(app.back()); } }
  Node rest; std::vector<std::string> bn; for (auto &f : back) bn.push_back(f.name); auto others = [&]() { Node x(src); for (auto *n : doms_of(x)) for (auto &b : bn) if (n->fetch_existing("fields").has_child(b)) const_cast<Node *>(n)->fetch("fields").remove(b); return snap(x); }; Val before = others();
  bool err = false; try { bm::partition_map_back(out, mo, src); } catch (conduit::Error &x) { err = true; if (!subset) VCHECK(false, "map-back-error", x.message()); } if (err) { c.count("rejected_subsets"); return; }
  VCHECK(others() == before, "other-data", "mapping fields back changed other data of the mesh");
  for (size_t d = 0; d < in.size(); d++) { std::set<int64_t> cv; std::vector<char> used(in[d].m.x.size(), 0); for (size_t i = 0; i < in[d].m.e.size(); i++) if (covered.count({in[d].id, (int64_t)i})) { for (auto v : in[d].m.e[i].v) used[v] = 1; for (auto &f : in[d].m.e[i].faces) for (auto v : f) used[v] = 1; }
    bool anyc = false; for (auto &e : covered) anyc |= e.first == in[d].id; if (!anyc) continue; std::string er; 
    for (auto &f : back) { VCHECK((*dn[d])["fields"].has_child(f.name), "map-back", f.name, " missing in domain ", in[d].id); const Node &fn2 = (*dn[d])["fields"][f.name]; VCHECK(fn2["association"].as_string() == (f.vert ? "vertex" : "element"), "map-back", "association");
      for (int k = 0; k < f.nc; k++) { const Node &q = f.nc == 1 ? fn2["values"] : fn2["values"][cnames(f.nc)[k]]; auto v = nums(q); size_t n = f.vert ? in[d].m.x.size() : in[d].m.e.size(); VCHECK(v.size() == n, "map-back", f.name, " has ", v.size(), " values, want ", n);
        for (size_t i = 0; i < n; i++) { bool cov = f.vert ? used[i] : covered.count({in[d].id, (int64_t)i}) > 0; if (!cov) continue; double w = fn(fval(f, in[d], i, k)); VCHECK(v[i] == w, "map-back-value", f.name, "[", i, "] component ", k, " of domain ", in[d].id, " = ", v[i], " want ", w); } } }
    c.count("domains_mapped_back"); }
  size_t ai = 0; if (how == 2 && !subset) for (size_t d = 0; d < in.size(); d++) for (auto &f : back) for (int k = 0; k < f.nc; k++) { auto &a = app[ai++]; const Node &v = (*dn[d])["fields"][f.name]["values"]; const Node &q = f.nc == 1 ? v : v[cnames(f.nc)[k]]; if (q.data_ptr() == (void *)a.data()) { c.count("kept_application_arrays"); } else c.count("replaced_application_arrays"); }
}
