// C24: meshes through Silo files.
#include "bp_partck.hpp"
#include <conduit_relay_io_silo.hpp>
#include <sys/stat.h>
namespace rs = conduit::relay::io::silo;
FAMILY("C24", "mesh", 500, 12000) {
  Rng &r = c.rng; std::string dir = c.scratch + "/silo"; rmtree(dir); mkdir(dir.c_str(), 0755);
  MOpts o = part_opts(r); o.dim = (int)r.range(2, 3); o.low_dim = false; bool lat = r.chance(0.4); auto in = gen_domains(r, o, (int)r.range(1, 5), lat); if (in.empty()) return; bool poly = false; for (auto &d : in) poly |= d.m.shape == "polyhedral"; if (poly) return;
  for (size_t i = 0; i < in.size(); i++) in[i].id = (int64_t)i; // Silo numbers domains itself
  auto fs = gen_fspecs(r); Node src; Arena ar; build(r, in, fs, src, ar, o); auto dn = doms_of(src); for (size_t d = 0; d < in.size(); d++) (*const_cast<Node *>(dn[d]))["state/domain_id"] = (int64)in[d].id;
  Node opt; std::string style = r.pick(std::vector<std::string>{"", "default", "root_only", "multi_file"}), mn = r.chance(0.3) ? "my_mesh" : "mesh"; if (!style.empty()) opt["file_style"] = style; if (mn != "mesh") opt["mesh_name"] = mn; int64_t cycle = r.chance(0.6) ? r.range(0, 999999) : -1; double time = r.chance(0.4) ? r.range(-100, 100) / 8.0 : 1e99; std::string sfx = r.pick(std::vector<std::string>{"", "default", "none", cycle >= 0 ? "cycle" : "none"}), ext = r.pick(std::vector<std::string>{"", "default", "root", "silo"}); if (!sfx.empty()) opt["suffix"] = sfx; if (!ext.empty()) opt["root_file_ext"] = ext;
  for (auto *n : dn) { Node &st = (*const_cast<Node *>(n))["state"]; if (st.has_child("cycle")) st.remove("cycle"); if (cycle >= 0) st["cycle"] = (int32)cycle; if (time < 1e98) st["time"] = time; } char cb[40]; snprintf(cb, sizeof cb, ".cycle_%06d", (int)cycle); std::string root = dir + "/m" + (cycle >= 0 && sfx != "none" ? cb : "") + (ext == "silo" ? ".silo" : ".root");
  std::map<std::string, std::set<size_t>> gone; if (in.size() > 1 && r.chance(0.3)) { auto &f = fs[r.below(fs.size())]; size_t d = r.below(in.size()); const_cast<Node *>(dn[d])->fetch("fields").remove(f.name); gone[f.name].insert(d); c.count("absent_fields"); }
  if (r.chance(0.4)) opt["number_of_files"] = (int)r.range(1, (int64_t)in.size()); if (r.chance(0.5)) opt["silo_type"] = r.pick(std::vector<std::string>{"default", "hdf5"});
  no_void = true; bool mats = r.chance(0.4); if (mats) { std::string form = r.pick(std::vector<std::string>{"full", "sbe", "sbei", "sbm"}); for (size_t d = 0; d < in.size(); d++) put_matset(r, in[d], *const_cast<Node *>(dn[d]), ar, form, DataType::FLOAT64_ID, DataType::INT32_ID); bool map = r.chance(0.5); if (form == "full" || form == "sbm") for (auto *n : dn) { Node &ms = (*const_cast<Node *>(n))["matsets/matset"]; if (ms.has_child("material_map")) ms.remove("material_map"); if (map) for (size_t i = 0; i < MATS.size(); i++) ms["material_map"][MATS[i]] = (int32)(i * 3 + 1); } } // one map for all domains
  c.tr(opt.to_json()); for (auto &d : in) c.tr("domain ", d.id, " ", desc(d.m)); c.tr(src.to_json()); c.seen(mix64(mhash(in[0].m) + hash_str(opt.to_json()))); Val before = snap(src);
  if (r.chance(0.2)) { Node other; Mesh om = in[0].m; om.e.resize(1); if (om.ttype == "unstructured") { realize_mesh(r, om, other, ar, o); Node oo(opt); oo["suffix"] = "none"; rs::save_mesh(other, root.substr(0, root.size() - 5), oo); c.count("replaced"); } } // saving replaces what was there
  rs::save_mesh(src, dir + "/m", opt); VCHECK(snap(src) == before, "source-changed", "saving changed the mesh");
  Node got, lo; got["old"] = 1; rs::load_mesh(root, got); auto gd = doms_of(got); VCHECK(gd.size() == in.size(), "domains", gd.size(), " domains loaded of ", in.size());
  std::string w; std::map<int64_t, const Node *> by; for (auto *n : gd) by[(*n)["state/domain_id"].to_int64()] = n;
  for (size_t d = 0; d < in.size(); d++) { const Node *n = gd[d]; int64_t id = (*n)["state/domain_id"].to_int64(); VCHECK(id == in[d].id, "domain-id", "domain ", id, " in place of ", in[d].id);
    if (cycle >= 0) VCHECK((*n)["state/cycle"].to_int64() == cycle, "state", (*n)["state"].to_json()); if (time < 1e98) VCHECK((*n)["state/time"].to_float64() == time, "state", (*n)["state"].to_json());
    std::string e = verify_err(*n); VCHECK(e.empty(), "verify", e); std::string tn = mn + "_topo"; VCHECK((*n)["topologies"].has_child(tn) && (*n)["topologies"].number_of_children() == 1, "topology", n->schema().to_json().substr(0, 400));
    Mesh q; try { q = read_topo(*n, tn); } catch (std::exception &x) { VCHECK(false, "read", x.what(), " ", n->to_json().substr(0, 1500)); }
    const Mesh &m = in[d].m; VCHECK(q.x.size() == m.x.size(), "points", q.x.size(), " points, want ", m.x.size()); for (size_t i = 0; i < q.x.size(); i++) VCHECK(key(q.x[i]) == key(m.x[i]), "points", "point ", i, " moved");
    VCHECK(q.e.size() == m.e.size(), "elements", q.e.size(), " elements, want ", m.e.size()); for (size_t i = 0; i < q.e.size(); i++) VCHECK(q.e[i].v == m.e[i].v && shape_dim(q.e[i].shape) == shape_dim(m.e[i].shape), "elements", "element ", i, " (", m.e[i].shape, ") differs: ", (*n)["topologies"].to_json().substr(0, 900)); c.count("domains_loaded");
    for (auto &f : fs) { std::string fnm = mn + "_" + f.name; if (gone[f.name].count(d)) { VCHECK(!n->has_path("fields/" + fnm), "fields", fnm, " appeared"); continue; } VCHECK(n->has_path("fields/" + fnm), "fields", fnm, " lost"); const Node &fn = (*n)["fields"][fnm]; VCHECK(fn["association"].as_string() == (f.vert ? "vertex" : "element") && fn["topology"].as_string() == tn, "fields", fn.to_json().substr(0, 300));
      for (int k = 0; k < f.nc; k++) { const Node &vn = f.nc == 1 ? fn["values"] : fn["values"].child(k); auto v = nums(vn); size_t N = f.vert ? m.x.size() : m.e.size(); VCHECK(v.size() == N, "fields", f.name, " has ", v.size(), " values of ", N); for (size_t i = 0; i < N; i++) VCHECK(v[i] == fval(f, in[d], i, k), "field-value", f.name, "[", i, "] component ", k, " = ", v[i], " want ", fval(f, in[d], i, k)); c.count("fields_loaded"); } }
    if (mats) { std::string ms = mn + "_matset"; VCHECK(n->has_path("matsets/" + ms), "matset", "lost ", n->schema().to_json().substr(0, 300)); auto g = read_matset((*n)["matsets"][ms], m.e.size(), c); for (size_t i = 0; i < g.size(); i++) VCHECK(g[i] == mats_of(in[d].id, i), "matset", "materials of element ", i, " differ ", (*n)["matsets"].to_json().substr(0, 900)); c.count("matsets_loaded"); }
  }
  c.count("saved"); c.count("k:" + (style.empty() ? std::string("default") : style)); rmtree(dir);
}
