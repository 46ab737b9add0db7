// C23 mesh files, C41 mesh indices.
#include "relay_bpio.hpp"
#include <conduit_relay.hpp>
#include <conduit_relay_io_blueprint.hpp>
#include <conduit_relay_io_handle.hpp>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace bg;
namespace rio = conduit::relay::io;
namespace rib = conduit::relay::io::blueprint;
static std::vector<std::string> files(const std::string &d, const std::string &pre = "") { std::vector<std::string> o; DIR *p = opendir(d.c_str()); if (!p) return o; while (dirent *e = readdir(p)) { std::string s = e->d_name; if (s == "." || s == "..") continue; std::string f = d + "/" + s; struct stat st; if (stat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { auto q = files(f, pre + s + "/"); o.insert(o.end(), q.begin(), q.end()); } else o.push_back(pre + s); } closedir(p); std::sort(o.begin(), o.end()); return o; }
static void gen(Rng &r, Node &mesh, Arena &ar, std::vector<const Node *> &doms, int nd, int cycle, const std::string &proto, bool list) {
  MOpts o; if (proto == "yaml" || proto == "json") { o.num.fdts = {DataType::FLOAT64_ID}; } FullOpts fo; bool same = r.chance(0.5); Mesh m0 = gen_mesh(r, o);
  for (int i = 0; i < nd; i++) { Mesh m = same ? m0 : gen_mesh(r, o); Node &d = nd == 1 && !list ? mesh : r.chance(0.0) || list ? mesh.append() : mesh["dom" + std::to_string(i * 3)]; full_domain(r, m, d, ar, o, fo, i, nd, cycle); if (r.chance(0.1)) d["other/thing"] = 3; }
  if (nd == 1 && !list) doms.push_back(&mesh); else for (index_t i = 0; i < mesh.number_of_children(); i++) doms.push_back(&mesh.child(i));
}
static const std::vector<std::string> PR = {"hdf5", "hdf5", "hdf5", "yaml", "yaml", "json"}; // what a root file may be written in
struct Cwd { std::string old; Cwd(const std::string &d) { char b[4096]; old = getcwd(b, sizeof b); if (chdir(d.c_str())) abort(); } ~Cwd() { if (chdir(old.c_str())) abort(); } };
static std::string root_of(const std::string &path, const std::string &suffix, int cycle) { char b[40]; snprintf(b, sizeof b, ".cycle_%06d", cycle); return path + (suffix == "none" || (suffix != "cycle" && cycle < 0) ? "" : b) + ".root"; }
static std::string check_load(Ctx &c, const std::string &root, const Node &lo, const std::vector<const Node *> &doms, const std::string &proto) {
  Node got; got["old"] = 1; if (lo.number_of_children()) rib::load_mesh(root, lo, got); else rib::load_mesh(root, got);
  if (got.number_of_children() != (index_t)doms.size()) return "loaded " + std::to_string(got.number_of_children()) + " domains of " + std::to_string(doms.size());
  for (size_t i = 0; i < doms.size(); i++) { if (!got.has_child(dom_name((int)i))) return "no " + dom_name((int)i); std::string e = same_domain(*doms[i], (int)i, got[dom_name((int)i)], proto); if (!e.empty()) return dom_name((int)i) + ": " + e; c.count("domains_loaded"); }
  return "";
}
FAMILY_LEAK("C23", "save_load", 900, 20000) {
  Rng &r = c.rng; Arena ar; std::string dir = c.scratch + "/bp"; rmtree(dir); mkdir(dir.c_str(), 0755); std::string proto = r.pick(PR); int rounds = (int)r.range(1, 2); Cwd cwd(c.scratch); int where = (int)r.below(3); std::string path = where == 0 ? dir + "/m" : where == 1 ? "bp/m" : dir + "/m.x"; c.seen(mix64(c.idx));
  std::string style = r.pick(std::vector<std::string>{"", "default", "root_only", "multi_file", "multi_file"}), suffix = r.pick(std::vector<std::string>{"", "default", "cycle", "none"}), mname = r.chance(0.3) ? "my_mesh" : ""; int cycle = r.chance(0.6) || suffix == "cycle" ? (int)r.range(0, 2000000) : -1;
  for (int k = 0; k < rounds; k++) { // the second save replaces the first
    Node mesh; std::vector<const Node *> doms; int nd = r.chance(0.3) ? 1 : (int)r.range(2, 7); gen(r, mesh, ar, doms, nd, cycle, proto, r.chance(0.5)); std::string ve = verify_err(mesh); VCHECK(ve.empty(), "generator", ve); Val before = snap(mesh);
    Node o; if (!style.empty()) o["file_style"] = style; if (!suffix.empty()) o["suffix"] = suffix; if (!mname.empty()) o["mesh_name"] = mname; int nf = 0; if (r.chance(0.6)) { nf = (int)r.range(-1, nd + 2); o["number_of_files"] = nf; }
    c.tr("save ", proto, " ", path, " domains ", nd, " opts ", o.to_json());
    if (o.number_of_children() || r.chance(0.5)) rib::save_mesh(mesh, path, proto, o); else if (proto == "hdf5" && r.chance(0.5)) rib::save_mesh(mesh, path); else rib::save_mesh(mesh, path, proto);
    VCHECK(snap(mesh) == before, "input-changed", "save_mesh changed the mesh it was given");
    std::string root = root_of(path, suffix, cycle); VCHECK(access(root.c_str(), R_OK) == 0, "root-file", "no file ", root);
    Node lo; if (!mname.empty() && r.chance(0.5)) lo["mesh_name"] = mname; std::string e = check_load(c, root, lo, doms, proto); VCHECK(e.empty(), "load", e);
    bool root_only = style == "root_only" || (style != "multi_file" && nd == 1); int want = root_only ? 0 : nf <= 0 || nf >= nd ? nd : nf; if (rounds == 1) { auto f = files(dir); VCHECK((int)f.size() == want + 1, "files", f.size(), " files written, want ", want + 1); c.count(root_only ? "root_only" : want == nd ? "file_per_domain" : "shared_files"); }
    c.count("p:" + proto); if (k) c.count("replaced");
    if (r.chance(0.2)) { Node bad, mo; mo["mesh_name"] = "nope"; bool t = false; try { rib::load_mesh(root, mo, bad); } catch (conduit::Error &) { t = true; } VCHECK(t, "wrong-name", "loading a mesh that is not there did not fail"); t = false; try { rib::load_mesh(path + ".nofile", bad); } catch (conduit::Error &) { t = true; } VCHECK(t, "no-file", "loading a file that is not there did not fail"); }
    if (r.chance(0.2)) { Node got; got["keep"] = 7; rib::read_mesh(root, got); VCHECK(got.has_child("keep") && got.number_of_children() == nd + 1, "read-mesh", "read_mesh did not add to the node"); }
  }
}
FAMILY_LEAK("C23", "several_meshes", 250, 6000) { // write_mesh adds meshes to the same files
  Rng &r = c.rng; Arena ar; std::string dir = c.scratch + "/bp"; rmtree(dir); mkdir(dir.c_str(), 0755); std::string proto = r.pick(PR), path = dir + "/w"; int k = (int)r.range(2, 3), nd = r.chance(0.3) ? 1 : (int)r.range(2, 4); std::string style = nd == 1 ? "root_only" : r.pick(std::vector<std::string>{"root_only", "multi_file"}); int nf = (int)r.range(0, nd); c.seen(mix64(c.idx + 7));
  std::vector<Node> mesh(k); std::vector<std::vector<const Node *>> doms(k); Node o; o["file_style"] = style; o["suffix"] = "none"; o["number_of_files"] = nf; c.tr("write ", proto, " ", style, " meshes ", k, " domains ", nd, " files ", nf);
  for (int i = 0; i < k; i++) { gen(r, mesh[i], ar, doms[i], nd, 1, proto, false); o["mesh_name"] = "mesh" + std::to_string(i); rib::write_mesh(mesh[i], path, proto, o); }
  for (int i = 0; i < k; i++) { Node lo; lo["mesh_name"] = "mesh" + std::to_string(i); std::string e = check_load(c, path + ".root", lo, doms[i], proto); VCHECK(e.empty(), "several", "mesh ", i, ": ", e); } c.count("several");
}
FAMILY_LEAK("C23", "foreign_root", 400, 8000) { // root files written by other codes
  Rng &r = c.rng; Arena ar; std::string dir = c.scratch + "/bp"; rmtree(dir); mkdir(dir.c_str(), 0755); std::string proto = r.pick(std::vector<std::string>{"hdf5", "hdf5", "yaml", "conduit_json", "conduit_bin"}); int nd = (int)r.range(1, 6); Node mesh; std::vector<const Node *> doms; gen(r, mesh, ar, doms, nd, 4, proto, true); c.seen(mix64(c.idx + 13));
  std::vector<Node> st(nd); for (int i = 0; i < nd; i++) { st[i].set(*doms[i]); st[i]["state/domain_id"].reset(); st[i]["state/domain_id"] = (int32)i; }
  Node idx; conduit::blueprint::mesh::generate_index(mesh, "mesh", nd, idx); Node root; root["protocol/name"] = proto; root["protocol/version"] = "0.1.0"; root["number_of_trees"] = nd; bool map = r.chance(0.5); std::string ext = proto;
  std::vector<std::string> file(nd), tree(nd); auto pad = [](int v, int w) { char b[32]; snprintf(b, sizeof b, "%0*d", w, v); return std::string(b); };
  if (!map) { // file_pattern and tree_pattern
    int kind = (int)r.below(3); int nf = kind == 0 ? nd : kind == 1 ? 1 : (int)r.range(1, nd); int w = (int)r.range(1, 9); std::string d = w == 1 ? "%d" : "%0" + std::to_string(w) + "d"; if (w == 1) w = 0; root["number_of_files"] = nf; root["file_pattern"] = nf == 1 && r.chance(0.5) ? "one." + ext : "f_" + d + "." + ext; bool trees = nf != nd || r.chance(0.4); root["tree_pattern"] = trees ? (r.chance(0.5) ? "/dom_" + d + "/" : "dom_" + d) : "/";
    Node mp; rib::gen_domain_to_file_map(nd, nf, mp); IV to = ints(mp["global_domain_to_file"]); std::string fp = root["file_pattern"].as_string(); for (int i = 0; i < nd; i++) { file[i] = fp[0] == 'o' ? fp : "f_" + pad((int)to[i], w) + "." + ext; tree[i] = trees ? "dom_" + pad(i, w) : ""; } if (r.chance(0.5) && !idx.has_path("state/cycle")) idx.remove("state"); c.count("patterns");
  } else { // partition_pattern and partition_map, in any order of the domains
    std::vector<int> p(nd); for (int i = 0; i < nd; i++) p[i] = i; for (int i = nd; i > 1; i--) std::swap(p[i - 1], p[r.below(i)]); IV F, D; for (int i = 0; i < nd; i++) { F.push_back(r.range(0, 2)); D.push_back(p[i]); } idx["state/partition_pattern"] = "file_{file:03d}." + ext + ":/dom_{domain:04d}"; if (r.chance(0.5)) { idx["state/partition_map/file"].set(F); idx["state/partition_map/domain"].set(D); } else { idx["state/partition_map/domain"].set(D); idx["state/partition_map/file"].set(F); } for (int i = 0; i < nd; i++) { file[p[i]] = "file_" + pad((int)F[i], 3) + "." + ext; tree[p[i]] = "dom_" + pad(p[i], 4); } c.count("partition_maps"); }
  for (int i = 0; i < nd; i++) { rio::IOHandle h; h.open(dir + "/" + file[i], proto); h.write(st[i], tree[i].empty() ? "mesh" : tree[i] + "/mesh"); h.close(); }
  root["blueprint_index/mesh"].set(idx); std::string rf = dir + "/out.root", rp = proto == "hdf5" && r.chance(0.5) ? "hdf5" : r.chance(0.5) ? "yaml" : "json"; c.tr("root ", rp, " ", root.to_json()); { rio::IOHandle h; h.open(rf, rp); h.write(root); h.close(); }
  Node lo; std::string e; if (idx.has_child("state")) e = check_load(c, rf, lo, doms, proto); else { Node got; rib::load_mesh(rf, got); for (int i = 0; i < nd && e.empty(); i++) { Node w; for (auto s : {"coordsets", "topologies", "matsets", "specsets", "fields", "adjsets", "nestsets"}) if (doms[i]->has_child(s)) w[s].set((*doms[i])[s]); if (!got.has_child(dom_name(i))) e = "missing domain"; else e = cmp(w, got[dom_name(i)], proto, ""); } c.count("no_state"); } VCHECK(e.empty(), "foreign", e);
}
FAMILY_LEAK("C23", "file_map", 500, 5000) {
  Rng &r = c.rng; int nd = (int)r.range(1, 40), nf = (int)r.range(1, nd); Node m; rib::gen_domain_to_file_map(nd, nf, m); IV per = ints(m["global_domains_per_file"]), off = ints(m["global_domain_offsets"]), to = ints(m["global_domain_to_file"]); VCHECK((int)per.size() == nf && (int)off.size() == nf && (int)to.size() == nd, "sizes", nd, " ", nf); IV n(nf, 0); for (int i = 0; i < nd; i++) { VCHECK(to[i] >= 0 && to[i] < nf, "range", to[i]); n[to[i]]++; VCHECK(i >= off[to[i]] && i < off[to[i]] + per[to[i]], "offsets", "domain ", i, " file ", to[i]); } VCHECK(n == per, "counts", "domains per file"); VCHECK(*std::max_element(n.begin(), n.end()) - *std::min_element(n.begin(), n.end()) <= 1, "balance", nd, " ", nf); c.count("maps"); c.seen(mix64(nd * 100 + nf));
}
FAMILY_LEAK("C41", "index", 1500, 40000) {
  Rng &r = c.rng; Arena ar; Node mesh; std::vector<const Node *> doms; int nd = r.chance(0.4) ? 1 : (int)r.range(2, 5); bool list = r.chance(0.4); gen(r, mesh, ar, doms, nd, r.chance(0.5) ? 3 : -1, "hdf5", list); Val before = snap(mesh); Node idx; idx["old"] = 1; std::string ref = r.pick(std::vector<std::string>{"", "mesh", "a/b", "d/"}); int total = nd + (int)r.below(3); c.tr("index of ", nd, " domains ref '", ref, "'"); c.seen(hash_str(show(before)));
  conduit::blueprint::mesh::generate_index(mesh, ref, total, idx); Node info; VCHECK(conduit::blueprint::mesh::index::verify(idx, info), "verify", info.to_json().substr(0, 1500)); VCHECK(snap(mesh) == before, "input-changed", "generate_index changed the mesh"); VCHECK(!idx.has_child("old") && idx["state/number_of_domains"].to_int64() == total, "domains", idx["state"].to_json()); std::string pre = ref.empty() ? "" : ref.back() == '/' ? ref : ref + "/";
  static const std::vector<std::string> SE = {"coordsets", "topologies", "matsets", "specsets", "fields", "adjsets", "nestsets"};
  for (auto &s : SE) {
    std::map<std::string, const Node *> all; std::map<std::string, int> n; for (auto d : doms) if (d->has_child(s)) for (auto &k : (*d)[s].child_names()) { all[k] = &(*d)[s][k]; n[k]++; } // a later domain updates the entry
    VCHECK((size_t)(idx.has_child(s) ? idx[s].number_of_children() : 0) == all.size(), "entries", s, ": ", idx.has_child(s) ? idx[s].number_of_children() : 0, " entries want ", all.size());
    for (auto &kv : all) { VCHECK(idx[s].has_child(kv.first), "entries", s, "/", kv.first, " is missing"); const Node &i = idx[s][kv.first], &w = *kv.second; VCHECK(i["path"].as_string() == pre + s + "/" + kv.first, "path", i["path"].as_string()); auto same = [&](const char *k) { VCHECK(!w.has_child(k) || (i.has_child(k) && i[k].as_string() == w[k].as_string()), "attribute", s, "/", kv.first, " ", k, " ", i.to_json()); };
      if (s == "coordsets" || s == "topologies") same("type"); if (s == "topologies") { same("coordset"); same("grid_function"); } if (s == "matsets" || s == "adjsets" || s == "nestsets") same("topology"); if (s == "specsets") same("matset"); if (s == "adjsets" || s == "nestsets" || s == "fields") same("association"); if (s == "fields") { same("topology"); same("matset"); same("volume_dependent"); same("basis"); int64_t nc = 1; if (w.has_child("values")) { if (w["values"].dtype().is_object()) nc = w["values"].number_of_children(); } else if (w["matset_values"].dtype().is_object() && w["matset_values"].child(0).dtype().is_object()) nc = w["matset_values"].child(0).number_of_children(); VCHECK(i["number_of_components"].to_int64() == nc, "components", kv.first, " ", i.to_json()); }
      if (s == "coordsets" && n[kv.first] == 1) { auto a = i["coord_system/axes"].child_names(), b = axes_of(w); VCHECK(std::set<std::string>(a.begin(), a.end()) == std::set<std::string>(b.begin(), b.end()), "axes", i.to_json()); std::string ty = b[0] == "r" || (b.size() > 1 && b[1] == "r") ? (b.size() == 3 ? "spherical" : "cylindrical") : "cartesian"; VCHECK(i["coord_system/type"].as_string() == ty, "coord-system", i.to_json()); }
      if (s == "matsets") { for (auto d : doms) if (d->has_path("matsets/" + kv.first)) { const Node &q = (*d)["matsets"][kv.first]; auto names = q.has_child("material_map") ? q["material_map"].child_names() : q["volume_fractions"].child_names(); for (auto &m : names) VCHECK(i["material_map"].has_child(m), "materials", m, " ", i.to_json()); } } 
      if (s == "specsets") for (auto &m : w["matset_values"].child_names()) for (auto &p : w["matset_values"][m].child_names()) VCHECK(i["species"].has_child(m) && i["species"][m].has_child(p), "species", i.to_json());
      c.count(s); }
  }
  bool cyc = false, tim = false, st = false; for (auto d : doms) { cyc |= d->has_path("state/cycle"); tim |= d->has_path("state/time"); st |= d->has_child("state"); } VCHECK(idx.has_path("state/cycle") == cyc && idx.has_path("state/time") == tim, "state", idx["state"].to_json()); if (cyc) VCHECK(idx["state/cycle"].to_int64() == 3, "state", idx["state"].to_json()); VCHECK(!st || idx["state/path"].as_string() == pre + "state", "state", idx["state"].to_json());
}
