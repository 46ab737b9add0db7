// C34: mesh operations over MPI. Every rank generates all domains and keeps its own; results are gathered and compared with the whole.
#include "mpi.hpp"
#include "relay_bpio.hpp"
#include "bp_partck.hpp"
#include "bp_derck.hpp"
#include "bp_padjck.hpp"
#include <conduit_relay.hpp>
#include <conduit_relay_io_blueprint.hpp>
#include <conduit_relay_mpi_io_blueprint.hpp>
#include <conduit_blueprint_mpi.hpp>
#include <sys/stat.h>
namespace rm = conduit::relay::mpi;
namespace bpm = conduit::blueprint::mpi::mesh;
namespace mio = conduit::relay::mpi::io::blueprint;
struct G { MPI_Comm comm; int rank, n; };
static G group(Rng &r) { G g; uint64_t k = r.below(3); g.comm = k == 0 ? MPI_COMM_WORLD : k == 1 ? g_rev : g_dup; MPI_Comm_rank(g.comm, &g.rank); MPI_Comm_size(g.comm, &g.n); return g; }
static std::string shared(const Ctx &c) { char b[4096]; snprintf(b, sizeof b, "%s", c.scratch.c_str()); MPI_Bcast(b, sizeof b, MPI_CHAR, 0, MPI_COMM_WORLD); return b; }
// which rank has which of nd domains; in rank order, so that the order over all ranks is the order of the domains
static std::vector<int> spread(Rng &r, const G &g, int nd) { std::vector<int> o(nd); for (auto &x : o) x = (int)r.below(g.n); if (r.chance(0.2)) for (auto &x : o) x = o[0]; std::sort(o.begin(), o.end()); return o; }
static void nothing(Rng &r, Node &n) { if (r.chance(0.5)) n.set(DataType::object()); else n.set(DataType::list()); }
static void share(Rng &r, const G &g, const std::vector<const Node *> &doms, const std::vector<int> &own, Node &mine, bool single_ok = true) {
  bool list = r.chance(0.5), solo = r.chance(0.5); uint64_t e = r.next(); std::vector<size_t> m; for (size_t i = 0; i < doms.size(); i++) if (own[i] == g.rank) m.push_back(i);
  if (m.empty()) { Rng q(e); nothing(q, mine); return; } if (m.size() == 1 && solo && single_ok) { mine.set_external(*doms[m[0]]); return; }
  for (auto i : m) (list ? mine.append() : mine["dom" + std::to_string(i * 3)]).set_external(*doms[i]);
}
static void gen(Rng &r, Node &mesh, Arena &ar, std::vector<const Node *> &doms, int nd, int cycle, const std::string &proto) {
  MOpts o; if (proto != "hdf5") o.num.fdts = {DataType::FLOAT64_ID}; FullOpts fo; bool same = r.chance(0.5); Mesh m0 = gen_mesh(r, o); for (int i = 0; i < nd; i++) { Mesh m = same ? m0 : gen_mesh(r, o); full_domain(r, m, mesh.append(), ar, o, fo, i, nd, cycle); } for (index_t i = 0; i < mesh.number_of_children(); i++) doms.push_back(&mesh.child(i));
}
FAMILY("C34", "save_load", 250, 6000) {
  Rng &r = c.rng; G g = group(r); Arena ar; std::string base = shared(c), dir = base + "/mbp", path = dir + "/m"; MPI_Barrier(MPI_COMM_WORLD); int wr; MPI_Comm_rank(MPI_COMM_WORLD, &wr); if (wr == 0) { rmtree(dir); mkdir(dir.c_str(), 0755); } MPI_Barrier(MPI_COMM_WORLD);
  std::string proto = r.pick(std::vector<std::string>{"hdf5", "hdf5", "yaml", "json"}), style = r.pick(std::vector<std::string>{"", "default", "root_only", "multi_file"}), suffix = r.pick(std::vector<std::string>{"", "default", "cycle", "none"}), mname = r.chance(0.3) ? "my_mesh" : ""; int cycle = r.chance(0.6) || suffix == "cycle" ? (int)r.range(0, 2000000) : -1;
  int nd = r.chance(0.08) ? 0 : (int)(r.chance(0.12) ? r.range(8, 26) : r.range(1, 7)); Node all, mine; std::vector<const Node *> doms; gen(r, all, ar, doms, nd, cycle, proto); auto own = spread(r, g, nd); share(r, g, doms, own, mine); Val before = snap(mine); Node o; if (!style.empty()) o["file_style"] = style; if (!suffix.empty()) o["suffix"] = suffix; if (!mname.empty()) o["mesh_name"] = mname; int nf = 0; if (r.chance(0.6)) { nf = (int)r.range(-1, nd + 2); o["number_of_files"] = nf; }
  c.tr("save ", proto, " domains ", nd, " opts ", o.to_json()); c.seen(mix64(c.idx)); slow(r, g.rank);
  mio::save_mesh(mine, path, proto, o, g.comm); VCHECK(snap(mine) == before, "input-changed", "save_mesh changed the mesh"); MPI_Barrier(MPI_COMM_WORLD); char cb[40]; snprintf(cb, sizeof cb, ".cycle_%06d", cycle); std::string root = path + (suffix == "none" || (suffix != "cycle" && cycle < 0) ? "" : cb) + ".root";
  if (nd == 0) { c.count("nothing_saved"); VCHECK(access(root.c_str(), F_OK) != 0, "no-data", "a root file was written for no data"); MPI_Barrier(MPI_COMM_WORLD); return; }
  { Node got; relay::io::blueprint::load_mesh(root, got); VCHECK(got.number_of_children() == nd, "load", "loaded ", got.number_of_children(), " domains of ", nd); for (int i = 0; i < nd; i++) { VCHECK(got.has_child(dom_name(i)), "load", "no ", dom_name(i)); std::string e = same_domain(*doms[i], i, got[dom_name(i)], proto); VCHECK(e.empty(), "load", dom_name(i), " ", e); } }
  { Node got; got["old"] = 1; mio::load_mesh(root, got, g.comm); Node names, counts; int me = (int)got.number_of_children(); std::vector<int> all_n(g.n); MPI_Allgather(&me, 1, MPI_INT, all_n.data(), 1, MPI_INT, g.comm); int at = 0; for (int i = 0; i < g.rank; i++) at += all_n[i]; int tot = 0; for (auto q : all_n) tot += q; VCHECK(tot == nd, "mpi-load", tot, " domains over all ranks, want ", nd); VCHECK(*std::max_element(all_n.begin(), all_n.end()) - *std::min_element(all_n.begin(), all_n.end()) <= 1, "mpi-load-balance", "uneven"); for (int i = 0; i < me; i++) { VCHECK(got.has_child(dom_name(at + i)), "mpi-load", "rank ", g.rank, " has no ", dom_name(at + i)); std::string e = same_domain(*doms[at + i], at + i, got[dom_name(at + i)], proto); VCHECK(e.empty(), "mpi-load", dom_name(at + i), " ", e); c.count("domains_loaded"); } }
  if (r.chance(0.2)) { Node bad; bool t = false; try { mio::load_mesh(path + ".nofile", bad, g.comm); } catch (conduit::Error &) { t = true; } VCHECK(t, "no-file", "loading a file that is not there did not fail on every rank"); }
  c.count("saved"); MPI_Barrier(MPI_COMM_WORLD);
}
static void sorted(const Node &n, Node &o) { if (!n.dtype().is_object()) { o.set(n); return; } o.set(DataType::object()); auto k = n.child_names(); std::sort(k.begin(), k.end()); for (auto &s : k) sorted(n[s], o.add_child(s)); }
FAMILY("C34", "whole", 600, 15000) { // what the ranks learn about the mesh as a whole
  Rng &r = c.rng; G g = group(r); Arena ar; int nd = (int)r.range(1, 8); Node all, mine; std::vector<const Node *> doms; gen(r, all, ar, doms, nd, 3, "hdf5"); auto own = spread(r, g, nd); std::vector<int64_t> ids(nd); std::set<int64_t> used; for (int i = 0; i < nd; i++) { do ids[i] = r.range(0, 20); while (!used.insert(ids[i]).second); all.child(i)["state/domain_id"].reset(); all.child(i)["state/domain_id"] = (int64)ids[i]; } share(r, g, doms, own, mine); c.tr("domains ", nd); c.seen(mix64(c.idx)); Val before = snap(mine); slow(r, g.rank);
  VCHECK(bpm::number_of_domains(mine, g.comm) == nd, "count", "number_of_domains"); Node info; VCHECK(bpm::verify(mine, info, g.comm), "verify", info.to_json().substr(0, 800));
  Node idx, want; idx["old"] = 1; bpm::generate_index(mine, "mesh", idx, g.comm); blueprint::mesh::generate_index(all, "mesh", nd, want); { Node a, b; sorted(idx, a); sorted(want, b); Val x = snap(a), y = snap(b); VCHECK(x == y, "index", "parallel index: ", idx.to_json(), " serial: ", want.to_json()); }
  Node d2r; bpm::generate_domain_to_rank_map(mine, d2r, g.comm); IV m = ints(d2r); VCHECK((int64_t)m.size() == *used.rbegin() + 1, "rank-map", "length ", m.size()); for (size_t i = 0; i < m.size(); i++) { int64_t w = -1; for (int k = 0; k < nd; k++) if (ids[k] == (int64_t)i) w = own[k]; VCHECK(m[i] == w, "rank-map", "domain ", i, " is on ", m[i], " want ", w); }
  Node del; bpm::find_delegate_domain(mine, del, g.comm); VCHECK(snap(del) == snap(all.child(0)), "delegate", del.schema().to_json().substr(0, 400)); VCHECK(snap(mine) == before, "input-changed", "a query changed the mesh");
  bool bad = r.chance(0.5); if (bad) { int k = (int)r.below(nd); Node broken; share(r, g, doms, own, broken, false); if (own[k] == g.rank) { Node t; t.set(*doms[k]); t["topologies/topo/coordset"] = "nope"; broken.reset(); broken.append().set(t); } Node inf; VCHECK(!bpm::verify(broken, inf, g.comm), "verify-accepts", "an invalid domain on rank ", own[k], " was not reported on rank ", g.rank); c.count("invalid_seen"); }
  { Node q; int at = 0; for (int i = 0; i < nd; i++) { if (own[i] < g.rank) at++; if (own[i] == g.rank) q.append().set(*doms[i]); } bpm::generate_domain_ids(q, g.comm); for (index_t i = 0; i < q.number_of_children(); i++) VCHECK(q.child(i)["state/domain_id"].to_int64() == at + i, "domain-ids", "domain ", i, " of rank ", g.rank, " got id ", q.child(i)["state/domain_id"].to_int64(), " want ", at + i); }
  c.count("wholes");
}
FAMILY("C34", "distribute", 500, 12000) {
  Rng &r = c.rng; G g = group(r); Arena ar; int nd = (int)r.range(1, 7); Node all, mine; std::vector<const Node *> doms; gen(r, all, ar, doms, nd, 3, "hdf5"); auto own = spread(r, g, nd); bool rev = r.chance(0.4); for (int i = 0; i < nd; i++) { all.child(i)["state/domain_id"].reset(); all.child(i)["state/domain_id"] = (int64)(rev ? nd - 1 - i : i); } share(r, g, doms, own, mine); Val before = snap(mine);
  std::vector<std::vector<int>> to(nd); IV sz, of, va; bool gap = r.chance(0.3), nooff = !gap && r.chance(0.4); for (int i = 0; i < nd; i++) { int k = (int)r.range(0, g.n); for (int q = 0; q < k; q++) { int d = (int)r.below(g.n); if (std::find(to[i].begin(), to[i].end(), d) == to[i].end() || r.chance(0.1)) to[i].push_back(d); } if (gap && r.chance(0.5)) va.push_back(99); of.push_back((int64_t)va.size()); sz.push_back((int64_t)to[i].size()); for (auto d : to[i]) va.push_back(d); } if (va.empty()) { va.push_back(0); to[0].push_back(0); sz[0] = 1; for (int i = 1; i < nd; i++) of[i] = 1; }
  bool one = r.chance(0.15); if (one) { va.clear(); for (int i = 0; i < nd; i++) { to[i] = {(int)r.below(g.n)}; va.push_back(to[i][0]); } }
  Node o; put_ids(r, o["domain_map/values"], va); if (!one) put_ids(r, o["domain_map/sizes"], sz); if (!nooff && !one) put_ids(r, o["domain_map/offsets"], of); c.tr(o.to_json(), " rev ", rev); c.seen(mix64(c.idx)); slow(r, g.rank); Node out; if (r.chance(0.3)) out["junk"] = 1; bpm::distribute(mine, o, out, g.comm);
  VCHECK(snap(mine) == before, "input-changed", "distribute changed its input"); std::multiset<int64_t> want, got; for (int i = 0; i < nd; i++) for (auto d : to[i]) if (d == g.rank) want.insert(i); for (auto *d : doms_of(out)) { int64_t id = (*d)["state/domain_id"].to_int64(); VCHECK(id >= 0 && id < nd && snap(*d) == snap(*doms[rev ? nd - 1 - id : id]), "distributed", "domain ", id, " arrived changed on rank ", g.rank); got.insert(id); c.count("domains_arrived"); } VCHECK(got == want, "distributed", "rank ", g.rank, " has ", got.size(), " domains, want ", want.size());
}
static std::string tdiff(const Node &a, const Node &b) { for (auto t : {"vertex_data", "element_data"}) { if (a.has_child(t) != b.has_child(t)) return std::string(t) + (a.has_child(t) ? " is extra" : " is missing"); if (!a.has_child(t)) continue; const Node &x = a[t]["values"], &y = b[t]["values"]; for (auto &s : y.child_names()) { if (!x.has_child(s)) return std::string(t) + "/" + s + " is missing, there is " + x.schema().to_json().substr(0, 500); if (!(snap(x[s]) == snap(y[s]))) return std::string(t) + "/" + s + " parallel " + x[s].schema().to_json() + x[s].to_json().substr(0, 1200) + " serial " + y[s].schema().to_json() + y[s].to_json().substr(0, 1200); } for (auto &s : x.child_names()) if (!y.has_child(s)) return std::string(t) + "/" + s + " is extra"; } return "other difference"; }
FAMILY("C34", "flatten", 500, 12000) {
  Rng &r = c.rng; G g = group(r); MOpts o; o.mixed = false; o.points = false; o.num.fdts = {r.chance(0.6) ? DataType::FLOAT64_ID : DataType::FLOAT32_ID}; auto in = gen_domains(r, o, (int)r.range(1, 6), r.chance(0.5)); int nd = (int)in.size(); Arena ar; Node all, mine;
  auto fs = gen_fspecs(r); for (auto &f : fs) f.mix = false; bool ids = r.chance(0.6); for (int i = 0; i < nd; i++) { Node &n = all.append(); in[i].id = ids ? i * 3 + 1 : i; n["state/domain_id"] = (int64)in[i].id; realize_mesh(r, in[i].m, n, ar, o); std::vector<FSpec> q; for (auto &f : fs) if (r.chance(0.8)) q.push_back(f); put_fields(r, q, in[i], n, ar, o); } std::vector<const Node *> doms; for (int i = 0; i < nd; i++) doms.push_back(&all.child(i)); auto own = spread(r, g, nd); share(r, g, doms, own, mine); Val before = snap(mine);
  Node opt; if (r.chance(0.3)) opt["add_domain_info"] = (int)r.below(2); if (r.chance(0.3)) opt["add_element_centers"] = (int)r.below(2); if (r.chance(0.3)) opt["add_vertex_locations"] = (int)r.below(2); if (r.chance(0.3)) opt["topology"] = "topo"; if (r.chance(0.3)) { opt["fill_value/float"] = 7.5; opt["fill_value/int"] = (int64)9; } Node sopt; sopt.set(opt); int root = 0; bool rk = false; if (r.chance(0.5)) { root = (int)r.below(g.n); opt["root"] = root; } if (r.chance(0.4)) { rk = true; opt["add_rank"] = 1; }
  c.tr(opt.to_json(), all.to_json()); c.seen(mix64(c.idx)); slow(r, g.rank); Node out, want; if (r.chance(0.3)) out["junk"] = 1; bpm::flatten(mine, opt, out, g.comm); VCHECK(snap(mine) == before, "input-changed", "flatten changed its input"); if (g.rank != root) { VCHECK(out.dtype().is_empty() || out.number_of_children() == 0, "not-root", "rank ", g.rank, " has a table"); return; } blueprint::mesh::flatten(all, sopt, want);
  if (rk) { for (auto t : {"vertex_data", "element_data"}) if (out.has_child(t) && want.has_child(t)) { VCHECK(out[t]["values"].has_child("mpi_rank"), "rank-column", t, " has no mpi_rank"); auto v = nums(out[t]["values/mpi_rank"]); size_t row = 0; for (int i = 0; i < nd; i++) { size_t n = t[0] == 'v' ? in[i].m.x.size() : in[i].m.e.size(); for (size_t k = 0; k < n; k++, row++) VCHECK(row < v.size() && v[row] == own[i], "rank-column", t, " row ", row); } out[t]["values"].remove("mpi_rank"); } }
  Node a, b; sorted(out, a); sorted(want, b); for (auto t : {"vertex_data/values/coords", "element_data/values/element_centers"}) if (a.has_path(t) && b.has_path(t)) { const Node &p = a[t], &q = b[t]; VCHECK(p.child_names() == q.child_names(), "axes", p.schema().to_json(), q.schema().to_json()); for (auto &ax : q.child_names()) { auto v = nums(p[ax]), w = nums(q[ax]); VCHECK(v.size() == w.size(), "rows", t, " ", v.size(), " rows want ", w.size()); for (size_t i = 0; i < w.size(); i++) VCHECK(near(v[i], w[i]), "location", t, "/", ax, " row ", i, " = ", v[i], " want ", w[i]); } a[t].reset(); b[t].reset(); } // the serial table takes the type of the first domain, the parallel one the widest
  Val x = snap(a), y = snap(b); VCHECK(x == y, "table", tdiff(a, b)); c.count("tables");
}
FAMILY("C34", "partition", 500, 12000) {
  Rng &r = c.rng; G g = group(r); MOpts o = part_opts(r); bool lat = r.chance(0.4); auto in = gen_domains(r, o, (int)r.range(1, 5), lat); int nd = (int)in.size(); auto fs = gen_fspecs(r); for (auto &f : fs) f.mix = false; Arena ar; Node all, mine; for (int i = 0; i < nd; i++) { Node &n = all.append(); n["state/domain_id"] = (int64)in[i].id; realize_mesh(r, in[i].m, n, ar, o); put_fields(r, fs, in[i], n, ar, o); } std::vector<const Node *> doms; for (int i = 0; i < nd; i++) doms.push_back(&all.child(i)); auto own = spread(r, g, nd);
  Node opt; std::multiset<DE> want; std::vector<int> dr; int nsel = 0, mode = (int)r.below(3);
  if (mode == 0) for (auto &d : in) { nsel++; for (size_t i = 0; i < d.m.e.size(); i++) want.insert({d.id, (int64_t)i}); }
  else if (mode == 1) for (auto &d : in) { IV left; for (size_t i = 0; i < d.m.e.size(); i++) left.push_back((int64_t)i); int k = (int)r.range(0, 2); for (int q = 0; q < k; q++) { IV pick, rest; for (auto e : left) (r.chance(0.5) ? pick : rest).push_back(e); left = rest; if (pick.empty()) continue; Node &s = opt["selections"].append(); s["type"] = "explicit"; s["domain_id"] = (int64)d.id; if (r.chance(0.5)) s["topology"] = "topo"; put_ids(r, s["elements"], pick); for (auto e : pick) want.insert({d.id, e}); nsel++; } }
  else { int K = (int)r.range(1, 4); std::set<int64_t> vals; for (int d = 0; d < nd; d++) { std::vector<int64> v; for (size_t i = 0; i < in[d].m.e.size(); i++) { v.push_back((int64)r.below(K)); vals.insert(v.back()); want.insert({in[d].id, (int64_t)i}); } Node &f = all.child(d)["fields/part"]; f["topology"] = "topo"; f["association"] = "element"; f["values"].set(v); } Node &s = opt["selections"].append(); s["type"] = "field"; s["field"] = "part"; s["domain_id"] = "any"; if (r.chance(0.6)) { dr.resize((size_t)r.range(1, 6)); for (auto &x : dr) x = (int)r.below(g.n); put_ids(r, s["destination_ranks"], IV(dr.begin(), dr.end())); } nsel = (int)vals.size(); }
  if (!nsel) return; share(r, g, doms, own, mine); Val before = snap(mine); size_t target = 0; if (mode != 2 && r.chance(0.75)) { target = (size_t)r.range(1, (int64_t)std::min<size_t>(want.size(), 7)); if (r.chance(0.08)) target = want.size() + (size_t)r.range(1, 3); opt["target"] = (int64)target; target = std::min(target, want.size()); } if (mode != 2 && r.chance(0.2)) opt["mapping"] = 1;
  c.tr(opt.to_json(), all.to_json()); c.seen(mix64(c.idx)); slow(r, g.rank); Node out; if (r.chance(0.3)) out["junk"] = 1; bpm::partition(mine, opt, out, g.comm); VCHECK(snap(mine) == before, "input-changed", "partition changed its input");
  if (mode == 2) for (auto *d : doms_of(out)) { VCHECK(d->has_path("fields/part/values"), "fields", "the selection field was lost"); IV v = ints((*d)["fields/part/values"]); for (auto x : v) VCHECK(x == v[0], "field-mix", "a domain has elements of ", v[0], " and ", x); if (!dr.empty()) { int w = dr[(size_t)v[0] % dr.size()]; VCHECK(w == g.rank, "destination-rank", "the elements of ", v[0], " are on rank ", g.rank, " instead of ", w); c.count("destination_ranks"); } VCHECK((*d)["state/domain_id"].to_int64() == v[0], "destination-domain", "the elements of ", v[0], " are in domain ", (*d)["state/domain_id"].to_int64()); }
  Node mineout, gath, whole; mineout.set(DataType::list()); for (auto *d : doms_of(out)) mineout.append().set(*d); { Node t; t["d"].set(mineout); rm::all_gather_using_schema(t, gath, g.comm); } for (index_t i = 0; i < gath.number_of_children(); i++) for (index_t k = 0; k < gath.child(i)["d"].number_of_children(); k++) whole.append().set(gath.child(i)["d"].child(k)); if (mode == 2) for (index_t i = 0; i < whole.number_of_children(); i++) { VCHECK(whole.child(i).has_path("fields/part/values"), "fields", "the selection field was lost"); whole.child(i)["fields"].remove("part"); }
  auto os = check_output(whole, in, fs, 0, c, "original_element_ids", "original_vertex_ids", true); std::multiset<DE> got; for (auto &q : os) got.insert(q.e.begin(), q.e.end()); VCHECK(got == want, "coverage", got.size(), " elements out, ", want.size(), " selected"); VCHECK(os.size() == (target ? target : (size_t)nsel), "target", os.size(), " output domains, want ", target ? target : (size_t)nsel); c.count("partitions"); if (mode == 2) c.count("field_partitions");
}
FAMILY("C34", "map_back", 300, 8000) { // values computed on the partitioned mesh return to the domains they came from, on whatever rank
  Rng &r = c.rng; G g = group(r); MOpts o = part_opts(r); bool lat = r.chance(0.4); auto in = gen_domains(r, o, (int)r.range(1, 5), lat); int nd = (int)in.size(); auto fs = gen_fspecs(r); for (auto &f : fs) f.mix = false; if (fs.empty()) return; Arena ar; Node all, mine; for (int i = 0; i < nd; i++) { Node &n = all.append(); n["state/domain_id"] = (int64)in[i].id; realize_mesh(r, in[i].m, n, ar, o); put_fields(r, fs, in[i], n, ar, o); }
  std::map<K3, int64_t> gid; for (int d = 0; d < nd; d++) { std::vector<int64> q; for (auto &p : in[d].m.x) q.push_back(gid.emplace(key(p), (int64_t)gid.size()).first->second); Node &f = all.child(d)["fields/global_vertex_ids"]; f["topology"] = "topo"; f["association"] = "vertex"; f["values"].set(q); }
  std::vector<const Node *> doms; for (int i = 0; i < nd; i++) doms.push_back(&all.child(i)); auto own = spread(r, g, nd); size_t total = 0; for (auto &d : in) total += d.m.e.size(); Node opt; opt["target"] = (int64)r.range(1, (int64_t)std::min<size_t>(total, 7)); opt["mapping"] = 1;
  { Node ext; for (int i = 0; i < nd; i++) if (own[i] == g.rank) ext.append().set(*doms[i]); if (ext.number_of_children() == 0) { Rng q(r.next()); nothing(q, mine); } else { r.next(); mine.set(ext); } }
  auto fn = [](double x) { return 2 * x + 1; }; Node mo; std::vector<FSpec> back; for (auto &f : fs) if (back.empty() || r.chance(0.6)) { back.push_back(f); mo["fields"].append() = f.name; } bool gone = r.chance(0.3);
  c.tr(opt.to_json(), " back ", mo.to_json(), " gone ", gone, all.to_json()); c.seen(mix64(c.idx ^ 0x77)); slow(r, g.rank); Node out; bpm::partition(mine, opt, out, g.comm);
  for (auto *n : doms_of(out)) for (auto &f : back) { Node &v = (*const_cast<Node *>(n))["fields"][f.name]["values"]; for (int k = 0; k < f.nc; k++) { Node &q = f.nc == 1 ? v : v[cnames(f.nc)[k]]; auto a = nums(q); for (auto &z : a) z = fn(z); Node t; t.set(a); t.to_data_type(f.dt, q); } }
  if (gone) for (auto *n : doms_of(mine)) for (auto &f : back) const_cast<Node *>(n)->fetch("fields").remove(f.name);
  Val outb = snap(out); auto others = [&]() { Node x(mine); for (auto *n : doms_of(x)) for (auto &f : back) if (n->fetch_existing("fields").has_child(f.name)) const_cast<Node *>(n)->fetch("fields").remove(f.name); return snap(x); }; Val before = others(); slow(r, g.rank);
  bpm::partition_map_back(out, mo, mine, g.comm); VCHECK(snap(out) == outb, "input-changed", "mapping back changed the partitioned mesh"); VCHECK(others() == before, "other-data", "mapping fields back changed other data of the mesh");
  auto dn = doms_of(mine); size_t at = 0; for (int d = 0; d < nd; d++) { if (own[d] != g.rank) continue; VCHECK(at < dn.size(), "map-back", "domains lost"); const Node &n = *dn[at++]; VCHECK(n["state/domain_id"].to_int64() == in[d].id, "map-back", "domain order");
    for (auto &f : back) { VCHECK(n["fields"].has_child(f.name), "map-back", f.name, " missing in domain ", in[d].id); const Node &q0 = n["fields"][f.name]; VCHECK(q0["association"].as_string() == (f.vert ? "vertex" : "element"), "map-back", "association"); std::vector<char> used(in[d].m.x.size(), 0); for (auto &e : in[d].m.e) { for (auto v : e.v) used[v] = 1; for (auto &w : e.faces) for (auto v : w) used[v] = 1; }
      for (int k = 0; k < f.nc; k++) { const Node &q = f.nc == 1 ? q0["values"] : q0["values"][cnames(f.nc)[k]]; auto v = nums(q); size_t m = f.vert ? in[d].m.x.size() : in[d].m.e.size(); VCHECK(v.size() == m, "map-back", f.name, " has ", v.size(), " values, want ", m); for (size_t i = 0; i < m; i++) { if (f.vert && !used[i]) continue; double w = fn(fval(f, in[d], i, k)); VCHECK(v[i] == w, "map-back-value", f.name, "[", i, "] of domain ", in[d].id, " = ", v[i], " want ", w); } } }
    c.count("domains_mapped_back"); }
}
FAMILY("C34", "derive", 400, 10000) { // derived meshes and their adjacency sets
  Rng &r = c.rng; G g = group(r); Arena ar; Node all; Adj a = gen_adj(c, all, ar, true); int nd = (int)a.d.size(), dim = shape_dim(a.d[0].m.e[0].shape); std::string k = r.pick(KINDS); if (dim < 2 && k != "points" && k != "centroids") k = "points"; std::vector<const Node *> doms; for (int i = 0; i < nd; i++) doms.push_back(&all.child(i)); auto own = spread(r, g, nd); Node v, mine; share(r, g, doms, own, v); mine.set(v); if (mine.dtype().is_empty()) nothing(r, mine);
  { std::string os; for (auto q : own) os += std::to_string(q); c.tr(k, " dim ", dim, " on ", os); } c.seen(mix64(c.idx)); slow(r, g.rank); Node x, y, X, Y, whole; whole.set(all);
  if (k == "points") { bpm::generate_points(mine, "adj", "dadj", "dtp", x, y, g.comm); bm::generate_points(whole, "adj", "dadj", "dtp", X, Y); } else if (k == "lines") { bpm::generate_lines(mine, "adj", "dadj", "dtp", x, y, g.comm); bm::generate_lines(whole, "adj", "dadj", "dtp", X, Y); } else if (k == "faces") { bpm::generate_faces(mine, "adj", "dadj", "dtp", x, y, g.comm); bm::generate_faces(whole, "adj", "dadj", "dtp", X, Y); }
  else if (k == "centroids") { bpm::generate_centroids(mine, "adj", "dadj", "dtp", "dcs", x, y, g.comm); bm::generate_centroids(whole, "adj", "dadj", "dtp", "dcs", X, Y); } else if (k == "sides") { bpm::generate_sides(mine, "adj", "dadj", "dtp", "dcs", x, y, g.comm); bm::generate_sides(whole, "adj", "dadj", "dtp", "dcs", X, Y); } else { bpm::generate_corners(mine, "adj", "dadj", "dtp", "dcs", x, y, g.comm); bm::generate_corners(whole, "adj", "dadj", "dtp", "dcs", X, Y); }
  auto md = doms_of(mine); size_t at = 0; bool solo = mine.has_child("topologies"); for (int i = 0; i < nd; i++) if (own[i] == g.rank) { VCHECK(at < md.size(), "domains", "a domain is gone"); VCHECK(snap(*md[at]) == snap(whole.child(i)), "derive-" + k, "domain ", i, " on rank ", g.rank, " has ", (*md[at])["adjsets/dadj"].to_json(), " serial ", whole.child(i)["adjsets/dadj"].to_json()); VCHECK(snap(solo ? x : x.child(at)) == snap(X.child(i)) && snap(solo ? y : y.child(at)) == snap(Y.child(i)), "derive-maps", "domain ", i); at++; c.count("domains_derived"); }
}
FAMILY("C44", "mpi_partition_adjset", 400, 10000) {
  Rng &r = c.rng; G g = group(r); Arena ar; Node all; Adj a = gen_adj(c, all, ar, true); int nd = (int)a.d.size(); std::vector<const Node *> doms; for (int i = 0; i < nd; i++) doms.push_back(&all.child(i)); auto own = spread(r, g, nd); Node mine; share(r, g, doms, own, mine); Val before = snap(mine); Node opt; std::set<std::pair<int64_t, int64_t>> want; padj_options(c, a, opt, want); { std::string os; for (auto q : own) os += std::to_string(q); c.tr("on ", os, opt.to_json()); } c.seen(mix64(c.idx)); slow(r, g.rank); Node out; bpm::partition(mine, opt, out, g.comm); VCHECK(snap(mine) == before, "source-changed", "partition changed its input");
  Node mineout, gath, whole; mineout.set(DataType::list()); for (auto *d : doms_of(out)) mineout.append().set(*d); { Node t; t["d"].set(mineout); rm::all_gather_using_schema(t, gath, g.comm); } for (index_t i = 0; i < gath.number_of_children(); i++) for (index_t k = 0; k < gath.child(i)["d"].number_of_children(); k++) whole.append().set(gath.child(i)["d"].child(k)); auto os = doms_of(whole); size_t n = 0; for (auto *d : os) { n += read_topo(*d, "topo").e.size(); c.tr((*d)["state"].to_json(), d->has_child("adjsets") ? (*d)["adjsets"].to_json() : std::string("-")); } VCHECK(n == want.size(), "elements", n, " elements, ", want.size(), " selected"); check_padj(c, os); c.count("mpi_partitions");
}
