// C25: storage that fails: writes that end early, files that are cut short, damaged or not there.
#include "relay_gen.hpp"
#include <conduit_relay_io_handle.hpp>
#include <conduit_relay_io_blueprint.hpp>
#include <conduit_blueprint.hpp>
#include <sys/resource.h>
#include <sys/stat.h>
#include <dirent.h>
#include <signal.h>
#include <unistd.h>
#include <fstream>
static size_t open_fds() { size_t n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static long fsize(const std::string &p) { struct stat s; return stat(p.c_str(), &s) ? -1 : (long)s.st_size; }
struct Limit { rlimit old; Limit(long n) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); rlimit l = old; l.rlim_cur = (rlim_t)n; setrlimit(RLIMIT_FSIZE, &l); } ~Limit() { setrlimit(RLIMIT_FSIZE, &old); } };
struct Quiet { Quiet() { H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); } };
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
static void spill(const std::string &p, const std::string &s) { std::ofstream f(p, std::ios::binary); f << s; }
static std::vector<std::string> parts(const std::string &fn, const std::string &p) { if (p == "conduit_bin") return {fn, fn + "_json"}; return {fn}; }
enum W { R_FINE, R_ERR, R_OTHER };
template <class F> static W attempt(std::string &why, F f) { try { f(); } catch (const conduit::Error &e) { why = e.message(); return R_ERR; } catch (const std::exception &e) { why = e.what(); return R_OTHER; } return R_FINE; }
static Val gen_for(Rng &r, const std::string &p) { Val v; for (;;) { v = gen_val(r, opts_for(p)); fit(r, v, p); if (r.chance(0.3)) { Val o; o.k = V_OBJ; o.names = {"blk", "rest"}; std::vector<float64> f(r.range(20, 3000)); for (auto &q : f) q = r.range(-1000, 1000) / 8.0 + 1.0 / 16; o.kids = {mk_arr(f), v}; if (v.k != V_EMPTY) v = o; } if (v.k == V_EMPTY && p == "hdf5") continue; if (p == "hdf5" && v.k == V_LEAF) continue; return v; } }
static const std::vector<std::string> TEXT = {"json", "conduit_json", "conduit_base64_json", "yaml"};
static std::string ext_of(const std::string &p) { for (auto &q : PROTOS) if (q.first == p) return q.second; return "." + p; }
FAMILY("C25", "short_write", 1500, 30000) {
  Quiet qt; Rng &r = c.rng; std::string p = r.pick(std::vector<std::string>{"conduit_bin", "json", "conduit_json", "conduit_base64_json", "yaml"}), fn = c.scratch + "/w" + ext_of(p); Val v = gen_for(r, p); Arena ar; Node n; RealOpts ro; realize(r, v, n, ar, ro); c.seen(v.hash() ^ hash_str(p)); for (auto &q : parts(fn, p)) unlink(q.c_str());
  Node o; if (p == "hdf5" && r.chance(0.4)) o["hdf5"] = rand_h5_opts(r); rio::save(n, fn, p, o); std::vector<long> sz; long most = 0; for (auto &q : parts(fn, p)) { sz.push_back(fsize(q)); most = std::max(most, sz.back()); } std::string old; bool over = r.chance(0.3); for (auto &q : parts(fn, p)) if (!over) unlink(q.c_str());
  if (most < 1) return; long lim = r.chance(0.2) ? 0 : r.chance(0.3) ? most - 1 : (long)r.below(most); int api = (int)r.below(3); c.tr(p, " limit ", lim, " of ", most, over ? " over an old file" : "", " api ", api); c.tr(show(v)); size_t fds = open_fds(); bool unclosed = false; std::string why; W w;
  { Limit L(lim); w = attempt(why, [&] { if (p == "hdf5" && api == 1) { rio::IOHandle h; h.open(fn); h.write(n); h.close(); } else if (api == 1) n.save(fn, p); else if (api == 2 && v.k == V_OBJ) { Node ho; ho["mode"] = "wt"; rio::IOHandle h; h.open(fn, p, ho); h.write(n); if (r.chance(0.7)) h.close(); else { unclosed = true; } } else rio::save(n, fn, p, o); }); } if (unclosed) { c.count("unclosed_handles"); for (auto &q : parts(fn, p)) unlink(q.c_str()); return; }
  VCHECK(w != R_OTHER, "exception", p, ": another exception than conduit::Error: ", why); VCHECK(snap(n) == v, "source", "the node changed"); 
  if (w == R_FINE) { Node q; std::string why2; W l = attempt(why2, [&] { rio::load(fn, p, q); }); Node rf; if (api == 2 && v.k == V_OBJ) rf.update(n); else rf.set(n); VCHECK(l == R_FINE && snap(q) == snap(rf), "silent", p, ": the save returned, but the file ", l == R_FINE ? "holds " + show(snap(q)) : "does not load: " + why2); c.count("complete_files"); } else c.count("failures_reported");
  VCHECK(open_fds() == fds, "descriptors", p, ": ", open_fds(), " files open, before ", fds); VCHECK(h5_open().empty(), "ids", h5_open());
  // and after that
  for (auto &q : parts(fn, p)) unlink(q.c_str()); Node q; rio::save(n, fn, p, o); rio::load(fn, p, q); VCHECK(snap(q) == v, "after", p, ": a later save and load gives ", show(snap(q)));
}
FAMILY("C25", "text_short_write", 800, 15000) {
  Rng &r = c.rng; Val v = gen_for(r, "conduit_json"); Arena ar; Node n; RealOpts ro; realize(r, v, n, ar, ro); c.seen(v.hash()); std::string fn = c.scratch + "/t.txt"; unlink(fn.c_str()); int api = (int)r.below(8); std::string exp; Node opts; static const char *N[] = {"to_json_stream", "to_yaml_stream", "to_string_stream", "schema save", "schema to_json_stream", "schema to_yaml_stream", "serialize", "to_summary"}; std::string jp = r.pick(std::vector<std::string>{"json", "conduit_json", "conduit_base64_json"}); bool viaopt = r.chance(0.5); opts["protocol"] = api == 1 ? "yaml" : jp;
  auto go = [&] { switch (api) { case 0: if (viaopt) n.to_json_stream(fn, opts); else n.to_json_stream(fn, jp); break; case 1: if (viaopt) n.to_yaml_stream(fn, opts); else n.to_yaml_stream(fn, "yaml"); break; case 2: if (viaopt) n.to_string_stream(fn, opts); else n.to_string_stream(fn, jp); break; case 3: n.schema().save(fn); break; case 4: n.schema().to_json_stream(fn); break; case 5: n.schema().to_yaml_stream(fn); break; default: n.serialize(fn); } };
  go(); std::string full = slurp(fn); unlink(fn.c_str()); if (full.empty()) return; long lim = r.chance(0.3) ? (long)full.size() - 1 : (long)r.below(full.size()); c.tr(N[api], " limit ", lim, " of ", full.size()); std::string why; W w; { Limit L(lim); w = attempt(why, go); } VCHECK(w == R_ERR, "silent", N[api], ": ", lim, " of ", full.size(), " bytes were written and no conduit::Error was raised ", why); c.count("failures_reported"); unlink(fn.c_str()); go(); VCHECK(slurp(fn) == full, "after", N[api], ": a later write differs");
}
FAMILY_LEAK("C25", "cut", 1500, 30000) {
  Quiet qt; Rng &r = c.rng; std::string p = r.pick(std::vector<std::string>{"conduit_bin", "json", "conduit_json", "conduit_base64_json", "yaml", "hdf5", "hdf5"}), fn = c.scratch + "/c" + ext_of(p); Val v = gen_for(r, p); Arena ar; Node n; RealOpts ro; realize(r, v, n, ar, ro); c.seen(v.hash() ^ hash_str(p)); for (auto &q : parts(fn, p)) unlink(q.c_str()); Node o; if (p == "hdf5" && r.chance(0.4)) o["hdf5"] = rand_h5_opts(r); rio::save(n, fn, p, o);
  auto ps = parts(fn, p); std::string t = r.pick(ps), data = slurp(t); if (data.empty()) return; std::string d = data; int how = (int)r.below(p == "hdf5" ? 2 : 4); if (how == 0) d.resize(r.chance(0.3) ? data.size() - 1 : r.below(data.size())); else if (how == 1) d.resize(r.chance(0.5) ? 0 : r.below(std::min<size_t>(data.size(), 16))); else if (how == 2) { for (int k = 0; k < 1 + (int)r.below(3); k++) d[r.below(d.size())] = (char)r.below(256); } else { size_t at = r.below(d.size()); d.erase(at, 1 + r.below(8)); }
  spill(t, d); c.tr(p, " ", t.substr(t.rfind('/') + 1), " damage ", how, " size ", data.size(), " to ", d.size()); c.tr(show(v)); size_t fds = open_fds(); int api = (int)r.below(3); Node q; if (r.chance(0.3)) q["old"] = 1; std::string why; W w = attempt(why, [&] { if (api == 1 && p == "conduit_bin") q.mmap(fn); else if (api == 1 && p != "hdf5") q.load(fn, p); else if (api == 2) { Node ho; ho["mode"] = r.chance(0.6) || d.empty() ? "r" : "rw"; rio::IOHandle h; h.open(fn, p, ho); h.read(q); h.close(); } else rio::load(fn, p, q); });
  VCHECK(w != R_OTHER, "exception", p, ": another exception than conduit::Error: ", why); if (w == R_FINE) { Val g = snap(q); std::string l = check_links(q, nullptr); VCHECK(l.empty(), "links", l); if (how < 2 && d.size() < data.size() && (p == "hdf5" || t == fn) && (p == "conduit_bin" || p == "hdf5")) VCHECK(g == v, "silent", p, ": ", d.size(), " of ", data.size(), " bytes load as ", show(g)); c.count("still_loads"); } else c.count("refused"); q.reset();
  VCHECK(open_fds() == fds, "descriptors", p, ": ", open_fds(), " files open, before ", fds); VCHECK(h5_open().empty(), "ids", h5_open());
}
FAMILY_LEAK("C25", "absent", 600, 8000) {
  Quiet qt; Rng &r = c.rng; std::string p = r.pick(std::vector<std::string>{"conduit_bin", "json", "conduit_json", "conduit_base64_json", "yaml", "hdf5", "conduit_silo"}), base = c.scratch + "/absent"; std::string fn = base + "/x" + ext_of(p); int how = (int)r.below(3); mkdir(base.c_str(), 0755); if (how == 1) mkdir(fn.c_str(), 0755); if (how == 2) fn = base + "/no/such/dir/x" + ext_of(p); c.tr(p, " case ", how); c.seen(hash_str(p) + how); size_t fds = open_fds(); Node n, q; n["a"] = 3; n["b"].set(std::vector<double>(5, 1.0)); std::string why, path = p == "conduit_silo" ? fn + ":top" : fn;
  W w = attempt(why, [&] { rio::load(path, p, q); }); VCHECK(w == R_ERR, "load", p, ": loading what is not a file gives no conduit::Error ", why); if (how) { w = attempt(why, [&] { rio::save(n, path, p); }); VCHECK(w == R_ERR, "save", p, ": saving to what cannot be a file gives no conduit::Error ", why); } if (p != "conduit_silo") { w = attempt(why, [&] { rio::IOHandle h; h.open(fn, p); h.read(q); }); VCHECK(how == 0 || w == R_ERR, "handle", p, ": a handle on what is not a file gives no conduit::Error ", why); } unlink(fn.c_str()); rmdir(fn.c_str()); unlink((fn + "_json").c_str());
  VCHECK(open_fds() == fds, "descriptors", p, ": ", open_fds(), " files open, before ", fds); c.count("refused");
}
// mesh and table files
static void tree_files(const std::string &d, std::map<std::string, std::string> &out) { DIR *h = opendir(d.c_str()); if (!h) return; while (dirent *e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat s; lstat(p.c_str(), &s); if (S_ISDIR(s.st_mode)) tree_files(p, out); else out[p] = slurp(p); } closedir(h); }
static void wipe(const std::string &d) { DIR *h = opendir(d.c_str()); if (!h) return; std::vector<std::string> ns; while (dirent *e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") ns.push_back(n); } closedir(h); for (auto &n : ns) { std::string p = d + "/" + n; struct stat s; lstat(p.c_str(), &s); if (S_ISDIR(s.st_mode)) wipe(p); else unlink(p.c_str()); } rmdir(d.c_str()); }
FAMILY("C25", "sets_short_write", 300, 6000) {
  Rng &r = c.rng; std::string d = c.scratch + "/set"; wipe(d); mkdir(d.c_str(), 0755); Node n, o; bool csv = r.chance(0.3); std::string p = csv ? "csv" : r.pick(std::vector<std::string>{"json", "yaml"});
  if (csv) { int rows = (int)r.range(1, 200), cols = (int)r.range(1, 5); for (int k = 0; k < cols; k++) { std::vector<float64> f(rows); for (auto &x : f) x = r.range(-1000, 1000) / 8.0; n["values/c" + std::to_string(k)].set(f); } }
  else { int nd = (int)r.range(1, 4); for (int k = 0; k < nd; k++) { Node &m = nd == 1 ? n : n["d" + std::to_string(k)]; std::string bt = r.pick(std::vector<std::string>{"uniform", "quads", "hexs", "points", "rectilinear"}); blueprint::mesh::examples::braid(bt, r.range(2, 4), r.range(2, 4), bt == "quads" ? 0 : r.range(2, 3), m); m["state/domain_id"] = (int64)k; m["state/cycle"] = (int64)1; } if (r.chance(0.5)) o["number_of_files"] = (int)r.range(1, nd); if (r.chance(0.4)) o["file_style"] = r.pick(std::vector<std::string>{"default", "root_only", "multi_file"}); }
  auto go = [&] { if (csv) rio::save(n, d + "/t.csv", "csv"); else rio::blueprint::write_mesh(n, d + "/m", p, o); };
  go(); std::map<std::string, std::string> full; tree_files(d, full); VCHECK(!full.empty(), "none", "no file"); size_t most = 0, least = (size_t)-1; for (auto &f : full) { most = std::max(most, f.second.size()); least = std::min(least, f.second.size()); } wipe(d); mkdir(d.c_str(), 0755); c.seen(hash_str(full.begin()->second) ^ full.size());
  long lim = r.chance(0.4) ? (long)most - 1 : (long)r.below(most); c.tr(p, " ", full.size(), " files, limit ", lim, " of ", most, " ", o.to_json()); size_t fds = open_fds(); std::string why; W w; { Limit L(lim); w = attempt(why, go); }
  VCHECK(w == R_ERR, "silent", p, ": a file of ", most, " bytes could take ", lim, " and no conduit::Error was raised ", why); VCHECK(open_fds() == fds, "descriptors", p, ": ", open_fds(), " files open, before ", fds); c.count("sets_reported"); wipe(d); mkdir(d.c_str(), 0755); go(); std::map<std::string, std::string> again; tree_files(d, again); VCHECK(again == full, "after", p, ": a later save writes something else"); wipe(d);
}
