// what the storage protocols can hold, shared by the I/O harnesses
#pragma once
#include "vf.hpp"
#include <conduit_relay.hpp>
#include <conduit_relay_io_hdf5.hpp>
#include <hdf5.h>
using namespace vf;
using namespace conduit;
namespace rio = conduit::relay::io;
static inline void fix_names(Val &v, const std::function<std::string(const std::string &)> &f) {
  if (v.k == V_OBJ) { std::vector<std::string> nn; std::vector<Val> kk; for (size_t i = 0; i < v.names.size(); i++) { std::string s = f(v.names[i]); if (s.empty() || std::find(nn.begin(), nn.end(), s) != nn.end()) s = "n_" + std::to_string(i); nn.push_back(s); kk.push_back(v.kids[i]); } v.names = nn; v.kids = kk; }
  for (auto &k : v.kids) fix_names(k, f);
}
static inline void each(Val &v, const std::function<void(Val &)> &f) { f(v); for (auto &k : v.kids) each(k, f); }
static inline bool is_num(const Val &v) { return v.k == V_LEAF && is_num_dt(v.dt); }
static inline void tame_floats(Rng &r, Val &v) { each(v, [&](Val &x) { if (x.k == V_LEAF && is_float_dt(x.dt)) for (int64_t i = 0; i < x.n; i++) dispatch_num(x.dt, [&](auto t) { decltype(t) q = (decltype(t))(r.range(-100000, 100000) / 8.0); memcpy(&x.bytes[i * sizeof(q)], &q, sizeof(q)); return 0; }); }); }
static inline void widen(Rng &r, Val &v, bool yaml) {
  each(v, [&](Val &x) {
    if (x.k == V_EMPTY) x = mk_str("none");
    if (x.k == V_OBJ && x.kids.empty()) { x.names.push_back("k"); x.kids.push_back(mk_str("v")); }
    if (x.k != V_LEAF) return;
    if (is_str_dt(x.dt)) { if (yaml) x = mk_str("s" + std::to_string(r.below(1000))); return; }
    if (x.n == 0) { x.n = 1; x.bytes.assign(esize(x.dt), 0); }
    if (is_float_dt(x.dt)) { std::vector<float64> f(x.n); for (auto &q : f) q = r.range(-100000, 100000) / 8.0 + 1.0 / 16; x = mk_arr(f); }
    else { std::vector<int64> f(x.n); for (auto &q : f) q = r.chance(0.2) ? std::numeric_limits<int64>::min() : (int64)r.next() >> r.below(60); x = mk_arr(f); }
  });
}
// what a protocol can hold
static inline void fit(Rng &r, Val &v, const std::string &p) {
  if (p == "hdf5") fix_names(v, [](const std::string &s) { return s.find('/') != std::string::npos || s == "." ? std::string() : s; });
  if (p != "hdf5") fix_names(v, [](const std::string &s) { return s == "dtype" ? std::string() : s; });
  if (p == "conduit_json") tame_floats(r, v);
  if (p == "json" || p == "yaml") widen(r, v, p == "yaml");
  if (p == "yaml" && v.k == V_LEAF && is_str_dt(v.dt)) { Val o; o.k = V_OBJ; o.names = {"w"}; o.kids = {v}; v = o; }
}
static GenOpts opts_for(const std::string &p) { GenOpts g; g.slash_names = p != "hdf5"; if (p == "json" || p == "yaml") { g.lists = false; g.slash_names = false; } return g; }
static Node rand_h5_opts(Rng &r) {
  Node o;
  if (r.chance(0.5)) { o["compact_storage/enabled"] = r.chance(0.5) ? "true" : "false"; if (r.chance(0.7)) o["compact_storage/threshold"] = (int)r.pick(std::vector<int>{0, 8, 24, 1024}); }
  if (r.chance(0.6)) {
    o["chunking/enabled"] = r.chance(0.8) ? "true" : "false"; o["chunking/threshold"] = (int)r.pick(std::vector<int>{0, 8, 40, 2000000}); o["chunking/chunk_size"] = (int)r.pick(std::vector<int>{8, 16, 40, 1000000});
    if (r.chance(0.7)) { o["chunking/compression/method"] = r.chance(0.6) ? "gzip" : "disabled"; o["chunking/compression/level"] = (int)r.range(0, 9); }
  }
  if (r.chance(0.3)) o["libver"] = r.pick(std::vector<std::string>{"default", "none", "latest", "v108"});
  return o;
}
static std::string h5_open() { ssize_t n = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL); return n ? std::to_string((long)n) + " HDF5 identifiers left open" : std::string(); }
struct OptGuard { std::string before; static std::string cur() { Node o; rio::hdf5_options(o); return o.to_json(); } OptGuard() : before(cur()) {} bool same() const { return cur() == before; } };
static inline bool throws(const std::function<void()> &f) { try { f(); } catch (conduit::Error &) { return true; } return false; }
static inline void dirty(Rng &r, Node &n) { if (r.chance(0.5)) { n["a/b"] = 3; n["zz"].set(std::vector<int>(5, 1)); n["alpha"] = "old"; } else if (r.chance(0.3)) n.set(std::vector<double>(4, 2.0)); }
static Val at_path(const Val &v, const std::string &p) { Val o; o.k = V_OBJ; size_t q = p.find('/'); o.names = {p.substr(0, q)}; o.kids = {q == std::string::npos ? v : at_path(v, p.substr(q + 1))}; return o; }

static const std::vector<std::pair<std::string, std::string>> PROTOS = {{"hdf5", ".hdf5"}, {"hdf5", ".h5"}, {"conduit_bin", ".conduit_bin"}, {"conduit_json", ".conduit_json"}, {"conduit_base64_json", ".conduit_base64_json"}, {"json", ".json"}, {"yaml", ".yaml"}, {"conduit_silo", ".silo"}};
