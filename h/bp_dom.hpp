// Meshes cut into domains.
#pragma once
#include "bp_gen.hpp"
namespace bg {
typedef std::array<long, 3> K3;
inline K3 key(const P3 &p) { return K3{{std::lround(p[0] * 4096), std::lround(p[1] * 4096), std::lround(p[2] * 4096)}}; }
inline long posval(const P3 &p, int c) { K3 k = key(p); return (long)(mix64((uint64_t)(k[0] * 73856093L ^ k[1] * 19349663L ^ k[2] * 83492791L) + c) % 100000); }
struct Dom { Mesh m; int64_t id; };
// the pieces of one mesh, each with its own points
inline std::vector<Dom> gen_domains(Rng &r, const MOpts &o, int nd, bool lattice) {
  std::vector<Dom> out;
  if (lattice) { bool kinds = r.chance(0.25);
    Mesh b; b.dim = o.dim ? o.dim : (int)r.range(1, 3); int ax = (int)r.below(b.dim); std::string ty = r.pick(std::vector<std::string>{"uniform", "rectilinear", "structured"}); int64_t n[3] = {0, 0, 0}; std::vector<int64_t> cut; for (int d = 0; d < b.dim; d++) n[d] = r.range(1, 4);
    int64_t tot = 0; for (int i = 0; i < nd; i++) { cut.push_back(r.range(1, 4)); tot += cut.back(); } n[ax] = tot; std::vector<std::vector<double>> a(3, std::vector<double>{0});
    for (int d = 0; d < b.dim; d++) { a[d].clear(); bool odd = !kinds && r.chance(0.3); double p = odd ? r.range(-40, 40) * 0.1 : r.range(-32, 32) / 4.0, s = odd ? r.range(1, 9) * 0.1 : r.range(1, 8) / 4.0; for (int64_t i = 0; i <= n[d]; i++) { a[d].push_back(p); p += ty == "uniform" ? s : odd ? r.range(1, 9) * 0.1 : r.range(1, 8) / 4.0; } }
    std::map<K3, P3> jit; int64_t at = 0; bool gap = r.chance(0.2), shuffle = r.chance(0.3);
    for (int i = 0; i < nd; i++) {
      Dom D; Mesh &m = D.m; m.dim = b.dim; m.ttype = ty; m.ctype = ty == "structured" ? "explicit" : ty; for (int d = 0; d < b.dim; d++) { m.axes.push_back(std::string(1, "xyz"[d])); m.n[d] = d == ax ? cut[i] : n[d]; }
      auto A = a; A[ax].assign(a[ax].begin() + at, a[ax].begin() + at + cut[i] + 1); at += cut[i]; if (gap) for (auto &q : A[ax]) q += 16 * i;
      for (auto z : A[2]) for (auto y : A[1]) for (auto x : A[0]) { P3 p{{x, y, z}}; if (ty == "structured") { auto it = jit.find(key(p)); if (it == jit.end()) { P3 q = p; for (int d = 0; d < b.dim; d++) q[d] += r.range(-6, 6) / 64.0; it = jit.emplace(key(p), q).first; } p = it->second; } m.x.push_back(p); }
      lattice_elems(m, m.dim, m.n); if (kinds) { std::vector<std::string> up = {"rectilinear", "structured", "unstructured"}; std::string k = r.pick(up); if (r.chance(0.7)) { m.ttype = k; m.ctype = k == "rectilinear" ? k : "explicit"; if (ty == "structured") { m.ttype = "unstructured"; m.ctype = "explicit"; } } } out.push_back(D);
    }
    if (shuffle) for (size_t i = out.size(); i > 1; i--) std::swap(out[i - 1], out[r.below(i)]);
  } else {
    Mesh m = gen_unstructured(r, o); std::vector<int> own(m.e.size()); bool blocks = r.chance(0.5); for (size_t i = 0; i < own.size(); i++) own[i] = blocks ? (int)(i * nd / own.size()) : (int)r.below(nd);
    for (int d = 0; d < nd; d++) { Dom D; D.m = m; D.m.e.clear(); D.m.x.clear(); std::map<int64_t, int64_t> id; auto use = [&](int64_t &v) { auto it = id.find(v); if (it == id.end()) { it = id.emplace(v, (int64_t)D.m.x.size()).first; D.m.x.push_back(m.x[v]); } v = it->second; };
      if (r.chance(0.2)) for (int k = 0; k < 2; k++) { int64_t v = (int64_t)r.below(m.x.size()); use(v); } // points no element uses
      for (size_t i = 0; i < own.size(); i++) if (own[i] == d) { Elem e = m.e[i]; for (auto &v : e.v) use(v); for (auto &f : e.faces) for (auto &v : f) use(v); D.m.e.push_back(e); }
      if (!D.m.e.empty()) out.push_back(D); }
  }
  int ids = (int)r.below(3); for (size_t i = 0; i < out.size(); i++) out[i].id = ids == 1 ? (int64_t)i * 3 + 2 : (int64_t)i; if (ids == 2) for (size_t i = out.size(); i > 1; i--) std::swap(out[i - 1].id, out[r.below(i)].id);
  return out;
}
typedef std::pair<int64_t, int64_t> DE;
inline std::vector<const Node *> doms_of(const Node &n) { std::vector<const Node *> o; if (n.dtype().is_empty()) return o; if (n.has_child("topologies")) o.push_back(&n); else for (index_t i = 0; i < n.number_of_children(); i++) o.push_back(&n.child(i)); return o; }
} // namespace bg
