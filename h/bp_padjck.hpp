// what the adjacency sets of a partitioned mesh must say
#pragma once
#include "bp_adjgen.hpp"
// a partition of the mesh: all of it or some elements, into some number of domains
static inline void padj_options(Ctx &c, const Adj &a, Node &opt, std::set<std::pair<int64_t, int64_t>> &want) {
  Rng &r = c.rng; size_t nsel = 0; bool all = r.chance(0.5);
  if (all) { for (auto &d : a.d) { for (size_t i = 0; i < d.m.e.size(); i++) want.insert({d.id, (int64_t)i}); nsel++; } }
  else for (auto &d : a.d) { std::vector<IV> parts(r.range(1, 3)); bool some = r.chance(0.4); for (size_t i = 0; i < d.m.e.size(); i++) if (!some || r.chance(0.7)) { parts[r.below(parts.size())].push_back((int64_t)i); } for (auto &p : parts) if (!p.empty()) { Node &s = opt["selections"].append(); s["type"] = "explicit"; s["domain_id"] = (int64)d.id; s["topology"] = "topo"; std::vector<int64> q(p.begin(), p.end()); s["elements"].set(q); for (auto e : p) want.insert({d.id, e}); nsel++; } }
  if (!nsel) { opt.reset(); for (auto &d : a.d) for (size_t i = 0; i < d.m.e.size(); i++) want.insert({d.id, (int64_t)i}); nsel = a.d.size(); }
  if (r.chance(0.75)) opt["target"] = (int64)r.range(1, (int64_t)std::min<size_t>(want.size(), 6));
  if (r.chance(0.2)) opt["mapping"] = 0;
}
static inline void check_padj(Ctx &c, const std::vector<const Node *> &all) {
  std::map<int64_t, std::map<K3, int64_t>> pts; std::map<int64_t, const Node *> by; std::map<int64_t, std::vector<K3>> at;
  for (auto *d : all) { int64_t id = (*d)["state/domain_id"].to_int64(); VCHECK(!by.count(id), "domain-id", "two domains ", id); by[id] = d; Mesh m = read_topo(*d, "topo"); for (size_t v = 0; v < m.x.size(); v++) { VCHECK(pts[id].emplace(key(m.x[v]), (int64_t)v).second, "points", "two points of domain ", id, " in the same place"); at[id].push_back(key(m.x[v])); } }
  std::map<std::pair<int64_t, int64_t>, std::vector<K3>> said; std::map<std::pair<int64_t, int64_t>, std::string> nm;
  for (auto &b : by) { if (by.size() > 1) { size_t sh = 0; for (auto &o : by) if (o.first != b.first) for (auto &p : pts[b.first]) sh += pts[o.first].count(p.first); if (!sh && !b.second->has_path("adjsets/adj/groups")) continue; } else if (!b.second->has_child("adjsets")) continue;
    VCHECK(b.second->has_path("adjsets/adj/groups"), "adjset", "domain ", b.first, " has no adjset"); Node info; VCHECK(bm::adjset::verify((*b.second)["adjsets/adj"], info), "valid", (*b.second)["adjsets/adj"].to_json(), info.to_json()); VCHECK((*b.second)["adjsets/adj/association"].as_string() == "vertex" && (*b.second)["adjsets/adj/topology"].as_string() == "topo", "adjset", "association or topology");
    const Node &g = (*b.second)["adjsets/adj/groups"]; for (index_t i = 0; i < g.number_of_children(); i++) { index_t_accessor nb = g.child(i)["neighbors"].value(), v = g.child(i)["values"].value(); VCHECK(nb.number_of_elements() == 1, "neighbors", g.to_json()); int64_t o = nb[0]; VCHECK(by.count(o) && o != b.first, "neighbors", "domain ", b.first, " names domain ", o); auto &s = said[{b.first, o}]; VCHECK(!nm.count({b.first, o}), "groups", "two groups for one pair"); nm[{b.first, o}] = g.child(i).name(); for (index_t k = 0; k < v.number_of_elements(); k++) { VCHECK(v[k] >= 0 && v[k] < (index_t)at[b.first].size(), "values", "domain ", b.first, " lists point ", v[k]); s.push_back(at[b.first][v[k]]); } } }
  for (auto &x : by) for (auto &y : by) if (x.first != y.first) { std::set<K3> want; for (auto &p : pts[x.first]) if (pts[y.first].count(p.first)) want.insert(p.first); auto &s = said[{x.first, y.first}]; std::set<K3> got(s.begin(), s.end()); VCHECK(got.size() == s.size(), "twice", "domain ", x.first, " lists a point twice for ", y.first); VCHECK(got == want, "shared", "domain ", x.first, " lists ", got.size(), " points for domain ", y.first, ", they share ", want.size()); VCHECK((s == said[{y.first, x.first}]), "order", "the points domains ", x.first, " and ", y.first, " share are in a different order"); VCHECK((nm[{x.first, y.first}] == nm[{y.first, x.first}]), "names", "group names differ"); c.count("shared_points", want.size()); }
  c.count("partitioned"); if (by.size() > 1) c.count("several_domains");
}
