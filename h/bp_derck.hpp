// what the adjacency sets of derived meshes must say
#pragma once
#include "bp_adjgen.hpp"
namespace bm = conduit::blueprint::mesh;
static const std::vector<std::string> KINDS = {"points", "lines", "faces", "centroids", "sides", "corners"};
static inline bool decomposed(const std::string &k) { return k == "centroids" || k == "sides" || k == "corners"; }
typedef std::set<K3> Ent;
static inline K3 fkey(const P3 &p) { const double S = 65536.0 * 3 * 3 * 5 * 7; return K3{{std::lround(p[0] * S), std::lround(p[1] * S), std::lround(p[2] * S)}}; }
// the entities of a derived mesh, each as its points; false if two of them cannot be told apart
static inline bool entities(const Node &dom, const std::string &kind, std::vector<Ent> &out) {
  if (decomposed(kind)) { Mesh m; read_coords(dom["coordsets/dcs"], m); for (auto &p : m.x) out.push_back(Ent{fkey(p)}); }
  else { Mesh m = read_topo(dom, "dtp"); for (auto &e : m.e) { Ent s; for (auto v : e.v) s.insert(fkey(m.x.at(v))); out.push_back(s); } }
  std::set<Ent> u(out.begin(), out.end()); return u.size() == out.size();
}
// all: every domain; exact: an entity is listed whenever two domains have it
static inline void check_derived(Ctx &c, const std::string &kind, const std::vector<const Node *> &all, bool exact) {
  std::vector<std::vector<Ent>> es(all.size()); std::map<int64_t, size_t> at; std::map<Ent, IS> who;
  for (size_t i = 0; i < all.size(); i++) { int64_t id = (*all[i])["state/domain_id"].to_int64(); at[id] = i; if (!entities(*all[i], kind, es[i])) { c.count("ambiguous"); return; } for (auto &e : es[i]) who[e].insert(id); }
  std::vector<std::map<std::string, std::vector<Ent>>> got(all.size()); std::vector<std::map<Ent, IS>> nb(all.size());
  for (auto &q : at) { size_t i = q.second; const Node &aj = (*all[i])["adjsets/dadj"]; std::string dn = " of domain " + std::to_string(q.first); Node info; VCHECK(bm::adjset::verify(aj, info) || (aj.has_child("groups") ? aj["groups"].number_of_children() == 0 : true), "verify", info.to_json()); VCHECK(aj["association"].as_string() == (decomposed(kind) ? "vertex" : "element") && aj["topology"].as_string() == "dtp", "attributes", aj.to_json()); if (!aj.has_child("groups")) continue; const Node &g = aj["groups"];
    for (index_t k = 0; k < g.number_of_children(); k++) { const Node &gn = g.child(k); IV n = ints(gn["neighbors"]), v = ints(gn["values"]); IS s(n.begin(), n.end()); VCHECK(s.size() == n.size() && !s.count(q.first) && !s.empty(), "neighbors", gn.name() + dn); VCHECK(!v.empty(), "empty", gn.name() + dn); IS w = s; w.insert(q.first); VCHECK(gn.name() == cname(w), "name", gn.name() + " for " + cname(w)); for (auto x : n) VCHECK(at.count(x), "neighbors", "no domain " + std::to_string(x));
      for (auto x : v) { VCHECK(x >= 0 && x < (int64_t)es[i].size(), "value", gn.name() + dn + " names entity " + std::to_string(x) + " of " + std::to_string(es[i].size())); const Ent &e = es[i][x]; VCHECK(nb[i].emplace(e, s).second, "twice", gn.name() + dn + " entity " + std::to_string(x)); got[i][gn.name()].push_back(e); for (auto d : s) VCHECK(who[e].count(d), "not-shared", gn.name() + dn + " lists entity " + std::to_string(x) + ", which domain " + std::to_string(d) + " does not have"); c.count("shared_entities"); } } }
  for (auto &q : at) { size_t i = q.second; for (auto &e : es[i]) { IS w = who[e]; w.erase(q.first); auto it = nb[i].find(e); if (exact) VCHECK(it == nb[i].end() ? w.empty() : it->second == w, "sharing", "an entity of " + std::to_string(e.size()) + " points of domain " + std::to_string(q.first) + " is in " + std::to_string(w.size()) + " other domains, listed with " + std::to_string(it == nb[i].end() ? 0 : it->second.size())); }
    for (auto &g : got[i]) for (auto &p : at) if (p.second < i && g.first.find("_" + std::to_string(p.first)) != std::string::npos) { IS s = nb[i].at(g.second[0]); if (!s.count(p.first)) continue; auto o = got[p.second].find(g.first); VCHECK(o != got[p.second].end(), "one-sided", g.first + " is missing in domain " + std::to_string(p.first)); VCHECK(o->second == g.second, "order", g.first + " differs between domains " + std::to_string(p.first) + " and " + std::to_string(q.first)); } }
}
