// meshes cut into domains, with the adjacency sets between them
#pragma once
#include "bp_dom.hpp"
using namespace bg;
typedef std::set<int64_t> IS;
struct Grp { std::string name; IS doms; std::vector<size_t> ents; };             // domains by id, entities by global number
struct Adj { std::string assoc; std::vector<Dom> d; std::vector<std::map<size_t, int64_t>> loc; std::vector<Grp> g; bool pair, ranked; int naming; std::vector<IS> who; std::vector<P3> pos; }; // loc: global entity -> local id
static std::string cname(const IS &s) { std::string n = "group"; for (auto q : s) n += "_" + std::to_string(q); return n; }
static Adj gen_adj(Ctx &c, Node &mesh, Arena &ar, bool derive = false) { // derive: for derived meshes
  Rng &r = c.rng; Adj a; MOpts o; o.points = false; o.mixed = false; o.num.fdts = {DataType::FLOAT64_ID}; o.unused = false; if (derive) o.low_dim = false; int nd = (int)r.range(2, 5); a.assoc = derive || r.chance(0.7) ? "vertex" : "element";
  if (a.assoc == "vertex") { do a.d = gen_domains(r, o, nd, !derive && r.chance(0.4)); while (a.d.size() < 2); std::map<K3, size_t> gid; a.loc.resize(a.d.size());
    for (size_t i = 0; i < a.d.size(); i++) for (size_t v = 0; v < a.d[i].m.x.size(); v++) { auto it = gid.emplace(key(a.d[i].m.x[v]), gid.size()).first; if (it->second == a.who.size()) { a.who.emplace_back(); a.pos.push_back(a.d[i].m.x[v]); } a.loc[i].emplace(it->second, (int64_t)v); a.who[it->second].insert(a.d[i].id); } }
  else { o.implicit = false; do { Mesh m = gen_unstructured(r, o); std::set<IV> have; std::vector<Elem> es; for (auto &e : m.e) if (have.insert(sorted(e.v)).second) es.push_back(e); m.e = es; if (m.e.size() < 2) continue; a.d.clear(); a.loc.assign(nd, {}); a.who.assign(m.e.size(), {}); a.pos.assign(m.e.size(), P3{{0, 0, 0}}); std::vector<std::set<int>> own(m.e.size()); for (auto &s : own) do s.insert((int)r.below(nd)); while (r.chance(0.35));
      for (int d = 0; d < nd; d++) { Dom D; D.m = m; D.m.e.clear(); D.m.x.clear(); D.id = d; std::map<int64_t, int64_t> id; auto use = [&](int64_t &v) { auto it = id.find(v); if (it == id.end()) { it = id.emplace(v, (int64_t)D.m.x.size()).first; D.m.x.push_back(m.x[v]); } v = it->second; }; std::vector<size_t> ord; for (size_t i = 0; i < m.e.size(); i++) if (own[i].count(d)) ord.push_back(i); for (size_t i = ord.size(); i > 1; i--) if (r.chance(0.5)) std::swap(ord[i - 1], ord[r.below(i)]);
        for (auto i : ord) { Elem e = m.e[i]; for (auto &v : e.v) use(v); for (auto &f : e.faces) for (auto &v : f) use(v); a.loc[d][i] = (int64_t)D.m.e.size(); D.m.e.push_back(e); } a.d.push_back(D); } bool ok = true; for (auto &d : a.d) ok = ok && !d.m.e.empty(); if (!ok) a.d.clear(); else { int k = (int)r.below(2); for (auto &d : a.d) d.id = k ? d.id * 4 + 1 : d.id; for (size_t i = 0; i < own.size(); i++) for (auto d : own[i]) a.who[i].insert(a.d[d].id); } } while (a.d.size() < 2); }
  if (derive && r.chance(0.3)) for (auto &d : a.d) for (auto &p : d.m.x) for (auto &q : p) q *= 0.1;
  // groups
  a.pair = r.chance(0.4); a.ranked = r.chance(0.5); std::vector<uint64_t> rank; for (size_t i = 0; i < a.who.size(); i++) rank.push_back(r.next()); std::map<IS, std::vector<size_t>> G; for (size_t e = 0; e < a.who.size(); e++) { auto &w = a.who[e]; if (w.size() < 2) continue; if (a.pair) { for (auto p : w) for (auto q : w) if (p < q) G[IS{p, q}].push_back(e); } else G[w].push_back(e); }
  int naming = (int)r.below(3), k = 0; bool split = r.chance(0.3); a.naming = naming; // canonical; arbitrary; names another group should have
  std::vector<std::string> canon; for (auto &g : G) canon.push_back(cname(g.first)); if (naming == 2 && canon.size() > 1) std::rotate(canon.begin(), canon.begin() + 1, canon.end());
  for (auto &g : G) { Grp q; q.doms = g.first; q.ents = g.second; for (size_t i = q.ents.size(); i > 1; i--) std::swap(q.ents[i - 1], q.ents[r.below(i)]); if (a.ranked) std::sort(q.ents.begin(), q.ents.end(), [&](size_t x, size_t y) { return rank[x] < rank[y]; }); q.name = naming == 0 ? cname(g.first) : naming == 2 ? canon[k] : "g" + std::to_string((k * 7) % 10) + "_" + std::to_string(k); k++; if (naming == 1 && split && q.ents.size() > 1) { Grp s = q; size_t h = 1 + r.below(q.ents.size() - 1); s.ents.assign(q.ents.begin() + h, q.ents.end()); q.ents.resize(h); s.name += "b"; a.g.push_back(s); } a.g.push_back(q); }
  for (size_t i = a.g.size(); i > 1; i--) std::swap(a.g[i - 1], a.g[r.below(i)]);
  for (size_t i = 0; i < a.d.size(); i++) { Node &dm = mesh["dom" + std::to_string(i)]; dm["state/domain_id"] = (int64)a.d[i].id; realize_mesh(r, a.d[i].m, dm, ar, o); c.seen(mhash(a.d[i].m)); Node &aj = dm["adjsets/adj"]; aj["association"] = a.assoc; aj["topology"] = "topo"; aj["groups"].set(DataType::object()); int dt = r.pick(std::vector<int>{DataType::INT32_ID, DataType::INT64_ID}); NumOpts no;
    auto gs = a.g; if (r.chance(0.5)) for (size_t q = gs.size(); q > 1; q--) std::swap(gs[q - 1], gs[r.below(q)]);
    for (auto &g : gs) if (g.doms.count(a.d[i].id)) { IV nb, v; for (auto q : g.doms) if (q != a.d[i].id) nb.push_back(q); if (r.chance(0.3)) std::reverse(nb.begin(), nb.end()); for (auto e : g.ents) v.push_back(a.loc[i].at(e)); Node &gn = aj["groups"][g.name]; put_array(r, gn["neighbors"], nb, dt, ar, no); put_array(r, gn["values"], v, dt, ar, no); } }
  c.tr(std::to_string(a.d.size()) + " domains, " + a.assoc + (a.pair ? " pairwise" : "") + " naming " + std::to_string(naming) + ", " + std::to_string(a.g.size()) + " groups, " + desc(a.d[0].m)); for (size_t i = 0; i < a.d.size(); i++) c.tr(mesh.child(i)["adjsets"].to_json()); c.count("groups", a.g.size()); return a;
}
