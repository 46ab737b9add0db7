// C39: adjacency sets: conversion, canonical names, validation, comparison, extraction.
#include "bp_dom.hpp"
#include "conduit_blueprint_mesh_utils.hpp"
using namespace bg;
namespace U = conduit::blueprint::mesh::utils;
namespace A = conduit::blueprint::mesh::adjset;
#include "bp_adjgen.hpp"
// the groups of a domain: neighbours and the global entities, in order
struct LG { IV nb; std::vector<size_t> ents; };
static std::map<std::string, LG> read_groups(Ctx &c, const Adj &a, size_t i, const Node &aj) {
  std::map<std::string, LG> o; std::map<int64_t, size_t> back; for (auto &q : a.loc[i]) back[q.second] = q.first; VCHECK(aj["association"].as_string() == a.assoc && aj["topology"].as_string() == "topo", "attributes", aj.to_json()); const Node &g = aj["groups"];
  for (index_t k = 0; k < g.number_of_children(); k++) { LG q; q.nb = ints(g.child(k)["neighbors"]); for (auto v : ints(g.child(k)["values"])) { VCHECK(back.count(v), "value", "group " + g.child(k).name() + " names entity " + std::to_string(v)); q.ents.push_back(back[v]); } o[g.child(k).name()] = q; } return o;
}
FAMILY_LEAK("C39", "convert", 3000, 60000) {
  Rng &r = c.rng; Node mesh; Arena ar; Adj a = gen_adj(c, mesh, ar); Node info; Val before = snap(mesh);
  for (int form = 0; form < 2; form++) { // pairwise, maxshare
    Node out; std::vector<std::map<std::string, LG>> res; bool doms = form == 0 && a.naming != 2 && r.chance(0.3); Node copy;
    if (doms) { copy.set(mesh); U::adjset::to_pairwise_canonical(copy, "adj", "nw"); }
    for (size_t i = 0; i < a.d.size(); i++) { const Node &aj = mesh.child(i)["adjsets/adj"]; info.reset(); VCHECK(A::verify(aj, info), "verify", info.to_json());
      bool pw = true; IS seen; bool ms = true; for (auto &g : a.g) if (g.doms.count(a.d[i].id)) { pw = pw && g.doms.size() == 2; for (auto e : g.ents) ms = seen.insert((int64_t)e).second && ms; } VCHECK(A::is_pairwise(aj) == pw, "is_pairwise", "domain " + std::to_string(i)); VCHECK(A::is_maxshare(aj) == ms, "is_maxshare", "domain " + std::to_string(i));
      Node &od = out["dom" + std::to_string(i)]; od.set(mesh.child(i)); Node &d = doms ? copy.child(i)["adjsets/nw"] : od["adjsets/nw"]; if (!doms) { if (r.chance(0.3)) d["old/x"] = 3; if (form) A::to_maxshare(aj, d); else A::to_pairwise(aj, d); } info.reset(); VCHECK(A::verify(d, info), "verify result", info.to_json() + d.to_json()); res.push_back(read_groups(c, a, i, d)); VCHECK(U::adjset::is_canonical(d), "canonical", "names " + d["groups"].to_json());
      if (form) VCHECK(A::is_maxshare(d), "is_maxshare", "of the converted set"); else VCHECK(A::is_pairwise(d), "is_pairwise", "of the converted set"); if (!doms) VCHECK(!d.has_child("old"), "stale", "old contents stay"); }
    VCHECK(snap(mesh) == before, "input", "the mesh changed");
    // what each domain must hold
    for (size_t i = 0; i < a.d.size(); i++) { std::map<IS, IS> want; for (auto &e : a.loc[i]) { auto &w = a.who[e.first]; if (w.size() < 2) continue; if (form) want[w].insert((int64_t)e.first); else for (auto q : w) if (q != a.d[i].id) want[IS{q, a.d[i].id}].insert((int64_t)e.first); }
      VCHECK(res[i].size() == want.size(), "groups", std::to_string(res[i].size()) + " groups for " + std::to_string(want.size()) + " in domain " + std::to_string(i)); for (auto &w : want) { auto it = res[i].find(cname(w.first)); VCHECK(it != res[i].end(), "group name", cname(w.first) + " is missing in domain " + std::to_string(i)); IS nb(it->second.nb.begin(), it->second.nb.end()); nb.insert(a.d[i].id); VCHECK(nb == w.first && it->second.nb.size() + 1 == nb.size(), "neighbors", it->first); IS es(it->second.ents.begin(), it->second.ents.end()); VCHECK(es == w.second && es.size() == it->second.ents.size(), "entities", it->first + " of domain " + std::to_string(i));
        if (!form || !a.pair || a.ranked) for (size_t j = 0; j < i; j++) if (w.first.count(a.d[j].id)) { auto o = res[j].find(it->first); VCHECK(o != res[j].end() && o->second.ents == it->second.ents, "order", it->first + " differs between domains " + std::to_string(j) + " and " + std::to_string(i)); } } } c.count(form ? "maxshare" : "pairwise"); }
  // names only
  Node k; k.set(mesh); bool unique = true; for (size_t i = 0; i < a.d.size(); i++) { std::set<IS> s; for (auto &g : a.g) if (g.doms.count(a.d[i].id)) unique = s.insert(g.doms).second && unique; } if (unique) for (size_t i = 0; i < a.d.size(); i++) { Node &aj = k.child(i)["adjsets/adj"]; auto old = read_groups(c, a, i, aj); U::adjset::canonicalize(aj); VCHECK(U::adjset::is_canonical(aj), "canonicalize", "names stay"); auto nw = read_groups(c, a, i, aj); VCHECK(nw.size() == old.size(), "canonicalize", "groups lost"); for (auto &q : nw) { IS s(q.second.nb.begin(), q.second.nb.end()); s.insert(a.d[i].id); VCHECK(q.first == cname(s), "canonicalize", q.first + " names a group of " + cname(s)); bool f = false; for (auto &p : old) f = f || (p.second.nb == q.second.nb && p.second.ents == q.second.ents); VCHECK(f, "canonicalize", "contents of " + q.first); } c.count("canonicalized"); }
}
FAMILY_LEAK("C39", "validate", 3000, 60000) {
  Rng &r = c.rng; Node mesh, info; Arena ar; Adj a = gen_adj(c, mesh, ar); Val before = snap(mesh); bool any = !a.g.empty();
  bool ok = U::adjset::validate(mesh, "adj", info); VCHECK(ok, "refused", "a right adjset is refused: " + info.to_json().substr(0, 500)); VCHECK(snap(mesh) == before, "input", "the mesh changed"); if (!any) return;
  Node bad; bad.set(mesh); size_t gi = r.below(a.g.size()); Grp &g = a.g[gi]; std::vector<size_t> in; for (size_t i = 0; i < a.d.size(); i++) if (g.doms.count(a.d[i].id)) in.push_back(i); size_t i = in[r.below(in.size())]; Node &gn = bad.child(i)["adjsets/adj/groups"][g.name]; IV v = ints(gn["values"]), nb = ints(gn["neighbors"]); size_t at = r.below(v.size()); int how = (int)r.below(5); std::string what;
  if (how == 0) { // an entity the neighbour does not have
    std::vector<int64_t> cand; for (auto &q : a.loc[i]) { bool miss = false; for (auto n : nb) miss = miss || !a.who[q.first].count(n); if (miss) cand.push_back(q.second); } if (cand.empty()) return; v[at] = cand[r.below(cand.size())]; what = "entity of no neighbour"; }
  else if (how == 1) { v[at] = (int64_t)(a.assoc == "vertex" ? a.d[i].m.x.size() : a.d[i].m.e.size()) + r.range(0, 3); what = "id beyond the end"; }
  else if (how == 2) { v[at] = -r.range(1, 3); what = "negative id"; }
  else if (how == 3) { for (auto &q : a.g) if (q.doms == g.doms && q.name != g.name) return; if (!a.pair && g.doms.size() > 2) return; for (auto &q : a.g) if (q.name != g.name && q.doms.count(nb[0]) && q.doms.count(a.d[i].id)) return; bad.child(i)["adjsets/adj/groups"].remove(g.name); what = "one side only"; }
  else { nb[r.below(nb.size())] = 99; what = "unknown neighbour"; }
  if (how < 3) gn["values"].set(v); if (how == 4) gn["neighbors"].set(nb); c.tr("damage: " + what); info.reset(); bool threw = false; std::string why; try { ok = U::adjset::validate(bad, "adj", info); } catch (const conduit::Error &e) { threw = true; why = e.message(); } VCHECK(threw ? how >= 3 : !ok, "accepted", what + (threw ? " throws " + why : std::string(" is accepted")) + " in domain " + std::to_string(i) + " group " + g.name); if (!threw) VCHECK(info.number_of_children() > 0, "info", "no reason given"); c.count("damages_refused");
}
FAMILY_LEAK("C39", "compare", 2500, 50000) {
  Rng &r = c.rng; Node mesh, info; Arena ar; Adj a = gen_adj(c, mesh, ar); if (a.naming == 2 || (a.assoc == "element" && a.d[0].m.shape == "polyhedral")) return; for (auto &d : a.d) if (d.m.ctype != "explicit") { c.count("implicit_skipped"); return; } Val before = snap(mesh);
  bool ok = U::adjset::compare_pointwise(mesh, "adj", info); VCHECK(ok, "refused", "a right adjset differs: " + info.to_json().substr(0, 400)); VCHECK(snap(mesh) == before, "input", "the mesh changed: " + mesh.child(0)["adjsets"].to_json()); c.count("compared");
  Node topo; U::adjset::to_topo(mesh, "adj", topo); VCHECK(snap(mesh) == before, "input", "the mesh changed"); size_t want = 0; std::map<IS, IS> P; for (size_t e = 0; e < a.who.size(); e++) for (auto p : a.who[e]) for (auto q : a.who[e]) if (p < q) P[IS{p, q}].insert((int64_t)e); want = 2 * P.size(); size_t got = topo.has_child("topologies") ? topo["topologies"].number_of_children() : 0; VCHECK(got == want, "to_topo", std::to_string(got) + " topologies for " + std::to_string(want));
  for (auto &q : P) for (auto d : q.first) { std::string n = "adj_" + std::to_string(d) + "_" + cname(q.first); VCHECK(topo["topologies"].has_child(n), "to_topo", n + " missing"); Mesh g; g.dim = a.d[0].m.dim; read_coords(topo["coordsets"][n + "_coords"], g); size_t di = 0; while (a.d[di].id != d) di++; std::multiset<K3> x, y; for (auto &p : g.x) x.insert(key(p)); if (a.assoc == "vertex") for (auto e : q.second) y.insert(key(a.pos[e])); else { IS vs; for (auto e : q.second) for (auto v : a.d[di].m.e[a.loc[di].at((size_t)e)].v) vs.insert(v); for (auto v : vs) y.insert(key(a.d[di].m.x[v])); } VCHECK(x == y, "to_topo", "points of " + n); auto rel = read_o2m(topo["topologies"][n]["elements"], "connectivity", true); VCHECK(rel.size() == q.second.size(), "to_topo", "entities of " + n); c.count("extracted"); }
  // two entries of one side change places
  std::vector<size_t> cand; for (size_t i = 0; i < a.g.size(); i++) if (a.g[i].ents.size() > 1) cand.push_back(i); if (cand.empty()) return; Grp &g = a.g[cand[r.below(cand.size())]]; std::vector<size_t> in; for (size_t i = 0; i < a.d.size(); i++) if (g.doms.count(a.d[i].id)) in.push_back(i); size_t i = in[r.below(in.size())]; Node bad; bad.set(mesh); Node &vn = bad.child(i)["adjsets/adj/groups"][g.name]["values"]; IV v = ints(vn); size_t x = r.below(v.size()), y = r.below(v.size()); if (x == y) return; std::swap(v[x], v[y]); vn.set(v); Val b2 = snap(bad); info.reset(); VCHECK(!U::adjset::compare_pointwise(bad, "adj", info), "accepted", "swapped entries " + std::to_string(x) + " and " + std::to_string(y) + " of group " + g.name + " in domain " + std::to_string(i)); VCHECK(snap(bad) == b2, "input", "the mesh changed"); VCHECK(info.number_of_children() > 0, "info", "no reason given"); c.count("swaps_refused");
}
