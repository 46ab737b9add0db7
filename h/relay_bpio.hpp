// Comparing a loaded mesh with the one that was saved.
#pragma once
#include "bp_full.hpp"
namespace bg {
inline bool text_proto(const std::string &p) { return p == "json" || p == "yaml" || p == "conduit_json"; }
inline bool typed_proto(const std::string &p) { return p != "json" && p != "yaml"; }
inline std::string cmp(const Node &w, const Node &g, const std::string &proto, const std::string &at) {
  if (w.dtype().is_object()) { if (w.number_of_children() == 0) return g.number_of_children() ? at + " has children" : ""; if (!g.dtype().is_object()) return at + " is not an object"; for (auto &s : w.child_names()) { if (!g.has_child(s)) return at + "/" + s + " is missing"; std::string e = cmp(w[s], g[s], proto, at + "/" + s); if (!e.empty()) return e; } for (auto &s : g.child_names()) if (!w.has_child(s)) return at + "/" + s + " is new"; return ""; }
  if (w.dtype().is_list()) { if (g.number_of_children() != w.number_of_children()) return at + " has another length"; for (index_t i = 0; i < w.number_of_children(); i++) { std::string e = cmp(w.child(i), g.child(i), proto, at + "/" + std::to_string(i)); if (!e.empty()) return e; } return ""; }
  if (w.dtype().is_string()) return g.dtype().is_string() && g.as_string() == w.as_string() ? "" : at + " is not the string " + w.as_string();
  if (w.dtype().is_empty()) return g.dtype().is_empty() ? "" : at + " is not empty";
  if (!typed_proto(proto) && w.dtype().number_of_elements() == 0) return "";
  if (!g.dtype().is_number()) return at + " is not numeric";
  if (typed_proto(proto) && g.dtype().id() != w.dtype().id()) return at + " is " + g.dtype().name() + " want " + w.dtype().name();
  if (g.dtype().number_of_elements() != w.dtype().number_of_elements()) return at + " has " + std::to_string(g.dtype().number_of_elements()) + " elements want " + std::to_string(w.dtype().number_of_elements());
  auto a = nums(w), b = nums(g); for (size_t i = 0; i < a.size(); i++) if (text_proto(proto) ? std::fabs(a[i] - b[i]) > 1e-6 * (1 + std::fabs(a[i])) : a[i] != b[i]) return at + "[" + std::to_string(i) + "] = " + std::to_string(b[i]) + " want " + std::to_string(a[i]);
  return "";
}
// what a mesh file keeps of a domain: the blueprint sections and its state, with the number it is stored under
inline void kept(const Node &d, int id, const std::string &proto, Node &out) { out.reset(); for (auto s : {"coordsets", "topologies", "matsets", "specsets", "fields", "adjsets", "nestsets", "state"}) if (d.has_child(s)) out[s].set(d[s]); out["state/domain_id"].reset(); out["state/domain_id"] = (int32)id; }
inline std::string same_domain(const Node &want, int id, const Node &got, const std::string &proto) { Node w; kept(want, id, proto, w); Node g; g.set_external(got); if (!g.has_path("state/domain_id") || g["state/domain_id"].to_int64() != id) return "state/domain_id is not " + std::to_string(id); w["state"].remove("domain_id"); Node gs; gs.set(g["state"]); gs.remove("domain_id"); std::string e; Node ws; ws.set(w["state"]); w.remove("state"); Node g2; for (auto &s : g.child_names()) if (s != "state") g2[s].set_external(g[s]); e = cmp(w, g2, proto, ""); if (e.empty()) e = cmp(ws, gs, proto, "state"); return e; }
inline std::string dom_name(int i) { char b[32]; snprintf(b, sizeof b, "domain_%06d", i); return b; }
} // namespace bg
