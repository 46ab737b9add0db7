// Whole domains: mesh, fields, material sets, species sets, adjacency sets, nesting sets and state.
#pragma once
#include "bp_dom.hpp"
namespace bg {
struct FullOpts { bool matsets = true, adjsets = true, nestsets = true, state = true, second = true, zero = true; };
inline void full_domain(Rng &r, const Mesh &m, Node &d, Arena &ar, const MOpts &o, const FullOpts &fo, int dom, int ndom, int cycle) {
  realize_mesh(r, m, d, ar, o); if (r.chance(0.85)) gen_fields(r, m, d, ar, o, "topo", dom * 10000.0); size_t ne = m.e.size();
  auto num = [&](Node &n, size_t k, int dt, double sc = 1) { std::vector<double> v; for (size_t i = 0; i < k; i++) v.push_back((double)r.range(0, 40) * sc); if (v.empty()) n.set(DataType(dt, 0)); else put_array(r, n, v, dt, ar, o.num); };
  auto idt = [&] { return r.pick(std::vector<int>{DataType::INT32_ID, DataType::INT64_ID}); }; int fdt = DataType::FLOAT64_ID;
  if (fo.second && r.chance(0.2)) { Mesh p; p.dim = m.dim; p.axes = m.axes; p.ctype = "explicit"; p.ttype = "points"; for (int i = 0; i < 3; i++) { p.x.push_back(P3{{i * 0.5, i * 1.0, i * 2.0}}); Elem e; e.shape = "point"; e.v = {i}; p.e.push_back(e); } realize_mesh(r, p, d, ar, o, "coords2", "topo2"); if (r.chance(0.6)) { Node &f = d["fields/on2"]; f["association"] = "vertex"; f["topology"] = "topo2"; num(f["values"], 3, fdt); } }
  if (fo.matsets && r.chance(0.4)) {
    std::vector<std::string> nm = {"steel", "air", "b"}; nm.resize((size_t)r.range(1, 3)); Node &ms = d["matsets/mats"]; ms["topology"] = "topo"; bool uni = r.chance(0.5), only = r.chance(0.4); Node &f = d["fields/mf"]; f["association"] = "element"; f["matset"] = "mats"; if (!only) { f["topology"] = "topo"; num(f["values"], ne, fdt, 0.5); } if (r.chance(0.4)) f["volume_dependent"] = "true";
    if (uni) { IV sz, of, id; for (size_t e = 0; e < ne; e++) { of.push_back((int64_t)id.size()); int k = (int)r.range(1, (int64_t)nm.size()); sz.push_back(k); for (int i = 0; i < k; i++) id.push_back(i * 3 + 1); } for (size_t i = 0; i < nm.size(); i++) ms["material_map"][nm[i]] = (int32)(i * 3 + 1); put_array(r, ms["material_ids"], id, idt(), ar, o.num); put_array(r, ms["sizes"], sz, idt(), ar, o.num); put_array(r, ms["offsets"], of, idt(), ar, o.num); num(ms["volume_fractions"], id.size(), fdt, 0.125); num(f["matset_values"], id.size(), fdt, 0.25); }
    else { if (r.chance(0.5)) for (size_t i = 0; i < nm.size(); i++) ms["material_map"][nm[i]] = (int32)(i * 2); for (auto &s : nm) { num(ms["volume_fractions"][s], ne, fdt, 0.125); if (r.chance(0.2) && nm.size() == 1) for (auto k : {"u", "v"}) num(f["matset_values"][s][k], ne, fdt); else num(f["matset_values"][s], ne, fdt); } if (r.chance(0.4)) { Node &sp = d["specsets/spec"]; sp["matset"] = "mats"; for (auto &s : nm) for (int i = 0; i < 2; i++) num(sp["matset_values"][s][std::string("h") + char('0' + i)], ne, fdt, 0.25); } }
  }
  if (fo.adjsets && r.chance(0.3)) { Node &a = d["adjsets/adj"]; a["topology"] = "topo"; a["association"] = r.chance(0.5) ? "vertex" : "element"; a["groups"].set(DataType::object()); int k = (int)r.range(1, 2); for (int i = 0; i < k; i++) { Node &g = a["groups"][std::string("group_") + char('0' + i)]; g["neighbors"] = (int32)((dom + 1 + i) % std::max(ndom, 2)); num(g["values"], (size_t)r.range(1, 4), idt()); } }
  if (fo.nestsets && r.chance(0.2)) { Node &a = d["nestsets/nest"]; a["topology"] = "topo"; a["association"] = "element"; Node &w = a["windows/window_0"]; w["domain_id"] = (int32)3; w["domain_type"] = "child"; w["ratio/i"] = (int32)2; w["ratio/j"] = (int32)2; w["origin/i"] = (int32)0; w["origin/j"] = (int32)1; }
  if (fo.state && r.chance(0.7)) { if (cycle >= 0) d["state/cycle"] = (int64)cycle; if (r.chance(0.6)) d["state/time"] = cycle * 0.5 + 0.25; if (r.chance(0.6)) d["state/domain_id"] = (int64)(r.chance(0.5) ? dom : dom * 5 + 2); if (r.chance(0.3)) d["state/note"] = "keep me"; }
  else if (cycle >= 0) d["state/cycle"] = (int64)cycle;
}
} // namespace bg
