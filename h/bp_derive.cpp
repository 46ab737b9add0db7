// C43: meshes derived from several domains at once, and the adjacency sets between them.
#include "bp_derck.hpp"
#include "conduit_blueprint_mesh_utils.hpp"
namespace U = conduit::blueprint::mesh::utils;
FAMILY_LEAK("C43", "derive", 1500, 30000) {
  Rng &r = c.rng; Node mesh; Arena ar; Adj a = gen_adj(c, mesh, ar, true); bool list = r.chance(0.4); if (list) { Node t; t.set(mesh); mesh.reset(); for (index_t i = 0; i < t.number_of_children(); i++) mesh.append().set(t.child(i)); }
  int dim = a.d[0].m.e[0].shape.empty() ? 0 : shape_dim(a.d[0].m.e[0].shape); std::string k = r.pick(KINDS); if (dim < 2 && k != "points" && k != "centroids") k = "points"; if (k == "faces" && dim < 2) return; c.tr(k, " dim ", dim); c.count("k:" + k);
  Node before; before.set(mesh); Node s2d, d2s; if (r.chance(0.3)) { s2d["old"] = 1; d2s["old"] = 2; for (index_t i = 0; i < mesh.number_of_children(); i++) { mesh.child(i)["adjsets/dadj/groups/old/values"] = 1; } }
  if (k == "points") { if (r.chance(0.5)) bm::generate_points(mesh, "adj", "dadj", "dtp", s2d, d2s); else { U::query::MatchQuery q(mesh); bm::generate_points(mesh, "adj", "dadj", "dtp", s2d, d2s, q); } }
  else if (k == "lines") { if (r.chance(0.5)) bm::generate_lines(mesh, "adj", "dadj", "dtp", s2d, d2s); else { U::query::MatchQuery q(mesh); bm::generate_lines(mesh, "adj", "dadj", "dtp", s2d, d2s, q); } }
  else if (k == "faces") { if (r.chance(0.5)) bm::generate_faces(mesh, "adj", "dadj", "dtp", s2d, d2s); else { U::query::MatchQuery q(mesh); bm::generate_faces(mesh, "adj", "dadj", "dtp", s2d, d2s, q); } }
  else if (k == "centroids") bm::generate_centroids(mesh, "adj", "dadj", "dtp", "dcs", s2d, d2s); else if (k == "sides") bm::generate_sides(mesh, "adj", "dadj", "dtp", "dcs", s2d, d2s);
  else { if (r.chance(0.5)) bm::generate_corners(mesh, "adj", "dadj", "dtp", "dcs", s2d, d2s); else { U::query::PointQuery q(mesh); bm::generate_corners(mesh, "adj", "dadj", "dtp", "dcs", s2d, d2s, q); } }
  VCHECK(mesh.number_of_children() == before.number_of_children() && s2d.number_of_children() == mesh.number_of_children() && d2s.number_of_children() == mesh.number_of_children(), "maps", "a map per domain"); std::vector<const Node *> all;
  for (index_t i = 0; i < mesh.number_of_children(); i++) { Node &d = mesh.child(i), &b = before.child(i); all.push_back(&d); Node t, cs, x, y; const Node &src = b["topologies/topo"]; namespace tu = bm::topology::unstructured;
    if (k == "points") tu::generate_points(src, t, x, y); else if (k == "lines") tu::generate_lines(src, t, x, y); else if (k == "faces") tu::generate_faces(src, t, x, y); else if (k == "centroids") tu::generate_centroids(src, t, cs, x, y); else if (k == "sides") tu::generate_sides(src, t, cs, x, y); else tu::generate_corners(src, t, cs, x, y);
    Node gt; gt.set(d["topologies/dtp"]); gt.remove_child("coordset"); Val gv = snap(gt); if (t.has_child("coordset")) t.remove_child("coordset"); VCHECK(gv == snap(t), "topology", "domain " + std::to_string(i) + " differs from the domain on its own"); if (decomposed(k)) VCHECK(snap(d["coordsets/dcs"]) == snap(cs), "coordset", "domain " + std::to_string(i) + " differs from the domain on its own"); VCHECK(snap(s2d.child(i)) == snap(x) && snap(d2s.child(i)) == snap(y), "maps", "domain " + std::to_string(i) + " differs from the domain on its own");
    VCHECK(snap(d["adjsets/adj"]) == snap(b["adjsets/adj"]) && snap(d["topologies/topo"]) == snap(src) && snap(d["coordsets/coords"]) == snap(b["coordsets/coords"]), "input", "the source of domain " + std::to_string(i) + " changed"); }
  check_derived(c, k, all, k != "lines" || dim < 3); c.count("derived");
}
