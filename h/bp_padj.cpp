// C44: the adjacency sets of a partitioned mesh name the points its domains share.
#include "bp_adjgen.hpp"
#include "bp_partck.hpp"
#include "bp_padjck.hpp"
static bool lat(const Adj &a) { for (auto &d : a.d) if (d.m.ttype != "unstructured") return true; return false; }
static void do_padj(Ctx &c, bool lattice) {
  Rng &r = c.rng; Node mesh; Arena ar; Adj a; do { mesh.reset(); a = gen_adj(c, mesh, ar); } while (a.assoc != "vertex" || lat(a) != lattice);
  Node opt; std::set<std::pair<int64_t, int64_t>> want; padj_options(c, a, opt, want); if (r.chance(0.1)) opt["build_adjsets"] = 0; c.tr(opt.to_json()); for (index_t i = 0; i < mesh.number_of_children(); i++) c.tr(mesh.child(i).to_json());
  Node out; Val before = snap(mesh); try { bm::partition(mesh, opt, out); } catch (const Error &e) { if (!lattice || std::string(e.message()).find("unimplemented") == std::string::npos) throw; c.count("structured_refused"); return; } for (auto *d : doms_of(out)) c.tr("out ", (*d)["state"].to_json(), d->has_child("adjsets") ? (*d)["adjsets"].to_json() : std::string("-")); VCHECK(snap(mesh) == before, "source-changed", "partition changed its input"); if (opt.has_child("build_adjsets")) { for (auto *d : doms_of(out)) { VCHECK(!d->has_child("adjsets"), "unwanted", "an adjset although none was asked for"); } c.count("without_adjsets"); return; } std::vector<const Node *> all = doms_of(out); size_t n = 0; for (auto *d : all) n += read_topo(*d, "topo").e.size(); VCHECK(n == want.size(), "elements", n, " elements, ", want.size(), " selected"); check_padj(c, all);
}
FAMILY_LEAK("C44", "partition_adjset", 1500, 30000) { do_padj(c, false); }
FAMILY("C44", "structured_adjset", 600, 12000) { do_padj(c, true); }
