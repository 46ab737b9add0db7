// C36: one-to-many relations: index, iterator, compaction, offset generation.
#include "bp_gen.hpp"
using namespace bg;
namespace o2m = conduit::blueprint::o2mrelation;
struct Rel { std::vector<IV> data; size_t ones, paths; bool sizes, indices; size_t len; };
static Rel gen_rel(Rng &r, Node &n, Arena &ar, Ctx &c) {
  Rel q; q.sizes = r.chance(0.8); q.indices = r.chance(0.4); q.paths = (size_t)r.range(1, 3); q.ones = (size_t)r.range(q.sizes || q.indices ? 0 : 1, r.chance(0.1) ? 60 : 8); if (q.ones == 0 && r.chance(0.7)) q.ones = 1;
  std::vector<int> its = {DataType::INT32_ID, DataType::INT64_ID, DataType::INT16_ID, DataType::UINT32_ID, DataType::UINT64_ID, DataType::UINT16_ID}; int si = r.pick(its), oi = r.pick(its), ii = r.pick(its); NumOpts no;
  bool empties = r.chance(0.4); IV sz, of, ix; std::vector<size_t> ord(q.ones); for (size_t i = 0; i < q.ones; i++) ord[i] = i; if (r.chance(0.3)) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
  sz.assign(q.ones, 1); of.assign(q.ones, 0); int64_t at = 0; for (auto o : ord) { if (q.sizes) sz[o] = empties && r.chance(0.3) ? 0 : r.range(1, 4); if (!q.sizes) { of[o] = (int64_t)o; continue; } if (r.chance(0.2)) at += r.range(0, 2); of[o] = at; at += sz[o]; } if (!q.sizes) at = (int64_t)q.ones;
  size_t total = (size_t)at; size_t dn = total; if (q.indices) { dn = total + r.below(4); if (dn == 0) dn = 1; for (size_t i = 0; i < total; i++) ix.push_back((int64_t)r.below(dn)); } else if (q.sizes) dn += r.below(3);
  if (dn == 0) dn = 1; q.len = dn; q.data.resize(q.ones); for (size_t o = 0; o < q.ones; o++) for (int64_t k = 0; k < sz[o]; k++) q.data[o].push_back(q.indices ? ix[of[o] + k] : of[o] + k);
  std::vector<std::string> order = {"data", "sizes", "offsets", "indices", "p1", "p2", "note", "nest"}; for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
  auto put = [&](Node &t, const IV &v, int dt) { if (v.empty()) t.set(DataType(dt, 0)); else put_array(r, t, v, dt, ar, no); };
  for (auto &k : order) { if (k == "sizes" && q.sizes) put(n["sizes"], sz, si); if (k == "offsets" && q.sizes) put(n["offsets"], of, oi); if (k == "indices" && q.indices) put(n["indices"], ix, ii); if (k == "note" && r.chance(0.2)) n["note"] = "text"; if (k == "nest" && r.chance(0.2)) n["nest/x"] = 3;
    size_t p = k == "data" ? 1 : k == "p1" ? 2 : k == "p2" ? 3 : 9; if (p <= q.paths) { std::vector<double> v; for (size_t i = 0; i < dn; i++) v.push_back((double)(p * 40 + (i * 7 + p) % 41)); put_array(r, n[k], v, r.pick(std::vector<int>{DataType::FLOAT64_ID, DataType::FLOAT32_ID, DataType::INT32_ID, DataType::UINT8_ID}), ar, no); } }
  c.tr(n.to_json()); return q;
}
FAMILY_LEAK("C36", "relation", 4000, 100000) {
  Rng &r = c.rng; Node n, info; Arena ar; Rel q = gen_rel(r, n, ar, c); c.seen(mix64(hash_str(n.to_json()))); Val before = snap(n); VCHECK(o2m::verify(n, info), "verify", info.to_json());
  std::set<std::string> want = {"data"}; if (q.paths > 1) want.insert("p1"); if (q.paths > 2) want.insert("p2"); auto dp = o2m::data_paths(n); VCHECK(std::set<std::string>(dp.begin(), dp.end()) == want && dp.size() == want.size(), "data-paths", dp.size());
  IV flat; size_t live = 0; for (auto &d : q.data) for (auto v : d) flat.push_back(v), live++;
  { o2m::O2MIndex x(n), y; y = x; o2m::O2MIndex z(y); if (q.sizes || q.indices) if (q.ones) VCHECK(z.size() == (index_t)q.ones, "index-size", z.size(), " want ", q.ones); for (size_t o = 0; o < q.ones; o++) { VCHECK(z.size((index_t)o) == (index_t)q.data[o].size(), "index-many", o); for (size_t k = 0; k < q.data[o].size(); k++) VCHECK(z.index((index_t)o, (index_t)k) == q.data[o][k], "index", "index(", o, ",", k, ") = ", z.index((index_t)o, (index_t)k), " want ", q.data[o][k]); } }
  { o2m::O2MIterator it(n); IV got; VCHECK(it.elements(o2m::ONE) == (q.sizes || q.indices ? (index_t)q.ones : (index_t)q.len), "elements-one", it.elements(o2m::ONE)); if (q.sizes || q.indices) VCHECK(it.elements(o2m::DATA) == (index_t)live, "elements-data", it.elements(o2m::DATA), " want ", live);
    for (size_t k = 0; it.has_next(); k++) { VCHECK(k < live + 5, "iterate", "more values than the relation has"); index_t pk = it.peek_next(), v = it.next(); VCHECK(pk == v && it.index(o2m::DATA) == v, "peek", pk, " ", v, " ", it.index(o2m::DATA)); got.push_back(v); } if (q.sizes || q.indices) VCHECK(got == flat, "iterate", "forward iteration saw ", got.size(), " values, want ", flat.size());
    it.to_back(); IV bk; for (size_t k = 0; it.has_previous(); k++) { VCHECK(k < live + 5, "iterate-back", "too many"); index_t pk = it.peek_previous(), v = it.previous(); VCHECK(pk == v, "peek-back", pk, " ", v); bk.push_back(v); } std::reverse(bk.begin(), bk.end()); if (q.sizes || q.indices) VCHECK(bk == flat, "iterate-back", "backward iteration saw ", bk.size(), " values, want ", flat.size());
    if (live && (q.sizes || q.indices)) for (int t = 0; t < 4; t++) { index_t k = (index_t)r.below(live); it.to(k, o2m::DATA); VCHECK(it.index(o2m::DATA) == flat[k], "to-data", "to(", k, ") = ", it.index(o2m::DATA)); size_t o = r.below(q.ones); it.to((index_t)o, o2m::ONE); it.to_front(o2m::MANY); IV m; VCHECK(it.elements(o2m::MANY) == (index_t)q.data[o].size(), "elements-many", o); while (it.has_next(o2m::MANY)) { VCHECK(it.next(o2m::MANY) == (index_t)m.size(), "next-many", o); m.push_back(it.index(o2m::DATA)); } VCHECK(m == q.data[o], "many", "element ", o); if (!m.empty()) { size_t b = r.below(m.size()); it.to((index_t)b, o2m::MANY); VCHECK(it.index(o2m::DATA) == q.data[o][b] && it.index(o2m::MANY) == (index_t)b && it.index(o2m::ONE) == (index_t)o, "to-many", o, " ", b); } }
    o2m::O2MIterator cp(it); o2m::O2MIterator as; as = it; if (live && (q.sizes || q.indices)) VCHECK(cp.index(o2m::ONE) == it.index(o2m::ONE) && as.index(o2m::MANY) == it.index(o2m::MANY), "copy", "iterator copies differ"); }
  Node out; if (r.chance(0.3)) out["old"] = 1; o2m::compact_to(n, out); VCHECK(snap(n) == before, "source-changed", "compact_to changed its input"); info.reset(); VCHECK(o2m::verify(out, info), "compact-verify", info.to_json()); c.tr(out.to_json());
  if (q.sizes) { IV os = ints(out["sizes"]), oo = ints(out["offsets"]); VCHECK(!out.has_child("indices") && os.size() == q.ones && oo.size() == q.ones && out["sizes"].dtype().id() == n["sizes"].dtype().id() && out["offsets"].dtype().id() == n["offsets"].dtype().id(), "compact-shape", out.to_json().substr(0, 300)); int64_t at = 0; for (size_t o = 0; o < q.ones; o++) { VCHECK(os[o] == (int64_t)q.data[o].size() && oo[o] == at, "compact-offsets", "one ", o, ": ", os[o], "@", oo[o]); at += os[o]; }
    for (auto &p : dp) { auto a = nums(n[p]), b = nums(out[p]); VCHECK((int64_t)b.size() == at && out[p].dtype().id() == n[p].dtype().id(), "compact-length", p, " ", b.size(), " want ", at); for (size_t i = 0; i < flat.size(); i++) VCHECK(b[i] == a[flat[i]], "compact-data", p, "[", i, "] = ", b[i], " want ", a[flat[i]]); } c.count("compacted"); }
  else VCHECK(snap(out) == before, "compact-same", "a relation without sizes is already compact");
  if (q.sizes) { Node g; g.set(n); if (r.chance(0.5)) g.remove("offsets"); info.reset(); VCHECK(o2m::generate_offsets(g, info), "generate-offsets", info.to_json()); IV s = ints(g["sizes"]), o = ints(g["offsets"]); VCHECK(s.size() == o.size(), "generate-offsets", o.size()); int64_t at = 0; for (size_t i = 0; i < s.size(); i++) { VCHECK(o[i] == at, "generate-offsets", i, ": ", o[i], " want ", at); at += s[i]; } }
  c.count("relations"); c.count("values_iterated", (long)flat.size());
}
