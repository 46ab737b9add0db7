// C02: copies are independent, externals alias, storage is released exactly once.
#include "vf.hpp"
using namespace vf;
using namespace conduit;

struct Range { uintptr_t a, b; };
static void ranges(const Node &n, std::vector<Range> &out) {
  if (n.dtype().is_object() || n.dtype().is_list()) { for (index_t i = 0; i < n.number_of_children(); i++) ranges(n.child(i), out); return; }
  if (n.dtype().is_empty()) return;
  const DataType &d = n.dtype();
  for (index_t i = 0; i < d.number_of_elements(); i++) { uintptr_t p = (uintptr_t)n.data_ptr() + d.offset() + i * d.stride(); out.push_back({p, p + esize((int)d.id())}); }
}
static bool overlap(std::vector<Range> x, std::vector<Range> y) {
  for (auto &a : x) for (auto &b : y) if (a.a < b.b && b.a < a.b) return true;
  return false;
}
static void scribble(const Node &n, uint8_t pat) { // overwrite every element in place
  std::vector<Range> r; ranges(n, r);
  for (auto &x : r) memset((void *)x.a, pat, x.b - x.a);
}
static Val scribbled(const Val &v, uint8_t pat) { Val w = v; if (w.k == V_LEAF) std::fill(w.bytes.begin(), w.bytes.end(), pat); for (auto &k : w.kids) k = scribbled(k, pat); return w; }
static void walk(Node &n, const std::function<void(Node &)> &f) { f(n); if (n.dtype().is_object() || n.dtype().is_list()) for (index_t i = 0; i < n.number_of_children(); i++) walk(n.child(i), f); }

FAMILY_LEAK("C02", "copies", 3000, 60000) {
  Rng &r = c.rng;
  GenOpts g; Val v = gen_val(r, g);
  std::unique_ptr<Arena> ar(new Arena()); RealOpts o; o.foreign_endian = true;
  std::unique_ptr<Node> src(new Node());
  realize(r, v, *src, *ar, o);
  VCHECK(snap(*src) == v, "layout-read", show(v), " reads ", show(snap(*src)));
  std::unique_ptr<Node> dst;
  if (r.chance(0.5)) { dst.reset(new Node()); if (r.chance(0.5)) { Val w = gen_val(r, g); realize(r, w, *dst, *ar, RealOpts()); } }
  int how = (int)r.below(8);
  c.tr("copy how=", how, " ", show(v)); c.seen(v.hash() ^ how);
  Val want = v;
  switch (how) {
  case 0: if (!dst) dst.reset(new Node()); dst->set(*src); break;
  case 1: if (!dst) dst.reset(new Node()); *dst = *src; break;
  case 2: dst.reset(new Node(*src)); break;
  case 3: if (!dst) dst.reset(new Node()); src->compact_to(*dst); break;
  case 4: dst.reset(new Node()); dst->update(*src); break;
  case 5: { if (!dst) dst.reset(new Node()); Node mid; src->compact_to(mid); Schema sc(mid.schema()); dst->set(sc, mid.contiguous_data_ptr() ? mid.contiguous_data_ptr() : mid.data_ptr()); break; }
  case 6: { dst.reset(new Node()); dst->fetch("holder/slot").set(*src); break; }
  default: { dst.reset(new Node()); dst->append(); dst->append().set(*src); break; }
  }
  auto got = [&]() -> Node & { return how == 6 ? dst->fetch_existing("holder/slot") : how == 7 ? dst->child(1) : *dst; };
  // update() does not carry empty nodes at the root; everything else is value-equal
  if (how == 4 && v.k == V_EMPTY) want = Val();
  Val s = snap(got());
  if (how != 4) VCHECK(s == want, "copy-differs", "how ", how, " want ", show(want), " got ", show(s));
  else want = s;
  std::string e = check_links(*dst, nullptr); VCHECK(e.empty(), "links", e);
  std::vector<Range> a, b; ranges(*src, a); ranges(got(), b);
  VCHECK(!overlap(a, b), "copy-shares-storage", "how ", how, " ", show(v));
  int which = (int)r.below(4);
  if (which == 0) { scribble(*src, 0x5A); VCHECK(snap(got()) == want, "copy-follows-source", "how ", how); }
  else if (which == 1) { scribble(got(), 0x5A); VCHECK(snap(*src) == v, "source-follows-copy", "how ", how, " now ", show(snap(*src))); }
  else if (which == 2) { src->reset(); ar.reset(); VCHECK(snap(got()) == want, "copy-dies-with-source", "how ", how); src.reset(); VCHECK(snap(got()) == want, "copy-dies-with-source", ""); }
  else { dst->reset(); VCHECK(snap(*src) == v, "source-dies-with-copy", "how ", how); dst.reset(); VCHECK(snap(*src) == v, "source-dies-with-copy", "how ", how); }
  c.count("how:" + std::to_string(how));
}

FAMILY_LEAK("C02", "externals", 3000, 60000) {
  Rng &r = c.rng;
  GenOpts g; Val v = gen_val(r, g);
  Arena ar; RealOpts o;
  Node src; realize(r, v, src, ar, o);
  std::unique_ptr<Node> ext(new Node());
  if (r.chance(0.4)) { Val w = gen_val(r, g); realize(r, w, *ext, ar, RealOpts()); }
  int how = (int)r.below(4);
  c.tr("external how=", how, " ", show(v)); c.seen(v.hash() ^ (how + 77));
  Val want = v;
  switch (how) {
  case 0: ext->set_external(src); break;
  case 1: ext.reset(new Node()); ext->update_external(src); break;
  case 2: { // schema + base pointer: one exact block
    Schema cs; src.schema().compact_to(cs);
    uint8_t *p = ar.get(cs.total_bytes_compact());
    std::vector<uint8_t> ser; if (v.k != V_EMPTY && v.count_leaves()) { Node t; src.compact_to(t); if (t.total_bytes_compact()) memcpy(p, t.contiguous_data_ptr(), t.total_bytes_compact()); }
    ext->set_external(cs, p);
    VCHECK(snap(*ext) == v, "schema-external-differs", show(v), " got ", show(snap(*ext)));
    std::vector<Range> rg; ranges(*ext, rg);
    uintptr_t lo = (uintptr_t)p;
    for (auto &x : rg) { VCHECK(x.a == lo, "schema-external-layout", ""); lo = x.b; }
    VCHECK(lo == (uintptr_t)p + cs.total_bytes_compact(), "schema-external-span", "");
    scribble(*ext, 0x11); VCHECK(snap(*ext) == scribbled(v, 0x11), "ext-write", "");
    ext.reset(); // must not free the block (ASan: arena frees it again)
    c.count("ext:schema");
    return;
  }
  default: { // per-leaf pointers
    if (v.k == V_LEAF && is_num_dt(v.dt)) {
      dispatch_num(v.dt, [&](auto t) { typedef decltype(t) T; ext->set_external((T *)src.data_ptr(), src.dtype().number_of_elements(), src.dtype().offset(), src.dtype().stride(), src.dtype().element_bytes(), src.dtype().endianness()); return 0; });
    } else ext->set_external(src);
  } }
  Val s = snap(*ext);
  if (how == 1) want = s; else VCHECK(s == want, "external-differs", "how ", how, " want ", show(want), " got ", show(s));
  std::string e = check_links(*ext, nullptr); VCHECK(e.empty(), "links", e);
  if (how != 1) {
    std::vector<Range> a, b; ranges(src, a); ranges(*ext, b);
    VCHECK(a.size() == b.size(), "external-addresses", "element counts");
    for (size_t i = 0; i < a.size(); i++) VCHECK(a[i].a == b[i].a, "external-addresses", "element ", i, " is not the source's memory; how ", how, " ", show(v));
    walk(*ext, [&](Node &n) { if (!n.dtype().is_object() && !n.dtype().is_list() && !n.dtype().is_empty() && n.dtype().number_of_elements() > 0) VCHECK(n.is_data_external(), "external-flag", n.path()); });
  }
  if (r.chance(0.5)) { scribble(src, 0x33); VCHECK(snap(*ext) == scribbled(want, 0x33), "external-misses-source-write", show(snap(*ext))); }
  else { scribble(*ext, 0x33); VCHECK(how == 1 || snap(src) == scribbled(v, 0x33), "source-misses-external-write", ""); }
  Val now = snap(src);
  // dropping, resetting or re-assigning the external view never touches the source
  switch (r.below(4)) {
  case 0: ext.reset(); break;
  case 1: ext->reset(); break;
  case 2: ext->set("replaced by text which is a different type"); if (!(v.k == V_LEAF && is_str_dt(v.dt))) VCHECK(snap(src) == now, "source-hit-by-incompatible-set", ""); break;
  default: ext->set(DataType::object()); ext->fetch("q") = 1; break;
  }
  if (!(v.k == V_LEAF && is_str_dt(v.dt))) {
  Val aft = snap(src);
  if (!(v.k == V_OBJ)) VCHECK(aft == now, "source-hit-by-view", "");
  else VCHECK(aft == now, "source-hit-by-view-obj", show(aft)); }
  c.count("ext:" + std::to_string(how));
}

// set() on a leaf that views caller memory: compatible values land in that memory, at the
// declared layout and nowhere else; incompatible ones leave it alone
FAMILY_LEAK("C02", "external_inplace", 2500, 50000) {
  Rng &r = c.rng;
  GenOpts g; g.strings = false; g.zero_len = false;
  Val v = gen_leaf(r, g);
  int es = esize(v.dt); int64_t off = r.range(0, 3) * es, st = es * r.range(1, 3);
  size_t span = off + (v.n - 1) * st + es;
  Arena ar; uint8_t *p = ar.get(span + 16);
  memset(p, 0xEE, span + 16);
  put_leaf(v, p, off, st, false);
  Node n; n.set_external(DataType(v.dt, v.n, off, st, es, Endianness::machine_default()), p);
  std::vector<uint8_t> before(p, p + span + 16);
  Val w = gen_leaf(r, g);
  if (r.chance(0.7)) { w = gen_leaf(r, g); w.dt = v.dt; w.n = r.range(1, v.n); w.bytes.resize(w.n * es); for (auto &b : w.bytes) b = (uint8_t)r.next(); }
  bool compat = w.dt == v.dt && w.n <= v.n;
  c.tr(show(v), " off ", off, " stride ", st, " <- ", show(w)); c.seen(v.hash() ^ w.hash() ^ st);
  dispatch_num(w.dt, [&](auto t) {
    typedef decltype(t) T;
    int64_t soff = r.range(0, 2), sst = r.chance(0.4) ? st / (int64_t)es : r.range(1, 4);   // the source's own layout, often with the destination's stride
    if (w.dt != v.dt && sst < 1) sst = 1;
    int64_t sspan = soff + (w.n - 1) * sst + 1;
    std::unique_ptr<T[]> b(new T[w.n]), sb(new T[sspan]); memcpy(b.get(), w.bytes.data(), w.bytes.size());
    memset(sb.get(), 0x77, sizeof(T) * sspan);
    for (int64_t i = 0; i < w.n; i++) sb[soff + i * sst] = b[i];
    int how = (int)r.below(9);
    c.count("inplace_how:" + std::to_string(how));
    switch (how) {
    case 0: n.set(b.get(), w.n); break;
    case 1: n.set(std::vector<T>(b.get(), b.get() + w.n)); break;
    case 2: if (w.n == 1) n.set(b[0]); else n.set(b.get(), w.n); break;
    case 3: { Node q; q.set(b.get(), w.n); n.update(q); break; }
    case 4: n.set(sb.get(), w.n, soff * sizeof(T), sst * sizeof(T)); break;
    case 5: { Node q; q.set_external(sb.get(), w.n, soff * sizeof(T), sst * sizeof(T)); n.update(q); break; }
    case 6: { Node q; q.set_external(sb.get(), w.n, soff * sizeof(T), sst * sizeof(T)); if (compat) n.update_compatible(q); else n.set_node(q); break; }
    case 7: { conduit::DataArray<T> q(sb.get(), DataType(w.dt, w.n, soff * sizeof(T), sst * sizeof(T), sizeof(T), Endianness::DEFAULT_ID)); n.set(q); break; }
    default: { Node q; q.set_external(sb.get(), w.n, soff * sizeof(T), sst * sizeof(T)); if (compat) { conduit::DataArray<T> d = n.value(); conduit::DataArray<T> s = q.value(); d.set(s); } else n.set(b.get(), w.n); }
    }
    return 0; });
  std::vector<uint8_t> want = before;
  if (compat) for (int64_t i = 0; i < w.n; i++) memcpy(&want[off + i * st], &w.bytes[i * es], es);
  VCHECK(memcmp(p, want.data(), want.size()) == 0, "caller-memory", compat ? "compatible" : "incompatible", " set wrote the wrong bytes of caller memory");
  Val now = snap(n);
  if (compat) { Val x = v; std::copy(w.bytes.begin(), w.bytes.end(), x.bytes.begin()); VCHECK(now == x && n.is_data_external(), "inplace-value", show(now)); }
  else VCHECK(now == w && !n.is_data_external(), "replace-value", show(now), " want ", show(w));
  c.count(compat ? "inplace" : "replaced");
}

// ---- event log of two registered allocators
struct AllocLog { std::map<void *, size_t> live; uint64_t allocs = 0, frees = 0, bad = 0; };
static AllocLog LOGS[2];
static void *ralloc(int k, size_t a, size_t b) { void *p = malloc(a * b ? a * b : 1); memset(p, 0xCD, a * b); LOGS[k].live[p] = a * b; LOGS[k].allocs++; return p; }
static void rfree(int k, void *p) { auto it = LOGS[k].live.find(p); if (it == LOGS[k].live.end()) { LOGS[k].bad++; return; } LOGS[k].live.erase(it); LOGS[k].frees++; free(p); }
static void *a0(size_t a, size_t b) { return ralloc(0, a, b); }
static void *a1(size_t a, size_t b) { return ralloc(1, a, b); }
static void f0(void *p) { rfree(0, p); }
static void f1(void *p) { rfree(1, p); }

FAMILY_LEAK("C02", "allocators", 1500, 30000) {
  static index_t id0 = utils::register_allocator(a0, f0), id1 = utils::register_allocator(a1, f1);
  Rng &r = c.rng;
  for (int k = 0; k < 2; k++) { for (auto &x : LOGS[k].live) free(x.first); LOGS[k] = AllocLog(); }
  uint64_t h = 0;
  {
    Arena ar;
    std::vector<std::unique_ptr<Node>> ns;
    std::vector<index_t> ids = {0, id0, id1};
    for (int i = 0; i < 4; i++) { ns.emplace_back(new Node()); ns.back()->set_allocator(r.pick(ids)); }
    GenOpts g; g.max_depth = 2; g.max_width = 3; g.max_len = 5;
    for (int k = (int)r.range(5, 30); k > 0; k--) {
      size_t i = r.below(ns.size()), j = r.below(ns.size());
      Node &n = *ns[i];
      int op = (int)r.below(14);
      h = mix64(h * 31 + op + i * 100 + j);
      c.tr("op ", op, " n", i, " n", j);
      switch (op) {
      case 0: { Val v = gen_leaf(r, g); Node t; realize_plain(v, t); n.fetch(rand_name(r, g)).set(t); break; }
      case 1: n.fetch("a/b/c") = (int64)r.next(); break;
      case 2: n.append() = "text"; break;
      case 3: if (i != j) n.set(*ns[j]); break;
      case 4: if (i != j) n.update(*ns[j]); break;
      case 5: if (i != j) { Node t; t.set_external(*ns[j]); Val before = snap(*ns[j]); t.reset(); VCHECK(snap(*ns[j]) == before, "ext", ""); } break;
      case 6: if (i != j) ns[j]->compact_to(n); break;
      case 7: { Val v = gen_val(r, g); Node t; realize_plain(v, t); n.set(t.schema()); break; }
      case 8: n.reset(); break;
      case 9: if (i != j) { Val a = snap(n), b = snap(*ns[j]); n.swap(*ns[j]); VCHECK(snap(n) == b && snap(*ns[j]) == a, "swap", ""); } break;
      case 10: if (i != j) { Val b = snap(*ns[j]); n.move(*ns[j]); VCHECK(snap(n) == b, "move", ""); } break;
      case 11: n.list_of(DataType::float64(r.range(1, 3)), r.range(1, 4)); break;
      case 12: if (n.number_of_children()) n.remove((index_t)r.below(n.number_of_children())); break;
      case 13: n.set_allocator(r.pick(ids)); break;
      }
      VCHECK(LOGS[0].bad + LOGS[1].bad == 0, "wrong-allocator", "storage given back to an allocator that does not hold it, after op ", op);
      std::string e = check_links(n, nullptr); VCHECK(e.empty(), "links", e);
      // a node bound to an allocator keeps its own leaf storage in it
      if (n.allocator() != 0 && !n.dtype().is_object() && !n.dtype().is_list() && !n.dtype().is_empty() && !n.is_data_external() && n.data_ptr()) {
        AllocLog &L = LOGS[n.allocator() == id0 ? 0 : 1];
        VCHECK(L.live.count(n.data_ptr()), "leaf-not-from-its-allocator", "");
      }
    }
  }
  for (int k = 0; k < 2; k++) {
    c.count("allocs", LOGS[k].allocs);
    VCHECK(LOGS[k].bad == 0, "wrong-allocator", "");
    VCHECK(LOGS[k].live.empty(), "allocator-leak", LOGS[k].live.size(), " of ", LOGS[k].allocs, " blocks never returned after all nodes were destroyed");
    VCHECK(LOGS[k].frees == LOGS[k].allocs, "alloc-balance", "");
  }
  c.seen(h);
}
