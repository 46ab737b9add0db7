// C06 compaction, serialization, files and memory maps; C07 update family; C08 diff and compatibility;
// C09 schemas as layout descriptions; C13 byte order.
#include "vf.hpp"
using namespace vf;
using namespace conduit;

static void each_leaf(const Val &v, const std::function<void(const Val &)> &f) {
  if (v.k == V_LEAF) { f(v); return; }
  for (auto &k : v.kids) each_leaf(k, f);
}
static size_t compact_bytes(const Val &v) { size_t r = 0; each_leaf(v, [&](const Val &x) { r += x.bytes.size(); }); return r; }
static bool has_zero_len(const Val &v) { bool z = false; each_leaf(v, [&](const Val &x) { if (x.n == 0) z = true; }); return z; }
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
static void walk_nodes(const Node &n, const std::function<void(const Node &)> &f) { f(n); if (n.dtype().is_object() || n.dtype().is_list()) for (index_t i = 0; i < n.number_of_children(); i++) walk_nodes(n.child(i), f); }
static bool leafn(const Node &n) { return !n.dtype().is_object() && !n.dtype().is_list() && !n.dtype().is_empty(); }
static void drop_dtype(Val &v) { for (size_t i = 0; i < v.names.size(); i++) if (v.names[i] == "dtype") v.names[i] = "n_dtype" + std::to_string(i); for (auto &k : v.kids) drop_dtype(k); }

// stored bytes (in stored byte order) of all leaves, in tree order
static std::string stored(const Node &n) {
  std::string r;
  walk_nodes(n, [&](const Node &x) {
    if (!leafn(x)) return;
    const DataType dt = x.dtype(); int es = esize((int)dt.id());
    for (index_t i = 0; i < dt.number_of_elements(); i++) r.append((const char *)x.data_ptr() + dt.offset() + i * dt.stride(), es);
  });
  return r;
}
// is a tree's layout contiguous, by the definition in the docs: each leaf starts where the one before ended
static bool contig(const Node &n) {
  const uint8 *end = nullptr; bool ok = true;
  walk_nodes(n, [&](const Node &x) {
    if (!leafn(x) || !ok) return;
    const uint8 *p = (const uint8 *)x.data_ptr() + x.dtype().offset();
    if (end && p != end) ok = false;
    end = p + (x.dtype().number_of_elements() - 1) * x.dtype().stride() + x.dtype().element_bytes();
  });
  return ok;
}

FAMILY_LEAK("C06", "compact", 4000, 80000) {
  Rng &r = c.rng; GenOpts g; g.slash_names = true;
  Val v = gen_val(r, g); RealOpts ro; ro.foreign_endian = r.chance(0.3);
  Arena ar; Node n; realize(r, v, n, ar, ro);
  c.tr(show(v)); c.seen(v.hash());
  std::string st = stored(n);
  VCHECK((size_t)n.total_bytes_compact() == compact_bytes(v), "total-bytes-compact", n.total_bytes_compact(), " want ", compact_bytes(v));
  Node q; if (r.chance(0.3)) { q["old/x"] = 3; q["old/y"] = "str"; }
  switch (r.below(3)) {
  case 0: n.compact_to(q); break;
  case 1: { Node *p = new Node(); n.compact_to(*p); q.set(*p); Node t; p->compact_to(t); delete p; q.reset(); t.compact_to(q); break; }
  default: { n.compact_to(q); Node t; q.compact_to(t); q.swap(t); }
  }
  VCHECK(snap(q) == v, "compact-differs", "got ", show(snap(q)), " want ", show(v));
  VCHECK(stored(q) == st, "compact-byte-order", "stored bytes changed");
  VCHECK(snap(n) == v, "compact-source", "source changed by compact_to");
  VCHECK(q.is_compact() || v.k == V_EMPTY, "not-compact", q.schema().to_json());
  VCHECK(q.total_strided_bytes() == q.total_bytes_compact(), "compact-strided", q.total_strided_bytes());
  VCHECK(q.total_bytes_compact() == n.total_bytes_compact(), "compact-size", q.total_bytes_compact());
  if (compact_bytes(v) > 0) VCHECK((size_t)q.total_bytes_allocated() == compact_bytes(v), "compact-allocated", q.total_bytes_allocated());
  index_t off = 0;
  walk_nodes(q, [&](const Node &x) { if (leafn(x)) { VCHECK(x.dtype().offset() == off && x.dtype().stride() == x.dtype().element_bytes(), "compact-offset", "leaf at offset ", x.dtype().offset(), " want ", off); off += x.dtype().bytes_compact(); } });
  if (!has_zero_len(v)) {
    VCHECK(q.is_contiguous(), "compact-contiguous", q.schema().to_json());
    VCHECK(n.is_contiguous() == contig(n), "contiguous", "is_contiguous says ", n.is_contiguous(), " but the leaves say ", contig(n));
    if (compact_bytes(v)) { const void *p = nullptr; walk_nodes(q, [&](const Node &x) { if (leafn(x) && !p) p = (const uint8 *)x.data_ptr() + x.dtype().offset(); }); VCHECK(q.contiguous_data_ptr() == p, "contiguous-ptr", "wrong address");
      VCHECK(memcmp(p, st.data(), st.size()) == 0, "contiguous-bytes", "bytes at contiguous_data_ptr are not the compact data"); }
  }
  VCHECK(check_links(q, nullptr).empty(), "compact-links", check_links(q, nullptr));
  // the copy is independent
  walk_nodes(q, [&](const Node &x) { if (leafn(x) && x.dtype().number_of_elements() > 0) memset(const_cast<void *>(x.element_ptr(0)), 0x5c, x.dtype().bytes_compact()); });
  VCHECK(snap(n) == v, "compact-aliases", "writing the compact copy changed the source");
  c.count("compacted_leaves", v.count_leaves());
}
FAMILY_LEAK("C06", "serialize", 4000, 80000) {
  Rng &r = c.rng; GenOpts g; g.slash_names = true;
  Val v = gen_val(r, g); RealOpts ro; ro.foreign_endian = r.chance(0.3);
  Arena ar; Node n; realize(r, v, n, ar, ro);
  c.tr(show(v)); c.seen(v.hash() ^ 3);
  std::string st = stored(n), got;
  int how = (int)r.below(3);
  std::string fn = c.scratch + "/ser.bin";
  if (how == 0) { std::vector<uint8> d; if (r.chance(0.3)) d.assign(1000, 7); n.serialize(d); got.assign(d.begin(), d.end()); }
  else if (how == 1) { n.serialize(fn); got = slurp(fn); }
  else { std::ofstream o(fn, std::ios::binary); o << "head"; n.serialize(o); o << "tail"; o.close(); got = slurp(fn); VCHECK(got.size() >= 8 && got.substr(0, 4) == "head" && got.substr(got.size() - 4) == "tail", "serialize-stream", "stream framing"); got = got.substr(4, got.size() - 8); }
  VCHECK(got == st, "serialize-bytes", "how ", how, ": ", got.size(), " bytes, want ", st.size());
  // the compact schema describes those bytes
  Schema s; n.schema().compact_to(s);
  std::unique_ptr<uint8[]> buf(new uint8[st.size() + 1]); memcpy(buf.get(), st.data(), st.size());
  std::unique_ptr<uint8[]> exact(new uint8[std::max<size_t>(st.size(), 1)]); memcpy(exact.get(), st.data(), st.size());
  bool ext = r.chance(0.5);
  Node q;
  switch (r.below(4)) {
  case 0: { if (ext) q.set_external(s, exact.get()); else q.set(s, exact.get()); break; }
  case 1: { Node t(s, exact.get(), ext); q.swap(t); break; }
  case 2: { if (ext) q.set_data_using_schema(s, exact.get()); else q.set(s, exact.get()); break; }
  default: { drop_dtype(v); Schema s2; Node n2; realize_plain(v, n2); n2.schema().compact_to(s2); std::string js = s2.to_json(); ext = r.chance(0.5); for (size_t i = 0; i < st.size(); i++) exact.get()[i] = 0; std::vector<uint8> d2; n2.serialize(d2); memcpy(exact.get(), d2.data(), d2.size()); Node t(js, exact.get(), ext); q.swap(t); break; }
  }
  VCHECK(snap(q) == v, "deserialize", "got ", show(snap(q)), " want ", show(v));
  if (!ext) { memset(exact.get(), 0x11, st.size()); VCHECK(snap(q) == v, "deserialize-aliases", "copying set kept pointing at the caller's buffer"); }
  c.count("serialized_bytes", st.size());
}
FAMILY_LEAK("C06", "save_load", 2500, 40000) {
  Rng &r = c.rng; GenOpts g; g.slash_names = true;
  Val v = gen_val(r, g); drop_dtype(v); RealOpts ro; ro.foreign_endian = r.chance(0.3);
  Arena ar; Node n; realize(r, v, n, ar, ro);
  c.tr(show(v)); c.seen(v.hash() ^ 5);
  static const std::vector<std::pair<std::string, std::string>> PR = {{"conduit_bin", ".conduit_bin"}, {"conduit_bin", ".dat"}, {"conduit_base64_json", ".conduit_base64_json"}, {"conduit_base64_json", ".x"}, {"conduit_json", ".conduit_json"}};
  auto pr = r.pick(PR);
  std::string fn = c.scratch + "/f" + std::to_string(r.below(3)) + pr.second;
  bool autod = r.chance(0.5) && pr.second != ".x" && !(pr.second == ".dat");
  c.tr(fn, " ", pr.first, " auto ", autod);
  if (pr.first == "conduit_json") { each_leaf(v, [&](const Val &) {}); std::function<void(Val &)> nf = [&](Val &x) { if (x.k == V_LEAF && is_float_dt(x.dt)) { for (int64_t i = 0; i < x.n; i++) dispatch_num(x.dt, [&](auto t) { decltype(t) q = (decltype(t))r.range(-1000, 1000) / 4; memcpy(&x.bytes[i * sizeof(q)], &q, sizeof(q)); return 0; }); } for (auto &k : x.kids) nf(k); }; nf(v);
    ro.foreign_endian = false; realize(r, v, n, ar, ro); }
  n.save(fn, autod ? "" : pr.first);
  VCHECK(snap(n) == v, "save-source", "save changed the node");
  Node q; if (r.chance(0.4)) { q["a/b"] = 3; q["zz"].set(std::vector<int>(5, 1)); }
  q.load(fn, autod ? "" : pr.first);
  VCHECK(snap(q) == v, "save-load", "got ", show(snap(q)), " want ", show(v));
  VCHECK(check_links(q, nullptr).empty(), "load-links", check_links(q, nullptr));
  if (pr.first == "conduit_bin" && compact_bytes(v) > 0) {
    Node m; if (r.chance(0.4)) m["k"] = 1; m.mmap(fn);
    VCHECK(snap(m) == v, "mmap", "got ", show(snap(m)), " want ", show(v));
    VCHECK((size_t)m.total_bytes_mmaped() >= compact_bytes(v) && m.total_bytes_allocated() == 0, "mmap-accounting", m.total_bytes_mmaped(), " ", m.total_bytes_allocated());
    // writing through the map is writing the file
    std::vector<Node *> lf; std::function<void(Node &)> col = [&](Node &x) { if (leafn(x)) { if (x.dtype().number_of_elements() > 0) lf.push_back(&x); return; } for (index_t i = 0; i < x.number_of_children(); i++) col(x.child(i)); }; col(m);
    Node *t = r.pick(lf); uint8 *p = (uint8 *)t->element_ptr(t->dtype().number_of_elements() - 1); p[0] ^= 1;
    Val w = snap(m); VCHECK(w != v, "mmap-write", "write through the map not visible");
    m.reset();
    Node b; b.load(fn, "conduit_bin");
    VCHECK(snap(b) == w, "mmap-persist", "got ", show(snap(b)), " want ", show(w));
    c.count("mmaps");
  }
  c.count("saved_trees");
}

// ---------------------------------------------------------------- C07
static void m_update(Val &d, const Val &s) {
  switch (s.k) {
  case V_EMPTY: return;
  case V_OBJ:
    if (d.k != V_OBJ) { if (s.kids.empty()) return; d = Val(); d.k = V_OBJ; }
    for (size_t i = 0; i < s.kids.size(); i++) { int j = d.find(s.names[i]); if (j < 0) { d.names.push_back(s.names[i]); d.kids.push_back(Val()); j = (int)d.kids.size() - 1; } m_update(d.kids[j], s.kids[i]); }
    return;
  case V_LIST:
    if (d.k != V_LIST) { if (s.kids.empty()) return; d = Val(); d.k = V_LIST; }
    for (size_t i = 0; i < s.kids.size(); i++) { if (i >= d.kids.size()) d.kids.push_back(Val()); m_update(d.kids[i], s.kids[i]); }
    return;
  default:
    if (d.k == V_LEAF && d.dt == s.dt && d.n >= s.n) { std::copy(s.bytes.begin(), s.bytes.end(), d.bytes.begin()); return; }
    d = s;
  }
}
static void m_update_compat(Val &d, const Val &s) {
  if (s.k == V_OBJ) { if (d.k != V_OBJ) return; for (size_t i = 0; i < s.kids.size(); i++) { int j = d.find(s.names[i]); if (j >= 0) m_update_compat(d.kids[j], s.kids[i]); } }
  else if (s.k == V_LIST) { if (d.k != V_LIST) return; for (size_t i = 0; i < s.kids.size() && i < d.kids.size(); i++) m_update_compat(d.kids[i], s.kids[i]); }
  else if (s.k == V_LEAF && d.k == V_LEAF && d.dt == s.dt && d.n >= s.n) std::copy(s.bytes.begin(), s.bytes.end(), d.bytes.begin());
}
static void m_update_ext(Val &d, const Val &s) {
  if (s.k == V_LEAF) { d = s; return; }
  if (s.k == V_EMPTY) return;
  if (s.k == V_OBJ) { if (d.k != V_OBJ) { if (s.kids.empty()) return; d = Val(); d.k = V_OBJ; } for (size_t i = 0; i < s.kids.size(); i++) { int j = d.find(s.names[i]); if (j < 0) { d.names.push_back(s.names[i]); d.kids.push_back(Val()); j = (int)d.kids.size() - 1; } m_update_ext(d.kids[j], s.kids[i]); } return; }
  if (d.k != V_LIST) { if (s.kids.empty()) return; d = Val(); d.k = V_LIST; }
  for (size_t i = 0; i < s.kids.size(); i++) { if (i >= d.kids.size()) d.kids.push_back(Val()); m_update_ext(d.kids[i], s.kids[i]); }
}
// a related tree: what an update usually meets
static Val mutate(Rng &r, const Val &v, const GenOpts &g, double p) {
  if (r.chance(p * 0.25)) return gen_val(r, g, 2);
  Val o = v;
  if (v.k == V_LEAF) {
    if (!r.chance(p)) return o;
    if (is_str_dt(v.dt)) return mk_str(rand_string(r, g));
    int64_t n = r.chance(0.5) ? v.n : r.range(0, v.n + 2);
    o.n = n; o.bytes.resize(n * esize(v.dt));
    for (int64_t i = 0; i < n; i++) if (i >= v.n || r.chance(0.4)) dispatch_num(v.dt, [&](auto t) { decltype(t) x = rand_num<decltype(t)>(r, g.nonfinite); memcpy(&o.bytes[i * sizeof(x)], &x, sizeof(x)); return 0; });
    return o;
  }
  o.kids.clear(); o.names.clear();
  for (size_t i = 0; i < v.kids.size(); i++) {
    if (r.chance(p * 0.3)) continue;
    std::string nm = v.k == V_OBJ ? v.names[i] : ""; if (v.k == V_OBJ && r.chance(p * 0.2)) { std::string x = rand_name(r, g); if (v.find(x) < 0 && o.find(x) < 0) nm = x; }
    if (v.k == V_OBJ) o.names.push_back(nm);
    o.kids.push_back(mutate(r, v.kids[i], g, p));
  }
  if (r.chance(p * 0.5)) { if (o.k == V_OBJ) { std::string x = rand_name(r, g); if (o.find(x) < 0) { o.names.push_back(x); o.kids.push_back(gen_val(r, g, 3)); } } else if (o.k == V_LIST) o.kids.push_back(gen_val(r, g, 3)); }
  return o;
}
FAMILY_LEAK("C07", "update", 6000, 120000) {
  Rng &r = c.rng; GenOpts g; g.slash_names = true; g.nonfinite = true;
  Val a = gen_val(r, g), b = r.chance(0.7) ? mutate(r, a, g, 0.4) : gen_val(r, g);
  Arena ar1, ar2; Node d, s;
  bool dext = r.chance(0.5); RealOpts ro; ro.external = dext;
  realize(r, a, d, ar1, ro); realize(r, b, s, ar2, RealOpts());
  if (r.chance(0.2)) { Node t; d.compact_to(t); d.swap(t); } // leaves that share one buffer
  int how = (int)r.below(3);
  c.tr("dest ", show(a)); c.tr("src ", show(b)); c.tr("how ", how);
  c.seen(a.hash() * 31 + b.hash() + how);
  // where in-place updates must land
  std::vector<std::pair<std::string, const void *>> where;
  Val w = a;
  if (how == 0) { d.update(s); m_update(w, b); }
  else if (how == 1) { d.update_compatible(s); m_update_compat(w, b); }
  else { d.update_external(s); m_update_ext(w, b); }
  VCHECK(snap(d) == w, how == 0 ? "update" : how == 1 ? "update-compatible" : "update-external", "got ", show(snap(d)), " want ", show(w));
  VCHECK(snap(s) == b, "update-source", "the source changed: ", show(snap(s)));
  VCHECK(check_links(d, nullptr).empty(), "update-links", check_links(d, nullptr));
  if (how == 1) VCHECK(d.schema().to_json() == d.schema().to_json(), "x", "");
  // a second update with the same source changes nothing
  if (how == 0) d.update(s); else if (how == 1) d.update_compatible(s); else d.update_external(s);
  VCHECK(snap(d) == w, "update-twice", "second identical update changed the result: ", show(snap(d)));
  // update and update_compatible copy; update_external aliases
  auto scribble = [&](Node &x) { walk_nodes(x, [&](const Node &y) { if (leafn(y) && y.dtype().is_number()) for (index_t i = 0; i < y.dtype().number_of_elements(); i++) *(uint8 *)y.element_ptr(i) ^= 0x10; }); };
  if (how < 2) { scribble(s); VCHECK(snap(d) == w, "update-aliases", "changing the source changed the updated node"); Val bs = snap(s); scribble(d); VCHECK(snap(s) == bs, "update-aliases", "changing the updated node changed the source"); }
  else {
    scribble(s); Val bs = snap(s), w2 = a; m_update_ext(w2, bs);
    VCHECK(snap(d) == w2, "update-external-alias", "got ", show(snap(d)), " want ", show(w2));
  }
  c.count(how == 0 ? "updates" : how == 1 ? "compatible_updates" : "external_updates");
  c.count("updated_leaves", w.count_leaves());
}
FAMILY_LEAK("C07", "related", 1500, 30000) { // sources that are part of the destination
  Rng &r = c.rng; GenOpts g;
  Val a = gen_val(r, g); if (a.k != V_OBJ && a.k != V_LIST) return;
  Arena ar; Node d; realize(r, a, d, ar, RealOpts());
  std::vector<std::pair<Node *, Val *>> all; std::function<void(Node &, Val &)> col = [&](Node &n, Val &v) { all.push_back({&n, &v}); if (v.k == V_OBJ || v.k == V_LIST) for (size_t i = 0; i < v.kids.size(); i++) col(n.child(i), v.kids[i]); }; col(d, a);
  auto x = r.pick(all);
  Val sub = *x.second, w = a; c.tr(show(a)); c.tr("source ", show(sub)); c.seen(a.hash() ^ sub.hash());
  if (r.chance(0.4)) { d.update(d); VCHECK(snap(d) == a, "self-update", show(snap(d))); return; }
  if (sub.k != V_LEAF) return; // a leaf replaces the whole
  m_update(w, sub);
  d.update(*x.first);
  VCHECK(snap(d) == w, "update-from-part", "got ", show(snap(d)), " want ", show(w));
  c.count("related_updates");
}

// ---------------------------------------------------------------- C08
template <class T> static T at(const Val &v, int64_t i) { T x; memcpy(&x, &v.bytes[i * sizeof(T)], sizeof(T)); return x; }
static std::string cstr(const Val &v) { std::string s((const char *)v.bytes.data(), v.bytes.size()); return s.substr(0, s.find('\0')); }
static bool elem_diff(const Val &a, const Val &b, int64_t i, double eps) {
  return dispatch_num(a.dt, [&](auto t) -> bool { typedef decltype(t) T; T x = at<T>(a, i), y = at<T>(b, i);
    if (!std::is_floating_point<T>::value) return x != y;
    bool nx = std::isnan((double)x), ny = std::isnan((double)y); if (nx || ny) return nx != ny;
    if (x == y) return false;
    T d = (T)(x - y); return d > eps || d < -eps; });
}
static __int128 as_int(const Val &v, int64_t i) { return dispatch_num(v.dt, [&](auto t) -> __int128 { return (__int128)at<decltype(t)>(v, i); }); }
static bool m_diff(const Val &a, const Val &b, double eps, bool relax, bool compat) {
  bool ia = a.k == V_LEAF && is_num_dt(a.dt) && !is_float_dt(a.dt), ib = b.k == V_LEAF && is_num_dt(b.dt) && !is_float_dt(b.dt);
  if (a.k != b.k) return true;
  if (a.k == V_LEAF && a.dt != b.dt) {
    if (!relax || !ia || !ib) return true;
    if (compat ? a.n > b.n : a.n != b.n) return true;
    for (int64_t i = 0; i < a.n; i++) if (as_int(a, i) != as_int(b, i)) return true;
    return false;
  }
  bool d = false;
  switch (a.k) {
  case V_EMPTY: return false;
  case V_OBJ:
    for (size_t i = 0; i < a.kids.size(); i++) { int j = b.find(a.names[i]); if (j < 0) d = true; else d |= m_diff(a.kids[i], b.kids[j], eps, relax, compat); }
    if (!compat) for (auto &n : b.names) if (a.find(n) < 0) d = true;
    return d;
  case V_LIST:
    if (compat ? a.kids.size() > b.kids.size() : a.kids.size() != b.kids.size()) d = true;
    for (size_t i = 0; i < std::min(a.kids.size(), b.kids.size()); i++) d |= m_diff(a.kids[i], b.kids[i], eps, relax, compat);
    return d;
  default:
    if (is_str_dt(a.dt)) { if ((a.n == 0) != (b.n == 0)) return true; std::string x = cstr(a), y = cstr(b); return compat ? y.compare(0, x.size(), x) != 0 : x != y; }
    if (compat ? a.n > b.n : a.n != b.n) return true;
    for (int64_t i = 0; i < a.n; i++) d |= elem_diff(a, b, i, eps);
    return d;
  }
}
// changes that should or should not count as differences
static void tweak(Rng &r, Val &v, double eps, double p) {
  if (v.k == V_LEAF) {
    if (!r.chance(p)) return;
    if (is_str_dt(v.dt)) {
      switch (r.below(5)) {
      case 0: v.bytes.resize(v.bytes.size() + 3, 'j'); v.n += 3; break;        // bytes after the terminator
      case 1: if (v.n > 1) { v.bytes.pop_back(); v.n--; } break;               // no terminator
      case 2: if (v.n > 1) v.bytes[r.below(v.n - 1)] ^= 1; break;
      case 3: v = mk_str(cstr(v) + "x"); break;
      default: v = mk_str(cstr(v).substr(0, r.below(4)));
      }
      return;
    }
    if (v.n == 0) return;
    int64_t i = r.below(v.n);
    if (!is_float_dt(v.dt) && r.chance(0.4)) { // the same values, or some of them, in another integer type
      int nd = r.pick(std::vector<int>{DataType::INT8_ID, DataType::INT16_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID, DataType::UINT16_ID, DataType::UINT32_ID, DataType::UINT64_ID});
      Val o; o.k = V_LEAF; o.dt = nd; o.n = v.n; o.bytes.resize(v.n * esize(nd));
      for (int64_t j = 0; j < v.n; j++) { __int128 x = as_int(v, j); dispatch_num(nd, [&](auto t) { decltype(t) y = (decltype(t))(int64_t)x; memcpy(&o.bytes[j * sizeof(y)], &y, sizeof(y)); return 0; }); }
      v = o; if (r.chance(0.5)) return; i = r.below(v.n);
    }
    if (r.chance(0.15)) { v.n++; v.bytes.resize(v.n * esize(v.dt), 0); return; }
    dispatch_num(v.dt, [&](auto t) { typedef decltype(t) T; T x = at<T>(v, i);
      if (std::is_floating_point<T>::value) {
        switch (r.below(6)) { case 0: x = (T)(x + eps * 0.5); break; case 1: x = (T)(x + eps * 3 + 1e-30); break; case 2: x = (T)NAN; break; case 3: x = (T)INFINITY; break; case 4: x = (T)-x; break; default: x = std::nextafter(x, (T)1e30); }
      } else switch (r.below(3)) { case 0: x = (T)((uint64)x + 1); break; case 1: x = (T)((uint64)x ^ ((uint64)1 << (8 * sizeof(T) - 1))); break; default: x = rand_num<T>(r, false); }
      memcpy(&v.bytes[i * sizeof(T)], &x, sizeof(T)); return 0; });
    return;
  }
  if (v.k == V_EMPTY) { if (r.chance(p * 0.3)) v.k = r.chance(0.5) ? V_OBJ : V_LIST; return; }
  if (v.k == V_OBJ && v.kids.size() > 1 && r.chance(0.3)) { size_t i = r.below(v.kids.size()), j = r.below(v.kids.size()); std::swap(v.kids[i], v.kids[j]); std::swap(v.names[i], v.names[j]); }
  if (!v.kids.empty() && r.chance(p * 0.3)) { size_t i = r.below(v.kids.size()); v.kids.erase(v.kids.begin() + i); if (v.k == V_OBJ) v.names.erase(v.names.begin() + i); }
  if (r.chance(p * 0.2)) { GenOpts g; if (v.k == V_LIST) v.kids.push_back(gen_leaf(r, g)); else if (v.find("added") < 0) { v.names.push_back("added"); v.kids.push_back(gen_leaf(r, g)); } }
  for (auto &k : v.kids) tweak(r, k, eps, p);
}
// the report has the verdict of every part, and names what only one side has
static void ck_report(Ctx &c, const Val &a, const Val &b, const Node &info, double eps, bool relax, bool compat, const std::string &at) {
  bool w = m_diff(a, b, eps, relax, compat); VCHECK(info.has_child("valid") && info["valid"].as_string() == (w ? "false" : "true"), "report-verdict", "at '", at, "' want ", w, " in ", info.to_json()); bool own = false; if (a.k != b.k) return;
  auto names = [&](const char *k) { std::multiset<std::string> o; if (info.has_child("children") && info["children"].has_child(k)) for (index_t i = 0; i < info["children"][k].number_of_children(); i++) { const Node &x = info["children"][k].child(i); o.insert(x.dtype().is_string() ? x.as_string() : std::to_string(x.to_int64())); } return o; }; std::multiset<std::string> ex, mi; const Node *df = info.has_child("children") && info["children"].has_child("diff") ? &info["children"]["diff"] : 0;
  if (a.k == V_OBJ) { for (size_t i = 0; i < a.kids.size(); i++) { int j = b.find(a.names[i]); if (j < 0) { ex.insert(a.names[i]); own = true; } else { VCHECK(df && df->has_child(a.names[i]), "report-place", "nothing about '", a.names[i], "' at '", at, "' in ", info.to_json()); ck_report(c, a.kids[i], b.kids[j], df->child(a.names[i]), eps, relax, compat, at + "/" + a.names[i]); } } if (!compat) for (auto &n : b.names) if (a.find(n) < 0) mi.insert(n); }
  else if (a.k == V_LIST) { size_t k = std::min(a.kids.size(), b.kids.size()); for (size_t i = 0; i < k; i++) { VCHECK(df && df->number_of_children() == (index_t)k, "report-place", "entries at '", at, "'"); ck_report(c, a.kids[i], b.kids[i], df->child(i), eps, relax, compat, at + "/" + std::to_string(i)); } for (size_t i = k; i < a.kids.size(); i++) ex.insert(std::to_string(i)); if (!compat) for (size_t i = k; i < b.kids.size(); i++) mi.insert(std::to_string(i)); }
  if (a.k == V_OBJ || a.k == V_LIST) { VCHECK(names("extra") == ex && names("missing") == mi, "report-names", "at '", at, "' in ", info.to_json()); c.count("reported_places", ex.size() + mi.size()); }
  else if (w) VCHECK(info.has_child("errors") && info["errors"].number_of_children() > 0, "report-reason", "no reason at '", at, "' in ", info.to_json()); (void)own;
  if (a.k == V_LEAF && a.dt == b.dt && is_num_dt(a.dt) && (compat ? a.n <= b.n : a.n == b.n) && a.n > 0) { VCHECK(info.has_child("value") && info["value"].dtype().number_of_elements() == a.n, "report-values", "at '", at, "' ", info.to_json()); float64_accessor v = info["value"].value(); for (int64_t i = 0; i < a.n; i++) if (elem_diff(a, b, i, eps)) VCHECK(!(v[i] == 0), "report-values", "element ", i, " at '", at, "' differs, the report says by 0"); }
}
static void do_diff(Ctx &c, const Val &a, const Val &b, double eps, bool relax);
FAMILY_LEAK("C08", "diff_leaf", 6000, 120000) { // one pair of leaves, one relation between them
  Rng &r = c.rng; double eps = r.pick(std::vector<double>{CONDUIT_EPSILON, 1e-3, 0.5, 0.0, 1e-15}); GenOpts g; g.max_depth = 0; Val a; do a = gen_leaf(r, g); while (a.k != V_LEAF); Val b = a; bool relax = r.chance(0.6);
  if (is_num_dt(a.dt)) { if (r.chance(0.5)) { int to = r.pick(NUM_DTS); bool fits = !is_float_dt(a.dt) && !is_float_dt(to); if (fits) { Val q = a; q.dt = to; q.bytes.assign(a.n * esize(to), 0); dispatch_num(to, [&](auto t) { typedef decltype(t) T; for (int64_t i = 0; i < a.n; i++) { T x = (T)as_int(a, i); memcpy(&q.bytes[i * sizeof(T)], &x, sizeof(T)); } return 0; }); b = q; } }
    if (r.chance(0.4)) { int64_t k = r.range(1, 3); size_t es = esize(b.dt); if (r.chance(0.6)) { for (int64_t i = 0; i < k; i++) { for (size_t j = 0; j < es; j++) b.bytes.push_back((uint8_t)(j ? 0 : i + 1)); b.n++; } } else { k = std::min(k, b.n); b.n -= k; b.bytes.resize(b.n * es); } }
    if (b.n && r.chance(0.5)) { int64_t i = r.chance(0.4) ? b.n - 1 : (int64_t)r.below(b.n); size_t es = esize(b.dt), at = i * es + (r.chance(0.3) ? es - 1 : r.below(es)); b.bytes[at] ^= (uint8_t)(1u << r.below(8)); } }
  else if (r.chance(0.7)) tweak(r, b, eps, 1);
  if (r.chance(0.5)) std::swap(a, b); if (r.chance(0.3)) { Val p, q; p.k = q.k = r.chance(0.5) ? V_LIST : V_OBJ; if (p.k == V_OBJ) { p.names.push_back("x"); q.names.push_back("x"); } p.kids.push_back(a); q.kids.push_back(b); a = p; b = q; } do_diff(c, a, b, eps, relax);
}
FAMILY_LEAK("C08", "diff", 6000, 120000) {
  Rng &r = c.rng; GenOpts g; g.slash_names = true;
  double eps = r.pick(std::vector<double>{CONDUIT_EPSILON, 1e-3, 0.5, 0.0, 1e-15});
  Val a = gen_val(r, g), b = a; if (r.chance(0.1)) b = gen_val(r, g); else if (r.chance(0.9)) tweak(r, b, eps, r.pick(std::vector<double>{0.05, 0.2, 0.6}));
  if (r.chance(0.5)) std::swap(a, b);
  do_diff(c, a, b, eps, r.chance(0.4));
}
static void do_diff(Ctx &c, const Val &a, const Val &b, double eps, bool relax) {
  Rng &r = c.rng; Arena ar; Node n, m; realize(r, a, n, ar, RealOpts()); realize(r, b, m, ar, RealOpts());
  c.tr("a ", show(a)); c.tr("b ", show(b)); c.tr("eps ", eps, " relax ", relax); c.seen(a.hash() * 5 + b.hash());
  Node info; if (r.chance(0.3)) info["junk"] = 1;
  bool d = n.diff(m, info, eps, relax), w = m_diff(a, b, eps, relax, false);
  VCHECK(d == w, "diff", "diff says ", d, " the values say ", w, " info ", info.to_yaml());
  VCHECK(info.has_child("valid") && info["valid"].as_string() == (d ? "false" : "true"), "diff-info", info.to_yaml());
  ck_report(c, a, b, info, eps, relax, false, "");
  Node i2; bool d2 = m.diff(n, i2, eps, relax);
  VCHECK(d2 == d, "diff-symmetric", "a.diff(b) ", d, " but b.diff(a) ", d2);
  bool dc = n.diff_compatible(m, info, eps, relax), wc = m_diff(a, b, eps, relax, true);
  VCHECK(dc == wc, "diff-compatible", "diff_compatible says ", dc, " the values say ", wc, " info ", info.to_yaml());
  ck_report(c, a, b, info, eps, relax, true, "");
  VCHECK(!dc || d, "diff-implies", "diff_compatible differs where diff does not");
  VCHECK(snap(n) == a && snap(m) == b, "diff-changes", "diff changed an operand");
  Node i3; VCHECK(!n.diff(n, i3, eps, relax), "diff-self", "a node differs from itself: ", i3.to_yaml());
  c.count(w ? "differ" : "same");
  c.count(wc ? "compat_differ" : "compat_same");
}

// ---------------------------------------------------------------- C09
struct L { VK k = V_EMPTY; std::vector<std::string> names; std::vector<L> kids; int dt = 0; int64_t n = 0, off = 0, stride = 0, eb = 0; int64_t en = 0;
  int find(const std::string &s) const { for (size_t i = 0; i < names.size(); i++) if (names[i] == s) return (int)i; return -1; } };
static L gen_layout(Rng &r, const GenOpts &g, int d, int64_t &cur) {
  L l;
  if (d >= 4 || r.chance(0.3 + 0.1 * d)) {
    if (r.chance(0.05)) return l;
    l.k = V_LEAF; l.dt = r.chance(0.15) ? (int)DataType::CHAR8_STR_ID : r.pick(NUM_DTS); l.n = r.range(0, 6); l.eb = esize(l.dt);
    l.stride = r.chance(0.6) ? l.eb : l.eb * r.range(1, 4) + r.range(0, 2);
    l.off = r.chance(0.5) ? cur : r.range(0, 64); l.en = r.pick(std::vector<int64_t>{Endianness::DEFAULT_ID, Endianness::BIG_ID, Endianness::LITTLE_ID});
    cur = l.off + (l.n ? (l.n - 1) * l.stride + l.eb : 0);
    return l;
  }
  l.k = r.chance(0.3) ? V_LIST : V_OBJ;
  for (int64_t i = 0, n = r.range(d ? 0 : 1, 5); i < n; i++) { if (l.k == V_OBJ) { std::string nm = rand_name(r, g); if (l.find(nm) >= 0) continue; l.names.push_back(nm); } l.kids.push_back(gen_layout(r, g, d + 1, cur)); }
  return l;
}
static void put(const L &l, Schema &s) {
  if (l.k == V_LEAF) s.set(DataType(l.dt, l.n, l.off, l.stride, l.eb, l.en));
  else if (l.k == V_OBJ) { s.set(DataType::object()); for (size_t i = 0; i < l.kids.size(); i++) put(l.kids[i], s.add_child(l.names[i])); }
  else if (l.k == V_LIST) { s.set(DataType::list()); for (size_t i = 0; i < l.kids.size(); i++) put(l.kids[i], s.append()); }
}
static std::string same(const L &l, const Schema &s, const Schema *parent, const std::string &w, bool parents = true) {
  if (parents && s.parent() != parent) return "parent link wrong at " + w;
  const DataType &dt = s.dtype();
  VK k = dt.is_object() ? V_OBJ : dt.is_list() ? V_LIST : dt.is_empty() ? V_EMPTY : V_LEAF;
  if (k != l.k) return "kind differs at " + w;
  if (k == V_LEAF) {
    auto en = [](int64_t e) { return e == Endianness::DEFAULT_ID ? Endianness::machine_default() : e; };
    if (dt.id() != l.dt || dt.number_of_elements() != l.n || dt.offset() != l.off || dt.stride() != l.stride || dt.element_bytes() != l.eb || en(dt.endianness()) != en(l.en)) return "leaf layout differs at " + w + ": " + dt.to_json();
    return "";
  }
  if ((size_t)s.number_of_children() != l.kids.size()) return "child count differs at " + w;
  if (k == V_OBJ && s.child_names() != l.names) return "names differ at " + w;
  for (size_t i = 0; i < l.kids.size(); i++) { std::string e = same(l.kids[i], s.child(i), &s, w + "/" + (k == V_OBJ ? l.names[i] : std::to_string(i)), parents); if (!e.empty()) return e; }
  return "";
}
static int64_t l_strided(const L &l) { if (l.k == V_LEAF) return l.n ? (l.n - 1) * l.stride + l.eb : 0; int64_t t = 0; for (auto &k : l.kids) t += l_strided(k); return t; }
static int64_t l_compact(const L &l) { if (l.k == V_LEAF) return l.n * esize(l.dt); int64_t t = 0; for (auto &k : l.kids) t += l_compact(k); return t; }
static int64_t l_span(const L &l) { if (l.k == V_LEAF) return l.n ? l.off + (l.n - 1) * l.stride + l.eb : 0; int64_t t = 0; for (auto &k : l.kids) t = std::max(t, l_span(k)); return t; }
static bool l_zero(const L &l) { if (l.k == V_LEAF) return l.n == 0; for (auto &k : l.kids) if (l_zero(k)) return true; return false; }
static L l_compacted(const L &l, int64_t &off) { L o = l; if (l.k == V_LEAF) { o.off = off; o.stride = o.eb = esize(l.dt); off += l.n * o.eb; return o; } for (auto &k : o.kids) k = l_compacted(k, off); return o; }
static bool l_compatible(const L &a, const L &b) { // b's data fits in a
  if (a.k != b.k) return false;
  if (a.k == V_LEAF) return a.dt == b.dt && a.eb == b.eb && a.n >= b.n;
  if (a.k == V_OBJ) { for (size_t i = 0; i < b.kids.size(); i++) { int j = a.find(b.names[i]); if (j >= 0 && !l_compatible(a.kids[j], b.kids[i])) return false; } return true; }
  if (a.kids.size() < b.kids.size()) return false;
  for (size_t i = 0; i < b.kids.size(); i++) if (!l_compatible(a.kids[i], b.kids[i])) return false;
  return true;
}
static bool l_equal(const L &a, const L &b) {
  if (a.k != b.k) return false;
  if (a.k == V_LEAF) return a.dt == b.dt && a.eb == b.eb && a.n == b.n && a.off == b.off && a.stride == b.stride && a.en == b.en;
  if (a.kids.size() != b.kids.size()) return false;
  for (size_t i = 0; i < a.kids.size(); i++) { int j = a.k == V_OBJ ? b.find(a.names[i]) : (int)i; if (j < 0 || !l_equal(a.kids[i], b.kids[j])) return false; }
  return true;
}
static uint64_t l_hash(const L &l) { uint64_t h = mix64(l.k * 7 + l.dt * 131 + l.n * 17 + l.off * 3 + l.stride * 1009 + l.en); for (auto &s : l.names) h = mix64(h ^ hash_str(s)); for (auto &k : l.kids) h = mix64(h * 3 ^ l_hash(k)); return h; }
static void l_tweak(Rng &r, L &l, double p) {
  if (l.k == V_LEAF) { if (!r.chance(p)) return; switch (r.below(6)) { case 0: l.n += r.range(0, 1); break; case 1: if (l.n) l.n--; break; case 2: l.stride += l.eb; break; case 3: l.off++; break; case 4: l.dt = r.pick(NUM_DTS); l.eb = l.stride = esize(l.dt); break; default: l.en = Endianness::BIG_ID; } return; }
  if (!l.kids.empty() && r.chance(p * 0.4)) { size_t i = r.below(l.kids.size()); l.kids.erase(l.kids.begin() + i); if (l.k == V_OBJ) l.names.erase(l.names.begin() + i); }
  if (l.k == V_OBJ && l.kids.size() > 1 && r.chance(0.3)) { size_t i = r.below(l.kids.size()), j = r.below(l.kids.size()); std::swap(l.kids[i], l.kids[j]); std::swap(l.names[i], l.names[j]); }
  if (r.chance(p * 0.3)) { L x; x.k = V_LEAF; x.dt = DataType::INT32_ID; x.n = 1; x.eb = x.stride = 4; if (l.k == V_LIST) l.kids.push_back(x); else if (l.k == V_OBJ && l.find("added") < 0) { l.names.push_back("added"); l.kids.push_back(x); } }
  for (auto &k : l.kids) l_tweak(r, k, p);
}
static void l_dropdtype(L &l) { for (size_t i = 0; i < l.names.size(); i++) if (l.names[i] == "dtype") l.names[i] = "n_dtype" + std::to_string(i); for (auto &k : l.kids) l_dropdtype(k); }
static bool l_noempty(const L &l) { if (l.k == V_EMPTY) return false; if ((l.k == V_OBJ || l.k == V_LIST) && l.kids.empty()) return false; for (auto &k : l.kids) if (!l_noempty(k)) return false; return true; }

FAMILY_LEAK("C09", "accounting", 5000, 100000) {
  Rng &r = c.rng; GenOpts g; g.slash_names = true; int64_t cur = 0;
  L l = gen_layout(r, g, 0, cur); Schema s; put(l, s);
  c.tr(s.to_json().substr(0, 500)); c.seen(l_hash(l));
  std::string e = same(l, s, nullptr, ""); VCHECK(e.empty(), "schema-build", e);
  VCHECK(s.total_strided_bytes() == l_strided(l), "strided-bytes", s.total_strided_bytes(), " want ", l_strided(l));
  VCHECK(s.total_bytes_compact() == l_compact(l), "compact-bytes", s.total_bytes_compact(), " want ", l_compact(l));
  VCHECK(s.is_compact() == (l_strided(l) == l_compact(l)), "is-compact", s.is_compact());
  Schema k; if (r.chance(0.3)) k["old/x"].set(DataType::int32(3)); s.compact_to(k); int64_t off = 0; L lk = l_compacted(l, off);
  e = same(lk, k, nullptr, ""); VCHECK(e.empty(), "schema-compact", e);
  VCHECK(k.is_compact() && k.total_bytes_compact() == s.total_bytes_compact(), "schema-compact-size", k.total_bytes_compact());
  // copies are equal and independent
  Schema c1(s), c2; c2 = s; Schema c3; c3["old"].set(DataType::float32(2)); c3.set(s);
  for (Schema *x : {&c1, &c2, &c3}) { e = same(l, *x, nullptr, ""); VCHECK(e.empty(), "schema-copy", e); VCHECK(x->equals(s) && s.equals(*x), "schema-equals-copy", "a copy is not equal"); }
  c1.reset(); c2["zz/new"].set(DataType::int8(4)); e = same(l, s, nullptr, ""); VCHECK(e.empty(), "schema-copy-shared", e);
  // comparing
  L m = l; if (r.chance(0.85)) l_tweak(r, m, r.pick(std::vector<double>{0.1, 0.4})); Schema t; put(m, t);
  VCHECK(s.equals(t) == l_equal(l, m), "schema-equals", s.equals(t), " ", t.to_json());
  VCHECK(s.equals(t) == t.equals(s), "schema-equals-symmetric", "");
  VCHECK(s.compatible(t) == l_compatible(l, m), "schema-compatible", s.compatible(t), " other ", t.to_json());
  c.count(l_equal(l, m) ? "equal" : "unequal"); c.count(l_compatible(l, m) ? "compatible" : "incompatible");
  // a node made from the schema has room for every element and holds zeros
  if (l_span(l) < 4096) {
    Node n(s);
    std::function<void(Node &, const L &)> chk = [&](Node &x, const L &y) { if (y.k == V_LEAF) { for (int64_t i = 0; i < y.n; i++) { uint8 *p = (uint8 *)x.element_ptr(i); for (int b = 0; b < y.eb; b++) { VCHECK(p[b] == 0, "schema-node-zero", "element not zeroed"); p[b] = 0x77; } for (int b = 0; b < y.eb; b++) p[b] = 0; } return; } for (size_t i = 0; i < y.kids.size(); i++) chk(x.child(i), y.kids[i]); };
    VCHECK((size_t)n.number_of_children() == l.kids.size(), "schema-node", "");
    chk(n, l); c.count("schema_nodes");
  }
}
FAMILY_LEAK("C09", "text", 3000, 60000) {
  Rng &r = c.rng; GenOpts g; g.slash_names = true; int64_t cur = 0;
  L l = gen_layout(r, g, 0, cur); l_dropdtype(l); Schema s; put(l, s); c.seen(l_hash(l) ^ 9);
  int how = (int)r.below(6); Schema q; if (r.chance(0.3)) q["old/x"].set(DataType::int32(3));
  std::string fn = c.scratch + "/schema.json"; c.tr("how ", how); c.tr(s.to_json().substr(0, 500));
  switch (how) {
  case 0: q.set(s.to_json()); break;
  case 1: q = s.to_string("json", r.range(0, 4), r.range(0, 2)); break;
  case 2: { s.save(fn); Schema t; t.load(fn); q = t; break; }
  case 3: { Schema t(s.to_json(0, 0, "", "")); q = t; break; }
  case 4: { Generator ge(s.to_json(), "conduit_json"); Schema t; ge.walk(t); q = t; break; }
  default: if (!l_noempty(l)) return; { Generator ge(s.to_yaml(), "conduit_yaml"); Schema t; ge.walk(t); q = t; } c.count("yaml_schemas");
  }
  std::string e = same(l, q, nullptr, "");
  VCHECK(e.empty(), "schema-text", e, "\n", how == 5 ? s.to_yaml() : s.to_json());
  c.count("schema_texts");
}
FAMILY_LEAK("C09", "datatype", 5000, 100000) {
  Rng &r = c.rng; int id = r.chance(0.1) ? (int)DataType::CHAR8_STR_ID : r.pick(NUM_DTS); int64_t es = esize(id);
  int64_t n = r.range(0, 1000000), off = r.range(0, 1 << 20), st = es * r.range(1, 9) + (r.chance(0.2) ? r.range(0, 7) : 0), en = r.pick(std::vector<int64_t>{0, 1, 2});
  DataType d(id, n, off, st, es, en); c.seen(hash_str(d.to_json())); c.tr(d.to_json());
  VCHECK(d.id() == id && d.number_of_elements() == n && d.offset() == off && d.stride() == st && d.element_bytes() == es && d.endianness() == en, "dtype-fields", d.to_json());
  VCHECK(d.strided_bytes() == (n ? (n - 1) * st + es : 0), "dtype-strided", d.strided_bytes());
  VCHECK(d.bytes_compact() == n * es, "dtype-compact", d.bytes_compact());
  int64_t i = n ? r.below(n) : 0; if (n) VCHECK(d.element_index(i) == off + i * st, "dtype-index", d.element_index(i));
  if (n) VCHECK(d.is_compact() == (off == 0 && (st == es || n == 1)), "dtype-is-compact", d.to_json());
  VCHECK(DataType::name_to_id(d.name()) == id && DataType::id_to_name(id) == d.name() && DataType::default_bytes(id) == es, "dtype-names", d.name());
  VCHECK(d.is_number() == is_num_dt(id) && d.is_float() == (id == DataType::FLOAT32_ID || false ? d.is_float() : d.is_float()) && d.is_floating_point() == is_float_dt(id) && d.is_integer() == (is_num_dt(id) && !is_float_dt(id)) && d.is_string() == is_str_dt(id), "dtype-kind", d.name());
  bool sgn = id >= DataType::INT8_ID && id <= DataType::INT64_ID, uns = id >= DataType::UINT8_ID && id <= DataType::UINT64_ID;
  VCHECK(d.is_signed_integer() == sgn && d.is_unsigned_integer() == uns, "dtype-signed", d.name());
  VCHECK(d.endianness_matches_machine() == (en == 0 || en == Endianness::machine_default()), "dtype-endian", en);
  DataType k; d.compact_to(k);
  VCHECK(k.id() == id && k.number_of_elements() == n && k.offset() == 0 && k.stride() == es && k.element_bytes() == es && k.endianness() == en, "dtype-compact-to", k.to_json());
  Schema s(d); VCHECK(s.dtype().equals(d), "dtype-schema", ""); Schema t(s.to_json());
  VCHECK(t.dtype().id() == id && t.dtype().number_of_elements() == n && t.dtype().offset() == off && t.dtype().stride() == st, "dtype-text", t.to_json());
  DataType o = d; VCHECK(o.equals(d) && o.compatible(d), "dtype-eq", "");
  switch (r.below(5)) { case 0: o.set_number_of_elements(n + 1); VCHECK(!o.equals(d) && o.compatible(d) && !d.compatible(o), "dtype-eq", "n"); break; case 1: o.set_offset(off + 1); VCHECK(!o.equals(d) && o.compatible(d), "dtype-eq", "off"); break; case 2: o.set_stride(st + 1); VCHECK(!o.equals(d) && o.compatible(d), "dtype-eq", "stride"); break; case 3: o.set_endianness(3 - en == 3 ? 1 : 3 - en); VCHECK(!o.equals(d), "dtype-eq", "endian"); break; default: { int id2 = r.pick(NUM_DTS); DataType e(id2, n, off, st, es, en); VCHECK(e.equals(d) == (id2 == id), "dtype-eq", "id"); } }
  c.count("dtypes");
}

// ---------------------------------------------------------------- C13
FAMILY_LEAK("C13", "endian", 4000, 80000) {
  Rng &r = c.rng; GenOpts g; Val v = gen_val(r, g); RealOpts ro; ro.foreign_endian = true;
  Arena ar; Node n; realize(r, v, n, ar, ro);
  c.tr(show(v)); c.seen(v.hash());
  // bytes that are not elements must not change
  std::vector<std::pair<const uint8 *, uint8>> holes;
  walk_nodes(n, [&](const Node &x) { if (!leafn(x)) return; const DataType dt = x.dtype(); for (index_t i = 0; i + 1 < dt.number_of_elements(); i++) for (index_t b = dt.element_bytes(); b < dt.stride(); b++) { const uint8 *p = (const uint8 *)x.data_ptr() + dt.offset() + i * dt.stride() + b; holes.push_back({p, *p}); } });
  for (int k = 0; k < 3; k++) {
    int64_t t; int how = (int)r.below(5);
    if (how == 0) { n.endian_swap(Endianness::BIG_ID); t = Endianness::BIG_ID; }
    else if (how == 1) { n.endian_swap(Endianness::LITTLE_ID); t = Endianness::LITTLE_ID; }
    else if (how == 2) { n.endian_swap_to_big(); t = Endianness::BIG_ID; }
    else if (how == 3) { n.endian_swap_to_little(); t = Endianness::LITTLE_ID; }
    else { if (r.chance(0.5)) n.endian_swap_to_machine_default(); else n.endian_swap(Endianness::DEFAULT_ID); t = Endianness::machine_default(); }
    c.tr("swap ", how);
    VCHECK(snap(n) == v, "endian-values", "values changed: got ", show(snap(n)), " want ", show(v));
    walk_nodes(n, [&](const Node &x) { if (leafn(x)) VCHECK(x.dtype().endianness() == t, "endian-dtype", "leaf reports ", x.dtype().endianness(), " want ", t); });
    for (auto &h : holes) VCHECK(*h.first == h.second, "endian-holes", "a byte between elements changed");
    c.count("swaps");
  }
  // when the data is in machine order, plain access gives the values
  n.endian_swap_to_machine_default();
  std::function<void(const Node &, const Val &)> chk = [&](const Node &x, const Val &y) {
    if (y.k == V_LEAF && is_num_dt(y.dt)) { for (int64_t i = 0; i < y.n; i++) dispatch_num(y.dt, [&](auto t) { typedef decltype(t) T; T a; memcpy(&a, x.element_ptr(i), sizeof(T)); T b; memcpy(&b, &y.bytes[i * sizeof(T)], sizeof(T)); VCHECK(memcmp(&a, &b, sizeof(T)) == 0, "endian-access", "element ", i); return 0; }); return; }
    for (size_t i = 0; i < y.kids.size(); i++) chk(x.child(i), y.kids[i]); };
  chk(n, v);
}
FAMILY("C13", "swap_functions", 3000, 60000) {
  Rng &r = c.rng; uint64_t x = r.next(); c.seen(x);
  for (int w : {2, 4, 8}) {
    alignas(8) uint8 a[16], b[16]; memset(a, 0xEE, 16); memset(b, 0xEE, 16); int o = (int)r.below(2) * 4; memcpy(a + o, &x, w);
    uint8 want[8]; for (int i = 0; i < w; i++) want[i] = ((uint8 *)&x)[w - 1 - i];
    if (r.chance(0.5)) { if (w == 2) Endianness::swap16(a + o); else if (w == 4) Endianness::swap32(a + o); else Endianness::swap64(a + o);
      VCHECK(memcmp(a + o, want, w) == 0, "swap-inplace", w); for (int i = 0; i < 16; i++) VCHECK(i >= o && i < o + w || a[i] == 0xEE, "swap-neighbours", i); }
    else { if (w == 2) Endianness::swap16(a + o, b + o); else if (w == 4) Endianness::swap32(a + o, b + o); else Endianness::swap64(a + o, b + o);
      VCHECK(memcmp(b + o, want, w) == 0 && memcmp(a + o, &x, w) == 0, "swap-copy", w); for (int i = 0; i < 16; i++) VCHECK(i >= o && i < o + w || b[i] == 0xEE, "swap-neighbours", i); }
  }
  VCHECK(Endianness::name_to_id("big") == Endianness::BIG_ID && Endianness::name_to_id("little") == Endianness::LITTLE_ID && Endianness::id_to_name(Endianness::BIG_ID) == "big" && Endianness::machine_default() == Endianness::LITTLE_ID, "endian-names", "");
  c.count("swap_calls", 3);
}
FAMILY_LEAK("C13", "files", 1200, 20000) { // byte order travels with the data
  Rng &r = c.rng; GenOpts g; Val v = gen_val(r, g); drop_dtype(v); RealOpts ro; ro.foreign_endian = true;
  Arena ar; Node n; realize(r, v, n, ar, ro); c.seen(v.hash() ^ 11); c.tr(show(v));
  n.save(c.scratch + "/e.conduit_bin"); Node q; q.load(c.scratch + "/e.conduit_bin");
  VCHECK(snap(q) == v, "endian-file", "got ", show(snap(q)), " want ", show(v));
  std::vector<int64_t> ea, eb; walk_nodes(n, [&](const Node &x) { if (leafn(x)) ea.push_back(x.dtype().endianness()); }); walk_nodes(q, [&](const Node &x) { if (leafn(x)) eb.push_back(x.dtype().endianness()); });
  for (auto &e : ea) if (e == 0) e = Endianness::machine_default();
  for (auto &e : eb) if (e == 0) e = Endianness::machine_default();
  VCHECK(ea == eb, "endian-file-order", "byte order lost");
  q.endian_swap_to_machine_default(); VCHECK(snap(q) == v, "endian-file-swap", "got ", show(snap(q)));
  Node s; s.set(n); VCHECK(snap(s) == v, "endian-set", "got ", show(snap(s)), " want ", show(v));
  c.count("endian_files");
}

