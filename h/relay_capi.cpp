// C11: the C interface does what the C++ interface does. Operations are applied through C to one tree and through C++ to its twin.
#include "vf.hpp"
#include <conduit.hpp>
#include <conduit.h>
#include <conduit_cpp_to_c.hpp>
#include <conduit_blueprint.hpp>
#include <conduit_blueprint.h>
#include <conduit_relay.hpp>
#include <conduit_relay.h>
#include <unistd.h>
using namespace vf; using namespace conduit;
static std::string take(char *p) { std::string s = p ? p : "(null)"; free(p); return s; }
struct Twin { conduit_node *c; Node *n; };
typedef signed char signed_char; typedef unsigned char unsigned_char; typedef unsigned short unsigned_short; typedef unsigned int unsigned_int; typedef unsigned long unsigned_long; typedef signed short signed_short; typedef signed int signed_int; typedef signed long signed_long;
#define TYPES(X) X(int8, int8) X(int16, int16) X(int32, int32) X(int64, int64) X(uint8, uint8) X(uint16, uint16) X(uint32, uint32) X(uint64, uint64) X(float32, float32) X(float64, float64) X(char, char) X(short, short) X(int, int) X(long, long) X(signed_char, signed_char) X(signed_short, signed_short) X(signed_int, signed_int) X(signed_long, signed_long) X(unsigned_char, unsigned_char) X(unsigned_short, unsigned_short) X(unsigned_int, unsigned_int) X(unsigned_long, unsigned_long) X(float, float) X(double, double)
template <typename T> struct Buf { std::vector<uint8_t> b; T *p; size_t n; index_t off, str; std::vector<T> v; };
template <typename T> static T val(Rng &r) { if (std::is_floating_point<T>::value) return (T)(r.range(-100000, 100000) / 16.0); return (T)r.next(); }
template <typename T> static Buf<T> buf(Rng &r, bool detailed) { Buf<T> x; x.n = (size_t)r.range(1, 7); x.off = detailed ? (index_t)(r.below(3) * sizeof(T)) : 0; x.str = (index_t)(sizeof(T) * (detailed ? r.range(1, 3) : 1)); x.b.resize((size_t)(x.off + x.str * (index_t)x.n)); for (auto &c : x.b) c = (uint8_t)r.next(); x.p = (T *)x.b.data(); for (size_t i = 0; i < x.n; i++) { T t = val<T>(r); memcpy(&x.b[(size_t)(x.off + x.str * (index_t)i)], &t, sizeof t); x.v.push_back(t); } return x; }
// what a leaf with these values looks like; the type is found from width and kind, independently of the API
template <typename T> static int want_id() { bool f = std::is_floating_point<T>::value, s = std::is_signed<T>::value; switch (sizeof(T)) { case 1: return s ? DataType::INT8_ID : DataType::UINT8_ID; case 2: return s ? DataType::INT16_ID : DataType::UINT16_ID; case 4: return f ? DataType::FLOAT32_ID : s ? DataType::INT32_ID : DataType::UINT32_ID; default: return f ? DataType::FLOAT64_ID : s ? DataType::INT64_ID : DataType::UINT64_ID; } }
template <typename T> static std::string leaf_is(const Node &n, const std::vector<T> &v) { if (n.dtype().id() != want_id<T>()) return "type is " + n.dtype().name(); if (n.dtype().number_of_elements() != (index_t)v.size()) return "length is " + std::to_string(n.dtype().number_of_elements()); for (size_t i = 0; i < v.size(); i++) { T t; memcpy(&t, n.element_ptr((index_t)i), sizeof t); if (memcmp(&t, &v[i], sizeof t)) return "element " + std::to_string(i) + " differs"; } return ""; }
// set through every form; read back through every form
#define ONE(NAME, T) static void t_##NAME(Ctx &c) { Rng &r = c.rng; conduit_node *root = conduit_node_create(); std::string path = r.chance(0.5) ? "a" : "g/h/k"; conduit_node *at = 0; std::vector<T> w; Buf<T> x = buf<T>(r, false); int k = (int)r.below(10); bool ext = false; c.tr(#NAME, " form ", k); \
  if (k == 0) { w = {x.v[0]}; conduit_node_set_##NAME(root, w[0]); at = root; } else if (k == 1) { w = {x.v[0]}; conduit_node_set_path_##NAME(root, path.c_str(), w[0]); } \
  else if (k == 2) { conduit_node_set_##NAME##_ptr(root, x.p, (index_t)x.n); at = root; w = x.v; } else if (k == 3) { conduit_node_set_path_##NAME##_ptr(root, path.c_str(), x.p, (index_t)x.n); w = x.v; } \
  else if (k == 4) { conduit_node_set_external_##NAME##_ptr(root, x.p, (index_t)x.n); at = root; w = x.v; ext = true; } else if (k == 5) { conduit_node_set_path_external_##NAME##_ptr(root, path.c_str(), x.p, (index_t)x.n); w = x.v; ext = true; } \
  else { x = buf<T>(r, true); w = x.v; if (k == 6) { conduit_node_set_##NAME##_ptr_detailed(root, x.p, (index_t)x.n, x.off, x.str, sizeof(T), CONDUIT_ENDIANNESS_DEFAULT_ID); at = root; } else if (k == 7) conduit_node_set_path_##NAME##_ptr_detailed(root, path.c_str(), x.p, (index_t)x.n, x.off, x.str, sizeof(T), CONDUIT_ENDIANNESS_DEFAULT_ID); else if (k == 8) { ext = true; conduit_node_set_external_##NAME##_ptr_detailed(root, x.p, (index_t)x.n, x.off, x.str, sizeof(T), CONDUIT_ENDIANNESS_DEFAULT_ID); at = root; } else { ext = true; conduit_node_set_path_external_##NAME##_ptr_detailed(root, path.c_str(), x.p, (index_t)x.n, x.off, x.str, sizeof(T), CONDUIT_ENDIANNESS_DEFAULT_ID); } } \
  bool bypath = !at; if (bypath) { VCHECK(conduit_node_has_path(root, path.c_str()), "set-path", #NAME, " did not create the path"); at = conduit_node_fetch_existing(root, path.c_str()); VCHECK(cpp_node(root)->number_of_children() == 1, "set-path", "other children"); } \
  std::string e = leaf_is<T>(*cpp_node(at), w); VCHECK(e.empty(), "set", #NAME, " form ", k, ": ", e); VCHECK(!!conduit_node_is_data_external(at) == ext, "external", #NAME, " form ", k, " external = ", !ext); \
  auto eq = [](T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0; }; \
  VCHECK(eq(conduit_node_as_##NAME(at), w[0]), "as", #NAME); T *p = conduit_node_as_##NAME##_ptr(at); VCHECK(p == cpp_node(at)->element_ptr(0) && eq(*p, w[0]), "as-ptr", #NAME); if (bypath) { VCHECK(eq(conduit_node_fetch_path_as_##NAME(root, path.c_str()), w[0]), "fetch-as", #NAME); VCHECK(conduit_node_fetch_path_as_##NAME##_ptr(root, path.c_str()) == p, "fetch-as-ptr", #NAME); } \
  if (ext) { VCHECK((uint8_t *)p == x.b.data() + x.off, "external-address", #NAME, " form ", k); T t = val<T>(r); size_t i = r.below(x.n); memcpy(&x.b[(size_t)(x.off + x.str * (index_t)i)], &t, sizeof t); w[i] = t; e = leaf_is<T>(*cpp_node(at), w); VCHECK(e.empty(), "external-alias", #NAME, " ", e); } else { for (auto &q : x.b) q = 0x55; e = leaf_is<T>(*cpp_node(at), w); VCHECK(e.empty(), "copied", #NAME, " form ", k, " follows the caller's array: ", e); } \
  size_t i = r.below(w.size()); VCHECK(conduit_node_element_ptr(at, (index_t)i) == cpp_node(at)->element_ptr((index_t)i) && conduit_node_data_ptr(at) == cpp_node(at)->data_ptr(), "element-ptr", #NAME); if (bypath) VCHECK(conduit_node_fetch_path_element_ptr(root, path.c_str(), (index_t)i) == cpp_node(at)->element_ptr((index_t)i) && conduit_node_fetch_path_data_ptr(root, path.c_str()) == cpp_node(at)->data_ptr(), "path-ptr", #NAME); VCHECK(conduit_node_number_of_elements(at) == (index_t)w.size(), "elements", #NAME); \
  const conduit_datatype *d = conduit_node_dtype(at); const DataType &q = cpp_node(at)->dtype(); VCHECK(conduit_datatype_id(d) == want_id<T>() && conduit_datatype_number_of_elements(d) == (index_t)w.size() && conduit_datatype_element_bytes(d) == (index_t)sizeof(T) && conduit_datatype_offset(d) == q.offset() && conduit_datatype_stride(d) == q.stride() && conduit_datatype_endianness(d) == q.endianness() && conduit_datatype_element_index(d, 2) == q.element_index(2), "datatype", #NAME); \
  bool fl = std::is_floating_point<T>::value, sg = std::is_signed<T>::value; VCHECK(conduit_datatype_is_number(d) && !conduit_datatype_is_string(d) && !conduit_datatype_is_object(d) && !conduit_datatype_is_list(d) && !conduit_datatype_is_empty(d) && !!conduit_datatype_is_floating_point(d) == fl && !!conduit_datatype_is_integer(d) == !fl && !!conduit_datatype_is_signed_integer(d) == (!fl && sg) && !!conduit_datatype_is_unsigned_integer(d) == (!fl && !sg), "datatype-kind", #NAME); \
  int hits = !!conduit_datatype_is_int8(d) + !!conduit_datatype_is_int16(d) + !!conduit_datatype_is_int32(d) + !!conduit_datatype_is_int64(d) + !!conduit_datatype_is_uint8(d) + !!conduit_datatype_is_uint16(d) + !!conduit_datatype_is_uint32(d) + !!conduit_datatype_is_uint64(d) + !!conduit_datatype_is_float32(d) + !!conduit_datatype_is_float64(d); VCHECK(hits == 1, "datatype-is", #NAME, " is of ", hits, " types"); \
  VCHECK(!!conduit_datatype_is_char(d) == (want_id<T>() == want_id<char>()) && !!conduit_datatype_is_short(d) == (want_id<T>() == want_id<short>()) && !!conduit_datatype_is_int(d) == (want_id<T>() == want_id<int>()) && !!conduit_datatype_is_long(d) == (want_id<T>() == want_id<long>()) && !!conduit_datatype_is_unsigned_char(d) == (want_id<T>() == want_id<unsigned char>()) && !!conduit_datatype_is_unsigned_short(d) == (want_id<T>() == want_id<unsigned short>()) && !!conduit_datatype_is_unsigned_int(d) == (want_id<T>() == want_id<unsigned>()) && !!conduit_datatype_is_unsigned_long(d) == (want_id<T>() == want_id<unsigned long>()) && !!conduit_datatype_is_float(d) == (want_id<T>() == want_id<float>()) && !!conduit_datatype_is_double(d) == (want_id<T>() == want_id<double>()), "datatype-native", #NAME); \
  char *nm = conduit_datatype_name(d); VCHECK(q.name() == nm, "datatype-name", nm); conduit_datatype_name_destroy(nm); VCHECK(!!conduit_datatype_is_little_endian(d) == q.is_little_endian() && !!conduit_datatype_is_big_endian(d) == q.is_big_endian() && conduit_datatype_endianness_matches_machine(d), "datatype-endian", #NAME); \
  conduit_node_destroy(root); c.count(std::string("t:") + #NAME); }
TYPES(ONE)
FAMILY_LEAK("C11", "leaves", 6000, 120000) {
#define ROW(NAME, T) &t_##NAME,
  static void (*all[])(Ctx &) = {TYPES(ROW)}; size_t k = (size_t)c.rng.below(sizeof(all) / sizeof(all[0]) + 1); c.seen(mix64(c.idx));
  if (k < sizeof(all) / sizeof(all[0])) { all[k](c); return; }
  Rng &r = c.rng; conduit_node *n = conduit_node_create(); std::string s; for (int i = (int)r.below(20); i > 0; i--) s += (char)r.range(1, 126); std::vector<char> b(s.begin(), s.end()); b.push_back(0); int f = (int)r.below(4); if (f == 0) conduit_node_set_char8_str(n, b.data()); else if (f == 1) conduit_node_set_path_char8_str(n, "p/q", b.data()); else if (f == 2) conduit_node_set_external_char8_str(n, b.data()); else conduit_node_set_path_external_char8_str(n, "p/q", b.data());
  conduit_node *at = f & 1 ? conduit_node_fetch_existing(n, "p/q") : n; VCHECK(cpp_node(at)->dtype().is_char8_str() && cpp_node(at)->as_string() == s && s == conduit_node_as_char8_str(at), "string", s); if (f & 1) VCHECK(s == conduit_node_fetch_path_as_char8_str(n, "p/q"), "fetch-string", s); VCHECK((conduit_node_as_char8_str(at) == b.data()) == (f >= 2) && conduit_datatype_is_string(conduit_node_dtype(at)) && conduit_datatype_is_char8_str(conduit_node_dtype(at)) && !conduit_datatype_is_number(conduit_node_dtype(at)), "string-kind", f); if (f < 2 && !s.empty()) { b[0] = 'Z'; VCHECK(s == conduit_node_as_char8_str(at), "string-copied", s); } conduit_node_destroy(n); c.count("strings");
}
// whole trees: random histories through C on one tree and through C++ on the other
static std::string pick_path(Rng &r, const Node &n) { std::string p; const Node *q = &n; while (q->number_of_children() && (p.empty() || r.chance(0.6))) { index_t i = (index_t)r.below((uint64_t)q->number_of_children()); q = &q->child(i); if (q->name().find('/') != std::string::npos) break; p += (p.empty() ? "" : "/") + q->name(); } if (p.empty() || r.chance(0.25)) p += (p.empty() ? "" : "/") + std::string(1, "abc"[r.below(3)]); return p; }
template <class F, class H> static bool both(Ctx &c, const char *what, F f, H h) { bool t1 = false, t2 = false; try { f(); } catch (conduit::Error &) { t1 = true; } try { h(); } catch (conduit::Error &) { t2 = true; } VCHECK(t1 == t2, "error", what, t1 ? " fails through C only" : " fails through C++ only"); return !t1; }
static Val sn(const Node &n) { return snap(n); }
FAMILY_LEAK("C11", "histories", 2500, 50000) {
  Rng &r = c.rng; Arena ar; conduit_node *cn[2] = {conduit_node_create(), conduit_node_create()}; Node n[2]; GenOpts go; go.max_depth = 3; go.max_width = 4; RealOpts ro; for (int i = 0; i < 2; i++) { Val v = gen_val(r, go); realize_plain(v, *cpp_node(cn[i])); realize_plain(v, n[i]); } int steps = (int)r.range(5, 25);
  for (int s = 0; s < steps; s++) {
    int a = (int)r.below(2), b = 1 - a; conduit_node *C = cn[a], *O = cn[b]; Node &N = n[a], &M = n[b]; std::string p = pick_path(r, N), q = r.chance(0.7) ? p.substr(0, p.find('/')) : "zz"; index_t k = (index_t)r.below(4); int op = (int)r.below(24); c.tr("op ", op, " tree ", a, " path ", p); const char *P = p.c_str(), *Q = q.c_str();
    switch (op) {
    case 0: { conduit_node *x = 0; Node *y = 0; if (both(c, "fetch", [&] { x = conduit_node_fetch(C, P); }, [&] { y = &N.fetch(p); })) { VCHECK(take(conduit_node_path(x)) == y->path() && take(conduit_node_name(x)) == y->name(), "fetch", p); } break; }
    case 1: { conduit_node *x = 0; Node *y = 0; if (both(c, "fetch_existing", [&] { x = conduit_node_fetch_existing(C, P); }, [&] { y = &N.fetch_existing(p); })) VCHECK(sn(*cpp_node(x)) == sn(*y), "fetch-existing", p); break; }
    case 2: both(c, "append", [&] { conduit_node_set_int32(conduit_node_append(C), 5); }, [&] { N.append() = (int32)5; }); break;
    case 3: both(c, "add_child", [&] { conduit_node_set_int32(conduit_node_add_child(C, Q), 6); }, [&] { N.add_child(q) = (int32)6; }); break;
    case 4: { conduit_node *x = 0; Node *y = 0; if (both(c, "child", [&] { x = conduit_node_child(C, k); }, [&] { y = &N.child(k); })) VCHECK(sn(*cpp_node(x)) == sn(*y) && cpp_node(x)->parent() == cpp_node(C) && conduit_node_parent(x) == C && !conduit_node_is_root(x), "child", k); break; }
    case 5: { conduit_node *x = 0; Node *y = 0; if (both(c, "child_by_name", [&] { x = conduit_node_child_by_name(C, Q); }, [&] { y = &N.child(q); })) VCHECK(sn(*cpp_node(x)) == sn(*y), "child-by-name", q); break; }
    case 6: both(c, "remove_path", [&] { conduit_node_remove_path(C, P); }, [&] { N.remove(p); }); break;
    case 7: both(c, "remove_child", [&] { conduit_node_remove_child(C, k); }, [&] { N.remove(k); }); break;
    case 8: both(c, "remove_child_by_name", [&] { conduit_node_remove_child_by_name(C, Q); }, [&] { N.remove_child(q); }); break;
    case 9: both(c, "rename_child", [&] { conduit_node_rename_child(C, Q, "new"); }, [&] { N.rename_child(q, "new"); }); break;
    case 10: conduit_node_swap(C, O); N.swap(M); break;
    case 11: conduit_node_move(C, O); N.move(M); break;
    case 12: conduit_node_update(C, O); N.update(M); break;
    case 13: conduit_node_update_compatible(C, O); N.update_compatible(M); break;
    case 14: conduit_node_set_node(C, O); N.set(M); break;
    case 15: both(c, "set_path_node", [&] { conduit_node_set_path_node(C, P, O); }, [&] { N.set_path(p, M); }); break;
    case 16: { conduit_node *t = conduit_node_create(); Node u; conduit_node_compact_to(C, t); N.compact_to(u); VCHECK(sn(*cpp_node(t)) == sn(u) && !!conduit_node_is_compact(t) == u.is_compact() && !!conduit_node_is_contiguous(t) == u.is_contiguous(), "compact-to", ""); conduit_node_set_node(C, t); N.set(u); conduit_node_destroy(t); break; }
    case 17: { conduit_node *t = conduit_node_create(); conduit_node_set_external_node(t, C); VCHECK(sn(*cpp_node(t)) == sn(N), "external-node", ""); conduit_node *u = conduit_node_create(); conduit_node_set_path_external_node(u, "e/f", C); VCHECK(sn((*cpp_node(u))["e/f"]) == sn(N), "path-external-node", ""); Node x; x.set_external(N); VCHECK(cpp_node(t)->dtype().id() == x.dtype().id() && (!x.dtype().is_number() || !!conduit_node_is_data_external(t) == x.is_data_external()), "external-node", "not external"); if (N.dtype().is_number() && N.dtype().number_of_elements()) VCHECK(cpp_node(t)->element_ptr(0) == cpp_node(C)->element_ptr(0), "external-node", "copied"); conduit_node_destroy(t); conduit_node_destroy(u); break; }
    case 18: { conduit_node *i1 = conduit_node_create(); Node i2; double eps = r.chance(0.5) ? 1e-12 : 0.5; int d1 = -1, e1 = -1, d2 = -1, e2 = -1; if (both(c, "diff", [&] { d1 = conduit_node_diff(C, O, i1, eps); }, [&] { d2 = N.diff(M, i2, eps); })) { VCHECK(!!d1 == !!d2 && sn(*cpp_node(i1)) == sn(i2), "diff", d1, " ", d2); } conduit_node_reset(i1); i2.reset(); if (both(c, "diff_compatible", [&] { e1 = conduit_node_diff_compatible(C, O, i1, eps); }, [&] { e2 = N.diff_compatible(M, i2, eps); })) VCHECK(!!e1 == !!e2 && sn(*cpp_node(i1)) == sn(i2), "diff-compatible", e1, " ", e2); VCHECK(!!conduit_node_compatible(C, O) == N.compatible(M), "compatible", ""); conduit_node_destroy(i1); break; }
    case 19: { VCHECK(conduit_node_total_bytes_compact(C) == N.total_bytes_compact() && conduit_node_total_strided_bytes(C) == N.total_strided_bytes() && conduit_node_total_bytes_allocated(C) == cpp_node(C)->total_bytes_allocated() && !!conduit_node_is_compact(C) == cpp_node(C)->is_compact() && !!conduit_node_is_contiguous(C) == cpp_node(C)->is_contiguous(), "bytes", ""); VCHECK(conduit_node_is_root(C) && conduit_node_parent(C) == NULL, "root", ""); if (cpp_node(C)->number_of_children() > 1) { conduit_node *x = conduit_node_child(C, 0), *y = conduit_node_child(C, 1); VCHECK(!!conduit_node_contiguous_with_node(y, x) == cpp_node(y)->contiguous_with(*cpp_node(x)) && !!conduit_node_contiguous_with_address(y, cpp_node(x)->contiguous_data_ptr()) == cpp_node(y)->contiguous_with(cpp_node(x)->contiguous_data_ptr()), "contiguous-with", ""); } break; }
    case 20: { Node o; o["indent"] = (index_t)r.range(0, 4); if (r.chance(0.5)) o["depth"] = (index_t)r.below(3); if (r.chance(0.5)) o["pad"] = "_"; if (r.chance(0.5)) o["eoe"] = "|"; Node so(o); if (r.chance(0.5)) { so["num_children_threshold"] = (index_t)r.range(1, 4); so["num_elements_threshold"] = (index_t)r.range(1, 6); } auto J = [&](const char *w, std::string x, std::string y) { VCHECK(x == y, "text", w, ": ", x, " and ", y); }; J("json", take(conduit_node_to_json(C)), N.to_json()); J("yaml", take(conduit_node_to_yaml(C)), N.to_yaml()); J("string", take(conduit_node_to_string(C)), N.to_string()); J("summary", take(conduit_node_to_summary_string(C)), N.to_summary_string());
      { Node jo(o); jo["protocol"] = r.chance(0.5) ? "json" : "conduit_json"; J("json options", take(conduit_node_to_json_with_options(C, c_node(&jo))), N.to_json(jo["protocol"].as_string(), jo["indent"].to_index_t(), jo.has_child("depth") ? jo["depth"].to_index_t() : 0, jo.has_child("pad") ? "_" : " ", jo.has_child("eoe") ? "|" : "\n")); J("yaml options", take(conduit_node_to_yaml_with_options(C, c_node(&o))), N.to_yaml("yaml", o["indent"].to_index_t(), o.has_child("depth") ? o["depth"].to_index_t() : 0, o.has_child("pad") ? "_" : " ", o.has_child("eoe") ? "|" : "\n")); J("string options", take(conduit_node_to_string_with_options(C, c_node(&jo))), N.to_string(jo["protocol"].as_string(), jo["indent"].to_index_t(), jo.has_child("depth") ? jo["depth"].to_index_t() : 0, jo.has_child("pad") ? "_" : " ", jo.has_child("eoe") ? "|" : "\n")); J("summary options", take(conduit_node_to_summary_string_with_options(C, c_node(&so))), N.to_summary_string(so)); } c.count("texts"); break; }
    case 21: { std::string f = c.scratch + "/capi"; std::string pr = r.pick(std::vector<std::string>{"conduit_bin", "conduit_json", "conduit_base64_json", "json", "yaml"}); unlink(f.c_str()); conduit_node *t = conduit_node_create(); Node u; if (both(c, "save/load", [&] { if (r.chance(0.5)) conduit_node_save(C, f.c_str(), pr.c_str()); else conduit_relay_io_save(C, f.c_str(), pr.c_str(), NULL); conduit_node_load(t, f.c_str(), pr.c_str()); }, [&] { std::string g = f + "2"; N.save(g, pr); u.load(g, pr); })) { VCHECK(sn(*cpp_node(t)) == sn(u), "save-load", pr); conduit_node *v = conduit_node_create(); conduit_relay_io_load(f.c_str(), pr.c_str(), NULL, v); VCHECK(sn(*cpp_node(v)) == sn(u), "relay-load", pr); conduit_node_destroy(v); } conduit_node_destroy(t); break; }
    case 22: { Node src; src["a"] = (int64)r.next(); src["b"].set(DataType::float64(3)); double *bd = src["b"].value(); for (int i = 0; i < 3; i++) bd[i] = i * 1.5; Node cm; src.compact_to(cm); std::string sch = cm.schema().to_json(); uint8_t *d = (uint8_t *)cm.data_ptr(); bool ex = r.chance(0.5); if (ex) conduit_node_generate_external(C, sch.c_str(), "conduit_json", d); else conduit_node_generate(C, sch.c_str(), "conduit_json", d); VCHECK(sn(*cpp_node(C)) == sn(src), "generate", ""); if (ex) VCHECK(conduit_node_fetch_path_data_ptr(C, "a") == (void *)d, "generate-external", "copied"); { Node keep; keep.set(src); N.set(keep); if (ex) { conduit_node *t = conduit_node_create(); conduit_node_set_node(t, C); conduit_node_reset(C); conduit_node_set_node(C, t); conduit_node_destroy(t); } } std::string js = "{\"x\": [1, 2.5], \"y\": \"s\"}"; conduit_node *t = conduit_node_create(); conduit_node_parse(t, js.c_str(), "json"); Node u; u.parse(js, "json"); VCHECK(sn(*cpp_node(t)) == sn(u), "parse", ""); conduit_node_destroy(t); break; }
    default: { VCHECK(!!conduit_node_has_path(C, P) == N.has_path(p) && !!conduit_node_has_child(C, Q) == N.has_child(q) && conduit_node_number_of_children(C) == N.number_of_children(), "has", p); if (op == 23 && r.chance(0.2)) { conduit_node_reset(C); N.reset(); } conduit_node *i1 = conduit_node_create(); conduit_node_info(C, i1); VCHECK(cpp_node(i1)->has_child("total_bytes_compact") && (*cpp_node(i1))["total_bytes_compact"].to_int64() == N.total_bytes_compact(), "info", ""); conduit_node_destroy(i1); }
    }
    for (int i = 0; i < 2; i++) { Val x = sn(*cpp_node(cn[i])), y = sn(n[i]); VCHECK(x == y, "tree", "after op ", op, " tree ", i, " through C: ", show(x), " through C++: ", show(y)); } c.seen(hash_str(show(sn(n[a])))); c.count("ops");
  }
  conduit_node_destroy(cn[0]); conduit_node_destroy(cn[1]);
}
FAMILY_LEAK("C11", "blueprint", 400, 6000) { // the mesh interface
  Rng &r = c.rng; conduit_node *m = conduit_node_create(), *o = conduit_node_create(), *i = conduit_node_create(); Node M, O, I; auto T = r.pick(std::vector<std::string>{"uniform", "rectilinear", "structured", "tris", "quads", "hexs", "tets", "points"}); index_t nx = r.range(2, 5), ny = r.range(2, 5), nz = T == "hexs" || T == "tets" ? r.range(2, 4) : 0; int k = (int)r.below(5); c.seen(mix64(c.idx)); namespace ex = blueprint::mesh::examples;
  switch (k) { case 0: conduit_blueprint_mesh_examples_braid(T.c_str(), nx, ny, nz, m); ex::braid(T, nx, ny, nz, M); break; case 1: T = r.pick(std::vector<std::string>{"uniform", "quads"}); nz = 0; conduit_blueprint_mesh_examples_basic(T.c_str(), nx, ny, 0, m); ex::basic(T, nx, ny, 0, M); break; case 2: { double a = r.range(-20, 0) / 10.0, b = r.range(1, 20) / 10.0, cc = r.range(-20, 0) / 10.0, d = r.range(1, 20) / 10.0, e = 0.285, f = 0.01; conduit_blueprint_mesh_examples_julia(nx, ny, a, b, cc, d, e, f, m); ex::julia(nx, ny, a, b, cc, d, e, f, M); break; } case 3: conduit_blueprint_mesh_examples_spiral(nx, m); ex::spiral(nx, M); break; default: conduit_blueprint_mesh_examples_polytess(nx % 3 + 1, 1, m); ex::polytess(nx % 3 + 1, 1, M); }
  c.tr("example ", k, " ", T); VCHECK(snap(*cpp_node(m)) == snap(M), "example", k, " ", T); if (M.has_child("topologies") && r.chance(0.3)) { conduit_node_remove_path(m, "topologies"); M.remove("topologies"); }
  bool a = conduit_blueprint_mesh_verify(m, i), b = blueprint::mesh::verify(M, I); VCHECK(a == b && snap(*cpp_node(i)) == snap(I), "verify", a, b); a = conduit_blueprint_verify("mesh", m, i); VCHECK(a == b && snap(*cpp_node(i)) == snap(I), "verify", a, b); if (M.has_path("coordsets/coords")) { bool x = conduit_blueprint_mesh_verify_sub_protocol("coordset", conduit_node_fetch_existing(m, "coordsets/coords"), i), y = blueprint::mesh::verify("coordset", M["coordsets/coords"], I); VCHECK(x == y && x, "sub-protocol", x, y); VCHECK(!conduit_blueprint_mesh_verify_sub_protocol("topology", conduit_node_fetch_existing(m, "coordsets/coords"), i), "sub-protocol", "topology"); }
  if (b) { conduit_blueprint_mesh_generate_index(m, "ref", 3, o); blueprint::mesh::generate_index(M, "ref", 3, O); VCHECK(snap(*cpp_node(o)) == snap(O), "index", ""); if (k < 3 && nx > 2) { Node opt; opt["target"] = (int64)2; conduit_blueprint_mesh_partition(m, c_node(&opt), o); blueprint::mesh::partition(M, opt, O); VCHECK(snap(*cpp_node(o)) == snap(O), "partition", ""); Node fo; fo["add_domain_info"] = (int)r.below(2); conduit_blueprint_mesh_flatten(m, c_node(&fo), o); blueprint::mesh::flatten(M, fo, O); VCHECK(snap(*cpp_node(o)) == snap(O), "flatten", ""); } }
  conduit_node_destroy(m); conduit_node_destroy(o); conduit_node_destroy(i); c.count("meshes");
}
