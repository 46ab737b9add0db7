// Monitor framework: seeded case driver, event counters, violation log, reference value model.
#pragma once
#include <conduit.hpp>
#include <conduit_error.hpp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#endif

namespace vf {
using conduit::Node;
using conduit::Schema;
using conduit::DataType;
using conduit::Endianness;
using conduit::index_t;

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
  return mix64(h);
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ULL) { return hash_bytes(s.data(), s.size(), h); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

struct CaseAbort {};

struct Ctx {
  Rng rng{1};
  std::string prop, family;
  uint64_t idx = 0;
  bool thorough = false, replay = false, muted = false;
  std::string scratch;                   // private scratch dir of this worker
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::vector<std::string> trace;        // op log of this case
  uint64_t nviol = 0;
  FILE *log = nullptr;
  int rank = 0, nranks = 1;

  void count(const std::string &n, uint64_t k = 1) { if (!muted) counters[n] += k; }
  void seen(uint64_t h) { if (!muted) distinct.insert(mix64(h ^ hash_str(family))); }
  template <class... A> void tr(A... a) {
    std::ostringstream o; using X = int[]; (void)X{0, ((o << a), 0)...};
    trace.push_back(o.str());
    if (replay) { fprintf(stderr, "  [%d] %s\n", rank, o.str().c_str()); fflush(stderr); }
  }
  static std::string jesc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r;
  }
  void sample() {
    if (muted || samples.size() >= 3) return;
    std::string s = family + ":" + std::to_string(idx);
    for (auto &t : trace) { if (s.size() > 600) { s += " ..."; break; } s += " | " + t; }
    samples.push_back(s);
  }
  // A refutation of the property: recorded, and the case ends.
  [[noreturn]] void viol(const std::string &key, const std::string &msg) {
    record(key, msg);
    throw CaseAbort();
  }
  void record(const std::string &key, const std::string &msg) {
    nviol++;
    std::string t;
    for (auto &x : trace) { if (t.size() > 4000) { t += "\n..."; break; } t += x + "\n"; }
    if (log) {
      fprintf(log, "{\"t\":\"viol\",\"case\":\"%s:%llu\",\"rank\":%d,\"key\":\"%s\",\"msg\":\"%s\",\"trace\":\"%s\"}\n", family.c_str(), (unsigned long long)idx, rank,
              jesc(key).c_str(), jesc(msg.substr(0, 3000)).c_str(), jesc(t).c_str());
      fflush(log);
    }
    if (replay) fprintf(stderr, "VIOLATED [%s] %s\n", key.c_str(), msg.c_str());
  }
};

typedef std::function<void(Ctx &)> CaseFn;
struct Family { std::string prop, name; uint64_t nquick, nthorough; CaseFn fn; bool leak; };
inline std::vector<Family> &families() { static std::vector<Family> f; return f; }
struct Reg { Reg(const char *p, const char *n, uint64_t q, uint64_t t, CaseFn f, bool leak = false) { families().push_back({p, n, q, t, f, leak}); } };
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
// FAMILY("C01","name",quick,thorough){ ... uses vf::Ctx &c ... }
#define FAMILY(prop, name, q, t)                                          \
  static void VF_CAT(fam_, __LINE__)(vf::Ctx & c);                        \
  static vf::Reg VF_CAT(reg_, __LINE__)(prop, name, q, t, VF_CAT(fam_, __LINE__)); \
  static void VF_CAT(fam_, __LINE__)(vf::Ctx & c)
// same, with the leak monitor on (case must free everything it allocates)
#define FAMILY_LEAK(prop, name, q, t)                                     \
  static void VF_CAT(fam_, __LINE__)(vf::Ctx & c);                        \
  static vf::Reg VF_CAT(reg_, __LINE__)(prop, name, q, t, VF_CAT(fam_, __LINE__), true); \
  static void VF_CAT(fam_, __LINE__)(vf::Ctx & c)

#define VCHECK(cond, key, ...)                                            \
  do { if (!(cond)) { std::ostringstream o_; vf::outv(o_, __VA_ARGS__); c.viol(key, o_.str()); } } while (0)
inline void outv(std::ostringstream &) {}
template <class T, class... A> void outv(std::ostringstream &o, const T &t, const A &...a) { o << t; outv(o, a...); }

// ---------------------------------------------------------------- reference model
enum VK { V_EMPTY, V_OBJ, V_LIST, V_LEAF };
struct Val {
  VK k = V_EMPTY;
  std::vector<std::string> names;
  std::vector<Val> kids;
  int dt = 0;
  int64_t n = 0;
  std::vector<uint8_t> bytes; // packed, native order
  bool operator==(const Val &o) const { return k == o.k && dt == o.dt && n == o.n && bytes == o.bytes && names == o.names && kids == o.kids; }
  bool operator!=(const Val &o) const { return !(*this == o); }
  int find(const std::string &s) const { for (size_t i = 0; i < names.size(); i++) if (names[i] == s) return (int)i; return -1; }
  uint64_t hash() const {
    uint64_t h = mix64(k * 131 + dt * 7 + n);
    h = mix64(h ^ hash_bytes(bytes.data(), bytes.size()));
    for (auto &s : names) h = mix64(h ^ hash_str(s));
    for (auto &v : kids) h = mix64(h * 3 ^ v.hash());
    return h;
  }
  size_t count_leaves() const { if (k == V_LEAF) return 1; size_t r = 0; for (auto &v : kids) r += v.count_leaves(); return r; }
  size_t count_nodes() const { size_t r = 1; for (auto &v : kids) r += v.count_nodes(); return r; }
};
inline int esize(int dt) { return (int)DataType::default_bytes(dt); }

template <class F> auto dispatch_num(int dt, F f) {
  switch (dt) {
  case DataType::INT8_ID: return f((conduit::int8)0);
  case DataType::INT16_ID: return f((conduit::int16)0);
  case DataType::INT32_ID: return f((conduit::int32)0);
  case DataType::INT64_ID: return f((conduit::int64)0);
  case DataType::UINT8_ID: return f((conduit::uint8)0);
  case DataType::UINT16_ID: return f((conduit::uint16)0);
  case DataType::UINT32_ID: return f((conduit::uint32)0);
  case DataType::UINT64_ID: return f((conduit::uint64)0);
  case DataType::FLOAT32_ID: return f((conduit::float32)0);
  default: return f((conduit::float64)0);
  }
}
static const std::vector<int> NUM_DTS = {DataType::INT8_ID, DataType::INT16_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID, DataType::UINT16_ID,
                                         DataType::UINT32_ID, DataType::UINT64_ID, DataType::FLOAT32_ID, DataType::FLOAT64_ID};
inline bool is_float_dt(int dt) { return dt == DataType::FLOAT32_ID || dt == DataType::FLOAT64_ID; }
inline bool is_num_dt(int dt) { return dt >= DataType::INT8_ID && dt <= DataType::FLOAT64_ID; }
inline bool is_str_dt(int dt) { return dt == DataType::CHAR8_STR_ID; }

inline std::string show(const Val &v, int depth = 0) {
  std::ostringstream o;
  switch (v.k) {
  case V_EMPTY: o << "<empty>"; break;
  case V_OBJ: o << "{"; for (size_t i = 0; i < v.kids.size(); i++) o << (i ? ", " : "") << '"' << v.names[i] << "\": " << show(v.kids[i], depth + 1); o << "}"; break;
  case V_LIST: o << "["; for (size_t i = 0; i < v.kids.size(); i++) o << (i ? ", " : "") << show(v.kids[i], depth + 1); o << "]"; break;
  case V_LEAF:
    o << DataType::id_to_name(v.dt) << "(" << v.n << ")";
    if (is_str_dt(v.dt)) o << "'" << std::string((const char *)v.bytes.data(), v.bytes.size()) << "'";
    else {
      o << "<";
      for (int64_t i = 0; i < v.n && i < 6; i++)
        dispatch_num(v.dt, [&](auto t) { decltype(t) x; memcpy(&x, &v.bytes[i * sizeof(x)], sizeof(x)); o.precision(17); o << (i ? "," : "") << +x; return 0; });
      if (v.n > 6) o << "..";
      o << ">";
    }
  }
  std::string s = o.str();
  return s.size() > 1500 ? s.substr(0, 1500) + "..." : s;
}

// Observation of a live node through public accessors only; raw bytes are read at
// the addresses the layout (offset, stride, element_bytes, endianness) declares.
inline Val snap(const Node &n) {
  Val v;
  const DataType dt = n.dtype();
  if (dt.is_empty()) return v;
  if (dt.is_object()) {
    v.k = V_OBJ;
    for (index_t i = 0; i < n.number_of_children(); i++) { v.kids.push_back(snap(n.child(i))); v.names.push_back(n.schema().child_name(i)); }
    return v;
  }
  if (dt.is_list()) {
    v.k = V_LIST;
    for (index_t i = 0; i < n.number_of_children(); i++) v.kids.push_back(snap(n.child(i)));
    return v;
  }
  v.k = V_LEAF;
  v.dt = (int)dt.id();
  v.n = dt.number_of_elements();
  int es = esize(v.dt);
  v.bytes.resize((size_t)(v.n > 0 ? v.n : 0) * es);
  const uint8_t *base = (const uint8_t *)n.data_ptr();
  bool swap = dt.endianness() != Endianness::DEFAULT_ID && dt.endianness() != Endianness::machine_default();
  for (int64_t i = 0; i < v.n; i++) {
    const uint8_t *p = base + dt.offset() + i * dt.stride();
    if (!swap) memcpy(&v.bytes[i * es], p, es);
    else for (int b = 0; b < es; b++) v.bytes[i * es + b] = p[es - 1 - b];
  }
  return v;
}

// Exact-size heap blocks for externally owned data (ASan red zones around each).
struct Arena {
  std::vector<std::unique_ptr<uint8_t[]>> blocks;
  uint8_t *get(size_t n) { blocks.emplace_back(new uint8_t[n ? n : 1]); memset(blocks.back().get(), 0xA5, n ? n : 1); return blocks.back().get(); }
};

template <class T> T rand_num(Rng &r, bool nonfinite) {
  switch (r.below(6)) {
  case 0: return (T)r.below(10);
  case 1: return std::numeric_limits<T>::max();
  case 2: return std::numeric_limits<T>::lowest();
  case 3: return (T)0;
  default: break;
  }
  if (std::is_floating_point<T>::value) {
    switch (r.below(9)) {
    case 8: return (T)((r.chance(0.5) ? 1 : -1) * (double)r.range(1, 9) * std::pow(10.0, (double)r.range(-37, 37)));
    case 0: return (T)-0.0;
    case 1: return std::numeric_limits<T>::denorm_min();
    case 2: return nonfinite ? std::numeric_limits<T>::infinity() : (T)1e10;
    case 3: return nonfinite ? std::numeric_limits<T>::quiet_NaN() : (T)-1.5;
    case 4: return (T)((double)r.range(-1000, 1000) / 8);
    case 5: return (T)(r.unit() * 1e-7);
    case 6: return (T)r.range(-100000, 100000);
    default: return (T)((r.unit() - 0.5) * std::pow(10.0, (double)r.range(-30, 30)));
    }
  }
  return (T)r.next();
}

struct GenOpts {
  int max_depth = 4, max_width = 5, max_len = 9;
  bool empties = true, lists = true, strings = true, zero_len = true, nonfinite = true, empty_containers = true;
  bool nasty_names = true, nasty_strings = true, slash_names = false;
  bool embedded_nul = false;
  double big_p = 0.004;  // rare sizes far past the usual ones: long arrays, long strings, wide and deep containers
  std::vector<int> dts = NUM_DTS;
  double scalar_p = 0.4;
};
inline std::string rand_name(Rng &r, const GenOpts &o) {
  static const std::vector<std::string> plain = {"a", "b", "c", "d", "e", "alpha", "beta", "values", "coords", "x1", "y_2", "Z", "topo", "fields", "name"};
  static const std::vector<std::string> nasty = {"with space", "dot.name", "col:on", "#hash", "-dash", "9num", "[br]", "{cb}", "comma,x", "a=b", "tab\there", "dtype", "length", "value",
                                                 "true", "null", "~", "1", "0", "offset", "*star", "&amp", "!bang", "%pct", "@at", "`tick", "q'uote", "uni\xc3\xa9", "..x", ".hid", "trail "};
  if (o.slash_names && r.chance(0.1)) return r.pick(plain) + "/" + r.pick(plain);
  if (o.nasty_names && r.chance(0.2)) return r.pick(nasty);
  if (r.chance(0.3)) return r.pick(plain) + std::to_string(r.below(30));
  return r.pick(plain);
}
inline std::string rand_string(Rng &r, const GenOpts &o) {
  static const std::vector<std::string> nasty = {"", " ", "quo\"te", "back\\slash", "new\nline", "tab\t", "\r\n", "\x01\x02\x1f", "uni \xc3\xa9\xe2\x82\xac", "true", "null", "1.5", "123", "{}", "[]", "a: b", "- x",
                                                 "#c", "/", "\\/", "\b\f", "'single'", "~", "\"", "\\", "\\n", "%d%s", "{0}", "very long string xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"};
  if (o.nasty_strings && r.chance(0.5)) return r.pick(nasty);
  std::string s;
  for (int64_t i = 0, n = r.range(0, 12); i < n; i++) s += (char)(o.nasty_strings && r.chance(0.1) ? r.range(1, 126) : r.range('a', 'z'));
  return s;
}
inline Val mk_str(const std::string &s) {
  Val v; v.k = V_LEAF; v.dt = DataType::CHAR8_STR_ID; v.n = (int64_t)s.size() + 1;
  v.bytes.assign(s.begin(), s.end()); v.bytes.push_back(0); return v;
}
template <class T> struct DtOf;
#define VF_DT(T, ID) template <> struct DtOf<conduit::T> { static const int id = DataType::ID; };
VF_DT(int8, INT8_ID) VF_DT(int16, INT16_ID) VF_DT(int32, INT32_ID) VF_DT(int64, INT64_ID)
VF_DT(uint8, UINT8_ID) VF_DT(uint16, UINT16_ID) VF_DT(uint32, UINT32_ID) VF_DT(uint64, UINT64_ID)
VF_DT(float32, FLOAT32_ID) VF_DT(float64, FLOAT64_ID)
template <class T> Val mk_arr(const std::vector<T> &x) {
  Val v; v.k = V_LEAF; v.dt = DtOf<T>::id; v.n = (int64_t)x.size(); v.bytes.resize(x.size() * sizeof(T));
  if (!x.empty()) memcpy(v.bytes.data(), x.data(), v.bytes.size()); return v;
}
inline Val gen_leaf(Rng &r, const GenOpts &o) {
  bool big = r.chance(o.big_p);
  if (o.strings && r.chance(0.2)) { std::string s = rand_string(r, o); if (big) for (int64_t n = r.pick(std::vector<int64_t>{63, 255, 256, 1023, 1024, 4096, 5000}); (int64_t)s.size() < n;) s += !s.empty() && (int64_t)(2 * s.size()) <= n ? s : std::string("x"); return mk_str(s); }
  Val v; v.k = V_LEAF; v.dt = r.pick(o.dts);
  v.n = r.chance(o.scalar_p) ? 1 : r.range(o.zero_len ? 0 : 1, o.max_len);
  if (big) v.n = r.range(10, r.chance(0.3) ? 5000 : 1200);
  int es = esize(v.dt);
  v.bytes.resize(v.n * es);
  for (int64_t i = 0; i < v.n; i++)
    dispatch_num(v.dt, [&](auto t) { decltype(t) x = rand_num<decltype(t)>(r, o.nonfinite); memcpy(&v.bytes[i * es], &x, es); return 0; });
  return v;
}
inline Val gen_val(Rng &r, const GenOpts &o, int depth = 0) {
  double pl = depth < 0 ? 0.02 : depth == 0 ? 0.06 : (depth >= o.max_depth ? 1.0 : 0.35 + 0.1 * depth);
  if (r.chance(pl)) {
    if (o.empties && r.chance(0.06)) return Val();
    return gen_leaf(r, o);
  }
  Val v;
  v.k = (o.lists && r.chance(0.25)) ? V_LIST : V_OBJ;
  int64_t w = r.range(o.empty_containers ? 0 : 1, o.max_width);
  if (w == 0 && r.chance(0.7)) w = 1;
  if (r.chance(o.big_p)) { w = r.range(10, 130); depth = std::max(depth, o.max_depth - 1); }
  else if (r.chance(o.big_p)) depth -= (int)r.range(2, 20);
  if (depth < 0) w = 1;
  for (int64_t i = 0; i < w; i++) {
    if (v.k == V_OBJ) { std::string nm = rand_name(r, o); if (v.find(nm) >= 0) { if (w < 10) continue; nm = "w" + std::to_string(i); if (v.find(nm) >= 0) continue; } v.names.push_back(nm); }
    v.kids.push_back(gen_val(r, o, depth + 1));
  }
  return v;
}

struct RealOpts { bool external = true, strided = true, offsets = true, foreign_endian = false, schema_alloc = true; };

// write one leaf into a layout (base+off, stride)
inline void put_leaf(const Val &v, uint8_t *base, int64_t off, int64_t stride, bool swap) {
  int es = esize(v.dt);
  for (int64_t i = 0; i < v.n; i++)
    for (int b = 0; b < es; b++) base[off + i * stride + b] = v.bytes[i * es + (swap ? es - 1 - b : b)];
}
inline int64_t other_endian() { return Endianness::machine_default() == Endianness::LITTLE_ID ? Endianness::BIG_ID : Endianness::LITTLE_ID; }

inline void real_leaf(Rng &r, const Val &v, Node &n, Arena &ar, const RealOpts &o) {
  int es = esize(v.dt);
  int64_t off = 0, stride = es;
  bool swap = false;
  if (o.offsets && r.chance(0.4)) off = r.range(0, 3) * es + (r.chance(0.2) ? r.range(0, 3) : 0);
  if (o.strided && !is_str_dt(v.dt) && r.chance(0.5)) stride = es * r.range(1, 4) + (r.chance(0.15) ? r.range(0, 3) : 0);
  if (o.foreign_endian && r.chance(0.4)) swap = true;
  size_t span = off + (v.n > 0 ? (v.n - 1) * stride + es : 0);
  switch (r.below(3)) {
  case 0: { // library-owned compact
    n.set(DataType(v.dt, v.n));
    if (v.n) memcpy(n.data_ptr(), v.bytes.data(), v.bytes.size());
    return;
  }
  case 1:
    if (o.external) {
      uint8_t *p = ar.get(span);
      put_leaf(v, p, off, stride, swap);
      n.set_external(DataType(v.dt, v.n, off, stride, es, swap ? other_endian() : Endianness::machine_default()), p);
      return;
    } // fallthrough
  default: { // library-owned with a non-compact layout
    n.reset();
    if (v.n == 0) { n.set(DataType(v.dt, 0)); return; }
    n.set(DataType(v.dt, v.n, off, stride, es, swap ? other_endian() : Endianness::machine_default()));
    put_leaf(v, (uint8_t *)n.data_ptr(), off, stride, swap);
    return;
  }
  }
}
inline void realize(Rng &r, const Val &v, Node &n, Arena &ar, const RealOpts &o) {
  n.reset();
  switch (v.k) {
  case V_EMPTY: return;
  case V_OBJ:
    n.set(DataType::object());
    for (size_t i = 0; i < v.kids.size(); i++) realize(r, v.kids[i], n.add_child(v.names[i]), ar, o);
    return;
  case V_LIST:
    n.set(DataType::list());
    for (size_t i = 0; i < v.kids.size(); i++) realize(r, v.kids[i], n.append(), ar, o);
    return;
  case V_LEAF: real_leaf(r, v, n, ar, o); return;
  }
}
inline void realize_plain(const Val &v, Node &n) {
  Rng r(0); Arena a; RealOpts o; o.external = o.strided = o.offsets = o.schema_alloc = false;
  realize(r, v, n, a, o);
}

// Every node that exists knows its parent: parent links, root, name and child
// index are what a user navigates with.
inline std::string check_links(Node &n, Node *parent, const std::string &where = "") {
  if (n.parent() != parent) return "wrong parent at '" + where + "'";
  if (n.dtype().is_object() || n.dtype().is_list())
    for (index_t i = 0; i < n.number_of_children(); i++) {
      Node &ch = n.child(i);
      std::string w = where + "/" + (n.dtype().is_object() ? n.schema().child_name(i) : "[" + std::to_string(i) + "]");
      if (ch.schema_ptr() != n.schema_ptr()->child_ptr(i)) return "child schema not the parent's schema child at " + w;
      std::string e = check_links(ch, &n, w);
      if (!e.empty()) return e;
    }
  return "";
}

inline void rmtree(const std::string &d) { std::string cmd = "rm -rf -- '" + d + "'"; if (d.size() > 8 && d.find("vfs_") != std::string::npos) { int rc = system(cmd.c_str()); (void)rc; } }

// ---------------------------------------------------------------- main
struct Progress {
  char *p = nullptr;
  void open(const std::string &f) {
    int fd = ::open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, 256)) return;
    p = (char *)mmap(nullptr, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  }
  void set(const std::string &s) { if (p) { memset(p, 0, 256); memcpy(p, s.data(), std::min<size_t>(s.size(), 255)); } }
};

struct Hooks { std::function<void(Ctx &)> begin, end; std::function<void()> abort; };
inline Hooks &hooks() { static Hooks h; return h; }

static void quiet_handler(const std::string &, const std::string &, int) {}

inline bool run_one(Ctx &c, const Family &f, uint64_t seed, uint64_t i) {
  c.family = f.name; c.idx = i; c.trace.clear();
  uint64_t s = mix64(seed) ^ mix64(hash_str(f.prop + "/" + f.name) + i * 0x9e37);
  uint64_t v0 = c.nviol;
  auto body = [&]() {
    c.rng = Rng(s);
    try { f.fn(c); }
    catch (CaseAbort &) {}
    catch (conduit::Error &e) { c.record("uncaught-error", std::string("conduit::Error escaped: ") + e.what()); }
    catch (std::exception &e) { c.record("uncaught-std", std::string("std::exception escaped: ") + e.what()); }
  };
  body();
#if defined(__SANITIZE_ADDRESS__)
  if (f.leak && c.nviol == v0 && i % 4 == 0) {
    // leak monitor: the same case again, muted, must return every byte it took
    std::vector<std::string> keep; keep.swap(c.trace);
    c.muted = true;
    c.trace.reserve(4096);
    size_t grow = 0, last = 0; bool ok = false;
    for (int k = 0; k < 3 && !ok; k++) {
      { std::vector<std::string>().swap(c.trace); }
      size_t a = __sanitizer_get_current_allocated_bytes();
      body();
      { std::vector<std::string>().swap(c.trace); }
      size_t b = __sanitizer_get_current_allocated_bytes();
      last = b - a; grow = b > a ? b - a : 0;
      if (!grow) ok = true;
    }
    c.muted = false;
    c.trace.swap(keep);
    c.count("leak_checked_cases");
    if (!ok && c.nviol == v0) c.record("leak", "case still holds " + std::to_string(last) + " more bytes after every object of it was destroyed (3 repeats)");
  }
#endif
  if (i < 2) c.sample();
  if (c.nviol != v0 && c.nranks > 1 && hooks().abort) hooks().abort();   // the other ranks may wait for this one
  return c.nviol == v0;
}

// run <prop> <seed> <tier> <worker> <nworkers> <outdir> [skip-after-family skip-after-index]
// replay <prop> <seed> <tier> <family> <idx> <outdir>
inline int vf_main(int argc, char **argv, int rank = 0, int nranks = 1) {
  if (argc < 2) return 3;
  std::string mode = argv[1];
  conduit::utils::set_info_handler(quiet_handler);
  conduit::utils::set_warning_handler(quiet_handler);
  if (mode == "list") {
    for (auto &f : families()) printf("%s %s %llu %llu\n", f.prop.c_str(), f.name.c_str(), (unsigned long long)f.nquick, (unsigned long long)f.nthorough);
    return 0;
  }
  if (argc < 8) return 3;
  Ctx c;
  c.rank = rank; c.nranks = nranks;
  c.prop = argv[2];
  uint64_t seed = strtoull(argv[3], nullptr, 10);
  c.thorough = std::string(argv[4]) == "thorough";
  std::string outdir = argv[7];
  std::string sfx = nranks > 1 ? "r" + std::to_string(rank) : "";
  const char *exe = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
  if (mode == "replay") {
    c.replay = true;
    c.scratch = outdir + "/vfs_replay" + (nranks > 1 ? "" : "");
    mkdir(c.scratch.c_str(), 0755);
    std::string lf = outdir + "/replay" + sfx + ".jsonl";
    c.log = fopen(lf.c_str(), "w");
    bool ok = true, found = false;
    if (hooks().begin) hooks().begin(c);
    for (auto &f : families())
      if (f.prop == c.prop && f.name == argv[5]) { found = true; ok = run_one(c, f, seed, strtoull(argv[6], nullptr, 10)) && ok; }
    if (hooks().end) hooks().end(c);
    fclose(c.log);
    if (rank == 0) rmtree(c.scratch);
    if (!found) return 3;
    fprintf(stderr, ok ? "held\n" : "violated\n");
    return ok ? 0 : 1;
  }
  int w = atoi(argv[5]), nw = atoi(argv[6]);
  std::string base = outdir + "/" + exe + "_w" + std::to_string(w) + sfx;
  c.scratch = outdir + "/vfs_" + exe + "_w" + std::to_string(w);
  mkdir(c.scratch.c_str(), 0755);
  std::string skipf; uint64_t skipi = 0; bool skipping = false;
  if (argc >= 10) { skipf = argv[8]; skipi = strtoull(argv[9], nullptr, 10); skipping = true; }
  c.log = fopen((base + ".jsonl").c_str(), "a");
  if (!c.log) return 3;
  Progress pr; pr.open(base + ".prog");
  uint64_t evals = 0;
  double scale = getenv("VF_SCALE") ? atof(getenv("VF_SCALE")) : 1.0;
  if (hooks().begin) hooks().begin(c);
  for (auto &f : families()) {
    if (f.prop != c.prop) continue;
    uint64_t n = c.thorough ? f.nthorough : f.nquick;
    n = (uint64_t)std::ceil(n * scale);
    if (skipping && f.name != skipf) continue;
    for (uint64_t i = (uint64_t)w; i < n; i += nw) {
      if (skipping) { if (i <= skipi) continue; skipping = false; }
      pr.set(f.name + " " + std::to_string(i));
      run_one(c, f, seed, i);
      evals++;
      c.counters["cases:" + f.name]++;
      if (c.nviol > 25) break;
    }
    skipping = false;
    if (c.nviol > 25) break;
  }
  if (hooks().end) hooks().end(c);
  pr.set("done 0");
  fprintf(c.log, "{\"t\":\"end\",\"evals\":%llu,\"counters\":{", (unsigned long long)evals);
  bool first = true;
  for (auto &k : c.counters) { fprintf(c.log, "%s\"%s\":%llu", first ? "" : ",", Ctx::jesc(k.first).c_str(), (unsigned long long)k.second); first = false; }
  fprintf(c.log, "},\"samples\":[");
  for (size_t i = 0; i < c.samples.size(); i++) fprintf(c.log, "%s\"%s\"", i ? "," : "", Ctx::jesc(c.samples[i]).c_str());
  fprintf(c.log, "]}\n");
  fclose(c.log);
  FILE *hf = fopen((base + ".hash").c_str(), "ab");
  for (uint64_t h : c.distinct) fwrite(&h, 8, 1, hf);
  fclose(hf);
  if (rank == 0) rmtree(c.scratch);
  return c.nviol ? 1 : 0;
}
} // namespace vf
#ifndef VF_NO_MAIN
int main(int argc, char **argv) { return vf::vf_main(argc, argv); }
#endif
