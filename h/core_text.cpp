// C04 JSON round trips, C05 YAML round trips, C10 parsers on arbitrary text.
#include "vf.hpp"
#include <regex>
using namespace vf;
using namespace conduit;

// ---------------------------------------------------------------- strict JSON reader (RFC 8259), independent of the library
struct J {
  enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL;
  std::string s; // number token or string
  std::vector<std::string> names; std::vector<J> kids;
};
struct JErr { std::string m; };
struct JP {
  const std::string &t; size_t p = 0;
  explicit JP(const std::string &x) : t(x) {}
  [[noreturn]] void err(const std::string &m) { throw JErr{m + " at " + std::to_string(p) + " near '" + t.substr(p > 20 ? p - 20 : 0, 50) + "'"}; }
  void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) p++; }
  void put(std::string &o, unsigned u) {
    if (u < 0x80) o += (char)u;
    else if (u < 0x800) { o += (char)(0xc0 | u >> 6); o += (char)(0x80 | (u & 63)); }
    else { o += (char)(0xe0 | u >> 12); o += (char)(0x80 | ((u >> 6) & 63)); o += (char)(0x80 | (u & 63)); }
  }
  std::string str() {
    if (t[p] != '"') err("expected string");
    p++; std::string o;
    for (;;) {
      if (p >= t.size()) err("unterminated string");
      unsigned char ch = t[p++];
      if (ch == '"') return o;
      if (ch < 0x20) { p--; err("raw control character in string"); }
      if (ch != '\\') { o += (char)ch; continue; }
      char e = t[p++];
      switch (e) {
      case '"': case '\\': case '/': o += e; break;
      case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
      case 'u': { unsigned u = 0; for (int i = 0; i < 4; i++) { char h = t[p++]; if (!isxdigit((unsigned char)h)) err("bad \\u"); u = u * 16 + (isdigit((unsigned char)h) ? h - '0' : (tolower(h) - 'a' + 10)); } put(o, u); break; }
      default: err("bad escape");
      }
    }
  }
  J val(int d = 0) {
    ws(); J j;
    if (p >= t.size()) err("end of text");
    char ch = t[p];
    if (ch == '{') {
      j.k = J::OBJ; p++; ws();
      if (t[p] == '}') { p++; return j; }
      for (;;) { ws(); j.names.push_back(str()); ws(); if (t[p] != ':') err("expected :"); p++; j.kids.push_back(val(d + 1)); ws(); if (t[p] == ',') { p++; continue; } if (t[p] == '}') { p++; return j; } err("expected , or }"); }
    }
    if (ch == '[') {
      j.k = J::ARR; p++; ws();
      if (t[p] == ']') { p++; return j; }
      for (;;) { j.kids.push_back(val(d + 1)); ws(); if (t[p] == ',') { p++; continue; } if (t[p] == ']') { p++; return j; } err("expected , or ]"); }
    }
    if (ch == '"') { j.k = J::STR; j.s = str(); return j; }
    if (t.compare(p, 4, "null") == 0) { p += 4; return j; }
    if (t.compare(p, 4, "true") == 0) { p += 4; j.k = J::BOOL; j.s = "1"; return j; }
    if (t.compare(p, 5, "false") == 0) { p += 5; j.k = J::BOOL; j.s = "0"; return j; }
    size_t q = p; if (t[q] == '-') q++;
    if (!isdigit((unsigned char)t[q])) err("bad token");
    if (t[q] == '0') q++; else while (isdigit((unsigned char)t[q])) q++;
    if (t[q] == '.') { q++; if (!isdigit((unsigned char)t[q])) err("bad fraction"); while (isdigit((unsigned char)t[q])) q++; }
    if (t[q] == 'e' || t[q] == 'E') { q++; if (t[q] == '+' || t[q] == '-') q++; if (!isdigit((unsigned char)t[q])) err("bad exponent"); while (isdigit((unsigned char)t[q])) q++; }
    j.k = J::NUM; j.s = t.substr(p, q - p); p = q; return j;
  }
  J doc() { J j = val(); ws(); if (p != t.size()) err("trailing text"); return j; }
};

static bool close15(double a, double b) { // equal to 15 significant digits
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= 1.2e-14 * std::max(std::fabs(a), std::fabs(b)) || std::fabs(a - b) < 1e-300;
}
static double elem_d(const Val &v, int64_t i) { return dispatch_num(v.dt, [&](auto t) { decltype(t) x; memcpy(&x, &v.bytes[i * sizeof(x)], sizeof(x)); return (double)x; }); }
static std::string elem_int(const Val &v, int64_t i) { return dispatch_num(v.dt, [&](auto t) { decltype(t) x; memcpy(&x, &v.bytes[i * sizeof(x)], sizeof(x)); std::ostringstream o; o << +x; return o.str(); }); }
static std::string cstr_of(const Val &v) { std::string s((const char *)v.bytes.data(), v.bytes.size()); return s.substr(0, s.find('\0')); }
static std::string nonfinite_name(double d) { return std::isnan(d) ? "nan" : d > 0 ? "inf" : "-inf"; }

static std::string match_num(const J &j, const Val &v, int64_t i) {
  if (is_float_dt(v.dt)) {
    double d = elem_d(v, i);
    if (!std::isfinite(d)) {
      double q = j.k == J::STR ? strtod(j.s.c_str(), nullptr) : 0;
      return (j.k == J::STR && close15(q, d)) ? "" : "non-finite value written as '" + j.s + "'";
    }
    if (j.k != J::NUM || !close15(strtod(j.s.c_str(), nullptr), d)) { char b[64]; snprintf(b, 64, "%.17g", d); return "float " + std::string(b) + " written as '" + j.s + "'"; }
    if (j.s.find_first_of(".eE") == std::string::npos) return "float written without fraction or exponent: " + j.s;
    return "";
  }
  return (j.k == J::NUM && j.s == elem_int(v, i)) ? "" : "integer " + elem_int(v, i) + " written as '" + j.s + "'";
}
// does the document say exactly what the tree holds?
static std::string match_pure(const J &j, const Val &v, const std::string &w = "") {
  switch (v.k) {
  case V_EMPTY: return j.k == J::NUL ? "" : "empty node not null at " + w;
  case V_OBJ:
    if (j.k != J::OBJ) return "not an object at " + w;
    if (j.names != v.names) return "names differ at " + w;
    for (size_t i = 0; i < v.kids.size(); i++) { std::string e = match_pure(j.kids[i], v.kids[i], w + "/" + v.names[i]); if (!e.empty()) return e; }
    return "";
  case V_LIST:
    if (j.k != J::ARR || j.kids.size() != v.kids.size()) return "not the list at " + w;
    for (size_t i = 0; i < v.kids.size(); i++) { std::string e = match_pure(j.kids[i], v.kids[i], w + "/[" + std::to_string(i) + "]"); if (!e.empty()) return e; }
    return "";
  default:
    if (is_str_dt(v.dt)) return (j.k == J::STR && j.s == cstr_of(v)) ? "" : "string differs at " + w + ": '" + j.s + "' want '" + cstr_of(v) + "'";
    if (v.n == 1) { std::string e = match_num(j, v, 0); return e.empty() ? e : e + " at " + w; }
    if (j.k != J::ARR || (int64_t)j.kids.size() != v.n) return "array length differs at " + w;
    for (int64_t i = 0; i < v.n; i++) { std::string e = match_num(j.kids[i], v, i); if (!e.empty()) return e + " at " + w; }
    return "";
  }
}

static bool spells_double(const std::string &s) { if (s.empty()) return false; char *e; strtod(s.c_str(), &e); return *e == 0; }
static bool spells_nonfinite(const std::string &s) { return spells_double(s) && !std::isfinite(strtod(s.c_str(), nullptr)); }
static bool is_int_tok(const std::string &s) { return s.find_first_of(".eE") == std::string::npos; }
// 0 not an integer that fits, 1 int64, 2 uint64 only
static int int_fit(const std::string &s) {
  if (!is_int_tok(s)) return 0;
  errno = 0; char *e; strtoll(s.c_str(), &e, 10); if (errno == 0 && *e == 0) return 1;
  if (s[0] == '-') return 0;
  errno = 0; strtoull(s.c_str(), &e, 10); return errno == 0 && *e == 0 ? 2 : 0;
}
template <class T> static Val one(T x) { return mk_arr(std::vector<T>{x}); }

// what a reader of that document must obtain: ints as int64 (uint64 when only that holds them),
// other numbers float64, homogeneous numeric arrays as arrays, anything else object/list/string/empty/uint8 bool
static Val expect_pure(const J &j) {
  Val v;
  switch (j.k) {
  case J::NUL: return v;
  case J::BOOL: return one<uint8>(j.s == "1");
  case J::STR: return mk_str(j.s.substr(0, j.s.find('\0')));
  case J::NUM: { int f = int_fit(j.s); if (f == 1) return one<int64>(strtoll(j.s.c_str(), 0, 10)); if (f == 2) return one<uint64>(strtoull(j.s.c_str(), 0, 10)); return one<float64>(strtod(j.s.c_str(), 0)); }
  case J::OBJ: v.k = V_OBJ; v.names = j.names; for (auto &x : j.kids) v.kids.push_back(expect_pure(x)); return v;
  case J::ARR: {
    bool num = !j.kids.empty(), allint = true, anyu = false, neg = false;
    for (auto &x : j.kids) {
      if (x.k == J::NUM) { int f = int_fit(x.s); if (!f) allint = false; if (f == 2) anyu = true; if (strtod(x.s.c_str(), 0) < 0) neg = true; }
      else if (x.k == J::STR && spells_nonfinite(x.s)) allint = false;
      else num = false;
    }
    if (num) {
      if (allint && !anyu) { std::vector<int64> o; for (auto &x : j.kids) o.push_back(strtoll(x.s.c_str(), 0, 10)); return mk_arr(o); }
      if (allint && !neg) { std::vector<uint64> o; for (auto &x : j.kids) o.push_back(strtoull(x.s.c_str(), 0, 10)); return mk_arr(o); }
      std::vector<float64> o; for (auto &x : j.kids) o.push_back(strtod(x.s.c_str(), 0)); return mk_arr(o);
    }
    v.k = V_LIST; for (auto &x : j.kids) v.kids.push_back(expect_pure(x)); return v;
  }
  }
  return v;
}
// equal up to 15 digits in floating values
static std::string same15(const Val &a, const Val &b, const std::string &w = "") {
  if (a.k != b.k) return "kinds differ at " + w + ": " + show(a) + " vs " + show(b);
  if (a.k == V_LEAF) {
    if (a.dt != b.dt || a.n != b.n) return "leaf type or length differs at " + w + ": " + show(a) + " vs " + show(b);
    if (!is_float_dt(a.dt)) return a.bytes == b.bytes ? "" : "values differ at " + w + ": " + show(a) + " vs " + show(b);
    for (int64_t i = 0; i < a.n; i++) {
      double x = elem_d(a, i), y = elem_d(b, i);
      bool ok = a.dt == DataType::FLOAT32_ID ? (close15(x, y)) : close15(x, y);
      if (!ok) return "value " + std::to_string(i) + " differs at " + w + ": " + show(a) + " vs " + show(b);
    }
    return "";
  }
  if (a.names != b.names) return "names differ at " + w;
  if (a.kids.size() != b.kids.size()) return "child count differs at " + w;
  for (size_t i = 0; i < a.kids.size(); i++) { std::string e = same15(a.kids[i], b.kids[i], w + "/" + (a.k == V_OBJ ? a.names[i] : std::to_string(i))); if (!e.empty()) return e; }
  return "";
}

// names a text format has to quote properly
static void spice_names(Rng &r, Val &v, const std::vector<std::string> &pool, double p) {
  if (v.k == V_OBJ)
    for (size_t i = 0; i < v.names.size(); i++)
      if (r.chance(p)) { std::string n = r.pick(pool); if (v.find(n) < 0) v.names[i] = n; }
  for (auto &k : v.kids) spice_names(r, k, pool, p);
}
static const std::vector<std::string> JNAMES = {"q\"uote", "back\\slash", "new\nline", "ctl\x01", "tab\t", "sl/ash", "", "a\\\"b", "\\", "\"", "uni\xe2\x82\xac", "\\u0041", "nul", "{", "}", "]", "a\": 1, \"b"};
static void drop_name(Val &v, const std::string &n) {
  for (size_t i = 0; i < v.names.size(); i++) if (v.names[i] == n) v.names[i] = "n_" + std::to_string(i) + "_" + n;
  for (auto &k : v.kids) drop_name(k, n);
}

struct Fmt { index_t indent = 2, depth = 0; std::string pad = " ", eoe = "\n"; };
static Fmt rand_fmt(Rng &r) {
  Fmt f; if (r.chance(0.5)) return f;
  f.indent = r.range(0, 5); f.depth = r.range(0, 3); f.pad = r.pick(std::vector<std::string>{" ", "\t", "", "  "}); f.eoe = r.pick(std::vector<std::string>{"\n", "", "\r\n", "\n\n", " "});
  return f;
}
static std::string text_of(Rng &r, const Node &n, const std::string &proto, const Fmt &f) {
  switch (r.below(3)) {
  case 0: return n.to_json(proto, f.indent, f.depth, f.pad, f.eoe);
  case 1: { std::ostringstream o; n.to_json_stream(o, proto, f.indent, f.depth, f.pad, f.eoe); return o.str(); }
  default: { std::ostringstream o; n.to_string_stream(o, proto, f.indent, f.depth, f.pad, f.eoe); return o.str(); }
  }
}
static void parse_into(Rng &r, Node &q, const std::string &txt, const std::string &proto) {
  if (r.chance(0.3)) { q["old/stuff"] = 1; q["old/more"].set(std::vector<double>(3, 1.5)); } // the target's previous contents are replaced
  switch (r.below(3)) {
  case 0: q.parse(txt, proto); break;
  case 1: { Generator g(txt, proto); g.walk(q); break; }
  default: { Generator g(txt, proto); Node k; g.walk(k); q.reset(); q.set(k); }
  }
}

FAMILY_LEAK("C04", "pure_json", 4000, 60000) {
  Rng &r = c.rng; GenOpts g; g.slash_names = true;
  Val v = gen_val(r, g); if (r.chance(0.4)) spice_names(r, v, JNAMES, 0.25);
  Arena ar; Node n; realize(r, v, n, ar, RealOpts());
  Fmt f = rand_fmt(r);
  c.tr(show(v)); c.seen(v.hash());
  std::string txt = text_of(r, n, "json", f);
  c.tr(txt.substr(0, 400));
  J j; try { j = JP(txt).doc(); } catch (JErr &e) { c.viol("json-invalid", e.m); }
  std::string e = match_pure(j, v);
  VCHECK(e.empty(), "json-content", e);
  Node q; parse_into(r, q, txt, "json");
  Val want = expect_pure(j), got = snap(q);
  e = same15(want, got);
  VCHECK(e.empty(), "json-parse", e);
  VCHECK(check_links(q, nullptr).empty(), "json-links", check_links(q, nullptr));
  c.count("pure_leaves", v.count_leaves());
  c.count("text_bytes", txt.size());
}
FAMILY_LEAK("C04", "conduit_json", 4000, 60000) {
  Rng &r = c.rng; GenOpts g; g.slash_names = true;
  Val v = gen_val(r, g); if (r.chance(0.4)) spice_names(r, v, JNAMES, 0.25); drop_name(v, "dtype");
  Arena ar; Node n; realize(r, v, n, ar, RealOpts());
  c.tr(show(v)); c.seen(v.hash() ^ 77);
  std::string txt = text_of(r, n, "conduit_json", rand_fmt(r));
  c.tr(txt.substr(0, 600));
  try { JP(txt).doc(); } catch (JErr &e) { c.viol("conduit-json-invalid", e.m); }
  Node q; parse_into(r, q, txt, "conduit_json");
  std::string e = same15(v, snap(q));
  VCHECK(e.empty(), "conduit-json", e);
  if (r.chance(0.3)) { // JSON is YAML: the conduit_yaml reader must agree
    Node y; bool ok = true; try { y.parse(n.to_json("conduit_json"), "conduit_json"); } catch (conduit::Error &) { ok = false; }
    VCHECK(ok && same15(v, snap(y)).empty(), "conduit-json-default-format", show(snap(y)));
  }
  c.count("detailed_leaves", v.count_leaves());
}
FAMILY_LEAK("C04", "base64_json", 4000, 60000) {
  Rng &r = c.rng; GenOpts g; g.slash_names = true; g.embedded_nul = true;
  if (r.chance(0.1)) { g.max_len = 3000; g.max_depth = 2; }
  Val v = gen_val(r, g); if (r.chance(0.4)) spice_names(r, v, JNAMES, 0.25); drop_name(v, "dtype");
  RealOpts ro; ro.foreign_endian = true;
  Arena ar; Node n; realize(r, v, n, ar, ro);
  c.tr(show(v)); c.seen(v.hash() ^ 78);
  std::string txt = text_of(r, n, "conduit_base64_json", rand_fmt(r));
  try { JP(txt).doc(); } catch (JErr &e) { c.viol("base64-invalid", e.m); }
  Node q; parse_into(r, q, txt, "conduit_base64_json");
  VCHECK(snap(q) == v, "base64", "got ", show(snap(q)), " want ", show(v));
  VCHECK(snap(n) == v, "base64-source", "source changed");
  c.count("base64_leaves", v.count_leaves());
}
FAMILY_LEAK("C04", "json_external", 1500, 20000) {
  Rng &r = c.rng; GenOpts g; g.slash_names = true;
  Val v = gen_val(r, g); drop_name(v, "dtype");
  Arena ar; Node n; realize(r, v, n, ar, RealOpts());
  c.tr(show(v)); c.seen(v.hash() ^ 79);
  std::string txt = n.to_json("conduit_json_external");
  try { JP(txt).doc(); } catch (JErr &e) { c.viol("external-invalid", e.m); }
  Node q; q.parse(txt, "conduit_json_external");
  VCHECK(snap(q) == v, "json-external", "got ", show(snap(q)), " want ", show(v));
  // a view: writing through it is seen in the original
  std::function<void(Node &, Node &)> walk = [&](Node &a, Node &b) {
    if (a.number_of_children() > 0) { for (index_t i = 0; i < a.number_of_children(); i++) walk(a.child(i), b.child(i)); return; }
    if (a.dtype().is_number() && a.dtype().number_of_elements() > 0)
      VCHECK(a.element_ptr(0) == b.element_ptr(0) && a.dtype().stride() == b.dtype().stride(), "json-external-alias", "leaf is not a view of the original at ", a.path());
  };
  walk(n, q);
  c.count("external_leaves", v.count_leaves());
}
// arbitrary valid JSON documents written by someone else
static std::string rand_json(Rng &r, int d, std::string &ws) {
  auto sp = [&]() { return r.chance(0.3) ? r.pick(std::vector<std::string>{" ", "\n", "\t", "  ", "\r\n"}) : std::string(); };
  auto str = [&]() { std::string s = "\""; for (int64_t i = 0, n = r.range(0, 8); i < n; i++) s += r.pick(std::vector<std::string>{"a", "b", "\\n", "\\\"", "\\\\", "\\/", "\\u0041", "\\u00e9", "\\t", "z", " ", "1", "\\b", "\\f", "\\r", "/", "\xc3\xa9", "nan", "true", "{", ":"}); return s + "\""; };
  switch (r.below(d > 4 ? 6 : 10)) {
  case 0: return str();
  case 1: return r.pick(std::vector<std::string>{"true", "false", "null"});
  case 2: return std::to_string(r.range(-1000, 1000));
  case 3: return std::to_string((int64_t)r.next());
  case 4: { char b[64]; snprintf(b, 64, r.chance(0.5) ? "%.6f" : "%.15e", (r.unit() - 0.5) * std::pow(10.0, (double)r.range(-20, 20))); return b; }
  case 5: return r.chance(0.5) ? std::to_string(r.next()) : r.pick(std::vector<std::string>{"0", "-0", "1e5", "1E-3", "0.0", "-0.0", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "123456789012345678901234567890"});
  case 6: case 7: { std::string s = "[" + sp(); int64_t n = r.range(0, 5); int mode = (int)r.below(4);
    for (int64_t i = 0; i < n; i++) { s += i ? "," + sp() : ""; s += mode == 0 ? std::to_string(r.range(-50, 50)) : mode == 1 ? (r.chance(0.3) ? "\"" + r.pick(std::vector<std::string>{"nan", "inf", "-inf"}) + "\"" : std::to_string(r.range(-5, 5)) + (r.chance(0.6) ? ".5" : "")) : mode == 2 && r.chance(0.5) ? "\"" + std::to_string(r.range(0, 9)) + "\"" : rand_json(r, d + 1, ws); s += sp(); }
    return s + "]"; }
  default: { std::string s = "{" + sp(); int64_t n = r.range(0, 5); for (int64_t i = 0; i < n; i++) { std::string k = str(); k.insert(k.size() - 1, std::to_string(i)); s += (i ? "," : "") + sp() + k + sp() + ":" + sp() + rand_json(r, d + 1, ws) + sp(); } return s + "}"; }
  }
}
FAMILY_LEAK("C04", "foreign_documents", 4000, 60000) {
  Rng &r = c.rng; std::string ws;
  std::string txt = rand_json(r, 0, ws);
  if (txt[0] != '{' && txt[0] != '[') txt = "[" + txt + "]";
  c.tr(txt.substr(0, 600)); c.seen(hash_str(txt));
  J j; try { j = JP(txt).doc(); } catch (JErr &e) { fprintf(stderr, "generator: %s\n", e.m.c_str()); abort(); }
  Node q; parse_into(r, q, txt, "json");
  std::string e = same15(expect_pure(j), snap(q));
  VCHECK(e.empty(), "foreign-json", e);
  c.count("foreign_docs");
}

// ---------------------------------------------------------------- YAML
// The YAML text carries no type tags: numbers come back as int64/uint64/float64, a string that spells a number
// and empty things have no representation of their own, so the generator avoids those.
static const std::vector<std::string> YNAMES = {"col:on", "#hash", "a #c", "- x", "-", "?", "[br]", "{cb}", "comma,x", "*star", "&amp", "!bang", "%pct", "@at", "`tick", "q'uote", "q\"uote", "back\\slash", "a: b", ": x", "x:", "null", "~", "true", "123",
                                                "1.5", "tab\there", "new\nline", "trail ", " lead", "|", ">", "'s'", "---", "...", "uni\xc3\xa9", "sl/ash", "=", "<<", "y", "\"dq\"", "a\\nb"};
static void yamlable(Rng &r, Val &v) {
  if (v.k == V_EMPTY) return;
  if (v.k == V_LEAF) {
    if (is_str_dt(v.dt)) { std::string s = cstr_of(v); while (s.empty() || spells_double(s)) s += "x" + std::to_string(r.below(9)); v = mk_str(s); }
    else if (v.n == 0) v = one<int64>(7);
    return;
  }
  if (v.kids.empty()) { v = one<int32>((int32)r.below(99)); return; }
  for (auto &k : v.kids) yamlable(r, k);
}
static Val expect_yaml(const Val &v) {
  Val o = v;
  if (v.k == V_LEAF && !is_str_dt(v.dt)) {
    if (is_float_dt(v.dt)) { std::vector<float64> x; for (int64_t i = 0; i < v.n; i++) x.push_back(elem_d(v, i)); return mk_arr(x); }
    bool big = false; std::vector<uint64> u; std::vector<int64> s;
    for (int64_t i = 0; i < v.n; i++) { std::string t = elem_int(v, i); if (int_fit(t) == 2) big = true; u.push_back(strtoull(t.c_str(), 0, 10)); s.push_back(strtoll(t.c_str(), 0, 10)); }
    return big ? mk_arr(u) : mk_arr(s);
  }
  if (v.k == V_OBJ || v.k == V_LIST) {
    for (auto &k : o.kids) k = expect_yaml(k);
    if (v.k == V_LIST) { // a list of numeric scalars reads as one array
      bool num = true, flt = false, big = false, neg = false;
      for (size_t ki = 0; ki < o.kids.size(); ki++) { Val &k = o.kids[ki]; if (k.k != V_LEAF || v.kids[ki].k == V_LIST || is_str_dt(k.dt) || k.n != 1) { num = false; break; } if (is_float_dt(k.dt)) flt = true; else if (k.dt == DataType::UINT64_ID) big = true; else if (elem_int(k, 0)[0] == '-') neg = true; }
      if (num) {
        if (flt || (big && neg)) { std::vector<float64> x; for (auto &k : o.kids) x.push_back(elem_d(k, 0)); return mk_arr(x); }
        if (big) { std::vector<uint64> x; for (auto &k : o.kids) x.push_back(strtoull(elem_int(k, 0).c_str(), 0, 10)); return mk_arr(x); }
        std::vector<int64> x; for (auto &k : o.kids) x.push_back(strtoll(elem_int(k, 0).c_str(), 0, 10)); return mk_arr(x);
      }
    }
  }
  return o;
}
FAMILY_LEAK("C05", "yaml", 5000, 80000) {
  Rng &r = c.rng; GenOpts g; g.slash_names = true;
  Val v = gen_val(r, g); yamlable(r, v);
  if (r.chance(0.5)) spice_names(r, v, YNAMES, 0.3);
  if (v.k == V_EMPTY) v = one<int64>(3);
  Arena ar; Node n; realize(r, v, n, ar, RealOpts());
  c.tr(show(v)); c.seen(v.hash());
  Fmt f; if (r.chance(0.4)) f.indent = r.range(1, 6);
  std::string txt = r.chance(0.5) ? n.to_yaml("yaml", f.indent, f.depth, f.pad, f.eoe) : n.to_string("yaml", f.indent, f.depth, f.pad, f.eoe);
  c.tr(txt.substr(0, 600));
  Node q; parse_into(r, q, txt, "yaml");
  std::string e = same15(expect_yaml(v), snap(q));
  VCHECK(e.empty(), "yaml", e);
  VCHECK(check_links(q, nullptr).empty(), "yaml-links", check_links(q, nullptr));
  c.count("yaml_leaves", v.count_leaves());
}
// typed YAML: the typed JSON text is also typed YAML
FAMILY_LEAK("C05", "typed_yaml", 3000, 50000) {
  Rng &r = c.rng; GenOpts g;
  Val v = gen_val(r, g); drop_name(v, "dtype");
  std::function<void(Val &)> fix = [&](Val &x) { if (x.k == V_LEAF && is_str_dt(x.dt)) { std::string s = cstr_of(x); while (s.empty() || spells_double(s)) s += "x"; x = mk_str(s); } if (x.k == V_EMPTY) x = one<int8>(1); for (auto &k : x.kids) fix(k); };
  fix(v);
  Arena ar; Node n; realize(r, v, n, ar, RealOpts());
  std::string txt = n.to_json("conduit_json");
  c.tr(show(v)); c.seen(v.hash() ^ 5); c.tr(txt.substr(0, 600));
  Node q; parse_into(r, q, txt, "conduit_yaml");
  std::string e = same15(v, snap(q));
  VCHECK(e.empty(), "typed-yaml", e);
  c.count("typed_leaves", v.count_leaves());
}
// repeated entries: the "list_of" layouts (fixed count or a count read from the data), and the calls that build them
FAMILY_LEAK("C05", "list_of", 2500, 40000) {
  Rng &r = c.rng; GenOpts g; g.empties = false; g.empty_containers = false; g.strings = false; g.zero_len = false; g.max_depth = 2; g.max_width = 4; g.nasty_names = false; g.big_p = 0;
  Val proto; do proto = gen_val(r, g); while (proto.k != V_OBJ || proto.count_leaves() == 0);
  int64_t n = r.chance(0.05) ? r.range(20, 300) : r.range(0, 6);
  Val lst; lst.k = V_LIST; std::function<void(Val &)> refill = [&](Val &x) { for (auto &b : x.bytes) b = (uint8_t)r.next(); for (auto &k : x.kids) refill(k); };
  for (int64_t i = 0; i < n; i++) { Val e = proto; refill(e); lst.kids.push_back(e); }
  std::vector<uint8_t> packed; std::function<void(const Val &)> pack = [&](const Val &x) { packed.insert(packed.end(), x.bytes.begin(), x.bytes.end()); for (auto &k : x.kids) pack(k); };
  std::function<std::string(const Val &)> emit = [&](const Val &x) -> std::string {
    if (x.k == V_OBJ) { std::string s = "{"; for (size_t i = 0; i < x.kids.size(); i++) s += std::string(i ? ", " : "") + "\"" + x.names[i] + "\": " + emit(x.kids[i]); return s + "}"; }
    if (x.k == V_LIST) { std::string s = "["; for (size_t i = 0; i < x.kids.size(); i++) s += std::string(i ? ", " : "") + emit(x.kids[i]); return s + "]"; }
    std::string nm = "\"" + DataType::id_to_name(x.dt) + "\""; if (x.n == 1 && r.chance(0.6)) return nm;
    return "{\"dtype\": " + nm + (r.chance(0.5) ? ", \"number_of_elements\": " : ", \"length\": ") + std::to_string(x.n) + "}";
  };
  bool ref = r.chance(0.5); Val want; std::string txt, ent = emit(proto);
  int tail = (int)r.below(3);  // what follows the repeated entries takes the next offset
  if (ref) {
    want.k = V_OBJ; want.names = {"count", "items"}; uint32 u = (uint32)n; want.kids = {mk_arr(std::vector<uint32>{u}), lst};
    txt = "{\"count\": \"uint32\", \"items\": {\"dtype\": " + ent + ", \"length\": {\"reference\": \"../count\"}}";
  } else {
    want.k = V_OBJ; want.names = {"items"}; want.kids = {lst}; txt = "{\"items\": {\"dtype\": " + ent + ", \"length\": " + std::to_string(n) + "}";
  }
  if (tail) { Val t = mk_arr(std::vector<float64>{(float64)r.range(0, 99), 2}); want.names.push_back("tail"); want.kids.push_back(t); txt += ", \"tail\": {\"dtype\": \"float64\", \"number_of_elements\": 2}"; }
  txt += "}"; pack(want); if (n == 0) { Val &x = want.kids[ref ? 1 : 0]; x = Val(); }
  Arena ar; uint8_t *buf = ar.get((int64_t)packed.size()); if (!packed.empty()) memcpy(buf, packed.data(), packed.size());
  bool yaml = r.chance(0.5), ext = r.chance(0.5); c.tr(yaml ? "yaml " : "json ", ext ? "external " : "copy ", txt.substr(0, 600)); c.seen(hash_str(txt) ^ (yaml * 2 + ext));
  { Generator gen(txt, yaml ? "conduit_yaml" : "conduit_json", buf); Node q; if (r.chance(0.3)) q["old"] = 1; if (ext) gen.walk_external(q); else gen.walk(q);
    Val got = snap(q); if (n == 0) { Val &x = got.kids[ref ? 1 : 0]; if (x.k != V_LEAF && x.kids.empty()) x = Val(); }
    VCHECK(got == want, "list-of-text", "got ", show(got), " want ", show(want)); std::string e = check_links(q, nullptr); VCHECK(e.empty(), "list-of-links", e); }
  if (!ref) { Schema sc; Generator gs(txt, yaml ? "conduit_yaml" : "conduit_json"); gs.walk(sc); VCHECK(sc.total_bytes_compact() == (index_t)packed.size() && (n == 0 || sc["items"].number_of_children() == n), "list-of-schema", sc.total_bytes_compact(), " bytes, want ", packed.size()); if (n) { Node q; q.set_external(sc, buf); VCHECK(snap(q) == want, "list-of-schema", "laid over the data: ", show(snap(q))); } }
  { // the same through calls
    Node pn; Arena a2; RealOpts o; realize(r, proto, pn, a2, o); std::vector<uint8_t> only; packed.clear(); pack(lst); uint8_t *b2 = ar.get((int64_t)packed.size()); if (!packed.empty()) memcpy(b2, packed.data(), packed.size());
    Node x; if (r.chance(0.5)) x["old/one"] = "gone"; x.list_of_external(b2, pn.schema(), n); VCHECK(x.number_of_children() == n && (n == 0 || snap(x) == lst), "list-of-external", show(snap(x)), " want ", show(lst)); VCHECK(!packed.empty() ? x.data_ptr() == b2 : true, "list-of-external", "not a view");
    Node y; if (r.chance(0.5)) y["old/one"] = "gone"; y.list_of(pn.schema(), n); VCHECK(y.number_of_children() == n, "list-of", y.number_of_children(), " entries"); for (int64_t i = 0; i < n; i++) { VCHECK(y[i].schema().total_bytes_compact() == pn.schema().total_bytes_compact() && y[i].is_compact() && y[i].diff_compatible(y[i], *std::make_unique<Node>()) == false, "list-of", "entry ", i); y[i].update(x[i]); }
    if (n) { VCHECK(snap(y) == lst, "list-of", "filled: ", show(snap(y))); VCHECK(y.is_contiguous(), "list-of", "entries not contiguous"); }
  }
  c.count(std::string("list_of_") + (ref ? "reference" : "fixed")); c.count("list_of_entries", n);
}
// layout text over a data buffer: the JSON and the YAML reader, copying and viewing, agree with the described layout
FAMILY_LEAK("C05", "layout_over_data", 2500, 40000) {
  Rng &r = c.rng; GenOpts g; g.strings = false; g.empties = false; g.max_depth = 3; g.nasty_names = false;
  Val v = gen_val(r, g);
  // lay the leaves out in one buffer, with gaps and strides
  int64_t pos = 0; std::vector<std::tuple<const Val *, int64_t, int64_t, bool>> place;
  std::function<std::string(const Val &)> emit = [&](const Val &x) -> std::string {
    if (x.k == V_OBJ) { std::string s = "{"; for (size_t i = 0; i < x.kids.size(); i++) s += std::string(i ? ", " : "") + "\"" + x.names[i] + "\": " + emit(x.kids[i]); return s + "}"; }
    if (x.k == V_LIST) { std::string s = "["; for (size_t i = 0; i < x.kids.size(); i++) s += std::string(i ? ", " : "") + emit(x.kids[i]); return s + "]"; }
    int es = esize(x.dt); int64_t st = es * r.range(1, 3), off = pos + r.range(0, 2) * es;
    int en = (int)r.below(4);  // no byte order stated, or this machine's, or the other one
    bool sw = en == 3; bool big = (Endianness::machine_default() == Endianness::BIG_ID) != sw;
    if (sw) c.count("foreign_order"); if (!x.n) c.count("zero_length");
    place.push_back(std::make_tuple(&x, off, st, sw));
    if (x.n) pos = off + (x.n - 1) * st + es;
    std::vector<std::string> ks = {"\"dtype\": \"" + DataType::id_to_name(x.dt) + "\"", "\"number_of_elements\": " + std::to_string(x.n), "\"offset\": " + std::to_string(off), "\"stride\": " + std::to_string(st)};
    if (en >= 2) ks.push_back(std::string("\"endianness\": \"") + (big ? "big" : "little") + "\"");
    if (r.chance(0.3)) ks.push_back("\"element_bytes\": " + std::to_string(es));
    for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[r.below(i)]);
    std::string t = "{"; for (size_t i = 0; i < ks.size(); i++) t += (i ? ", " : "") + ks[i];
    return t + "}";
  };
  std::string txt = emit(v);
  Arena ar; uint8_t *buf = ar.get(pos);
  for (auto &p : place) put_leaf(*std::get<0>(p), buf, std::get<1>(p), std::get<2>(p), std::get<3>(p));
  bool yaml = r.chance(0.5), ext = r.chance(0.5);
  c.tr(yaml ? "yaml " : "json ", ext ? "external " : "copy ", txt.substr(0, 600)); c.seen(hash_str(txt) ^ (yaml * 2 + ext));
  Generator gen(txt, yaml ? "conduit_yaml" : "conduit_json", buf);
  Node q; if (ext) gen.walk_external(q); else gen.walk(q);
  VCHECK(snap(q) == v, "layout-over-data", yaml ? "yaml " : "json ", ext ? "external " : "copy ", "got ", show(snap(q)), " want ", show(v));
  if (!place.empty()) { // viewing follows later changes of the buffer, copying does not
    for (int64_t i = 0; i < pos; i++) buf[i] ^= 0xFF;
    Val w = v; std::function<void(Val &)> flip = [&](Val &x) { for (auto &b : x.bytes) b ^= 0xFF; for (auto &k : x.kids) flip(k); };
    if (ext) flip(w);
    VCHECK(snap(q) == w, "layout-alias", yaml ? "yaml " : "json ", ext ? "external " : "copy ", "got ", show(snap(q)));
  }
  c.count(std::string(yaml ? "yaml" : "json") + (ext ? "_ext" : "_copy"));
}

// ---------------------------------------------------------------- hostile text
static std::string mutate(Rng &r, std::string s, const std::vector<std::string> &toks) {
  for (int64_t k = r.range(1, 6); k > 0; k--) {
    size_t p = s.empty() ? 0 : r.below(s.size());
    switch (r.below(8)) {
    case 0: if (!s.empty()) s.erase(p, r.range(1, 6)); break;
    case 1: s.insert(p, r.pick(toks)); break;
    case 2: if (!s.empty()) s[p] = (char)r.range(1, 126); break;
    case 3: if (!s.empty()) s.resize(p); break;
    case 4: if (!s.empty()) { size_t q = r.below(s.size()); s.insert(p, s.substr(q, r.range(1, 30))); } break;
    case 5: if (!s.empty()) { size_t q = s.find_first_of("{}[]\",:0123456789", p); if (q != std::string::npos) s.replace(q, 1, r.pick(toks)); } break;
    case 6: { std::string a = r.pick(toks), b = r.pick(toks); size_t q = s.find(a, p); if (q != std::string::npos) s.replace(q, a.size(), b); break; }
    default: if (!s.empty()) s[p] = (char)r.range(128, 255); break;
    }
  }
  return s;
}
static const std::vector<std::string> JTOK = {"{", "}", "[", "]", ",", ":", "\"", "\"a\"", "null", "true", "1", "-1", "1.5", "1e400", "-0", "\\u12", "\\", "\"dtype\"", "\"value\"", "\"length\"", "\"number_of_elements\"", "\"offset\"", "\"stride\"", "\"endianness\"", "\"int32\"",
                                              "\"float64\"", "\"char8_str\"", "\"object\"", "\"list\"", "\"empty\"", "\"big\"", "\"uint8\"", "\"nan\"", "\"reference\"", "\"schema\"", "\"data\"", "\"base64\"", "99999999999999999999", "[1,2]", "{\"dtype\":\"int8\"}", "-7", "3.25", "//c\n", "/*", "\n", " "};
static const std::vector<std::string> YTOK = {"{", "}", "[", "]", ",", ":", ": ", "\"", "'", "- ", "-", "\n", "\n  ", "\t", "#", "&a ", "*a", "*b", "!!int ", "|\n", ">\n", "---\n", "...\n", "? ", "%YAML 1.1\n", "%TAG ! x\n", "null", "~", "1", "-1.5", "nan", "a: 1", "<<: *a", "dtype: ", "int32", "value: ", "length: ", "reference", "number_of_elements: ", "offset: ", "stride: ", "@", "`", "\\", "\xef\xbb\xbf", "\x01"};
static bool longdigits(const std::string &s) { // sizes stay small: running out of memory is not what is observed here
  size_t run = 0; for (char ch : s) { run = isdigit((unsigned char)ch) ? run + 1 : 0; if (run > 6) return true; } return s.find("e+") != std::string::npos || std::regex_search(s, std::regex("[0-9][eE][0-9]"));
}
static bool yaml_cyclic(const std::string &) { return false; }

static void hostile(Ctx &c, const std::string &proto, const std::string &txt) {
  c.tr(proto, ": ", txt.substr(0, 1500)); c.seen(hash_str(txt + proto));
  Node q;
  if (c.rng.chance(0.2)) q["keep"].set(std::vector<int>(4, 2));
  bool threw = false;
  try {
    if (proto == "schema") { Schema s(txt); std::string t = s.to_json(); (void)t; if (s.total_bytes_compact() < 1000000) { Node z(s); (void)z; } }
    else q.parse(txt, proto);
  } catch (conduit::Error &) { threw = true; }
  c.count(proto + (threw ? ":rejected" : ":accepted"));
  // whatever happened the node is still a node: readable, and usable again
  VCHECK(check_links(q, nullptr).empty(), "links-after-parse", check_links(q, nullptr));
  if (!threw) { std::string t = q.to_json("json"); (void)t; std::string y = q.to_yaml(); (void)y; Node d; d.set(q); }
  q.reset(); q["x"] = 5; VCHECK(q["x"].to_int() == 5, "reuse-after-parse", "");
}
static std::string strip_ele_bytes(const std::string &s) { return std::regex_replace(s, std::regex("\"element_bytes\": [0-9]+,\\s*"), ""); }
FAMILY_LEAK("C10", "mutated_json", 6000, 150000) {
  Rng &r = c.rng; GenOpts g; g.max_depth = 3; g.max_width = 4; g.max_len = 4; Val v = gen_val(r, g); drop_name(v, "dtype"); Node n; realize_plain(v, n);
  std::string proto = r.pick(std::vector<std::string>{"json", "conduit_json", "conduit_base64_json"});
  std::string txt = n.to_json(proto); if (proto != "json") txt = strip_ele_bytes(txt);
  txt = mutate(r, txt, JTOK);
  if (txt.find("addr") != std::string::npos || txt.find('\0') != std::string::npos || (proto != "json" && longdigits(txt))) { c.count("skipped"); return; }
  hostile(c, proto, txt);
}
FAMILY_LEAK("C10", "mutated_yaml", 5000, 120000) {
  Rng &r = c.rng; GenOpts g; g.max_depth = 3; g.max_width = 4; g.max_len = 4; Val v = gen_val(r, g); drop_name(v, "dtype"); Node n; realize_plain(v, n);
  bool typed = r.chance(0.4);
  std::string txt = typed ? strip_ele_bytes(n.to_json("conduit_json")) : n.to_yaml();
  txt = mutate(r, txt, YTOK);
  if (txt.find("addr") != std::string::npos || txt.find('\0') != std::string::npos || (typed && longdigits(txt))) { c.count("skipped"); return; }
  hostile(c, typed ? "conduit_yaml" : "yaml", txt);
}
FAMILY_LEAK("C10", "mutated_schema", 3000, 80000) {
  Rng &r = c.rng; GenOpts g; g.max_depth = 3; g.max_width = 4; g.max_len = 4; Val v = gen_val(r, g); drop_name(v, "dtype"); Node n; realize_plain(v, n);
  std::string txt = mutate(r, strip_ele_bytes(n.schema().to_json()), JTOK);
  if (txt.find('\0') != std::string::npos || longdigits(txt)) { c.count("skipped"); return; }
  hostile(c, "schema", txt);
}
FAMILY_LEAK("C10", "token_soup", 5000, 120000) {
  Rng &r = c.rng; std::string txt; bool y = r.chance(0.5);
  for (int64_t k = r.range(1, 25); k > 0; k--) txt += r.pick(y ? YTOK : JTOK);
  if (y && r.chance(0.3)) txt = "a: &a\n  b: 1\nc: *a\n" + txt;
  std::string proto = y ? r.pick(std::vector<std::string>{"yaml", "conduit_yaml"}) : r.pick(std::vector<std::string>{"json", "conduit_json", "conduit_base64_json", "schema"});
  if (proto != "json" && proto != "yaml" && longdigits(txt)) txt = std::regex_replace(txt, std::regex("[0-9]{5,}"), "7");
  hostile(c, proto, txt);
}
