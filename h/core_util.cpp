// C14: string, path, file, encoding and formatting helpers against independent statements of what they do
#include "vf.hpp"
#include <sys/stat.h>
#include <unistd.h>
using namespace conduit; using namespace vf; namespace u = conduit::utils;
static std::string str(Rng &r, const char *alpha, int n) { std::string s; size_t k = strlen(alpha); for (int i = (int)r.below((uint64_t)n + 1); i > 0; i--) s += alpha[r.below(k)]; return s; }
static std::string bytes(Rng &r, int n) { std::string s; for (int i = (int)r.below((uint64_t)n + 1); i > 0; i--) s += r.chance(0.4) ? "\"\\\n\t\b\f\r/u\x01\x1f\x7f"[r.below(12)] : (char)r.range(0, 255); return s; }

FAMILY_LEAK("C14", "strings", 20000, 400000) {
  Rng &r = c.rng; std::string sep = r.pick(std::vector<std::string>{"/", ":", "::", "ab", "-->", "aa"}), s = str(r, "ab:/->", 14), a, b; if (r.chance(0.3)) { a = "old"; b = "old"; } c.seen(hash_str(s + "|" + sep)); c.tr("split ", s, " by ", sep);
  auto at = s.find(sep); u::split_string(s, sep, a, b); VCHECK(at == std::string::npos ? a == s && b.empty() : a == s.substr(0, at) && b == s.substr(at + sep.size()), "split", "'", a, "' '", b, "'");
  at = s.rfind(sep); u::rsplit_string(s, sep, a, b); VCHECK(at == std::string::npos ? a == s && b.empty() : b == s.substr(0, at) && a == s.substr(at + sep.size()), "rsplit", "'", a, "' '", b, "'");
  char q = r.pick(std::vector<char>{'/', ':', 'a'}); std::vector<std::string> v, w; std::string cur; for (char x : s + std::string(1, q)) if (x == q) { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += x; u::split_string(s, q, v); VCHECK(v == w, "tokens", v.size(), " tokens, want ", w.size());
  std::string p = str(r, "ab/", 9); at = p.find('/'); u::split_path(p, a, b); VCHECK(a == p.substr(0, at) && b == (at == std::string::npos ? "" : p.substr(at + 1)), "split-path", p); u::split_file_path(p, a, b); VCHECK(a == p.substr(0, at) && b == (at == std::string::npos ? "" : p.substr(at + 1)), "split-file-path", p);
  at = p.rfind('/'); u::rsplit_path(p, a, b); VCHECK(a == (at == std::string::npos ? p : p.substr(at + 1)) && b == (at == std::string::npos ? "" : p.substr(0, at)), "rsplit-path", p); std::string a2, b2; u::rsplit_file_path(p, a2, b2); VCHECK(a2 == a && b2 == b, "rsplit-file-path", p);
  if (!p.empty() && p.back() != '/' && p.find("//") == std::string::npos && p[0] != '/') VCHECK(u::join_path(b, a) == p && u::join_file_path(b, a) == p, "join", p);
  std::string l = str(r, "ab/", 5), g = str(r, "ab", 4), jp = l + (!l.empty() && l.back() != '/' && !g.empty() ? "/" : "") + g; VCHECK(u::join_path(l, g) == jp, "join-path", l, " + ", g); VCHECK(u::join_file_path(l, g) == l + (!l.empty() && l.back() != '/' ? "/" : "") + g, "join-file-path", l, " + ", g);
  std::string f = (r.chance(0.5) ? "C:\\" : "") + str(r, "ab/\\", 8), sub = str(r, "ab/", 6); if (!f.empty() && f.find(':', 2) == std::string::npos) { u::split_file_path(f + ":" + sub, ":", a, b); VCHECK(a == f && b == sub, "drive-split", f, ":", sub, " gave '", a, "' '", b, "'"); if (f.size() > 3 || f[1] != ':') { u::rsplit_file_path(f + ":" + sub, ":", a, b); VCHECK(a == sub && b == f, "drive-rsplit", f, ":", sub, " gave '", a, "' '", b, "'"); } u::split_file_path(f, ":", a, b); VCHECK(a == f && b.empty(), "drive-nosplit", f, " gave '", a, "' '", b, "'"); u::rsplit_file_path(f, ":", a, b); VCHECK(a == f && b.empty(), "drive-nosplit", f, " gave '", a, "' '", b, "'"); }
  const char *set = r.pick(std::vector<const char *>{" \t\n\r\f\v", "ab", "/"}); std::string t = str(r, "ab/ \t\n", 10), x = t; size_t i = 0, j = t.size(); while (i < j && strchr(set, t[i])) i++; while (j > i && strchr(set, t[j - 1])) j--; if (!strcmp(set, " \t\n\r\f\v")) u::trim_string(x); else u::trim_string(x, set); VCHECK(x == t.substr(i, j - i), "trim", "'", t, "' gave '", x, "'");
  c.count("strings");
}
FAMILY_LEAK("C14", "encodings", 20000, 400000) {
  Rng &r = c.rng; std::string s = bytes(r, 40); c.seen(hash_str(s)); std::string e = u::escape_special_chars(s), back = u::unescape_special_chars(e); c.tr("escape ", e);
  bool plain = true; for (char ch : s) { unsigned char k = (unsigned char)ch; plain &= !(k < 0x20 && !strchr("\n\t\b\f\r", ch)) && k != 0x7f && k != 0; } if (plain && s.find('\0') == std::string::npos) VCHECK(back == s, "unescape", "escaped text comes back different");
  for (size_t i = 0; i < e.size(); i++) { VCHECK((unsigned char)e[i] >= 0x20 && e[i] != '"', "escape", "left a character that needs escaping"); if (e[i] == '\\') { i++; VCHECK(i < e.size() && strchr("\"\\ntbfru", e[i]), "escape", "broken escape"); } }
  std::string sl = u::unescape_special_chars("a\\/b"); VCHECK(sl == "a/b", "unescape", sl);
  std::string d = bytes(r, r.chance(0.1) ? 4000 : 60); index_t n = (index_t)d.size(), cap = u::base64_encode_buffer_size(n); std::vector<char> enc((size_t)cap + 16, 0x5a), dec; u::base64_encode(d.data(), n, enc.data()); for (size_t i = (size_t)cap; i < enc.size(); i++) VCHECK(enc[i] == 0x5a, "base64-size", "wrote beyond the promised size for ", n, " bytes");
  static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string ref; for (size_t i = 0; i < d.size(); i += 3) { uint32_t q = 0; size_t k = std::min<size_t>(3, d.size() - i); for (size_t z = 0; z < 3; z++) q = q << 8 | (z < k ? (unsigned char)d[i + z] : 0); for (size_t z = 0; z < 4; z++) ref += z <= k ? A[(q >> (18 - 6 * z)) & 63] : '='; }
  VCHECK((size_t)cap >= ref.size() && std::string(enc.data(), ref.size()) == ref, "base64", "encoded ", n, " bytes as ", std::string(enc.data(), std::min<size_t>(ref.size(), 80)), " want ", ref.substr(0, 80));
  index_t dcap = u::base64_decode_buffer_size((index_t)ref.size()); dec.assign((size_t)dcap + 16, 0x5a); u::base64_decode(ref.data(), (index_t)ref.size(), dec.data()); VCHECK(dcap >= n && memcmp(dec.data(), d.data(), d.size()) == 0, "base64-decode", n, " bytes differ"); for (size_t i = (size_t)dcap; i < dec.size(); i++) VCHECK(dec[i] == 0x5a, "base64-size", "decoded beyond the promised size");
  float64 f; switch (r.below(4)) { case 0: f = (float64)r.range(-1000000, 1000000); break; case 1: f = r.unit() * 1e3; break; case 2: { uint64_t b = r.next(); memcpy(&f, &b, 8); break; } default: f = (float64)r.range(-999, 999) / 8.0; } std::string fs = u::float64_to_string(f); c.tr("float ", fs);
  if (std::isfinite(f)) { char *end = nullptr; float64 g = strtod(fs.c_str(), &end); VCHECK(*end == 0 && (g == f || std::fabs(g - f) <= std::fabs(f) * 1e-14), "float-text", fs, " for ", f); VCHECK(fs.find_first_of(".e") != std::string::npos, "float-text", fs, " looks like an integer"); } else VCHECK(fs.find('n') != std::string::npos, "float-text", fs);
  int64 iv = (int64)r.next(); VCHECK((conduit::utils::hex_string_to_value<uint64>(conduit::utils::to_hex_string((uint64)iv))) == (uint64)iv && u::string_to_value<int64>(std::to_string(iv)) == iv, "hex", iv); VCHECK(u::string_is_integer(std::to_string((int)iv)) && !u::string_is_integer("x1") && !u::string_is_integer(""), "is-integer", "");
  int32 z = (int32)r.next(); VCHECK((u::value_fits<int32, int8>(z) == (z >= -128 && z <= 127)) && (u::value_fits<int32, uint16>(z) == (z >= 0 && z <= 65535)) && (u::value_fits<int32, int32>(z)) && (u::value_fits<int64, int32>(iv) == (iv >= INT32_MIN && iv <= INT32_MAX)), "fits", z, " ", iv);
  std::vector<index_t> fa = u::factor((index_t)r.range(1, 5000)); index_t pr = 1; (void)pr; c.count("encoded");
  size_t ne = r.below(9), eb = r.pick(std::vector<size_t>{1, 2, 4, 8}), ds = eb + (r.chance(0.5) ? 0 : r.below(9)), ss = eb + (r.chance(0.5) ? 0 : r.below(9)); std::vector<unsigned char> S(ne * ss + 8), D(ne * ds + 8, 0xee); for (auto &x : S) x = (unsigned char)r.next(); auto D0 = D; u::conduit_memcpy_strided_elements(D.data(), ne, eb, ds, S.data(), ss); for (size_t i = 0; i < ne; i++) memcpy(&D0[i * ds], &S[i * ss], eb); VCHECK(D == D0, "strided-copy", ne, " elements of ", eb, " from stride ", ss, " to ", ds);
}
FAMILY_LEAK("C14", "format", 8000, 160000) { // fmt style patterns over nodes; the reference is built from the same values by hand
  Rng &r = c.rng; bool named = r.chance(0.5), maps = r.chance(0.6); int n = (int)r.range(1, 5); index_t len = r.range(1, 6), at = r.range(0, len - 1); Node a; std::string pat, want; c.seen(mix64(c.idx)); if (!named) a.set(DataType::list());
  std::vector<std::vector<char>> keep; std::vector<std::string> txt, specs;
  for (int i = 0; i < n; i++) {
    std::string nm = "v" + std::to_string(i); Node &x = named ? a[nm] : a.append(); int k = (int)r.below(12); std::string t, spec = "{}";
    if (k < 8) { // integers, possibly strided
      static const index_t ids[8] = {DataType::INT8_ID, DataType::INT16_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID, DataType::UINT16_ID, DataType::UINT32_ID, DataType::UINT64_ID}; index_t eb = DataType::default_bytes(ids[k]), st = eb * (r.chance(0.5) ? 1 : r.range(2, 3)), off = eb * r.range(0, 2); keep.emplace_back((size_t)(off + st * len), (char)0x33); DataType dt(ids[k], maps ? len : 1, off, st, eb, Endianness::DEFAULT_ID); x.set_external(dt, keep.back().data()); if (r.chance(0.3)) { Node cp; x.compact_to(cp); x.set(cp); }
      std::vector<int64> vals; for (index_t j = 0; j < (maps ? len : 1); j++) { int64 v = k >= 4 ? r.range(0, 120) : r.range(-120, 120); if (eb == 8 && r.chance(0.3)) v *= 1000000007LL; vals.push_back(v); void *p = x.element_ptr(j); switch (eb) { case 1: *(int8 *)p = (int8)v; break; case 2: *(int16 *)p = (int16)v; break; case 4: *(int32 *)p = (int32)v; break; default: *(int64 *)p = v; } }
      int64 v = vals[(size_t)(maps ? at : 0)]; char b[64]; if (r.chance(0.5)) { snprintf(b, 64, "%05lld", (long long)v); spec = "{:05d}"; } else { snprintf(b, 64, "%lld", (long long)v); spec = "{:d}"; } t = b; }
    else if (k == 8) { std::vector<float64> v; for (index_t j = 0; j < (maps ? len : 1); j++) v.push_back((float64)r.range(-800, 800) / 16); x.set(v); char b[64]; snprintf(b, 64, "%.3f", v[(size_t)(maps ? at : 0)]); t = b; spec = "{:.3f}"; }
    else if (k == 9) { std::vector<float32> v; for (index_t j = 0; j < (maps ? len : 1); j++) v.push_back((float32)r.range(-800, 800) / 16); x.set(v); char b[64]; snprintf(b, 64, "%.2f", (double)v[(size_t)(maps ? at : 0)]); t = b; spec = "{:.2f}"; }
    else if (maps) { std::vector<std::string> v; for (index_t j = 0; j < len; j++) { v.push_back(str(r, "abc{} ", 6)); x.append().set(v.back()); } t = v[(size_t)at]; }
    else { t = str(r, "abc{} ", 6); x.set(t); }
    txt.push_back(t); specs.push_back(spec);
  }
  if (named) for (int i = (int)r.range(1, 6); i > 0; i--) { size_t k = r.below((uint64_t)n); std::string lit = str(r, "xyz_/", 4); std::string sp = specs[k]; sp.insert(1, "v" + std::to_string(k)); pat += lit + sp; want += lit + txt[k]; } else for (size_t k = 0; k < (size_t)n; k++) { std::string lit = str(r, "xyz_/", 4); pat += lit + specs[k]; want += lit + txt[k]; }
  if (r.chance(0.3)) { pat += "{{}}"; want += "{}"; } Val before = snap(a); c.tr(pat, " ", a.to_json()); std::string got = maps ? u::format(pat, a, at) : u::format(pat, a); VCHECK(got == want, "format", pat, " gave '", got, "' want '", want, "'"); VCHECK(snap(a) == before, "format-input", "");
  if (maps) { bool threw = false; try { u::format(pat, a, len + (index_t)r.below(3)); } catch (const Error &) { threw = true; } VCHECK(threw, "format-bounds", "index beyond the maps accepted"); threw = false; try { u::format(pat, a, -1); } catch (const Error &) { threw = true; } VCHECK(threw, "format-bounds", "negative index accepted"); } else { bool threw = false; try { u::format(named ? "{missing}" : pat + "{}", a); } catch (const Error &) { threw = true; } VCHECK(threw, "format-missing", "an argument that is not there was accepted"); }
  c.count(maps ? "format_maps" : "formats");
}
FAMILY("C14", "files", 800, 16000) { // only below the scratch directory of the case
  Rng &r = c.rng; std::string base = c.scratch + "/u" + std::to_string(c.idx); c.seen(mix64(c.idx)); VCHECK(u::create_directory(base) && u::is_directory(base) && !u::is_file(base), "create", base); std::map<std::string, int> m; // name -> size, -1 for a directory
  for (int step = (int)r.range(2, 14); step > 0; step--) {
    std::string nm = r.pick(std::vector<std::string>{"a", "b", "c.txt", ".dot", "d e"}), p = u::join_file_path(base, nm); bool has = m.count(nm) > 0; int op = (int)r.below(6); c.tr(op, " ", nm);
    if (op == 0 && !has) { int n = (int)r.below(300); FILE *f = fopen(p.c_str(), "wb"); for (int i = 0; i < n; i++) fputc(i, f); fclose(f); m[nm] = n; }
    else if (op == 1) { bool ok = u::create_directory(p); VCHECK(ok == !has, "create-directory", nm, " returned ", ok); if (!has) m[nm] = -1; }
    else if (op == 2 && has && m[nm] >= 0) { VCHECK(u::remove_file(p), "remove-file", nm); m.erase(nm); }
    else if (op == 3 && has && m[nm] < 0) { VCHECK(u::remove_directory(p), "remove-directory", nm); m.erase(nm); }
    else if (op == 4) { bool ok = u::remove_path_if_exists(p); VCHECK(ok || !has, "remove-path", nm, " returned ", ok, " has ", has); m.erase(nm); }
    else if (!has) { VCHECK(!u::remove_file(p) && !u::remove_directory(p), "remove-missing", nm); }
    for (auto s : {"a", "b", "c.txt", ".dot", "d e"}) { std::string q = base + "/" + s; auto it = m.find(s); VCHECK(u::is_file(q) == (it != m.end() && it->second >= 0) && u::is_directory(q) == (it != m.end() && it->second < 0), "is", s); if (it != m.end() && it->second >= 0) VCHECK(u::file_size(q) == it->second, "file-size", s, " ", u::file_size(q), " want ", it->second); }
    for (bool dot : {true, false}) { std::vector<std::string> v; if (r.chance(0.2)) v.push_back("old"); VCHECK(u::list_directory_contents(base, v, dot), "list", base); std::set<std::string> got(v.begin(), v.end()), want; got.erase("old"); for (auto &e : m) if (!dot || e.first[0] != '.') want.insert(base + "/" + e.first); if (!dot) { got.erase(base + "/."); got.erase(base + "/.."); } VCHECK(got == want, "list", got.size(), " entries, want ", want.size()); }
  }
  std::vector<std::string> v; VCHECK(!u::list_directory_contents(base + "/none", v), "list-missing", ""); std::string cmd = "rm -rf -- '" + base + "'"; VCHECK(u::system_execute("test -d '" + base + "'") == 0 && u::system_execute("test -f '" + base + "'") != 0, "execute", ""); (void)cmd; rmtree(base); c.count("directories");
}
