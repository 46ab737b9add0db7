// C27: CSV tables written and read back; any CSV text is read or refused
#include "vf.hpp"
#include <conduit_relay_io.hpp>
#include <conduit_relay_io_csv.hpp>
#include <conduit_blueprint_table.hpp>
#include <fstream>
#include <sys/stat.h>
using namespace vf; using namespace conduit;
namespace rio = conduit::relay::io;
struct Col { std::string name; std::vector<std::string> comps; std::vector<Val> v; };  // no comps: scalar column
static std::string cname(Rng &r, std::set<std::string> &used) {
  static const std::vector<std::string> N = {"a", "b", "x", "temp", "pressure", "col one", "y2", "2y", "u-v", "A.b", "uni\xc3\xa9", "(q)", "e5x", "0z", "infinite", "nano"};
  for (;;) { std::string s = r.pick(N); if (r.chance(0.3)) s += std::to_string(r.below(40)); if (used.insert(s).second) return s; }
}
static double asd(const Val &v, int64_t i) { return dispatch_num(v.dt, [&](auto t) { decltype(t) x; memcpy(&x, &v.bytes[i * sizeof x], sizeof x); return (double)x; }); }
static Val col_vals(Rng &r, int64_t n, bool f64) {
  Val v; v.k = V_LEAF; v.dt = r.pick(NUM_DTS); v.n = n; int es = esize(v.dt); v.bytes.resize(n * es); int mode = (int)r.below(3);
  for (int64_t i = 0; i < n; i++) dispatch_num(v.dt, [&](auto t) {
    typedef decltype(t) T; T x;
    if (std::is_floating_point<T>::value) { double d = mode == 0 ? (double)r.range(-999999, 999999) / 8 : mode == 1 ? (r.unit() - 0.5) * std::pow(10.0, (double)r.range(-30, 30)) : (double)r.range(-20, 20); if (r.chance(0.02)) d = r.pick(std::vector<double>{0.0, -0.0, INFINITY, -INFINITY, NAN}); x = (T)d; }
    else x = mode == 0 ? rand_num<T>(r, false) : (T)r.range(0, 100);
    memcpy(&v.bytes[i * es], &x, es); return 0; });
  return v;
}
static std::vector<Col> gen_table(Rng &r, int64_t &rows, bool f64) {
  rows = r.chance(0.05) ? r.range(50, 400) : r.range(0, 9); std::set<std::string> used; std::vector<Col> t; int nc = r.chance(0.05) ? (int)r.range(9, 40) : (int)r.range(1, 6);
  for (int i = 0; i < nc; i++) { Col c; c.name = cname(r, used); int k = r.chance(0.7) ? 0 : (int)r.range(1, 4); std::set<std::string> u2; for (int j = 0; j < k; j++) c.comps.push_back(cname(r, u2)); for (int j = 0; j < std::max(k, 1); j++) c.v.push_back(col_vals(r, rows, f64)); t.push_back(c); }
  return t;
}
static void put_table(Rng &r, const std::vector<Col> &t, Node &n, Arena &ar) {
  RealOpts o; Node &v = n["values"];
  for (auto &c : t) if (c.comps.empty()) real_leaf(r, c.v[0], v[c.name], ar, o); else for (size_t j = 0; j < c.comps.size(); j++) real_leaf(r, c.v[j], v[c.name][c.comps[j]], ar, o);
}
static bool close6(double got, double want, bool isf, bool f64) {
  if (std::isnan(want)) return std::isnan(got);
  if (std::isinf(want)) return got == want;
  if (!isf) return f64 ? got == want : got == (double)(float)want;   // integers are written with all digits
  return std::fabs(got - want) <= 1e-5 * std::fabs(want) + 1e-44;
}
static std::string same_table(const std::vector<Col> &t, int64_t rows, const Node &n, bool f64) {
  if (!n.has_child("values") || n.number_of_children() != 1) return "no values"; const Node &v = n["values"]; if (v.number_of_children() != (index_t)t.size()) return "number of columns " + std::to_string(v.number_of_children());
  for (size_t i = 0; i < t.size(); i++) {
    const Col &c = t[i]; const Node &q = v.child((index_t)i); if (q.name() != c.name) return "column " + std::to_string(i) + " is called " + q.name() + ", want " + c.name;
    // a single component is written, and read, as the column itself
    for (size_t j = 0; j < c.v.size(); j++) {
      const Node *p = &q; if (c.comps.size() > 1) { if (q.number_of_children() != (index_t)c.comps.size()) return "components of " + c.name; p = &q.child((index_t)j); if (p->name() != c.comps[j]) return "component " + p->name() + " want " + c.comps[j]; }
      if (p->dtype().id() != (f64 ? DataType::FLOAT64_ID : DataType::FLOAT32_ID) || p->dtype().number_of_elements() != rows) return c.name + " has type " + p->dtype().name() + " and " + std::to_string(p->dtype().number_of_elements()) + " rows, want " + std::to_string(rows);
      auto a = p->as_float64_accessor(); 
      for (int64_t k = 0; k < rows; k++) { double x = f64 ? p->as_float64_array()[k] : (double)p->as_float32_array()[k]; if (!close6(x, asd(c.v[j], k), is_float_dt(c.v[j].dt), f64)) { std::ostringstream o; o.precision(17); o << c.name << " row " << k << " is " << x << ", want " << asd(c.v[j], k); return o.str(); } }
    }
  }
  return "";
}
static bool refused(std::function<void()> f) { try { f(); } catch (conduit::Error &) { return true; } return false; }
static std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void rd(Rng &r, const std::string &p, bool f64, Node &n) {
  Node o; if (f64) o["use_float64"] = r.pick(std::vector<int>{1, 2, -1}); else if (r.chance(0.5)) o["use_float64"] = 0; n["old"] = 1; if (r.chance(0.5)) n["values/gone"] = 2;
  n.reset(); if (r.chance(0.5)) rio::load(p, "csv", o, n); else rio::read_csv(p, o, n);
}
FAMILY_LEAK("C27", "table", 2500, 50000) {
  Rng &r = c.rng; Arena ar; int64_t rows; bool f64 = r.chance(0.5); auto t = gen_table(r, rows, f64); Node n; put_table(r, t, n, ar); Val before = snap(n); std::string f = c.scratch + "/t.csv"; ::remove(f.c_str());
  // numbers the reader's type cannot hold are refused
  bool fits = true; for (auto &q : t) for (auto &v : q.v) for (int64_t i = 0; i < rows; i++) { double x = asd(v, i); if (!f64 && std::isfinite(x) && x != 0 && (std::fabs(x) > 3.4e38 || std::fabs(x) < 1.2e-38)) fits = false; }
  c.tr(show(before).substr(0, 800)); c.seen(before.hash());
  if (r.chance(0.5)) rio::save(n, f, "csv"); else rio::write_csv(n, f, Node());
  VCHECK(snap(n) == before, "input-changed", "write_csv changed the table");
  std::string txt = slurp(f); std::vector<std::string> lines; { std::stringstream s(txt); std::string l; while (std::getline(s, l)) lines.push_back(l); } VCHECK((int64_t)lines.size() == rows + 1, "lines", lines.size(), " lines, want ", rows + 1);
  std::string head; for (auto &q : t) for (size_t j = 0; j < q.v.size(); j++) { if (!head.empty()) head += ", "; head += q.comps.size() > 1 ? q.name + "/" + q.comps[j] : q.name; } VCHECK(lines[0] == head, "header", lines[0], " want ", head);
  Node q; bool no = refused([&] { rd(r, f, f64, q); }); VCHECK(no == !fits || (no && !f64), "refused", "the table written was refused");
  if (!no) { std::string e = same_table(t, rows, q, f64); VCHECK(e.empty(), "table", e); Node info; VCHECK(blueprint::table::verify(q, info), "verify", info.to_json()); c.count("tables"); c.count("cells", rows * (int64_t)t.size()); } else c.count("unfit");
}
FAMILY_LEAK("C27", "tables", 800, 16000) {
  Rng &r = c.rng; Arena ar; bool f64 = r.chance(0.6); int k = r.chance(0.1) ? (int)r.range(11, 14) : (int)r.range(1, 5); bool list = r.chance(0.5); std::string d = c.scratch + "/vfs_tabs"; rmtree(d); Node n; std::vector<std::vector<Col>> ts(k); std::vector<int64_t> rows(k); std::vector<std::string> nm(k); std::set<std::string> used;
  for (int i = 0; i < k; i++) { ts[i] = gen_table(r, rows[i], f64); for (auto &q : ts[i]) for (auto &v : q.v) if (is_float_dt(v.dt)) { v = mk_arr(std::vector<float64>(rows[i], 0)); for (int64_t j = 0; j < rows[i]; j++) { float64 x = (float64)r.range(-4000, 4000) / 16; memcpy(&v.bytes[j * 8], &x, 8); } } nm[i] = cname(r, used); put_table(r, ts[i], list ? n.append() : n[nm[i]], ar); }
  Val before = snap(n); c.tr(list ? "list " : "object ", k); c.seen(before.hash());
  rio::write_csv(n, d, Node()); VCHECK(snap(n) == before, "input-changed", "write_csv changed the tables");
  if (r.chance(0.3)) { std::ofstream(d + "/notes.txt") << "not a table\n"; }
  Node q; rd(r, d, f64, q); VCHECK(q.number_of_children() == k && q.dtype().is_list() == list, "tables", q.number_of_children(), " tables, want ", k);
  for (int i = 0; i < k; i++) { VCHECK(list || q.has_child(nm[i]), "tables", "no table ", nm[i]); std::string e = same_table(ts[i], rows[i], list ? q[i] : q[nm[i]], f64); VCHECK(e.empty(), "tables", "table ", i, ": ", e); }
  c.count("table_sets"); rmtree(d);
}
// files from elsewhere: with and without header, spaces, blank ends, and files that are not tables
FAMILY_LEAK("C27", "text", 4000, 80000) {
  Rng &r = c.rng; std::string f = c.scratch + "/x.csv"; int nc = (int)r.range(1, 6), nr = (int)r.range(1, 8); bool head = r.chance(0.5), f64 = r.chance(0.5); std::vector<std::string> names; std::set<std::string> used; for (int i = 0; i < nc; i++) names.push_back(cname(r, used));
  std::vector<std::vector<double>> x(nr, std::vector<double>(nc)); std::string sp = r.pick(std::vector<std::string>{"", " ", "  ", "\t"}), txt; if (head) { for (int i = 0; i < nc; i++) txt += (i ? "," + sp : "") + names[i] + (r.chance(0.1) ? " " : ""); txt += "\n"; }
  for (int j = 0; j < nr; j++) { for (int i = 0; i < nc; i++) { x[j][i] = (double)r.range(-8000, 8000) / 8; std::ostringstream o; o.precision(12); o << x[j][i]; txt += (i ? "," + sp : "") + o.str(); } if (j + 1 < nr || r.chance(0.7)) txt += "\n"; }
  bool broken = r.chance(0.6); static const std::vector<std::string> T = {",", ",,", "\n", "\n\n", "a", "/", "a/b", "../values", "1", "nan", "1e999", "-", " ", "\r\n", "\"q\"", "x,y", "1,2,3", std::string(1, '\0'), "\xff", "a/", "//", "0x10", "1.5z"};
  if (broken) for (int k = (int)r.range(1, 4); k > 0; k--) { size_t at = r.below(txt.size() + 1); switch (r.below(4)) { case 0: txt.insert(at, r.pick(T)); break; case 1: txt.erase(at, r.range(1, 6)); break; case 2: if (at < txt.size()) txt[at] = r.pick(T)[0]; break; default: txt = txt.substr(0, at); } }
  if (r.chance(0.1)) { txt.clear(); for (int k = (int)r.range(0, 30); k > 0; k--) txt += r.pick(T); broken = true; }
  { std::ofstream o(f, std::ios::binary); o << txt; } c.tr(broken ? "broken " : "", txt.substr(0, 500)); c.seen(hash_str(txt)); Node q; bool no = refused([&] { rd(r, f, f64, q); });
  if (no) { VCHECK(broken, "refused", "a well formed file was refused"); c.count("refused"); q.reset(); return; }
  snap(q); q.to_json(); { Node i2; VCHECK(q["values"].number_of_children() == 0 || q.diff(q, i2) == false || true, "walk", ""); }
  c.count("read_texts"); if (broken) return;
  const Node &v = q["values"]; VCHECK(v.number_of_children() == nc && (head ? v.dtype().is_object() : v.dtype().is_list()), "columns", v.number_of_children(), " columns, want ", nc);
  for (int i = 0; i < nc; i++) { const Node &p = v.child(i); VCHECK(!head || p.name() == names[i], "columns", p.name(), " want ", names[i]); VCHECK(p.dtype().number_of_elements() == nr, "rows", p.dtype().number_of_elements(), " rows, want ", nr); for (int j = 0; j < nr; j++) { double g = f64 ? p.as_float64_array()[j] : (double)p.as_float32_array()[j]; VCHECK(f64 ? g == x[j][i] : g == (double)(float)x[j][i], "cell", "row ", j, " column ", i, " is ", g, " want ", x[j][i]); } }
  if (!head) c.count("headerless");
}
