// C01: histories of structural operations against an ordered-tree reference model.
#include "vf.hpp"
using namespace vf;
typedef std::vector<int> Loc;

static std::vector<std::string> comps(const std::string &p) {
  std::vector<std::string> r; std::string cur;
  for (char ch : p) { if (ch == '/') { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += ch; }
  if (!cur.empty()) r.push_back(cur);
  return r;
}
struct Root { Val v; std::unique_ptr<Node> n; };
struct World {
  std::vector<Root> roots;
  Arena ar;
};
static Val &at(Val &v, const Loc &l) { Val *p = &v; for (int i : l) p = &p->kids[i]; return *p; }
static Node &nat(Node &n, const Loc &l) { Node *p = &n; for (int i : l) p = &p->child(i); return *p; }
static Loc rand_loc(Rng &r, const Val &v, double stop = 0.3) {
  Loc l; const Val *p = &v;
  while (!p->kids.empty() && !r.chance(stop)) { int i = (int)r.below(p->kids.size()); l.push_back(i); p = &p->kids[i]; }
  return l;
}
static std::string locs(const Loc &l) { std::string s; for (int i : l) s += "/" + std::to_string(i); return s.empty() ? "/" : s; }
// the observable path of a location: names, [i] in lists, {..} when the name holds a slash
static std::string name_at(const Val &par, int i) {
  if (par.k == V_LIST) return "[" + std::to_string(i) + "]";
  const std::string &s = par.names[i];
  return s.find('/') != std::string::npos ? "{" + s + "}" : s;
}
static void make_obj(Val &v) { if (v.k != V_OBJ) { v = Val(); v.k = V_OBJ; } }
// model of a creating fetch: 0 ok, -1 must raise
static int m_fetch(Val &root, Loc l, const std::vector<std::string> &cs, Loc &out) {
  // every node a fetch starts from, or passes through, becomes an object
  make_obj(at(root, l));
  if (cs.empty()) return -1;
  for (size_t k = 0; k < cs.size(); k++) {
    make_obj(at(root, l));
    if (cs[k] == "..") {
      if (l.empty()) return -1;
      l.pop_back();
      make_obj(at(root, l));
      if (k + 1 == cs.size()) return -1;
      continue;
    }
    Val &v = at(root, l);
    int i = v.find(cs[k]);
    if (i < 0) { v.names.push_back(cs[k]); v.kids.push_back(Val()); i = (int)v.kids.size() - 1; }
    l.push_back(i);
  }
  out = l;
  return 0;
}
static int m_existing(Val &root, Loc l, const std::vector<std::string> &cs, Loc &out) {
  if (cs.empty()) return -1;
  for (size_t k = 0; k < cs.size(); k++) {
    Val &v = at(root, l);
    if (v.k != V_OBJ) return -1;
    if (cs[k] == "..") { if (l.empty()) return -1; l.pop_back(); if (k + 1 == cs.size()) return -1; continue; }
    int i = v.find(cs[k]);
    if (i < 0) return -1;
    l.push_back(i);
  }
  out = l;
  return 0;
}
static std::string rand_path(Rng &r, const Val &v, bool dots, double existing) {
  std::string p; const Val *cur = &v; bool track = true;
  if (r.chance(0.1)) p += "/";
  for (int64_t k = 0, n = r.range(1, 4); k < n; k++) {
    std::string cpt;
    if (dots && r.chance(0.12)) { cpt = ".."; track = false; }
    else if (track && cur->k == V_OBJ && !cur->kids.empty() && r.chance(existing)) {
      size_t i = r.below(cur->kids.size()); cpt = cur->names[i]; cur = &cur->kids[i];
      if (cpt.find('/') != std::string::npos) track = false;
    } else { GenOpts o; cpt = rand_name(r, o); track = false; }
    if (k) p += r.chance(0.08) ? "//" : "/";
    p += cpt;
  }
  if (r.chance(0.08)) p += "/";
  return p;
}

template <class F> static bool raises(F f) {
  try { f(); } catch (conduit::Error &) { return true; }
  return false;
}

static void assign_leaf(Ctx &c, Node &n, Val &m, const Val &leaf) {
  // documented set() rule: a compatible leaf (same type, at least as many elements) is
  // written in place, otherwise the node becomes exactly the new value
  int how = (int)c.rng.below(5);
  if (is_str_dt(leaf.dt)) {
    std::string s((const char *)leaf.bytes.data(), leaf.bytes.size() - 1);
    switch (how) { case 0: n.set(s); break; case 1: n = s; break; case 2: n.set_char8_str(s.c_str()); break; case 3: n.set(s.c_str()); break; default: n.set_string(s); }
    // C-string setters stop at an embedded NUL; generator makes none
  } else {
    dispatch_num(leaf.dt, [&](auto t) {
      typedef decltype(t) T;
      // exact-size buffers: reading past the given elements is caught by ASan
      std::unique_ptr<T[]> buf(new T[leaf.n ? leaf.n : 1]);
      if (leaf.n) memcpy(buf.get(), leaf.bytes.data(), leaf.bytes.size());
      if (leaf.n == 1 && how < 2) { if (how == 0) n.set(buf[0]); else n = buf[0]; }
      else if (how == 2) { std::vector<T> v(buf.get(), buf.get() + leaf.n); n.set(v); }
      else if (how == 3) { std::vector<T> v(buf.get(), buf.get() + leaf.n); n = v; }
      else if (how == 4 && leaf.n) { // strided source
        int64_t st = c.rng.range(1, 3), off = c.rng.range(0, 2);
        std::unique_ptr<T[]> b2(new T[off + (leaf.n - 1) * st + 1]());
        for (int64_t i = 0; i < leaf.n; i++) b2[off + i * st] = buf[i];
        n.set(b2.get(), leaf.n, off * sizeof(T), st * sizeof(T));
      } else n.set(buf.get(), leaf.n);
      return 0;
    });
  }
  if (m.k == V_LEAF && m.dt == leaf.dt && m.n >= leaf.n) std::copy(leaf.bytes.begin(), leaf.bytes.end(), m.bytes.begin());
  else m = leaf;
}

static void observe(Ctx &c, World &w, size_t ri) {
  Root &r = w.roots[ri];
  Val s = snap(*r.n);
  VCHECK(s == r.v, "tree-mismatch", "root ", ri, "\n model ", show(r.v), "\n node  ", show(s));
  std::string e = check_links(*r.n, nullptr);
  VCHECK(e.empty(), "bad-links", e, " in ", show(r.v));
  VCHECK(r.n->is_root(), "root-flag", "root node says it is not a root");
  c.count("observations");
}

static void reads(Ctx &c, World &w, size_t ri) {
  Root &R = w.roots[ri];
  Loc l = rand_loc(c.rng, R.v, 0.25);
  Node &n = nat(*R.n, l);
  const Node &cn = n;
  Val &m = at(R.v, l);
  std::string lo = locs(l);
  VCHECK(n.number_of_children() == (index_t)m.kids.size(), "nchildren", lo);
  // name / path
  std::string p, nm;
  { Val *cur = &R.v; for (int i : l) { nm = name_at(*cur, i); p += (p.empty() ? "" : "/") + nm; cur = &cur->kids[i]; } }
  VCHECK(n.name() == nm, "name", "at ", lo, " name() '", n.name(), "' expected '", nm, "'");
  VCHECK(n.path() == p, "path", "at ", lo, " path() '", n.path(), "' expected '", p, "'");
  if (!l.empty()) VCHECK(!n.is_root() && n.parent() == &nat(*R.n, Loc(l.begin(), l.end() - 1)), "parent", lo);
  // by index
  for (index_t i = -1; i <= (index_t)m.kids.size(); i++) {
    bool ok = i >= 0 && i < (index_t)m.kids.size();
    bool ex = raises([&] { Node &k = n.child(i); if (ok) { if (&k != n.child_ptr(i) || &k != &n[i] || &cn.child(i) != &k || &cn[i] != &k) c.viol("child-alias", lo); } });
    VCHECK(ex == !ok, "child-index", "child(", i, ") of ", m.kids.size(), " at ", lo, ok ? " raised" : " did not raise");
  }
  if (m.k == V_OBJ) {
    const std::vector<std::string> &names = n.child_names();
    VCHECK(names == m.names, "child-names", lo);
    for (size_t i = 0; i < m.names.size(); i++) {
      VCHECK(n.has_child(m.names[i]), "has-child", m.names[i]);
      VCHECK(&n.child(m.names[i]) == &n.child((index_t)i), "child-by-name", m.names[i], " at ", lo);
      VCHECK(&cn.child(m.names[i]) == &n.child((index_t)i), "child-by-name-const", m.names[i]);
      VCHECK(n.schema().child_index(m.names[i]) == (index_t)i && n.schema().child_name(i) == m.names[i], "schema-index", m.names[i]);
    }
  }
  GenOpts o;
  std::string q = rand_name(c.rng, o);
  VCHECK(n.has_child(q) == (m.k == V_OBJ && m.find(q) >= 0), "has-child", q, " at ", lo);
  VCHECK(raises([&] { n.child(q); }) == !(m.k == V_OBJ && m.find(q) >= 0), "child-raise", q);
  // existing path lookups
  std::string path = rand_path(c.rng, m, true, 0.9);
  Loc out; int rc = m_existing(R.v, l, comps(path), out);
  Node *got = nullptr; const Node *cgot = nullptr;
  bool ex = raises([&] { got = &n.fetch_existing(path); });
  bool cex = raises([&] { cgot = c.rng.chance(0.5) ? &cn.fetch_existing(path) : &cn[path]; });
  VCHECK(ex == (rc != 0), "fetch-existing", "'", path, "' at ", lo, ex ? " raised" : " succeeded", " model ", show(m));
  VCHECK(cex == (rc != 0), "fetch-existing-const", "'", path, "' at ", lo);
  if (!rc) VCHECK(got == &nat(*R.n, out) && cgot == got, "fetch-existing-target", "'", path, "' at ", lo);
  if (path.find("..") == std::string::npos && path.find("//") == std::string::npos) {
    VCHECK(n.has_path(path) == (rc == 0), "has-path", "'", path, "' at ", lo, " says ", n.has_path(path));
  }
  // iteration, both directions
  if (m.k == V_OBJ || m.k == V_LIST) {
    conduit::NodeIterator it = n.children();
    conduit::NodeConstIterator cit = cn.children();
    size_t k = 0;
    while (it.has_next()) {
      VCHECK(cit.has_next(), "iter-const", lo);
      Node &x = it.next(); const Node &y = cit.next();
      VCHECK(k < m.kids.size() && &x == &n.child(k) && &y == &x, "iter-order", lo, " step ", k);
      VCHECK(it.index() == (index_t)k && cit.index() == (index_t)k, "iter-index", lo, " step ", k, " index ", it.index());
      if (m.k == V_OBJ) VCHECK(it.name() == m.names[k] && cit.name() == m.names[k], "iter-name", lo, " '", it.name(), "'");
      if (k + 1 < m.kids.size()) VCHECK(&it.peek_next() == &n.child(k + 1), "iter-peek", lo);
      k++;
    }
    VCHECK(k == m.kids.size() && !cit.has_next(), "iter-length", lo, " ", k, " of ", m.kids.size());
    // previous() steps back from the child last returned
    if (k) { it.to_back(); VCHECK(&it.node() == &n.child(k - 1), "iter-back-node", lo); }
    size_t kk = k;
    while (it.has_previous()) { VCHECK(kk >= 2 && &it.previous() == &n.child(kk - 2), "iter-back", lo, " step ", kk); kk--; VCHECK(it.index() == (index_t)kk - 1, "iter-back-index", lo); }
    VCHECK(kk == (k ? 1 : 0), "iter-back-length", lo, " stopped with ", kk, " left");
    it.to_front();
    VCHECK(it.has_next() == !m.kids.empty(), "iter-front", lo);
  }
  c.count("read_rounds");
}

static bool prefix(const Loc &a, const Loc &b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }

static void step(Ctx &c, World &w, bool slash) {
  Rng &r = c.rng;
  size_t ri = r.below(w.roots.size());
  Root &R = w.roots[ri];
  Loc l = rand_loc(r, R.v);
  Node &n = nat(*R.n, l);
  GenOpts go; go.max_depth = 3; go.max_width = 3; go.max_len = 6; go.slash_names = slash;
  int op = (int)r.below(17);
  std::string tag = "r" + std::to_string(ri) + locs(l) + " ";
  switch (op) {
  case 0: case 1: case 2: { // creating fetch then set
    std::string p = rand_path(r, at(R.v, l), true, 0.6);
    Val leaf = gen_leaf(r, go);
    c.tr(tag, "fetch '", p, "' = ", show(leaf));
    Loc out; int rc = m_fetch(R.v, l, comps(p), out);
    Node *t = nullptr;
    bool ex = raises([&] { switch (r.below(3)) { case 0: t = &n.fetch(p); break; case 1: t = &n[p]; break; default: t = n.fetch_ptr(p); } });
    VCHECK(ex == (rc != 0), "fetch-raise", "fetch '", p, "'", ex ? " raised" : " did not raise");
    if (rc) { R.v = snap(*R.n); c.count("op:fetch_error"); break; } // partial creation on error is unspecified
    VCHECK(t == &nat(*R.n, out), "fetch-target", "fetch '", p, "' returned another node");
    if (r.chance(0.8)) assign_leaf(c, *t, at(R.v, out), leaf);
    c.count("op:fetch");
    break;
  }
  case 3: { // add_child (name taken literally)
    std::string nm = rand_name(r, go);
    if (slash && r.chance(0.5)) nm = "p/" + nm;
    c.tr(tag, "add_child '", nm, "'");
    Val &m = at(R.v, l); make_obj(m);
    int i = m.find(nm); if (i < 0) { m.names.push_back(nm); m.kids.push_back(Val()); i = (int)m.kids.size() - 1; }
    Node &t = n.add_child(nm);
    VCHECK(&t == &n.child(i), "add-child-target", nm);
    if (r.chance(0.7)) { Val leaf = gen_leaf(r, go); assign_leaf(c, t, m.kids[i], leaf); }
    c.count("op:add_child");
    break;
  }
  case 4: case 5: { // append
    Val leaf = gen_leaf(r, go);
    c.tr(tag, "append ", show(leaf));
    Val &m = at(R.v, l);
    if (m.k != V_LIST) { m = Val(); m.k = V_LIST; }
    m.kids.push_back(Val());
    Node &t = n.append();
    VCHECK(&t == &n.child(n.number_of_children() - 1), "append-target", "");
    assign_leaf(c, t, m.kids.back(), leaf);
    c.count("op:append");
    break;
  }
  case 6: { // remove by index
    Val &m = at(R.v, l);
    int64_t k = (int64_t)m.kids.size();
    int64_t i = r.chance(0.8) && k ? (int64_t)r.below(k) : r.range(-1, k + 1);
    c.tr(tag, "remove(", i, ") of ", k);
    bool ok = i >= 0 && i < k;
    bool ex = raises([&] { n.remove((index_t)i); });
    VCHECK(ex == !ok, "remove-raise", "remove(", i, ") of ", k);
    if (ok) { m.kids.erase(m.kids.begin() + i); if (m.k == V_OBJ) m.names.erase(m.names.begin() + i); c.count("op:remove_index"); }
    else c.count("op:remove_bad_index");
    break;
  }
  case 7: { // remove by path / name
    Val &m = at(R.v, l);
    std::string p;
    Loc cur = l;
    bool byname = r.chance(0.4);
    int steps = byname ? 1 : (int)r.range(1, 3);
    const Val *q = &m; bool ok = true;
    for (int s = 0; s < steps && ok; s++) {
      if (q->k == V_OBJ && !q->kids.empty() && r.chance(0.9)) {
        size_t i = r.below(q->kids.size());
        if (!byname && q->names[i].find('/') != std::string::npos) { ok = false; p += (s ? "/" : "") + std::string("zzz"); break; }
        p += (s ? "/" : "") + q->names[i]; cur.push_back((int)i); q = &q->kids[i];
        if (q->k != V_OBJ) break;
      } else { ok = false; p += (s ? "/" : "") + std::string("zz_missing"); }
    }
    if (cur == l) ok = false;
    c.tr(tag, byname ? "remove_child '" : "remove '", p, "'");
    bool ex = raises([&] { if (byname) n.remove_child(p); else n.remove(p); });
    VCHECK(ex == !ok, "remove-path-raise", "'", p, "' ", ex ? "raised" : "did not raise");
    if (ok) {
      int i = cur.back(); cur.pop_back(); Val &par = at(R.v, cur);
      par.kids.erase(par.kids.begin() + i); par.names.erase(par.names.begin() + i);
      c.count("op:remove_path");
    } else c.count("op:remove_bad_path");
    break;
  }
  case 8: { // rename
    Val &m = at(R.v, l);
    std::string a = m.k == V_OBJ && !m.names.empty() && r.chance(0.9) ? r.pick(m.names) : "zz_missing";
    std::string b = m.k == V_OBJ && !m.names.empty() && r.chance(0.3) ? r.pick(m.names) : rand_name(r, go);
    bool ok = m.k == V_OBJ && m.find(a) >= 0 && m.find(b) < 0;
    c.tr(tag, "rename '", a, "' -> '", b, "'");
    bool ex = raises([&] { n.rename_child(a, b); });
    VCHECK(ex == !ok, "rename-raise", a, " -> ", b, ex ? " raised" : " did not raise");
    if (ok) { m.names[m.find(a)] = b; c.count("op:rename"); } else c.count("op:rename_bad");
    break;
  }
  case 9: case 10: { // set leaf
    Val leaf = gen_leaf(r, go);
    c.tr(tag, "set ", show(leaf));
    assign_leaf(c, n, at(R.v, l), leaf);
    c.count("op:set_leaf");
    break;
  }
  case 11: { // set from a node somewhere (copy), possibly in the same tree
    size_t rj = r.below(w.roots.size());
    Loc l2 = rand_loc(r, w.roots[rj].v);
    if (w.roots[rj].v.count_nodes() > 60) break;
    if (rj == ri && !l.empty() && l2.empty() && false) break;
    c.tr(tag, "set(node r", rj, locs(l2), ")");
    Val src = at(w.roots[rj].v, l2);
    Node &sn = nat(*w.roots[rj].n, l2);
    if (r.chance(0.5)) n.set(sn); else n = sn;
    at(R.v, l) = src;
    c.count(rj == ri ? (prefix(l, l2) || prefix(l2, l) ? "op:set_node_overlapping" : "op:set_node_same_tree") : "op:set_node");
    break;
  }
  case 12: c.tr(tag, "reset"); n.reset(); at(R.v, l) = Val(); c.count("op:reset"); break;
  case 13: case 14: { // swap / move between unrelated places
    size_t rj = r.below(w.roots.size());
    Loc l2 = rand_loc(r, w.roots[rj].v);
    if (rj == ri && (prefix(l, l2) || prefix(l2, l))) break;
    Node &m = nat(*w.roots[rj].n, l2);
    Val &a = at(R.v, l), &b = at(w.roots[rj].v, l2);
    if (op == 13) { c.tr(tag, "swap r", rj, locs(l2)); n.swap(m); std::swap(a, b); c.count("op:swap"); }
    else { c.tr(tag, "move r", rj, locs(l2)); n.move(m); Val t = b; b = Val(); a = t; c.count("op:move"); }
    observe(c, w, rj);
    break;
  }
  case 15: { // become an empty container, or a list of a dtype
    Val &m = at(R.v, l);
    switch (r.below(3)) {
    case 0: c.tr(tag, "set object()"); n.set(DataType::object()); make_obj(m); break;
    case 1: c.tr(tag, "set list()"); n.set(DataType::list()); if (m.k != V_LIST) { m = Val(); m.k = V_LIST; } break;
    default: {
      int64_t cnt = r.range(0, 4), len = r.range(1, 4);
      c.tr(tag, "list_of int32(", len, ") x", cnt);
      // children of a list_of node are views of one buffer; copy before moving parts around
      Node lt; lt.list_of(DataType::int32(len), cnt); n.set(lt);
      m = Val(); m.k = V_LIST;
      for (int64_t i = 0; i < cnt; i++) { std::vector<conduit::int32> x; for (int64_t j = 0; j < len; j++) { x.push_back((conduit::int32)r.next()); n.child(i).as_int32_ptr()[j] = x.back(); } m.kids.push_back(mk_arr(x)); }
    } }
    c.count("op:container");
    break;
  }
  case 16: { // whole-tree replacement through random layouts
    Val v = gen_val(r, go);
    c.tr(tag, "build ", show(v));
    RealOpts ro; Arena tmp;
    Node t; realize(r, v, t, tmp, ro);
    if (r.chance(0.5)) n.set(t); else n.update(t), (void)0;
    if (snap(t) != v) c.viol("realize", "layout built by set/set_external reads back differently: " + show(v) + " vs " + show(snap(t)));
    R.v = snap(*R.n); // update-merge is judged by its own property; here only self-consistency
    c.count("op:build");
    break;
  }
  }
  observe(c, w, ri);
  if (R.v.count_nodes() > 150) { R.n->reset(); R.v = Val(); }
}

static void history(Ctx &c, bool slash, int nops) {
  World w;
  for (int i = 0; i < 3; i++) { w.roots.emplace_back(); w.roots.back().n.reset(new Node()); }
  uint64_t h = 0;
  for (int i = 0; i < nops; i++) {
    step(c, w, slash);
    if (c.rng.chance(0.3)) reads(c, w, c.rng.below(w.roots.size()));
    for (auto &R : w.roots) h = mix64(h ^ R.v.hash());
    c.seen(w.roots[0].v.hash() ^ mix64(w.roots[1].v.hash()));
  }
  for (size_t i = 0; i < w.roots.size(); i++) { observe(c, w, i); reads(c, w, i); }
  c.count("steps", nops);
}
FAMILY_LEAK("C01", "history", 1600, 40000) { history(c, false, (int)c.rng.range(10, 60)); }
FAMILY_LEAK("C01", "history_slash_names", 400, 8000) { history(c, true, (int)c.rng.range(10, 40)); }
