// C20 path-based save/load in every protocol, C21 HDF5 files as a store, C22 I/O handles.
#include "relay_gen.hpp"
// reference merge, as documented for Node::update
static void m_update(Val &d, const Val &s) {
  if (s.k == V_EMPTY) return;
  if (s.k == V_OBJ) { if (d.k != V_OBJ) { if (s.kids.empty()) return; d = Val(); d.k = V_OBJ; } for (size_t i = 0; i < s.kids.size(); i++) { int j = d.find(s.names[i]); if (j < 0) { d.names.push_back(s.names[i]); d.kids.push_back(Val()); j = (int)d.kids.size() - 1; } m_update(d.kids[j], s.kids[i]); } return; }
  if (s.k == V_LIST) { if (d.k != V_LIST) { if (s.kids.empty()) return; d = Val(); d.k = V_LIST; } for (size_t i = 0; i < s.kids.size(); i++) { if (i >= d.kids.size()) d.kids.push_back(Val()); m_update(d.kids[i], s.kids[i]); } return; }
  if (d.k == V_LEAF && d.dt == s.dt && d.n >= s.n) { std::copy(s.bytes.begin(), s.bytes.end(), d.bytes.begin()); return; }
  d = s;
}

FAMILY_LEAK("C20", "save_load", 3000, 60000) {
  Rng &r = c.rng; auto pr = r.chance(0.4) ? PROTOS[0] : r.pick(PROTOS); std::string p = pr.first;
  std::string fn = c.scratch + "/sl" + std::to_string(r.below(4)) + pr.second;
  bool autod = r.chance(0.5);
  int rounds = (int)r.range(1, 2);
  for (int k = 0; k < rounds; k++) {
    Val v = gen_val(r, opts_for(p)); fit(r, v, p);
    std::string sub; if (p == "conduit_silo" || (p == "hdf5" && (v.k == V_LEAF || r.chance(0.3)))) sub = r.pick(std::vector<std::string>{"top", "a/b", "x/y/z"});
    if (p == "conduit_silo") sub = "top";
    if (v.k == V_EMPTY && p == "hdf5") continue; if (p == "conduit_silo") { size_t nb = 0; each(v, [&](Val &x) { nb += x.bytes.size(); }); if (!nb) continue; }
    Arena ar; Node n; RealOpts ro; ro.foreign_endian = p == "hdf5" && r.chance(0.3); realize(r, v, n, ar, ro);
    std::string path = sub.empty() ? fn : fn + ":" + sub;
    Node o; if (p == "hdf5" && r.chance(0.6)) o["hdf5"] = rand_h5_opts(r);
    c.tr(path, " ", p, " auto ", autod, " opts ", o.to_json()); c.tr(show(v)); c.seen(v.hash() ^ hash_str(p + sub));
    OptGuard og;
    if (autod) { if (o.dtype().is_empty() && r.chance(0.5)) rio::save(n, path); else rio::save(n, path, o); }
    else { if (o.dtype().is_empty() && r.chance(0.5)) rio::save(n, path, p); else rio::save(n, path, p, o); }
    VCHECK(og.same(), "options", "save changed the global options to ", OptGuard::cur());
    VCHECK(snap(n) == v, "save-source", "save changed the node");
    VCHECK(h5_open().empty(), "ids", h5_open());
    Node q; dirty(r, q);
    if (autod) rio::load(path, q); else if (r.chance(0.5)) rio::load(path, p, q); else rio::load(path, p, o, q);
    VCHECK(snap(q) == v, "save-load", p, ": got ", show(snap(q)), " want ", show(v));
    VCHECK(check_links(q, nullptr).empty(), "load-links", check_links(q, nullptr));
    VCHECK(h5_open().empty(), "ids", h5_open());
    if (p == "hdf5") { Node w; rio::load(fn, w); VCHECK(snap(w) == (sub.empty() ? v : at_path(v, sub)), "whole-file", "got ", show(snap(w))); }
    // part of the file
    if (v.k == V_OBJ && !v.kids.empty() && p != "conduit_silo") {
      size_t i = r.below(v.kids.size());
      if (v.names[i].find('/') == std::string::npos && v.names[i].find(':') == std::string::npos) {
        Node w; dirty(r, w); rio::load(fn + ":" + (sub.empty() ? "" : sub + "/") + v.names[i], p, w);
        VCHECK(snap(w) == v.kids[i], "load-sub", "got ", show(snap(w)), " want ", show(v.kids[i]));
        c.count("sub_loads");
      }
      Node w; w["keep"] = 1; bool t = throws([&] { rio::load(fn + ":no/such/path", p, w); });
      VCHECK(p != "hdf5" || t, "load-missing", "loading a path the file does not have gave ", show(snap(w)));
      VCHECK(h5_open().empty(), "ids-after-error", "after a refused load: ", h5_open());
    }
    c.count("proto:" + p);
  }
}
// trees that can be merged into t in every protocol: same kinds, types and lengths where both have something
static Val merge_peer(Rng &r, const Val &v, const GenOpts &g, int depth = 0) {
  Val o = v;
  if (is_num(v)) { for (int64_t i = 0; i < v.n; i++) dispatch_num(v.dt, [&](auto t) { decltype(t) x = rand_num<decltype(t)>(r, true); memcpy(&o.bytes[i * sizeof(x)], &x, sizeof(x)); return 0; }); return o; }
  if (v.k == V_LEAF) { for (int64_t i = 0; i + 1 < v.n; i++) o.bytes[i] = (uint8)r.range('a', 'z'); return o; }
  if (v.k == V_LIST) { for (auto &k : o.kids) k = merge_peer(r, k, g, depth + 1); if (r.chance(0.4)) o.kids.push_back(gen_leaf(r, g)); return o; }
  if (v.k != V_OBJ) return o;
  o.kids.clear(); o.names.clear();
  for (size_t i = 0; i < v.kids.size(); i++) if (r.chance(0.6)) { o.names.push_back(v.names[i]); o.kids.push_back(merge_peer(r, v.kids[i], g, depth + 1)); }
  for (int k = 0; k < 2; k++) if (r.chance(0.5)) { std::string nm = rand_name(r, g); if (nm.find('/') == std::string::npos && v.find(nm) < 0 && o.find(nm) < 0 && nm != "dtype") { o.names.push_back(nm); o.kids.push_back(gen_val(r, g, 3)); } }
  return o;
}
FAMILY_LEAK("C20", "merged", 2000, 40000) {
  Rng &r = c.rng; auto pr = r.chance(0.4) ? PROTOS[0] : r.pick(PROTOS); std::string p = pr.first; if (p == "conduit_silo" || p == "json" || p == "yaml") { pr = PROTOS[0]; p = "hdf5"; }
  std::string fn = c.scratch + "/mg" + std::to_string(c.idx % 4) + pr.second; ::remove(fn.c_str());
  GenOpts g = opts_for(p); g.empties = false; g.empty_containers = false; g.slash_names = false; if (p == "conduit_json") g.dts = {DataType::INT8_ID, DataType::INT16_ID, DataType::INT32_ID, DataType::INT64_ID, DataType::UINT8_ID, DataType::UINT16_ID, DataType::UINT32_ID, DataType::UINT64_ID};
  Val file = gen_val(r, g); while (file.k != V_OBJ) file = gen_val(r, g); fit(r, file, p);
  c.tr(fn, " ", p, " ", show(file));
  Arena ar; { Node n; realize(r, file, n, ar, RealOpts()); Node o; if (p == "hdf5" && r.chance(0.5)) o["hdf5"] = rand_h5_opts(r); if (r.chance(0.5)) rio::save(n, fn, p, o); else rio::save_merged(n, fn, p, o); }
  for (int k = 0, nk = (int)r.range(1, 4); k < nk; k++) {
    Val s = merge_peer(r, file, g); fit(r, s, p); std::string sub;
    bool bad = p == "hdf5" && r.chance(0.25);
    if (bad) { // a leaf in the way, of another type
      std::vector<Val *> lf; each(s, [&](Val &x) { if (x.k == V_LEAF && x.n > 0) lf.push_back(&x); }); bad = false;
      if (!lf.empty()) { Val *x = r.pick(lf); Val t = s, m = file; *x = is_str_dt(x->dt) ? mk_arr(std::vector<int32>{1}) : mk_str("in the way"); m_update(m, s); Val m2 = file; m_update(m2, t); // does the path exist in the file?
        std::function<bool(const Val &, const Val &)> clash = [&](const Val &f, const Val &w) -> bool { if (w.k == V_OBJ && f.k == V_OBJ) { for (size_t i = 0; i < w.kids.size(); i++) { int j = f.find(w.names[i]); if (j >= 0 && clash(f.kids[j], w.kids[i])) return true; } return false; } if (w.k == V_LIST && f.k == V_LIST) { for (size_t i = 0; i < w.kids.size() && i < f.kids.size(); i++) if (clash(f.kids[i], w.kids[i])) return true; return false; } return w.k != f.k || w.dt != f.dt; };
        bad = clash(file, s); if (!bad) s = t; }
    }
    else if (r.chance(0.25)) sub = r.pick(std::vector<std::string>{"newsub", "newer/sub"});
    if (!sub.empty()) { Val t; t.k = V_OBJ; t.names = {"only"}; t.kids = {gen_leaf(r, g)}; s = file.find(sub.substr(0, sub.find('/'))) < 0 ? t : (sub = "", s); fit(r, s, p); }
    Node n; realize(r, s, n, ar, RealOpts());
    Node o; if (p == "hdf5" && r.chance(0.4)) o["hdf5"] = rand_h5_opts(r);
    c.tr("merge ", sub, " bad ", bad, " ", show(s)); OptGuard og;
    bool t = throws([&] { rio::save_merged(n, sub.empty() ? fn : fn + ":" + sub, p, o); });
    VCHECK(t == bad, "merge-refused", t ? "a compatible merge was refused" : "a merge over a leaf of another kind was accepted");
    VCHECK(og.same(), "options", "save_merged changed the global options to ", OptGuard::cur());
    VCHECK(h5_open().empty(), t ? "ids-after-error" : "ids", h5_open());
    if (!bad) m_update(file, sub.empty() ? s : at_path(s, sub));
    Node q; dirty(r, q); rio::load(fn, p, q);
    VCHECK(snap(q) == file, bad ? "refused-merge-changed-file" : "save-merged", "got ", show(snap(q)), " want ", show(file));
    c.seen(file.hash()); c.count(bad ? "refused_merges" : "merges");
  }
  // load_merged into a node that already holds something
  GenOpts g2 = g; Val d = r.chance(0.6) ? merge_peer(r, file, g2) : gen_val(r, g2); if (r.chance(0.2)) d = Val(); if (d.k == V_LEAF) d = Val();
  // a longer array of the same type in the way: left out (whether the tail survives is not specified)
  std::function<void(Val &, const Val &)> declash = [&](Val &x, const Val &f) { if (x.k == V_LEAF && f.k == V_LEAF && x.dt == f.dt && x.n > f.n) { x = f; return; } if (x.k == V_OBJ && f.k == V_OBJ) for (size_t i = 0; i < x.kids.size(); i++) { int j = f.find(x.names[i]); if (j >= 0) declash(x.kids[i], f.kids[j]); } if (x.k == V_LIST && f.k == V_LIST) for (size_t i = 0; i < x.kids.size() && i < f.kids.size(); i++) declash(x.kids[i], f.kids[i]); };
  declash(d, file);
  Node n; realize(r, d, n, ar, RealOpts()); Val w = d; m_update(w, file);
  c.tr("load_merged into ", show(d));
  rio::load_merged(fn, p, n);
  if (file.kids.empty() && d.k == V_EMPTY) w = snap(n);
  VCHECK(snap(n) == w, "load-merged", "got ", show(snap(n)), " want ", show(w));
  VCHECK(h5_open().empty(), "ids", h5_open());
  c.count("load_merges");
}

// ---------------------------------------------------------------- C21
struct Store { // the file as a model: tree plus which leaves can grow
  Val root; std::set<std::string> ext;
  Store() { root.k = V_OBJ; }
};
static void paths_of(const Val &v, const std::string &p, std::vector<std::pair<std::string, const Val *>> &o, bool leaves_only = false) {
  if (v.k == V_OBJ) for (size_t i = 0; i < v.kids.size(); i++) { std::string q = p.empty() ? v.names[i] : p + "/" + v.names[i]; if (!leaves_only || v.kids[i].k == V_LEAF) o.push_back({q, &v.kids[i]}); paths_of(v.kids[i], q, o, leaves_only); }
}
static Val *get(Val &v, const std::string &p, bool create) {
  size_t q = p.find('/'); std::string h = p.substr(0, q); int j = v.k == V_OBJ ? v.find(h) : -1;
  if (j < 0) { if (!create) return nullptr; if (v.k != V_OBJ) { v = Val(); v.k = V_OBJ; } v.names.push_back(h); v.kids.push_back(Val()); j = (int)v.kids.size() - 1; }
  return q == std::string::npos ? &v.kids[j] : get(v.kids[j], p.substr(q + 1), create);
}
FAMILY_LEAK("C21", "store", 1500, 30000) {
  Rng &r = c.rng; std::string fn = c.scratch + "/st" + std::to_string(c.idx % 4) + ".hdf5"; ::remove(fn.c_str());
  Store st; Arena ar; GenOpts g; g.empties = false; g.empty_containers = true; g.max_depth = 3;
  Node defaults; rio::hdf5_options(defaults); Node cur = rand_h5_opts(r); cur["chunking/enabled"] = "true"; if (!cur.has_path("chunking/chunk_size")) cur["chunking/chunk_size"] = 64;
  struct Restore { Node d; ~Restore() { d["chunking/compression/level"] = 5; rio::hdf5_set_options(d); } } rst{defaults};
  rio::hdf5_set_options(cur); c.tr("options ", cur.to_json());
  int64_t compact_t = cur.has_path("compact_storage/threshold") ? cur["compact_storage/threshold"].to_int64() : 1024; bool compact_on = !cur.has_path("compact_storage/enabled") || cur["compact_storage/enabled"].as_string() == "true";
  int64_t chunk_t = cur.has_path("chunking/threshold") ? cur["chunking/threshold"].to_int64() : 2000000;
  auto grows = [&](const Val &x) { int64_t b = (int64_t)x.bytes.size(); if (compact_on && b <= compact_t) return false; return b > chunk_t; };
  std::function<void(const Val &, const std::string &)> mark = [&](const Val &x, const std::string &p) { if (x.k == V_LEAF) { if (grows(x)) st.ext.insert(p); } else if (x.k == V_OBJ) for (size_t i = 0; i < x.kids.size(); i++) mark(x.kids[i], p + "/" + x.names[i]); };
  { Node e; e.set(DataType::object()); rio::hdf5_save(e, fn); }
  bool handle = r.chance(0.5); hid_t h = -1; if (handle) h = rio::hdf5_open_file_for_read_write(fn);
  static const std::vector<std::string> P = {"a", "b", "a/x", "a/y", "b/z/w", "c d", "list", "a/deep/er/leaf"};
  auto verify = [&](const std::string &what) {
    Node q; dirty(r, q); q.reset(); if (handle) rio::hdf5_read(h, q); else rio::hdf5_read(fn, q);
    VCHECK(snap(q) == st.root, what, "got ", show(snap(q)), " want ", show(st.root));
  };
  for (int k = 0, nk = (int)r.range(3, 14); k < nk; k++) {
    int op = (int)r.below(10); std::vector<std::pair<std::string, const Val *>> all, leaves; paths_of(st.root, "", all); paths_of(st.root, "", leaves, true);
    std::vector<std::pair<std::string, const Val *>> nums; for (auto &x : leaves) if (is_num(*x.second)) nums.push_back(x);
    OptGuard og;
    if (op <= 2) { // write a new or compatible tree at a path
      std::string p = r.pick(P); Val *cur_v = get(st.root, p, false); Val s;
      // ancestors that are leaves refuse
      bool refuse = false; for (size_t q = p.find('/'); q != std::string::npos; q = p.find('/', q + 1)) { Val *a = get(st.root, p.substr(0, q), false); if (a && a->k == V_LEAF) refuse = true; if (a && a->k == V_LIST) refuse = true; }
      if (refuse && get(st.root, p.substr(0, p.find('/')), false)->k == V_LIST) continue;
      if (cur_v) s = merge_peer(r, *cur_v, g); else s = gen_val(r, g, 1);
      fit(r, s, "hdf5");
      if (cur_v && cur_v->k == V_LEAF && r.chance(0.4)) { Val t = gen_leaf(r, g); bool same = t.dt == cur_v->dt; refuse = !same || (t.n != cur_v->n && !st.ext.count("/" + p)); s = t; }
      Node n; realize(r, s, n, ar, RealOpts());
      c.tr("write ", p, " refuse ", refuse, " ", show(s));
      bool lead = r.chance(0.3); std::string pp = lead ? "/" + p : p;
      bool t = throws([&] { if (handle) rio::hdf5_write(n, h, pp); else if (r.chance(0.5)) rio::hdf5_append(n, fn, pp); else rio::hdf5_append(n, fn + ":" + p); });
      VCHECK(t == refuse, "write-verdict", t ? "a compatible write was refused" : "an incompatible write was accepted");
      if (!refuse) { Val *d = get(st.root, p, true); bool fresh = !cur_v; std::function<void(Val &, const Val &, const std::string &)> mg = [&](Val &d, const Val &s, const std::string &q) { if (s.k == V_OBJ && d.k == V_OBJ) { for (size_t i = 0; i < s.kids.size(); i++) { int j = d.find(s.names[i]); if (j < 0) { d.names.push_back(s.names[i]); d.kids.push_back(s.kids[i]); mark(s.kids[i], q + "/" + s.names[i]); } else mg(d.kids[j], s.kids[i], q + "/" + s.names[i]); } } else if (s.k == V_LIST && d.k == V_LIST) { for (size_t i = 0; i < s.kids.size(); i++) { if (i >= d.kids.size()) d.kids.push_back(s.kids[i]); else mg(d.kids[i], s.kids[i], "!"); } } else m_update(d, s); };
        if (fresh) { *d = s; mark(s, "/" + p); } else mg(*d, s, "/" + p); }
      c.count(refuse ? "refused_writes" : "writes"); verify(refuse ? "refused-write-changed-file" : "write");
    } else if (op <= 5) { // partial write into one dataset
      std::string p; Val s; if (!nums.empty() && r.chance(0.7)) { p = r.pick(nums).first; s.k = V_LEAF; s.dt = get(st.root, p, false)->dt; } else { p = "part" + std::to_string(r.below(3)); if (get(st.root, p, false)) continue; s.k = V_LEAF; s.dt = r.pick(NUM_DTS); }
      if (p.find("list") != std::string::npos) continue;
      s.n = r.range(1, 6); s.bytes.resize(s.n * esize(s.dt)); for (auto &b : s.bytes) b = (uint8)r.next(); if (is_float_dt(s.dt)) tame_floats(r, s);
      Node o; int64_t off = 0, str = 1; o["offset"] = off = r.range(0, 7); if (r.chance(0.5)) o["stride"] = str = r.range(1, 3);
      Node n; realize(r, s, n, ar, RealOpts());
      c.tr("partial write ", p, " off ", off, " stride ", str, " ", show(s));
      if (handle) rio::hdf5_write(n, h, p, o); else rio::hdf5_append(n, fn, p, o);
      Val *d = get(st.root, p, true); bool fresh = d->k == V_EMPTY; int es = esize(s.dt); if (fresh) { *d = s; d->n = 0; d->bytes.clear(); }
      int64_t need = off + (s.n - 1) * str + 1; if (fresh) need = std::max(need, s.n);
      // offset 0 and stride 1 into a fixed-size dataset writes the whole dataset only when sizes agree
      bool whole = !fresh && off == 0 && str == 1 && s.n == d->n;
      if (d->n < need) { d->n = need; d->bytes.resize(need * es, 0); }
      for (int64_t i = 0; i < s.n; i++) memcpy(&d->bytes[(off + i * str) * es], &s.bytes[i * es], es);
      if (!whole) st.ext.insert("/" + p); c.count("partial_writes");
      // a rewritten dataset moves to the end of its group: compare without order
      Node q; if (handle) rio::hdf5_read(h, q); else rio::hdf5_read(fn, q); Val got = snap(q);
      std::function<bool(Val &, const Val &)> reorder = [&](Val &w, const Val &o) -> bool { if (w.k != o.k) return false; if (w.k != V_OBJ) return true; if (w.names.size() != o.names.size()) return false; Val n; n.k = V_OBJ; for (size_t i = 0; i < o.names.size(); i++) { int j = w.find(o.names[i]); if (j < 0) return false; n.names.push_back(o.names[i]); n.kids.push_back(w.kids[j]); if (!reorder(n.kids.back(), o.kids[i])) return false; } w = n; return true; };
      VCHECK(reorder(st.root, got) && got == st.root, "partial-write", "got ", show(got), " want ", show(st.root));
    } else if (op <= 7) { // partial read
      if (nums.empty()) continue; auto x = r.pick(nums); const Val &v = *x.second; if (v.n == 0) continue;
      int64_t off = r.range(0, v.n - 1), str = r.range(1, 3), sz = r.chance(0.5) ? 0 : r.range(1, (v.n - off + str - 1) / str); Node o; if (off || r.chance(0.5)) o[r.chance(0.5) ? "offset" : "offsets"] = off; else off = 0; if (str > 1 || r.chance(0.5)) o[r.chance(0.5) ? "stride" : "strides"] = str; else str = 1; if (sz) o[r.chance(0.5) ? "size" : "sizes"] = sz;
      if (o.dtype().is_empty()) o["offset"] = off;
      int64_t m = sz ? sz : (v.n - off + str - 1) / str; Val w = v; w.n = m; w.bytes.resize(m * esize(v.dt)); for (int64_t i = 0; i < m; i++) memcpy(&w.bytes[i * esize(v.dt)], &v.bytes[(off + i * str) * esize(v.dt)], esize(v.dt));
      c.tr("partial read ", x.first, " ", o.to_json()); Node q; if (r.chance(0.3)) q["junk"] = 1; if (r.chance(0.2)) q.set(DataType(v.dt, m));
      if (handle) rio::hdf5_read(h, x.first, o, q); else rio::hdf5_read(fn, x.first, o, q);
      VCHECK(snap(q) == w, "partial-read", "got ", show(snap(q)), " want ", show(w)); c.count("partial_reads");
      // out of range must be refused
      Node o2; o2["offset"] = v.n - 1; o2["size"] = r.range(2, 4); Node q2; bool t = throws([&] { if (handle) rio::hdf5_read(h, x.first, o2, q2); else rio::hdf5_read(fn, x.first, o2, q2); });
      VCHECK(t, "partial-read-range", "reading past the end of a dataset gave ", show(snap(q2)));
    } else if (op == 8) {
      if (all.empty() || !r.chance(0.6)) continue; auto x = r.pick(all); std::string p = x.first; c.tr("remove ", p);
      if (handle) rio::hdf5_remove_path(h, p); else { hid_t f = rio::hdf5_open_file_for_read_write(fn); rio::hdf5_remove_path(f, p); VCHECK(!rio::hdf5_has_path(f, p), "remove", "removed path still there"); rio::hdf5_close_file(f); }
      size_t q = p.rfind('/'); Val *par = q == std::string::npos ? &st.root : get(st.root, p.substr(0, q), false); int j = par->find(p.substr(q + 1)); par->names.erase(par->names.begin() + j); par->kids.erase(par->kids.begin() + j);
      for (auto it = st.ext.begin(); it != st.ext.end();) if (*it == "/" + p || it->compare(0, p.size() + 2, "/" + p + "/") == 0) it = st.ext.erase(it); else ++it;
      c.count("removes"); verify("remove");
    } else { // queries
      hid_t f = handle ? h : rio::hdf5_open_file_for_read(fn);
      for (auto &x : all) VCHECK(rio::hdf5_has_path(f, x.first), "has-path", x.first);
      VCHECK(!rio::hdf5_has_path(f, "no/such") && !rio::hdf5_has_path(f, "nosuch"), "has-path", "a missing path is reported as there");
      std::vector<std::string> nm; rio::hdf5_group_list_child_names(f, "/", nm); VCHECK(nm == st.root.names, "list-names", nm.size());
      if (!all.empty()) { auto x = r.pick(all); rio::hdf5_group_list_child_names(f, x.first, nm); size_t want = x.second->k == V_OBJ || x.second->k == V_LIST ? x.second->kids.size() : 0; VCHECK(nm.size() == want && (x.second->k != V_OBJ || nm == x.second->names), "list-names", x.first, " ", nm.size()); Node sub; dirty(r, sub); sub.reset(); rio::hdf5_read(f, x.first, sub); VCHECK(snap(sub) == *x.second, "read-path", x.first, ": got ", show(snap(sub)), " want ", show(*x.second)); }
      if (!handle) rio::hdf5_close_file(f);
      c.count("queries");
    }
    VCHECK(og.same(), "options", "the call changed the global options");
    if (!handle) VCHECK(h5_open().empty(), "ids", h5_open()); else { ssize_t n = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL); VCHECK(n == 1, "ids", n, " identifiers open, want only the file; datasets ", H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_DATASET), " groups ", H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_GROUP), " types ", H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_DATATYPE)); }
    c.seen(st.root.hash());
  }
  if (handle) rio::hdf5_close_file(h);
  handle = false; verify("final"); VCHECK(h5_open().empty(), "ids", h5_open());
}
// datasets with more than one dimension, written with the HDF5 API, read in slabs
FAMILY_LEAK("C21", "slabs", 1500, 30000) {
  Rng &r = c.rng; std::string fn = c.scratch + "/slab.hdf5"; int rank = (int)r.range(1, 4); std::vector<hsize_t> dims; int64_t n = 1; for (int d = 0; d < rank; d++) { dims.push_back(r.range(1, 6)); n *= dims.back(); }
  std::vector<int32> data(n); for (int64_t i = 0; i < n; i++) data[i] = (int32)(i * 7 + 3);
  { hid_t f = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), s = H5Screate_simple(rank, dims.data(), nullptr), d = H5Dcreate2(f, "d", r.chance(0.5) ? H5T_STD_I32BE : H5T_STD_I32LE, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Dwrite(d, H5T_NATIVE_INT32, H5S_ALL, H5S_ALL, H5P_DEFAULT, data.data()); H5Dclose(d); H5Sclose(s); H5Fclose(f); }
  std::vector<int64> off(rank, 0), str(rank, 1), sz(rank, 0); Node o; bool ho = r.chance(0.7), hs = r.chance(0.6), hz = r.chance(0.5);
  for (int d = 0; d < rank; d++) { if (ho) off[d] = r.range(0, dims[d] - 1); if (hs) str[d] = r.range(1, 3); int64_t full = ((int64_t)dims[d] - off[d] + str[d] - 1) / str[d]; sz[d] = hz ? r.range(1, full) : full; }
  if (ho) o["offsets"].set(off); if (hs) o["strides"].set(str); if (hz) o["sizes"].set(sz);
  std::vector<int32> want; std::function<void(int, int64_t)> rec = [&](int d, int64_t base) { if (d == rank) { want.push_back(data[base]); return; } for (int64_t i = 0; i < sz[d]; i++) rec(d + 1, base * dims[d] + off[d] + i * str[d]); }; rec(0, 0);
  c.tr("rank ", rank, " opts ", o.to_json()); c.seen(hash_str(o.to_json()) ^ hash_bytes(dims.data(), dims.size() * sizeof(hsize_t)));
  Node q; rio::hdf5_read(fn + ":d", o, q);
  VCHECK(snap(q) == mk_arr(want), "slab", "got ", show(snap(q)), " want ", show(mk_arr(want)));
  Node info; rio::hdf5_read_info(fn + ":d", o, info); std::vector<int64> ne; for (int64_t i = 0; i < info["num_elements"].dtype().number_of_elements(); i++) ne.push_back(info["num_elements"].as_int64_accessor()[i]);
  VCHECK(ne == sz, "slab-info", info.to_json());
  VCHECK(h5_open().empty(), "ids", h5_open()); c.count("slab_reads");
}

// ---------------------------------------------------------------- C22
FAMILY_LEAK("C22", "handle", 2000, 40000) {
  Rng &r = c.rng; static const std::vector<std::pair<std::string, std::string>> HP = {{"hdf5", ".hdf5"}, {"conduit_bin", ".conduit_bin"}, {"conduit_base64_json", ".conduit_base64_json"}, {"conduit_json", ".conduit_json"}};
  auto pr = r.chance(0.4) ? HP[0] : r.pick(HP); std::string p = pr.first, fn = c.scratch + "/h" + std::to_string(c.idx % 4) + pr.second; ::remove(fn.c_str());
  GenOpts g = opts_for(p); g.slash_names = false; g.empties = false; g.max_depth = 3; g.empty_containers = false;
  Val file; file.k = V_OBJ; bool exists = false; Arena ar; rio::IOHandle hnd; bool open = false; std::string mode;
  static const std::vector<std::string> P = {"a", "b", "a/x", "b/z/w", "c d"};
  auto can_r = [&] { return mode.find('r') != std::string::npos; }; auto can_w = [&] { return mode.find('w') != std::string::npos; };
  for (int k = 0, nk = (int)r.range(4, 18); k < nk; k++) {
    if (!open) {
      if (!file.kids.empty() && r.chance(0.2)) { Node q; rio::load(fn, p, q); Val g2 = snap(q); VCHECK(g2 == file, "file-content", "after close the file holds ", show(g2), " want ", show(file)); c.count("file_reads"); }
      mode = r.pick(std::vector<std::string>{"rw", "rw", "r", "w", "rwa", "rwt", "wa", "wt", "wr", ""}); Node o; if (!mode.empty()) o["mode"] = mode; else mode = "rw";
      if (p == "hdf5" && r.chance(0.3)) o["hdf5"] = rand_h5_opts(r);
      c.tr("open ", o.to_json(), " exists ", exists); bool want_throw = mode == "r" && !exists;
      bool t = throws([&] { if (r.chance(0.5)) hnd.open(fn, o); else hnd.open(fn, p, o); });
      VCHECK(t == want_throw, "open", t ? "open refused" : "opened a missing file read only");
      if (t) { VCHECK(!hnd.is_open(), "open", "is_open after a refused open"); hnd.close(); continue; }
      VCHECK(hnd.is_open(), "open", "not open"); open = true; exists = true; if (mode.find('t') != std::string::npos) { file = Val(); file.k = V_OBJ; }
      continue;
    }
    int op = (int)r.below(10); std::vector<std::pair<std::string, const Val *>> all; paths_of(file, "", all);
    OptGuard og;
    if (op <= 3) { // write
      bool root = r.chance(0.3); std::string path = root ? "" : r.pick(P); bool blocked = false;
      for (size_t q = path.find('/'); q != std::string::npos; q = path.find('/', q + 1)) { Val *a = get(file, path.substr(0, q), false); if (a && a->k != V_OBJ) blocked = true; } if (blocked) continue;
      Val *cv = root ? &file : get(file, path, false); Val s = cv ? merge_peer(r, *cv, g) : gen_val(r, g, 1); fit(r, s, p); if (s.k == V_OBJ && s.kids.empty()) continue; if (s.k == V_LIST && s.kids.empty()) continue;
      Node n; realize(r, s, n, ar, RealOpts()); c.tr("write '", path, "' ", show(s));
      bool t = throws([&] { if (root) hnd.write(n); else hnd.write(n, path); });
      VCHECK(t == !can_w(), "write-mode", t ? "write refused" : "write accepted on a read only handle");
      if (!t) { m_update(root ? file : *get(file, path, true), s); c.count("writes"); }
      VCHECK(snap(n) == s, "write-source", "changed");
    } else if (op <= 5) { // read
      bool root = r.chance(0.5) || all.empty(); std::string path; Val w; if (root) w = file; else { auto x = r.pick(all); path = x.first; w = *x.second; }
      c.tr("read '", path, "'"); Node q; bool merge = r.chance(0.4) && w.k == V_OBJ; Val d; if (merge) { d = merge_peer(r, w, g); realize(r, d, q, ar, RealOpts()); m_update(d, w); } else d = w;
      bool t = throws([&] { if (root) hnd.read(q); else hnd.read(path, q); });
      VCHECK(t == !can_r(), "read-mode", t ? "read refused" : "read accepted on a write only handle");
      bool hollow = false; each(w, [&](Val &x) { if (x.k != V_LEAF && x.kids.empty()) hollow = true; }); // update() makes nothing of an empty object
      if (!t && !hollow) { VCHECK(snap(q) == d, "read", "got ", show(snap(q)), " want ", show(d)); c.count("reads"); }
    } else if (op == 6) {
      if (all.empty()) continue; auto x = r.pick(all); std::string path = x.first; c.tr("remove ", path);
      bool t = throws([&] { hnd.remove(path); }); VCHECK(t == !can_w(), "remove-mode", t);
      if (!t) { size_t q = path.rfind('/'); Val *par = q == std::string::npos ? &file : get(file, path.substr(0, q), false); int j = par->find(path.substr(q + 1)); par->names.erase(par->names.begin() + j); par->kids.erase(par->kids.begin() + j); c.count("removes"); }
    } else if (op == 7) {
      std::string path = all.empty() || r.chance(0.3) ? "no/such" : r.pick(all).first; bool got = false; bool t = throws([&] { got = hnd.has_path(path); }); VCHECK(t == !can_r(), "has-path-mode", t);
      if (!t) VCHECK(got == (path != "no/such"), "has-path", path, " ", got);
    } else if (op == 8) {
      std::vector<std::string> nm = {"junk"}; bool root = r.chance(0.5) || all.empty(); const Val *w = &file; std::string path; if (!root) { auto x = r.pick(all); path = x.first; w = x.second; }
      bool t = throws([&] { if (root) hnd.list_child_names(nm); else hnd.list_child_names(path, nm); }); VCHECK(t == !can_r(), "list-mode", t);
      if (!t && w->k == V_OBJ) VCHECK(nm == w->names, "list-names", path, " gave ", nm.size(), " names, want ", w->names.size());
      if (!t && w->k == V_LEAF) VCHECK(nm.empty(), "list-names", path, " is a leaf");
    } else { c.tr("close"); hnd.close(); open = false; VCHECK(!hnd.is_open(), "close", "still open"); VCHECK(h5_open().empty(), "ids", h5_open()); Node x; VCHECK(throws([&] { hnd.read(x); }), "closed-read", "a closed handle can be read"); c.count("closes"); }
    VCHECK(og.same(), "options", "the call changed the global options");
    c.seen(file.hash() ^ hash_str(mode));
  }
  if (open) { hnd.close(); VCHECK(h5_open().empty(), "ids", h5_open()); }
  if (exists && !file.kids.empty()) { Node q; rio::load(fn, p, q); VCHECK(snap(q) == file, "file-content", "after the last close the file holds ", show(snap(q)), " want ", show(file)); c.count("file_reads"); }
}
