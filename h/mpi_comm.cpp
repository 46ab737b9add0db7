// C26: what arrives through relay::mpi is what was sent. Every rank generates the data of all ranks and checks what it received.
#include "mpi.hpp"
using namespace vf; using namespace conduit; namespace rm = conduit::relay::mpi;
static void nodt(Val &v) { for (size_t i = 0; i < v.names.size(); i++) if (v.names[i] == "dtype") v.names[i] = "n_dtype" + std::to_string(i); for (auto &k : v.kids) nodt(k); }
static Val gv(Rng &r, const GenOpts &o) { Val v = gen_val(r, o); nodt(v); return v; } // "dtype" is a keyword of schema text
static GenOpts topts(Rng &r) { GenOpts o; o.max_depth = (int)r.range(1, 4); o.max_width = (int)r.range(1, 6); o.max_len = r.chance(0.1) ? 3000 : (int)r.range(1, 12); o.slash_names = r.chance(0.1); return o; }
static RealOpts ropts(Rng &r, bool endian) { RealOpts o; o.foreign_endian = endian && r.chance(0.4); o.strided = r.chance(0.6); o.offsets = r.chance(0.6); o.external = r.chance(0.6); return o; }
// the value in a random representation: built up piece by piece, or one compact block (with or without an offset)
static void rep(Rng &r, const Val &v, Node &n, Arena &ar, bool endian) {
  switch (r.below(5)) {
  case 0: realize_plain(v, n); return;
  case 1: { Node t; realize_plain(v, t); t.compact_to(n); return; }
  case 2: { Node t; realize_plain(v, t); Schema s; t.schema().compact_to(s); index_t b = s.total_bytes_compact(); uint8_t *p = ar.get((size_t)b); Node m; t.compact_to(m); if (b && m.contiguous_data_ptr()) memcpy(p, m.contiguous_data_ptr(), (size_t)b); n.set_external(s, p); return; }
  default: realize(r, v, n, ar, ropts(r, endian));
  }
}
static Val same_shape(Rng &r, const Val &v, double lo = 0) { Val o = v; for (auto &k : o.kids) k = same_shape(r, k, lo); if (o.k == V_LEAF && !is_str_dt(o.dt)) { int es = esize(o.dt); for (int64_t i = 0; i < o.n; i++) dispatch_num(o.dt, [&](auto t) { decltype(t) x = rand_num<decltype(t)>(r, true); memcpy(&o.bytes[i * es], &x, es); return 0; }); } else if (o.k == V_LEAF) for (size_t i = 0; i + 1 < o.bytes.size(); i++) o.bytes[i] = (uint8_t)r.range('a', 'z'); return o; }
struct G { MPI_Comm comm; int rank, n; bool in = true; };
static G group(Rng &r, Ctx &c, bool whole = false) { G g; uint64_t k = r.below(3); g.comm = k == 0 ? MPI_COMM_WORLD : k == 1 ? g_rev : g_dup; MPI_Comm_rank(g.comm, &g.rank); MPI_Comm_size(g.comm, &g.n); (void)c; (void)whole; return g; }
static void no_mail(G g, Ctx &c) { MPI_Barrier(MPI_COMM_WORLD); int flag = 0; MPI_Status st; MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, g.comm, &flag, &st); VCHECK(!flag, "leftover", "a message nobody asked for is pending"); MPI_Barrier(MPI_COMM_WORLD); }
#define CHK(node, val, key, what) do { Val g_ = snap(node); VCHECK(g_ == (val), key, what, ": got ", show(g_), " expected ", show(val)); c.count("values_checked", 1 + g_.count_leaves()); } while (0)
// what update() makes of the receiver; Node::update itself is the subject of C01
static Val updated(const Val &pre, const Val &v) { Node a, b; realize_plain(pre, a); realize_plain(v, b); a.update(b); return snap(a); }
struct Msg { int src, dst, tag; Val v, pre; bool schema, any; std::unique_ptr<Node> s, d; Arena ar, ar2; Val keep; };
static void make(Rng &r, Msg &m, const G &g, bool endian_ok) {
  Rng q(r.next()); m.v = gv(q, topts(q)); Rng ra(r.next()), rb(r.next()); m.s.reset(new Node); m.d.reset(new Node);
  uint64_t k = r.below(4);
  if (g.rank == m.src) rep(ra, m.v, *m.s, m.ar, endian_ok && k > 1); // update() into existing data copies bytes as they are
  if (m.schema) { m.pre = Val(); if (k == 0) m.pre = gv(q, topts(q)); else if (k == 1) m.pre = same_shape(q, m.v); if (g.rank == m.dst && m.pre.k != V_EMPTY) rep(rb, m.pre, *m.d, m.ar2, false); }
  else { m.pre = same_shape(q, m.v); if (g.rank == m.dst) rep(rb, m.pre, *m.d, m.ar2, false); }
}
static std::string mode(const Msg &m) { return std::string(m.schema ? "schema" : "raw") + (m.any ? " any" : ""); }
static void after(const Msg &m, const G &g, Ctx &c) {
  if (g.rank == m.src && m.src != m.dst) CHK(*m.s, m.v, "sender-changed", "node sent");
  if (g.rank == m.dst) { Val e = m.schema ? updated(m.pre, m.v) : m.v; CHK(*m.d, e, "received", mode(m) + " message"); c.count("messages_received"); }
}
static int tag_of(Rng &r) { return r.chance(0.1) ? 2147483647 - (int)r.below(3) : r.chance(0.5) ? (int)r.below(4) : (int)r.below(30000); }
FAMILY("C26", "blocking", 400, 12000) {
  Rng &r = c.rng; G g = group(r, c); if (g.n < 2) return; int nm = (int)r.range(1, 6); c.seen(r.s);
  for (int i = 0; i < nm; i++) {
    Msg m; m.src = (int)r.below(g.n); m.dst = (int)((m.src + 1 + r.below(g.n - 1)) % g.n); m.tag = r.chance(0.5) ? (int)r.below(4) : (int)r.below(30000); m.schema = r.chance(0.5); m.any = r.chance(0.3); make(r, m, g, m.schema);
    c.tr(m.src, "->", m.dst, " tag ", m.tag, " ", mode(m), " ", show(m.v).substr(0, 200));
    slow(r, g.rank);
    if (g.rank == m.src) { if (m.schema) rm::send_using_schema(*m.s, m.dst, m.tag, g.comm); else rm::send(*m.s, m.dst, m.tag, g.comm); }
    if (g.rank == m.dst) { if (m.schema) { if (m.any) rm::recv_using_schema(*m.d, g.comm); else rm::recv_using_schema(*m.d, m.src, m.tag, g.comm); } else { if (m.any) rm::recv(*m.d, g.comm); else rm::recv(*m.d, m.src, m.tag, g.comm); } }
    if (m.any) MPI_Barrier(MPI_COMM_WORLD);
    after(m, g, c);
  }
  no_mail(g, c);
}
FAMILY("C26", "nonblocking", 400, 12000) {
  Rng &r = c.rng; G g = group(r, c); int nm = (int)r.range(1, 10); c.seen(r.s); std::vector<std::unique_ptr<Msg>> ms; bool sole = r.chance(0.15); // one message to each rank, received from anyone
  if (sole) nm = g.n;
  for (int i = 0; i < nm; i++) { std::unique_ptr<Msg> m(new Msg); m->src = (int)r.below(g.n); m->dst = sole ? i : (int)r.below(g.n); m->tag = tag_of(r); m->schema = false; m->any = sole; make(r, *m, g, false); c.tr(m->src, "->", m->dst, " tag ", m->tag, " ", show(m->v).substr(0, 150)); ms.push_back(std::move(m)); }
  std::vector<rm::Request> rq(2 * nm); std::vector<int> live; bool recv_first = r.chance(0.5);
  for (int ph = 0; ph < 2; ph++) { bool rec = (ph == 0) == recv_first; for (int i = 0; i < nm; i++) { Msg &m = *ms[i]; if (rec && g.rank == m.dst) { if (m.any) rm::irecv(*m.d, g.comm, &rq[2 * i]); else rm::irecv(*m.d, m.src, m.tag, g.comm, &rq[2 * i]); live.push_back(2 * i); } if (!rec && g.rank == m.src) { rm::isend(*m.s, m.dst, m.tag, g.comm, &rq[2 * i + 1]); live.push_back(2 * i + 1); } } Rng q(r.next()); slow(q, g.rank); }
  uint64_t how = r.below(3); Rng q(r.next() + g.rank);
  if (how == 0) { std::vector<rm::Request> a; std::vector<rm::Request *> orig; a.reserve(live.size()); for (int i : live) a.push_back(rq[i]); std::vector<MPI_Status> st(live.size() + 1);
    bool shallow = true; for (auto &x : a) if (!x.m_buffer.dtype().is_empty()) shallow = false; // a request that owns a buffer cannot be copied
    if (shallow && !a.empty()) { rm::wait_all((int)a.size(), a.data(), st.data()); c.count("wait_all"); } else for (int i : live) { MPI_Status s1; rm::wait(&rq[i], &s1); } }
  else if (how == 1) { std::vector<int> all; for (int i = 0; i < 2 * nm; i++) all.push_back(i); for (auto &x : all) if (std::find(live.begin(), live.end(), x) == live.end()) { rq[x].m_request = MPI_REQUEST_NULL; rq[x].m_rcv_ptr = nullptr; } std::vector<MPI_Status> st(2 * nm); rm::wait_all(2 * nm, rq.data(), st.data()); c.count("wait_all"); }
  else { for (size_t i = live.size(); i > 1; i--) std::swap(live[i - 1], live[q.below(i)]); for (int i : live) { MPI_Status st; if (i % 2 == 0) { if (q.chance(0.5)) rm::wait(&rq[i], &st); else rm::wait_recv(&rq[i], &st); } else { if (q.chance(0.5)) rm::wait(&rq[i], &st); else rm::wait_send(&rq[i], &st); } } c.count("wait"); }
  for (auto &m : ms) after(*m, g, c);
  no_mail(g, c);
}
FAMILY("C26", "batch", 400, 12000) {
  Rng &r = c.rng; G g = group(r, c); int nm = (int)r.range(0, 12); c.seen(r.s); std::vector<std::unique_ptr<Msg>> ms; rm::communicate_using_schema C(g.comm); int rounds = (int)r.range(1, 2);
  bool logging = r.chance(0.1); if (logging) { C.set_logging(true); C.set_logging_root(c.scratch + "/log"); }
  for (int k = 0; k < rounds; k++) {
    ms.clear(); for (int i = 0; i < nm; i++) { std::unique_ptr<Msg> m(new Msg); m->src = (int)r.below(g.n); m->dst = (int)r.below(g.n); m->tag = tag_of(r); m->schema = true; m->any = false; make(r, *m, g, true); c.tr(m->src, "->", m->dst, " tag ", m->tag, " ", show(m->v).substr(0, 150)); ms.push_back(std::move(m)); }
    for (int ph = 0; ph < 2; ph++) for (auto &m : ms) { if (ph == 0 && g.rank == m->src) C.add_isend(*m->s, m->dst, m->tag); if (ph == 1 && g.rank == m->dst) C.add_irecv(*m->d, m->src, m->tag); }
    Rng q(r.next()); slow(q, g.rank); auto eh = conduit::utils::error_handler(); auto wh = conduit::utils::warning_handler(); C.execute(); VCHECK(eh == conduit::utils::error_handler() && wh == conduit::utils::warning_handler(), "handlers", "execute changed the error handlers");
    for (auto &m : ms) after(*m, g, c); c.count("batches");
  }
  bool threw = false; Node t; try { C.add_isend(t, 0, -1 - (int)r.below(5)); } catch (conduit::Error &) { threw = true; } VCHECK(threw, "tag", "negative tag accepted");
  int tg = tag_of(r), a = rm::safe_tag(tg, g.comm), b = rm::safe_tag(tg, g.comm); VCHECK(a >= 0 && a <= tg && a == b && (tg > 30000 || a == tg), "safe-tag", "safe_tag(", tg, ") = ", a); VCHECK(rm::safe_tag(-5, g.comm) == 0, "safe-tag", "negative tag");
  no_mail(g, c);
}
FAMILY("C26", "broadcast", 400, 12000) {
  Rng &r = c.rng; G g = group(r, c); int root = (int)r.below(g.n); Val v = gv(r, topts(r)); bool sch = r.chance(0.6); if (r.chance(0.3)) v = gen_leaf(r, topts(r)); c.seen(v.hash() ^ root); c.tr("broadcast", sch ? "_using_schema" : "", " root ", root, " ", show(v));
  Node n; Arena ar; Val pre; std::vector<Rng> rr; std::vector<Val> pres; for (int i = 0; i < g.n; i++) { rr.push_back(Rng(r.next())); Val p = same_shape(r, v); if (sch && i != root) switch (r.below(3)) { case 0: p = Val(); break; case 1: p = gv(r, topts(r)); break; default: break; } pres.push_back(p); }
  bool endian = sch && r.chance(0.4); if (endian) for (auto &p : pres) if (p.k == V_LEAF) p = Val();
  if (g.rank == root) rep(rr[g.rank], v, n, ar, endian); else if (pres[g.rank].k != V_EMPTY) rep(rr[g.rank], pres[g.rank], n, ar, false);
  const void *p0 = nullptr; bool leaf = v.k == V_LEAF; bool inplace = !sch || (leaf && pres[g.rank].k == V_LEAF && pres[g.rank].dt == v.dt && pres[g.rank].n == v.n); if (leaf && inplace) p0 = n.data_ptr();
  Rng q(r.next()); slow(q, g.rank); if (sch) rm::broadcast_using_schema(n, root, g.comm); else rm::broadcast(n, root, g.comm);
  Val want = v; if (sch && g.rank != root && leaf && pres[g.rank].k == V_LEAF && pres[g.rank].dt == v.dt && pres[g.rank].n > v.n) want = Val(); // a longer compatible leaf keeps its tail
  if (want.k != V_EMPTY || v.k == V_EMPTY) CHK(n, v, "broadcast", std::string("broadcast") + (sch ? "_using_schema" : ""));
  else { Val gsn = snap(n); size_t b = v.bytes.size(); VCHECK(gsn.k == V_LEAF && gsn.dt == v.dt && gsn.bytes.size() >= b && !memcmp(gsn.bytes.data(), v.bytes.data(), b), "broadcast", "longer leaf: ", show(gsn), " expected start ", show(v)); }
  if (p0 && !sch) VCHECK(n.data_ptr() == p0, "moved", "broadcast into a compatible node moved its data"); c.count(sch ? "broadcasts_schema" : "broadcasts"); no_mail(g, c);
}
FAMILY("C26", "gather", 400, 12000) {
  Rng &r = c.rng; G g = group(r, c); int root = (int)r.below(g.n); bool sch = r.chance(0.6), all = r.chance(0.5); std::vector<Val> vs; Val v = gv(r, topts(r)); for (int i = 0; i < g.n; i++) vs.push_back(sch ? (r.chance(0.1) ? Val() : r.chance(0.2) ? gen_leaf(r, topts(r)) : gv(r, topts(r))) : same_shape(r, v)); c.seen(vs[0].hash() ^ vs[g.n - 1].hash()); c.tr(all ? "all_" : "", "gather", sch ? "_using_schema" : "", " root ", root); for (auto &x : vs) c.tr(show(x).substr(0, 200));
  Node s, d; Arena ar, ar2; std::vector<Rng> rr; for (int i = 0; i < g.n; i++) rr.push_back(Rng(r.next())); bool endian = sch && r.chance(0.4); rep(rr[g.rank], vs[g.rank], s, ar, endian); Val pre = gv(r, topts(r)); bool has = r.chance(0.4); if (has) rep(r, pre, d, ar2, false); Val d0 = snap(d);
  Rng q(r.next()); slow(q, g.rank);
  if (sch) { if (all) rm::all_gather_using_schema(s, d, g.comm); else rm::gather_using_schema(s, d, root, g.comm); } else { if (all) rm::all_gather(s, d, g.comm); else rm::gather(s, d, root, g.comm); }
  CHK(s, vs[g.rank], "sender-changed", "node sent");
  if (all || g.rank == root) { VCHECK(d.dtype().is_list() && d.number_of_children() == g.n, "gather", "not one entry per rank: ", d.schema().to_json().substr(0, 500)); for (int i = 0; i < g.n; i++) CHK(d[i], vs[i], "gather", "entry " + std::to_string(i)); } else CHK(d, d0, "non-root", "receiver of a rank that is not root");
  c.count(sch ? "gathers_schema" : "gathers"); no_mail(g, c);
}
FAMILY("C26", "reduce", 400, 12000) {
  Rng &r = c.rng; G g = group(r, c); int root = (int)r.below(g.n); bool all = r.chance(0.5); int dt = r.pick(NUM_DTS); int64_t len = r.chance(0.3) ? 1 : r.range(1, 20); int op = (int)r.below(is_float_dt(dt) ? 4 : 8); static const MPI_Op ops[] = {MPI_SUM, MPI_MIN, MPI_MAX, MPI_PROD, MPI_BAND, MPI_BOR, MPI_BXOR, MPI_LAND}; bool helper = op < 4 && r.chance(0.6);
  auto mk = [&](Rng &q) { Val v; v.k = V_LEAF; v.dt = dt; v.n = len; v.bytes.resize(len * esize(dt)); for (int64_t i = 0; i < len; i++) dispatch_num(dt, [&](auto t) { decltype(t) x = (decltype(t))(op == 3 ? q.range(0, 3) : std::is_unsigned<decltype(t)>::value ? q.range(0, 30) : q.range(-15, 15)); memcpy(&v.bytes[i * sizeof(x)], &x, sizeof(x)); return 0; }); return v; };
  std::vector<Val> vs; for (int i = 0; i < g.n; i++) vs.push_back(mk(r)); Val want = vs[0];
  for (int64_t i = 0; i < len; i++) dispatch_num(dt, [&](auto t) { using T = decltype(t); T a; memcpy(&a, &vs[0].bytes[i * sizeof(T)], sizeof(T)); for (int k = 1; k < g.n; k++) { T b; memcpy(&b, &vs[k].bytes[i * sizeof(T)], sizeof(T)); int64_t ia = (int64_t)a, ib = (int64_t)b; switch (op) { case 0: a = (T)(a + b); break; case 1: a = std::min(a, b); break; case 2: a = std::max(a, b); break; case 3: a = (T)(a * b); break; case 4: a = (T)(ia & ib); break; case 5: a = (T)(ia | ib); break; case 6: a = (T)(ia ^ ib); break; default: a = (T)(a && b); } } memcpy(&want.bytes[i * sizeof(T)], &a, sizeof(T)); return 0; });
  Node s, d; Arena ar, ar2; std::vector<Rng> rr; for (int i = 0; i < g.n; i++) rr.push_back(Rng(r.next())); Rng &me = rr[g.rank]; rep(me, vs[g.rank], s, ar, false); uint64_t pk = me.below(3); if (pk == 0) rep(me, mk(me), d, ar2, false); else if (pk == 1) rep(me, gv(me, topts(me)), d, ar2, false); Val d0 = snap(d); const void *p0 = pk == 0 ? d.data_ptr() : nullptr;
  if (me.chance(0.15)) { d.reset(); ar2.blocks.clear(); Val w = mk(me); Val w2 = mk(me); w.n += w2.n; w.bytes.insert(w.bytes.end(), w2.bytes.begin(), w2.bytes.end()); rep(me, w, d, ar2, false); d0 = snap(d); p0 = d.data_ptr(); } // longer compatible receivers keep their tail
  if (d0.k == V_LEAF && d0.dt == dt && d0.n > len && (all || g.rank == root)) { Val w = d0; memcpy(w.bytes.data(), want.bytes.data(), want.bytes.size()); want = w; }
  c.seen(want.hash() ^ op); c.tr(all ? "all_" : "", "reduce op ", op, " root ", root, " rank ", g.rank, " ", show(vs[g.rank]), " into ", show(d0).substr(0, 200)); Rng q(r.next()); slow(q, g.rank);
  if (all) { if (!helper) rm::all_reduce(s, d, ops[op], g.comm); else if (op == 0) rm::sum_all_reduce(s, d, g.comm); else if (op == 1) rm::min_all_reduce(s, d, g.comm); else if (op == 2) rm::max_all_reduce(s, d, g.comm); else rm::prod_all_reduce(s, d, g.comm); }
  else { if (!helper) rm::reduce(s, d, ops[op], root, g.comm); else if (op == 0) rm::sum_reduce(s, d, root, g.comm); else if (op == 1) rm::min_reduce(s, d, root, g.comm); else if (op == 2) rm::max_reduce(s, d, root, g.comm); else rm::prod_reduce(s, d, root, g.comm); }
  CHK(s, vs[g.rank], "sender-changed", "node sent"); if (all || g.rank == root) { CHK(d, want, "reduce", "reduced"); if (p0) VCHECK(d.data_ptr() == p0, "moved", "reduction into a compatible node moved its data"); } else CHK(d, d0, "non-root", "receiver of a rank that is not root");
  Node bad; bad["a"] = 1; bool threw = false; if (r.chance(0.2)) { Node t; try { if (all) rm::all_reduce(bad, t, MPI_SUM, g.comm); else rm::reduce(bad, t, MPI_SUM, root, g.comm); } catch (conduit::Error &) { threw = true; } VCHECK(threw, "reduce-object", "an object was reduced"); }
  c.count("reductions"); no_mail(g, c);
}
