// C03: typed access and numeric conversion against element-wise C++ casts.
#include "vf.hpp"
using namespace vf;
using namespace conduit;

// random S value whose conversion to T is defined
template <class S, class T> S conv_val(Rng &r) {
  for (int k = 0; k < 20; k++) {
    S x = rand_num<S>(r, false);
    if (!std::is_floating_point<S>::value || std::is_floating_point<T>::value) {
      if (std::is_same<S, float64>::value && std::is_same<T, float32>::value && std::fabs((double)x) > 3e38) continue;
      return x;
    }
    long double lo = (long double)std::numeric_limits<T>::lowest() - 1, hi = (long double)std::numeric_limits<T>::max() + 1;
    if ((long double)x > lo && (long double)x < hi) return x;
  }
  return (S)(r.below(100));
}
template <class T> bool same(T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0 || (a != a && b != b); }

#define VF_TYPES(X) X(int8) X(int16) X(int32) X(int64) X(uint8) X(uint16) X(uint32) X(uint64) X(float32) X(float64)
template <class T> struct Api;
#define VF_API(T)                                                                        \
  template <> struct Api<conduit::T> {                                                   \
    static conduit::T as(const Node &n) { return n.as_##T(); }                            \
    static conduit::T to(const Node &n) { return n.to_##T(); }                            \
    static DataArray<conduit::T> arr(Node &n) { return n.as_##T##_array(); }              \
    static const DataArray<conduit::T> carr(const Node &n) { return n.as_##T##_array(); } \
    static DataAccessor<conduit::T> acc(Node &n) { return n.as_##T##_accessor(); }        \
    static DataAccessor<conduit::T> cacc(const Node &n) { return n.as_##T##_accessor(); } \
    static conduit::T *ptr(Node &n) { return n.as_##T##_ptr(); }                          \
    static void toarr(const Node &n, Node &r) { n.to_##T##_array(r); }                    \
    static const char *name() { return #T; }                                              \
  };
VF_TYPES(VF_API)

template <class S> Val gen_src(Ctx &c, std::vector<S> &xs, int64_t n, std::function<S()> g) {
  xs.clear();
  for (int64_t i = 0; i < n; i++) xs.push_back(g());
  return mk_arr(xs);
}

template <class S, class T> void conv_case(Ctx &c) {
  Rng &r = c.rng;
  int64_t n = r.chance(0.3) ? 1 : r.range(r.chance(0.1) ? 0 : 1, 12);
  std::vector<S> xs;
  Val v = gen_src<S>(c, xs, n, [&] { return conv_val<S, T>(r); });
  Arena ar; RealOpts o; Node src;
  realize(r, v, src, ar, o);
  const Node &csrc = src;
  c.tr(Api<S>::name(), "->", Api<T>::name(), " ", show(v), " ", src.dtype().to_json());
  c.seen(hash_str(src.dtype().to_json()) ^ v.hash() ^ mix64(DtOf<T>::id));
  std::vector<T> ref; for (S x : xs) ref.push_back((T)x);
  // scalar: first element
  if (n >= 1) {
    VCHECK(same(Api<T>::to(csrc), ref[0]), "to-scalar", Api<T>::name(), " from ", show(v), " got ", +Api<T>::to(csrc), " want ", +ref[0]);
    VCHECK(same(Api<S>::as(csrc), xs[0]), "as-scalar", "");
    VCHECK(same((T)csrc.to_value(), ref[0]), "to-value", Api<T>::name(), " from ", show(v));
    VCHECK(same((S)src.value(), xs[0]), "value", Api<S>::name());
  }
  // array views honour the layout
  DataArray<S> a = Api<S>::arr(src);
  VCHECK(a.number_of_elements() == n, "array-length", "");
  for (int64_t i = 0; i < n; i++) {
    VCHECK(same(a[i], xs[i]) && same(a.element(i), xs[i]), "array-element", i, " of ", show(v));
    VCHECK(a.element_ptr(i) == (uint8 *)src.data_ptr() + src.dtype().offset() + i * src.dtype().stride(), "array-address", i);
    VCHECK(src.element_ptr(i) == a.element_ptr(i), "node-element-ptr", i);
  }
  DataAccessor<T> ac = r.chance(0.5) ? Api<T>::acc(src) : Api<T>::cacc(csrc);
  VCHECK(ac.number_of_elements() == n, "accessor-length", "");
  for (int64_t i = 0; i < n; i++) VCHECK(same(ac[i], ref[i]) && same(ac.element(i), ref[i]), "accessor-element", Api<T>::name(), "[", i, "] of ", show(v), " got ", +ac[i], " want ", +ref[i]);
  // whole-array conversion, into an empty / a compatible longer / an unrelated destination
  Node dst; int64_t dn = n; std::vector<T> tail;
  int mode = (int)r.below(4);
  if (mode == 1) { dn = n + r.range(0, 4); dst.set(DataType(DtOf<T>::id, dn)); for (int64_t i = 0; i < dn; i++) Api<T>::arr(dst)[i] = (T)(i + 1); for (int64_t i = n; i < dn; i++) tail.push_back((T)(i + 1)); }
  else if (mode == 2) dst["x/y"] = "text";
  else if (mode == 3) { dst.set(DataType(DtOf<T>::id, n + 2, 3 * sizeof(T), 2 * sizeof(T), sizeof(T), Endianness::DEFAULT_ID)); for (int64_t i = 0; i < n + 2; i++) Api<T>::arr(dst)[i] = (T)(i + 1); dn = n + 2; tail = {(T)(n + 1), (T)(n + 2)}; }
  if (r.chance(0.5)) Api<T>::toarr(csrc, dst); else csrc.to_data_type(DtOf<T>::id, dst);
  Val got = snap(dst);
  std::vector<T> full = ref; full.insert(full.end(), tail.begin(), tail.end());
  Val want = mk_arr(full);
  bool ok = got.k == V_LEAF && got.dt == want.dt && got.n == want.n;
  for (int64_t i = 0; ok && i < want.n; i++) { T x; memcpy(&x, &got.bytes[i * sizeof(T)], sizeof(T)); ok = same(x, full[i]); }
  VCHECK(ok, "to-array", Api<S>::name(), "->", Api<T>::name(), " mode ", mode, " got ", show(got), " want ", show(want));
  VCHECK(snap(src) == v, "source-changed", "conversion changed its source");
  // element-wise writes through an array of another type
  if (n) {
    Node d2; d2.set(DataType(DtOf<T>::id, n, r.range(0, 2) * sizeof(T), r.range(1, 3) * sizeof(T), sizeof(T), Endianness::DEFAULT_ID));
    DataArray<T> da = Api<T>::arr(d2);
    for (int64_t i = 0; i < n; i++) da[i] = (T)77;
    switch (r.below(5)) {
    case 0: da.set(a); break;
    case 1: { std::unique_ptr<S[]> p(new S[n]); std::copy(xs.begin(), xs.end(), p.get()); da.set(p.get(), n); break; }
    case 2: da.set(xs); break;
    case 3: for (int64_t i = 0; i < n; i++) da.set(i, xs[i]); break;
    default: da.set(Api<S>::acc(src));
    }
    for (int64_t i = 0; i < n; i++) VCHECK(same(da[i], ref[i]), "array-set", Api<S>::name(), "->", Api<T>::name(), " [", i, "] got ", +da[i], " want ", +ref[i]);
    // accessor writes: converted to the stored type, other elements untouched
    int64_t k = r.below(n); T nv = (T)r.below(100);
    std::vector<T> before; for (int64_t i = 0; i < n; i++) before.push_back(da[i]);
    DataAccessor<S> wa = Api<S>::acc(d2);
    wa.set(k, (S)nv);
    for (int64_t i = 0; i < n; i++) VCHECK(same(da[i], i == k ? nv : before[i]), "accessor-set", i, " k ", k);
    wa.fill((S)3);
    for (int64_t i = 0; i < n; i++) VCHECK(same(da[i], (T)3), "accessor-fill", i);
  }
  c.count(std::string("conv:") + Api<S>::name());
  c.count("elements", n);
}
template <class S> void conv_to(Ctx &c, int t) {
  switch (t) {
  case 0: conv_case<S, int8>(c); break; case 1: conv_case<S, int16>(c); break; case 2: conv_case<S, int32>(c); break; case 3: conv_case<S, int64>(c); break;
  case 4: conv_case<S, uint8>(c); break; case 5: conv_case<S, uint16>(c); break; case 6: conv_case<S, uint32>(c); break; case 7: conv_case<S, uint64>(c); break;
  case 8: conv_case<S, float32>(c); break; default: conv_case<S, float64>(c); break;
  }
}
FAMILY("C03", "convert", 8000, 160000) {
  int s = (int)(c.idx % 10), t = (int)((c.idx / 10) % 10);
  switch (s) {
  case 0: conv_to<int8>(c, t); break; case 1: conv_to<int16>(c, t); break; case 2: conv_to<int32>(c, t); break; case 3: conv_to<int64>(c, t); break;
  case 4: conv_to<uint8>(c, t); break; case 5: conv_to<uint16>(c, t); break; case 6: conv_to<uint32>(c, t); break; case 7: conv_to<uint64>(c, t); break;
  case 8: conv_to<float32>(c, t); break; default: conv_to<float64>(c, t); break;
  }
}

// reductions over strided data
template <class T> void stats_case(Ctx &c) {
  Rng &r = c.rng;
  int64_t n = r.chance(0.02) ? r.range(41, 900) : r.range(1, 40);
  std::vector<T> xs;
  bool small = r.chance(0.6), full = !small && r.chance(0.5), sums = !full && (small ? n <= 40 : n <= 64);
  Val v = gen_src<T>(c, xs, n, [&]() -> T { return full ? rand_num<T>(r, false) : small ? (T)(std::is_unsigned<T>::value ? r.range(0, 3) : r.range(-3, 3)) : (std::is_floating_point<T>::value ? (T)((double)r.range(-1000000, 1000000) / 16) : (std::is_unsigned<T>::value ? (T)(r.next() % ((uint64_t)std::numeric_limits<T>::max() / 64 + 1)) : (T)((int64_t)(r.next() % ((uint64_t)std::numeric_limits<T>::max() / 64 + 1)) - (int64_t)(std::numeric_limits<T>::max() / 128)))); });
  Arena ar; RealOpts o; Node src; realize(r, v, src, ar, o);
  c.tr("stats ", show(v)); c.seen(v.hash());
  T mn = xs[0], mx = xs[0], sum = 0; float64 m = 0;
  bool wide = false; for (T x : xs) { mn = std::min(mn, x); mx = std::max(mx, x); if (sums) sum += x; m += (float64)x; if (std::fabs((float64)x) > 1e300) wide = true; }
  if (wide) { c.count("extreme"); m = 0; }  // sums of such values depend on the order of summation
  float64 tol = 1e-9; for (T x : xs) tol = std::max(tol, 1e-9 * std::fabs((float64)x));
  m /= (float64)n;
  T q = r.pick(xs); index_t cnt = std::count(xs.begin(), xs.end(), q);
  DataArray<T> a = Api<T>::arr(src);
  DataAccessor<T> ac = Api<T>::acc(src);
  VCHECK(same(a.min(), mn) || a.min() == mn, "min", +a.min(), " want ", +mn, " in ", show(v));
  VCHECK(a.max() == mx, "max", +a.max(), " want ", +mx, " in ", show(v));
  if (sums) { VCHECK(a.sum() == sum, "sum", +a.sum(), " want ", +sum); }
  if (!wide) { VCHECK(std::fabs(a.mean() - m) <= tol, "mean", a.mean(), " want ", m); }
  VCHECK(a.count(q) == cnt, "count", a.count(q), " want ", cnt, " of ", +q);
  VCHECK(ac.min() == mn && ac.max() == mx && (!sums || ac.sum() == sum) && ac.count(q) == cnt, "accessor-stats", show(v));
  if (!wide) { VCHECK(std::fabs(ac.mean() - m) <= tol, "accessor-mean", ac.mean(), " want ", m); }
  if (!wide) { float64 am = src.as_float64_accessor().mean(); VCHECK(std::fabs(am - m) <= tol, "accessor-mean", "as float64 ", am, " want ", m); }
  c.count("stats");
}
FAMILY("C03", "reductions", 2000, 40000) {
  switch (c.idx % 10) {
  case 0: stats_case<int8>(c); break; case 1: stats_case<int16>(c); break; case 2: stats_case<int32>(c); break; case 3: stats_case<int64>(c); break;
  case 4: stats_case<uint8>(c); break; case 5: stats_case<uint16>(c); break; case 6: stats_case<uint32>(c); break; case 7: stats_case<uint64>(c); break;
  case 8: stats_case<float32>(c); break; default: stats_case<float64>(c); break;
  }
}

// strings holding numbers, native C types, wrong-type access
template <class T> static void str_to(Ctx &c, T x) {
  std::ostringstream o; o.precision(17); o << +x;
  Node n; n.set(o.str());
  VCHECK(same(Api<T>::to(n), x), "string-to-number", Api<T>::name(), " from '", o.str(), "' got ", +Api<T>::to(n));
}
FAMILY("C03", "strings_and_native", 1500, 30000) {
  Rng &r = c.rng;
  str_to<int8>(c, rand_num<int8>(r, false)); str_to<int16>(c, rand_num<int16>(r, false)); str_to<int32>(c, rand_num<int32>(r, false)); str_to<int64>(c, rand_num<int64>(r, false));
  str_to<uint8>(c, rand_num<uint8>(r, false)); str_to<uint16>(c, rand_num<uint16>(r, false)); str_to<uint32>(c, rand_num<uint32>(r, false)); str_to<uint64>(c, rand_num<uint64>(r, false));
  str_to<float64>(c, (double)r.range(-100000, 100000) / 64.0);
  Node n;
#define VF_NAT(T, NAME) { T x = rand_num<T>(r, false); n.reset(); n.set(x); c.tr(#T, " ", +x); c.seen(mix64((uint64_t)x) ^ hash_str(#T)); \
    VCHECK(same(n.as_##NAME(), x), "native-as", #T); VCHECK(same(n.to_##NAME(), x), "native-to", #T); VCHECK(same(*n.as_##NAME##_ptr(), x), "native-ptr", #T); \
    VCHECK(n.as_##NAME##_array().number_of_elements() == 1 && same(n.as_##NAME##_array()[0], x), "native-array", #T); VCHECK(same(n.as_##NAME##_accessor()[0], x), "native-accessor", #T); \
    std::vector<T> xs; for (int i = 0; i < 5; i++) xs.push_back(rand_num<T>(r, false)); n.reset(); n.set(xs); for (int i = 0; i < 5; i++) VCHECK(same(n.as_##NAME##_array()[i], xs[i]), "native-vec", #T); \
    n.set_external(xs); for (int i = 0; i < 5; i++) VCHECK(&n.as_##NAME##_array()[i] == &xs[i], "native-ext", #T); n.reset(); }
  VF_NAT(short, short) VF_NAT(int, int) VF_NAT(long, long) VF_NAT(long long, long_long) VF_NAT(float, float) VF_NAT(double, double)
  VF_NAT(unsigned short, unsigned_short) VF_NAT(unsigned int, unsigned_int) VF_NAT(unsigned long, unsigned_long) VF_NAT(unsigned long long, unsigned_long_long)
  VF_NAT(signed char, signed_char) VF_NAT(unsigned char, unsigned_char)
  // typed access with a different type must not reinterpret the bytes
  GenOpts go; go.strings = false; go.zero_len = false;
  Val v = gen_leaf(r, go); Arena ar; RealOpts ro; realize(r, v, n, ar, ro);
  const Node &cn = n;
#define VF_WRONG(T) if (v.dt != DtOf<conduit::T>::id) { \
    bool raised = false; conduit::T x = 0; try { x = cn.as_##T(); } catch (conduit::Error &) { raised = true; } VCHECK(raised || x == 0, "wrong-type", "as_" #T " of ", show(v), " gave ", +x); \
    raised = false; const conduit::T *p = nullptr; try { p = cn.as_##T##_ptr(); } catch (conduit::Error &) { raised = true; } VCHECK(raised || !p, "wrong-type-ptr", "as_" #T "_ptr of ", show(v)); \
    raised = false; index_t k = 0; try { k = cn.as_##T##_array().number_of_elements(); } catch (conduit::Error &) { raised = true; } VCHECK(raised || k == 0, "wrong-type-array", "as_" #T "_array of ", show(v)); }
  VF_TYPES(VF_WRONG)
  c.count("native_rounds");
}
