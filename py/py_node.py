"""C12: the Python interface against a model in plain Python values."""
import json
import numpy as np
import conduit
from conduit import Node, Schema, DataType
import vfpy
from vfpy import family

TYPES = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"]

class Leaf:
    def __init__(self, t, a):
        self.t, self.a = t, np.array(a, dtype=t).reshape(-1)
    def __repr__(self):
        return "%s%s" % (self.t, self.a.tolist())

def rand_array(r, t, n):
    if t.startswith("float"):
        b = [r.choice([0.0, -0.0, 1.5, float("inf"), float("nan"), r.uniform(-1e6, 1e6), r.uniform(-1, 1) * 1e-30]) for _ in range(n)]
        return np.array(b, dtype=t)
    i = np.iinfo(t)
    return np.array([r.choice([i.min, i.max, 0, 1, r.randint(i.min, i.max), r.randint(0, 100)]) for _ in range(n)], dtype=t)

def rand_string(r):
    return "".join(chr(r.randint(32, 126)) for _ in range(r.choice([0, 1, 3, 8, 20])))

def rand_value(r, c, depth=0):
    """(a value to hand to conduit, the model of what must be stored)"""
    k = r.randint(0, 17 if depth < 2 else 8)
    if k == 0:
        v = r.choice([0, 1, -1, 2**63 - 1, -2**63, r.randint(-10**6, 10**6)]); return v, Leaf("int64", [v])
    if k == 1:
        v = r.choice([0.0, 1.5, -1e300, r.random()]); return v, Leaf("float64", [v])
    if k == 2:
        v = rand_string(r); return v, v
    if k == 3:
        t = r.choice(TYPES); v = rand_array(r, t, 1)[0]; return v, Leaf(t, [v])
    if k == 4:
        v = [r.choice([2**63 - 1, -2**63, r.randint(-9, 9)]) for _ in range(r.randint(1, 6))]; f = r.choice([list, tuple]); c.count("lists"); return f(v), Leaf("int64", v)
    if k == 5:
        v = [r.choice([r.randint(-9, 9), r.random(), float("nan")]) for _ in range(r.randint(1, 6))]
        t = "float64" if any(isinstance(x, float) for x in v) else "int64"; f = r.choice([list, tuple]); return f(v), Leaf(t, v)
    if k == 6:
        n = r.randint(0, 5); u = [rand_string(r).rstrip() for _ in range(n)]; sa = np.array(u, dtype="U8") if n else None
        if n:
            if r.random() < .4: sa = np.array([x.encode() for x in u], dtype='S8')
            st = r.choice([1, 1, 2, -1]); c.count("string_arrays"); sa = sa[::st]; return sa, [x if isinstance(x, str) else x.decode() for x in sa.tolist()]
    if k == 7:
        v = np.str_(rand_string(r)); return v, str(v)
    if k in (8, 9, 10, 11, 12):
        t = r.choice(TYPES); form = r.randint(0, 7); n = r.choice([0, 1, 2, 3, 5, 8, 33])
        if form <= 1:
            a = rand_array(r, t, n)
        elif form == 2:
            a = rand_array(r, t, n * 3)[r.randint(0, 2)::r.choice([2, 3])]; c.count("strided_views")
        elif form == 3:
            a = rand_array(r, t, n)[::-1]; c.count("reversed_views")
        elif form == 4:
            a = rand_array(r, t, n * 3)[::-2]; c.count("reversed_views")
        elif form == 5:
            m = r.randint(1, 4); a = rand_array(r, t, n * m).reshape(n, m); c.count("matrices")
            if r.random() < .5: a = a[:, :r.randint(1, m)]
        elif form == 6:
            a = rand_array(r, t, n).astype(np.dtype(t).newbyteorder("S")); c.count("swapped_arrays")
        else:
            a = np.array(rand_array(r, t, 1)[0])
        return a, Leaf(t, np.ascontiguousarray(a).reshape(-1).astype(t))
    if k == 13:
        m = [rand_value(r, c, depth + 1) for _ in range(r.randint(1, 3))]; v = [rand_string(r)] + [x for x, _ in m]; c.count("mixed_lists"); f = r.choice([list, tuple]); return f(v), [v[0]] + [y for _, y in m]
    n, m = Node(), {}
    for i in range(r.randint(1, 3)):
        x, y = rand_value(r, c, depth + 1); k = r.choice("abcd"); n[k] = x; m[k] = over(m.get(k), y)
    return n, m

def dump(n):
    d = n.dtype()
    if d.is_object():
        names = n.child_names(); ch = [dump(n.child(i)) for i in range(n.number_of_children())]
        assert len(names) == len(ch) == len(set(names))
        return dict(zip(names, ch))
    if d.is_list():
        return [dump(n.child(i)) for i in range(n.number_of_children())]
    if d.is_empty():
        return None
    if d.is_string():
        return n.value()
    v = n.value()
    if not d.endianness_matches_machine():  # value() gives the bytes as they are
        v = np.atleast_1d(v).byteswap()
    return Leaf(d.name(), np.array(np.atleast_1d(v), dtype=d.name()))

def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Leaf):
        if a.t != b.t or len(a.a) != len(b.a):
            return False
        return a.a.tobytes() == b.a.tobytes() or (a.t.startswith("f") and np.array_equal(a.a, b.a, equal_nan=True))
    return a == b

def over(old, new):
    """A leaf set over a longer one of its type keeps the memory and the rest (Conduit's compatible set)."""
    if isinstance(old, Leaf) and isinstance(new, Leaf) and old.t == new.t and len(old.a) > len(new.a):
        a = old.a.copy(); a[:len(new.a)] = new.a; return Leaf(new.t, a)
    return new

def strings(m):
    if isinstance(m, dict): return any(strings(x) for x in m.values())
    if isinstance(m, list): return any(strings(x) for x in m)
    return isinstance(m, str)

def dcopy(m):
    if isinstance(m, dict):
        return {k: dcopy(v) for k, v in m.items()}
    if isinstance(m, list):
        return [dcopy(v) for v in m]
    if isinstance(m, Leaf):
        return Leaf(m.t, m.a.copy())
    return m

@family("C12", "values", 5000, 120000)
def values(c):
    r = c.rng
    v, m = rand_value(r, c)
    n = Node()
    if r.random() < .4:
        w, _ = rand_value(r, c); n["x/y"] = w
        if r.random() < .5:
            w, _ = rand_value(r, c); n["x"] = w
            if r.random() < .7: n = Node()
    form = r.randint(0, 4)
    old = dump(n); old = old if form in (0, 1) else old.get("x") if isinstance(old, dict) else None
    m = m if form == 0 else over(old, m)
    c.tr("value", type(v).__name__, getattr(v, "dtype", ""), repr(v)[:200], "form", form)
    if form == 0:
        n = Node(v)
    elif form == 1:
        n.set(v)
    elif form == 2:
        n["x"] = v
    elif form == 3:
        n.set_path("x", v)
    else:
        n.fetch("x").set(v)
    got = dump(n) if form in (0, 1) else dump(n)["x"]
    c.check(same(got, m), "stored", "want", m, "got", got)
    # a copy: later changes of the argument do not reach the node
    if isinstance(v, np.ndarray) and v.size and v.dtype.kind in "iuf":
        v = v if v.flags.writeable else v.copy()
        v[...] = 1
        got2 = dump(n) if form in (0, 1) else dump(n)["x"]
        c.check(same(got2, m), "copied", "the node follows the array it was set from", got2)
    # and what comes back can be used after the node is gone, when it is a scalar or a string
    c.seen(repr(m)[:200])
    c.count("type:" + type(v).__name__)

@family("C12", "external", 3000, 60000)
def external(c):
    r = c.rng; t = r.choice(TYPES); n = r.randint(1, 12); form = r.randint(0, 4)
    if form == 0: base = rand_array(r, t, n); a = base
    elif form == 1: base = rand_array(r, t, n * 3); a = base[r.randint(0, 2)::3]
    elif form == 2: base = rand_array(r, t, n); a = base[::-1]
    elif form == 3: base = rand_array(r, t, n).astype(np.dtype(t).newbyteorder("S")); a = base
    else: base = rand_array(r, t, n); a = base.reshape(n, 1)[:, 0]
    x = Node()
    if r.random() < .3: x["junk"] = 1
    x["keep"] = "k"; e = x.fetch("e"); c.tr(t, n, form); e.set_external(a)
    c.check(same(dump(x)["e"], Leaf(t, a.astype(t))), "external", "want", a, "got", dump(x)["e"])
    i = r.randrange(n); a[i] = rand_array(r, t, 1)[0]
    c.check(same(dump(x)["e"], Leaf(t, a.astype(t))), "alias", "a write to the array is not seen in the node", i)
    if n > 1:
        v = x["e"]; i = r.randrange(n); q = rand_array(r, t, 1)[0]; v[i] = q if form != 3 else np.array([q]).byteswap()[0]
        c.check(np.array_equal(np.array([a[i]]).astype(t), np.array([q]), equal_nan=t.startswith("f")), "alias-back", "a write through the view is not seen in the array", i)
        c.check(len(v) == n and v.dtype.newbyteorder("=") == np.dtype(t), "view", v.dtype)
    y = Node(); y.set(x); b = a.copy(); a[...] = 0
    c.check(same(dump(y)["e"], Leaf(t, b.astype(t))), "copy-of-external", dump(y)["e"])
    z = Node(); z.set_external(x); a[0] = 7
    c.check(same(dump(z), dump(x)) and dump(z)["e"].a[0] == 7, "external-node", dump(z)); c.seen(t, n, form, i)
    cm = Node(); x.compact_to(cm); a[0] = 9
    c.check(dump(cm)["e"].a[0] == 7 and cm.is_compact(), "compact", dump(cm))

def paths(m, p=""):
    out = []
    if isinstance(m, dict):
        for k, v in m.items():
            q = p + "/" + k if p else k
            out.append(q); out += paths(v, q)
    return out

def at(m, p):
    for k in p.split("/"):
        m = m[k]
    return m

@family("C12", "histories", 2500, 60000)
def histories(c):
    r = c.rng; N, M = [Node(), Node()], [None, None]
    for step in range(r.randint(3, 22)):
        k = r.randrange(2); n = N[k]; ps = paths(M[k]); objs = [""] + [p for p in ps if isinstance(at(M[k], p), dict)]
        op = r.randint(0, 19); o = r.choice(objs); par = M[k] if o == "" else at(M[k], o)
        if par is not None and not isinstance(par, dict): o = None
        c.tr("op", op, "tree", k, "at", o)
        if op <= 4 and o is not None:
            v, m = rand_value(r, c)
            nm = r.choice("abcdef") if r.random() < .8 else r.choice("xyz") + "/" + r.choice("pq")
            if isinstance(par, dict) and isinstance(par.get(nm.split("/")[0]), dict) is False and "/" in nm and nm.split("/")[0] in par: continue
            p = (o + "/" if o else "") + nm
            if isinstance(v, Node) and r.random() < .5: n.fetch(p).set(v)
            else: n[p] = v
            if M[k] is None: M[k] = {}
            d = M[k]
            for q in p.split("/")[:-1]: d = d.setdefault(q, {})
            d[p.split("/")[-1]] = over(d.get(p.split("/")[-1]), m)
        elif op == 5 and isinstance(M[k], dict) and ps:
            p = r.choice(ps); n.remove(path=p); d = M[k] if "/" not in p else at(M[k], p.rsplit("/", 1)[0]); del d[p.split("/")[-1]]
        elif op == 6 and isinstance(par, dict) and par:
            i = r.randrange(len(par)); (n.fetch_existing(o) if o else n).remove(index=i); del par[list(par)[i]]
        elif op == 7 and isinstance(par, dict) and par:
            nm = r.choice(list(par)); (n.fetch_existing(o) if o else n).remove_child(nm); del par[nm]
        elif op == 8 and isinstance(par, dict) and par:
            nm = r.choice(list(par)); new = "r%d" % step; (n.fetch_existing(o) if o else n).rename_child(nm, new)
            items = [(new if a == nm else a, b) for a, b in par.items()]; par.clear(); par.update(items)
        elif op == 9:
            N[0].swap(N[1]); M[0], M[1] = M[1], M[0]
        elif op == 10 and r.random() < .3:
            N[k].move(N[1 - k]); M[k], M[1 - k] = M[1 - k], None
        elif op == 11:
            N[k].set(N[1 - k]); M[k] = dcopy(M[1 - k])
        elif op == 12:
            x = Node(); n.compact_to(x); c.check(same(dump(x), M[k]), "compact-to", dump(x)); N[k] = x
        elif op == 13:
            arr = [p for p in ps if isinstance(at(M[k], p), Leaf) and len(at(M[k], p).a) > 1]
            if arr:
                p = r.choice(arr); l = at(M[k], p); v = n[p]; i = r.randrange(len(l.a)); q = rand_array(r, l.t, 1)[0]; v[i] = q; l.a[i] = q; c.count("view_writes")
        elif op == 14 and M[k] is not None:
            f = c.scratch + "/n"; pr = r.choice(["conduit_bin", "conduit_base64_json"]); n.save(f, pr); x = Node(); x.load(f, protocol=pr); c.check(same(dump(x), M[k]), "save-load", pr, dump(x)); c.count("saves")
        elif op == 15 and o is not None:
            nm = "l%d" % step; p = (o + "/" if o else "") + nm; l = n.fetch(p); ms = []
            for _ in range(r.randint(1, 4)):
                v, m = rand_value(r, c, 1); l.append().set(v); ms.append(m)
            if M[k] is None: M[k] = {}
            (M[k] if o == "" else at(M[k], o))[nm] = ms; c.count("appends")
        elif op == 16 and isinstance(par, dict) and o is not None:
            nm = "c%d" % step; t = (n.fetch_existing(o) if o else n).add_child(nm); v, m = rand_value(r, c); t.set(v); par[nm] = m
        elif op == 17:
            n.reset(); M[k] = None
        elif op == 18 and isinstance(M[k], dict):
            x = Node(); v, m = rand_value(r, c); x["zz"] = v; n.update(x); M[k]["zz"] = m if not (isinstance(m, dict) or isinstance(M[k].get("zz"), (dict, list))) else M[k].get("zz")
            if isinstance(m, (dict, list)) or not same(dump(n)["zz"], M[k]["zz"]):
                M[k]["zz"] = dump(n)["zz"]  # merging objects and in-place updates are C07's
        else:
            queries(c, n, M[k], ps)
            continue
        for j in (0, 1):
            d = dump(N[j]); c.check(same(d, M[j]), "state", "tree", j, "want", M[j], "got", d)
        c.seen(op, repr(M)[:300])

def queries(c, n, m, ps):
    r = c.rng; c.count("queries")
    for p in r.sample(ps, min(3, len(ps))):
        x = at(m, p); c.check(n.has_path(p) and not n.has_path(p + "/nope"), "has-path", p)
        q = n.fetch_existing(p); c.check(q.path() == p and q.name() == p.split("/")[-1] and not q.is_root(), "path", q.path(), p)
        par = q.parent(); c.check(par.has_child(p.split("/")[-1]) and not par.has_child("nope"), "parent", p)
        d = q.dtype(); want = dict(o=isinstance(x, dict), l=isinstance(x, list), s=isinstance(x, str), e=x is None)
        c.check((d.is_object(), d.is_list(), d.is_string(), d.is_empty()) == (want["o"], want["l"], want["s"], want["e"]), "kind", p)
        if isinstance(x, Leaf):
            e = np.dtype(x.t).itemsize; fl = x.t.startswith("f"); un = x.t.startswith("u")
            c.check(d.number_of_elements() == len(x.a) and d.element_bytes() == e and d.name() == x.t and d.is_number() and d.is_floating_point() == fl and d.is_integer() == (not fl) and d.is_unsigned_integer() == un and d.is_signed_integer() == (not fl and not un), "dtype", p, x.t)
            c.check([t for t in TYPES if getattr(d, "is_" + t)()] == [x.t], "dtype-is", p, x.t)
            c.check(d.bytes_compact() == e * len(x.a) and (DataType.id_to_name(d.id()) == x.t) and DataType.name_to_id(x.t) == d.id() and d.element_index(3) == d.offset() + 3 * d.stride(), "dtype-size", p)
            v = n[p]; c.check((np.ndim(v) == 0) == (len(x.a) == 1), "item", p, type(v))
        elif isinstance(x, str):
            c.check(n[p] == x and type(n[p]) is str, "item-str", p)
        else:
            c.check(isinstance(n[p], Node) and n[p].number_of_children() == (len(x) if x is not None else 0), "item-node", p)
        i = Node(); y = Node(); y.set(q); c.check(not q.diff(y, i), "diff-self", p); c.check(not q.diff_compatible(y, i), "diffc-self", p)
        if isinstance(x, Leaf) and len(x.a) > 1 and not np.isnan(x.a.astype("float64")).any():
            z = x.a.copy(); j = r.randrange(len(z)); z[j] = 77 if z[j] != 77 else 78; y.set(z); c.check(q.diff(y, i), "diff", p, "a changed element went unnoticed")
        if isinstance(x, Leaf) and len(x.a) > 1:
            t = Node(); t.set(q); (t.endian_swap_to_big if r.random() < .5 else t.endian_swap_to_machine_default)(); c.check(same(dump(t), x), "endian", p, dump(t))
    c.check(n.number_of_children() == (len(m) if isinstance(m, (dict, list)) else 0), "children", n.number_of_children())
    if isinstance(m, dict) and m:
        names, kinds = [], []
        for it in n.children():
            names.append(it.name()); kinds.append(dump(it.node())); c.check(it.index() == len(names) - 1, "iter-index", it.index())
        c.check(names == list(m) and all(same(a, b) for a, b in zip(kinds, m.values())), "iteration", names)
        it = n.children(); it.to_back(); back = [it.name()]
        while it.has_previous(): it.previous(); back.append(it.name())
        c.check(back == list(m)[::-1], "iteration-back", back, list(m))
        c.check(n.child_names() == list(m), "child-names", n.child_names())
        s = n.schema(); c.check(s.child_names() == list(m) and s.number_of_children() == len(m) and s.total_bytes_compact() == n.total_bytes_compact(), "schema", "")
        x = Node(); x.parse(n.to_json("conduit_json"), "conduit_json"); c.check(x.child_names() == list(m), "json", "")
    c.check(n.is_root(), "root", "")
    c.check(strings(m) or n.total_bytes_compact() == size(m), "bytes", n.total_bytes_compact(), size(m))

def size(m):
    if isinstance(m, dict): return sum(size(x) for x in m.values())
    if isinstance(m, list): return sum(size(x) for x in m)
    if isinstance(m, Leaf): return m.a.nbytes
    if isinstance(m, str): return len(m) + 1
    return 0

@family("C12", "files", 1200, 20000)
def files(c):
    """the relay module: save, load and handles"""
    r = c.rng; import conduit.relay.io as io
    n, m = Node(), {}
    for i in range(r.randint(1, 5)):
        p = "/".join(r.choice("abc") for _ in range(r.randint(1, 2))); t = r.choice(TYPES); a = rand_array(r, t, r.randint(1, 6)); v, x = r.choice([(a, Leaf(t, a)), ("s" + rand_string(r).strip(), None)]); x = x if x is not None else v
        q = m; parts = p.split("/"); bad = False
        for s in parts[:-1]:
            q = q.setdefault(s, {}); bad |= not isinstance(q, dict)
            if bad: break
        if bad or isinstance(q.get(parts[-1]), dict) or parts[-1] in q: continue
        n[p] = v; q[parts[-1]] = x
    m = prune(m)
    if not m: return
    pr = r.choice(["hdf5", "conduit_bin", "conduit_base64_json"]); f = c.scratch + "/f." + ("hdf5" if pr == "hdf5" else "x"); import os
    if os.path.exists(f): os.remove(f)
    c.tr(pr, m); n2 = Node(); n2["old"] = 1
    if r.random() < .5:
        io.save(n, f, protocol=pr); io.load(n2, f, protocol=pr) if r.random() < .7 or pr != "hdf5" else io.load(n2, f); c.check(same(sort(dump(n2)), sort(m)), "io-load", pr, dump(n2), m)
    else:
        h = io.IOHandle(); c.check(not h.is_open(), "open", ""); o = Node(); o["mode"] = "rwa"
        h.open(f, pr, options=o); c.check(h.is_open(), "open", ""); ks = list(m)
        if r.random() < .5: h.write(n)
        else:
            for k in ks: h.write(n.fetch_existing(k), k)
        c.check(sorted(h.list_child_names()) == sorted(ks), "handle-names", h.list_child_names(), ks)
        c.check(h.has_path(ks[0]) and not h.has_path("nope"), "handle-has", ks[0])
        x = Node(); h.read(x, ks[0]); c.check(same(dump(x), m[ks[0]]), "handle-read", dump(x))
        if len(ks) > 1: h.remove(ks[0]); c.check(not h.has_path(ks[0]), "handle-remove", ks[0]); m.pop(ks[0])
        x = Node(); h.read(x); c.check(same(sort(dump(x)), sort(m)), "handle-read-all", dump(x), m); h.close(); c.check(not h.is_open(), "close", "")
        x = Node(); io.load(x, f, protocol=pr); c.check(same(sort(dump(x)), sort(m)), "handle-closed", dump(x), m)
    if os.path.exists(f): os.remove(f)
    c.count("p:" + pr); c.seen(pr, repr(m))

def prune(m):
    return {k: (prune(v) if isinstance(v, dict) else v) for k, v in m.items() if not (isinstance(v, dict) and not prune(v))} if isinstance(m, dict) else m

def sort(m):
    return {k: sort(m[k]) for k in sorted(m)} if isinstance(m, dict) else m

if __name__ == "__main__":
    vfpy.main("py_node")
