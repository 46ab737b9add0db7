"""The harness side of a check in Python: the same command line and log as h/vf.hpp."""
import json, mmap, os, random, shutil, struct, sys, traceback

FAMILIES = []

def family(prop, name, quick, thorough):
    def deco(fn):
        FAMILIES.append((prop, name, quick, thorough, fn))
        return fn
    return deco

class CaseAbort(Exception):
    pass

class Ctx:
    def __init__(self):
        self.trace, self.counters, self.distinct, self.samples = [], {}, set(), []
        self.nviol, self.replay, self.log = 0, False, None
    def tr(self, *a):
        if len(self.trace) < 400:
            self.trace.append(" ".join(str(x) for x in a)[:400])
    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n
    def seen(self, *a):
        self.distinct.add(hash(a) & 0xffffffffffffffff)
    def record(self, key, msg):
        self.nviol += 1
        self.log.write(json.dumps(dict(t="viol", case="%s:%d" % (self.family, self.idx), rank=0, key=key, msg=msg[:3000], trace="\n".join(self.trace)[:4000])) + "\n")
        self.log.flush()
        if self.replay:
            sys.stderr.write("VIOLATED [%s] %s\n" % (key, msg))
    def check(self, ok, key, *msg):
        self.count("checks")
        if not ok:
            self.record(key, " ".join(str(x) for x in msg))
            raise CaseAbort()

def run_one(c, f, seed, i):
    c.family, c.idx, c.trace = f[1], i, []
    c.rng = random.Random("%d/%s/%s/%d" % (seed, f[0], f[1], i))
    n = c.nviol
    try:
        f[4](c)
    except CaseAbort:
        pass
    except Exception:
        c.record("uncaught", traceback.format_exc()[-1500:])
    if i < 2 and len(c.samples) < 3:
        c.samples.append(("%s:%d | " % (f[1], i) + " | ".join(c.trace))[:600])
    return c.nviol == n

def main(name):
    a = sys.argv
    c = Ctx()
    mode, c.prop, seed = a[1], a[2], int(a[3])
    c.thorough, out = a[4] == "thorough", a[7]
    if mode == "replay":
        c.replay, c.scratch = True, out + "/vfs_replay"
        os.makedirs(c.scratch, exist_ok=True)
        c.log = open(out + "/replay.jsonl", "w")
        ok = True
        for f in FAMILIES:
            if f[0] == c.prop and f[1] == a[5]:
                ok = run_one(c, f, seed, int(a[6])) and ok
        shutil.rmtree(c.scratch, ignore_errors=True)
        sys.stderr.write("held\n" if ok else "violated\n")
        os._exit(0 if ok else 1)
    w, nw = int(a[5]), int(a[6])
    base = "%s/%s_w%d" % (out, name, w)
    c.scratch = "%s/vfs_%s_w%d" % (out, name, w)
    os.makedirs(c.scratch, exist_ok=True)
    skip = (a[8], int(a[9])) if len(a) >= 10 else None
    c.log = open(base + ".jsonl", "a")
    with open(base + ".prog", "wb") as f:
        f.write(b"\0" * 256)
    pf = open(base + ".prog", "r+b")
    mm = mmap.mmap(pf.fileno(), 256)
    def prog(s):
        mm[0:256] = s.encode()[:255].ljust(256, b"\0")
    evals, scale = 0, float(os.environ.get("VF_SCALE", "1"))
    for f in FAMILIES:
        if f[0] != c.prop or (skip and f[1] != skip[0]):
            continue
        n = int(-(-(f[3] if c.thorough else f[2]) * scale // 1))
        for i in range(w, n, nw):
            if skip:
                if i <= skip[1]:
                    continue
                skip = None
            prog("%s %d" % (f[1], i))
            run_one(c, f, seed, i)
            evals += 1
            c.count("cases:" + f[1])
            if c.nviol > 25:
                break
        skip = None
        if c.nviol > 25:
            break
    prog("done 0")
    c.log.write(json.dumps(dict(t="end", evals=evals, counters=c.counters, samples=c.samples)) + "\n")
    c.log.close()
    with open(base + ".hash", "ab") as f:
        for h in c.distinct:
            f.write(struct.pack("<Q", h))
    shutil.rmtree(c.scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(1 if c.nviol else 0)
