#!/usr/bin/env python3
"""Driver of the monitors.  run.py <property> [quick|thorough]
   builds /repo's working tree with instrumentation, runs the property's workloads under
   the monitors, decides, and rewrites evidence/<property>.json.
   run.py setup             build everything once (fills the compiler cache)
   run.py replay <property> <harness> <family> <index>  one case, with its operation log
Exit: 0 held on everything observed, 1 VIOLATION, 2 no verdict (build/harness failure, nothing observed)."""
import sys, os, json, subprocess, time, re, struct, shutil, tempfile, threading, signal
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from spec import SPEC, HARNESS

REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(V, "build"))
NCPU = int(os.environ.get("VF_JOBS", "8"))
MPI_ENV = {
 "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
 "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
 "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_btl": "self,vader",
 "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_pml": "ob1",
 "OMPI_MCA_plm": "isolated", "OMPI_MCA_oob_tcp_if_include": "lo",
 "HWLOC_COMPONENTS": "-gl,-opencl,-cuda", "OMP_NUM_THREADS": "1",
}

def base_env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "LC_ALL", "TMPDIR", "VF_SCALE", "USER")}
    e.setdefault("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.setdefault("HOME", "/root")
    e["LC_ALL"] = "C.UTF-8"
    e["CCACHE_DIR"] = os.path.join(V, ".ccache")
    e["CCACHE_MAXSIZE"] = "4G"
    e["CCACHE_NOHASHDIR"] = "1"
    return e

def build(variant, targets):
    b = os.path.join(BUILD, variant)
    os.makedirs(b, exist_ok=True)
    env = base_env()
    cmd = ["cmake", "-S", os.path.join(V, "cmake"), "-B", b, "-G", "Ninja", "-DVF_SAN=" + variant, "-DR=" + REPO,
           "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
           "-DPython3_EXECUTABLE=/usr/bin/python3.12"]
    if shutil.which("ccache"):
        cmd += ["-DCMAKE_C_COMPILER_LAUNCHER=ccache", "-DCMAKE_CXX_COMPILER_LAUNCHER=ccache"]
    with open(os.path.join(b, "vf_build.log"), "w") as lf:
        r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env)
        if r.returncode:   # a stale cache directory: start over
            shutil.rmtree(b, ignore_errors=True)
            os.makedirs(b)
            with open(os.path.join(b, "vf_build.log"), "w") as lf2:
                r = subprocess.run(cmd, stdout=lf2, stderr=subprocess.STDOUT, env=env)
        if r.returncode == 0:
            with open(os.path.join(b, "vf_build.log"), "a") as lf3:
                r = subprocess.run(["ninja", "-C", b, "-j", str(NCPU)] + list(targets), stdout=lf3, stderr=subprocess.STDOUT, env=env)
    if r.returncode:
        sys.stdout.write("build failed (%s %s):\n" % (variant, targets))
        with open(os.path.join(b, "vf_build.log")) as f:
            t = f.read()
            er = [l for l in t.splitlines() if "error" in l.lower()]
            sys.stdout.write("\n".join(er[:20]) + "\n" if er else t[-3000:])
        return False
    return True

def run_env(h):
    e = base_env()
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1:handle_abort=1:max_allocation_size_mb=4096:malloc_context_size=12:quarantine_size_mb=32"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=4"
    e["VERIF_TIER"] = os.environ.get("VERIF_TIER", "quick")
    e.update(MPI_ENV)
    if h.get("kind") == "py":
        e["LD_PRELOAD"] = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        e["PYTHONMALLOC"] = "malloc"
        e["PYTHONPATH"] = os.path.join(BUILD, "asan", "python-modules") + ":" + os.path.join(V, "py")
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        e["OPENBLAS_NUM_THREADS"] = "1"
    return e

def command(name, h, args):
    variant = h.get("variant", "asan")
    if h.get("kind") == "py":
        return ["/usr/bin/python3.12", "-B", os.path.join(V, "py", name + ".py")] + args
    exe = os.path.join(BUILD, variant, "bin", name)
    if h.get("kind") == "mpi":
        return ["mpiexec", "-n", str(h["ranks"]), "--oversubscribe", exe] + args
    return [exe] + args

def targets_of(name, h):
    t = [] if h.get("kind") == "py" else [h.get("exe", name)]
    return t + list(h.get("targets", []))

SAN_RE = re.compile(r"(ERROR: AddressSanitizer: .*|runtime error: .*|WARNING: ThreadSanitizer: .*|ERROR: LeakSanitizer.*|terminate called.*|.*Assertion .* failed.*|ERROR: ThreadSanitizer.*)")
FRAME_RE = re.compile(r"#\d+ 0x[0-9a-f]+ in (\S+)")

def crash_key(err, rc):
    m = SAN_RE.search(err)
    what = m.group(1) if m else "exit %s" % rc
    kind = "crash"
    if m:
        s = m.group(1)
        if "AddressSanitizer" in s:
            kind = "asan-" + s.split("AddressSanitizer:")[1].strip().split()[0]
        elif "runtime error" in s:
            kind = "ubsan"
        elif "ThreadSanitizer" in s:
            kind = "tsan-" + s.split("ThreadSanitizer:")[1].strip().split("(")[0].strip().replace(" ", "-")
        elif "terminate" in s:
            kind = "terminate"
        elif "Assertion" in s:
            kind = "assert"
    fn = ""
    for f in FRAME_RE.findall(err):
        if "conduit" in f and not f.startswith("vf::"):
            fn = f.split("(")[0]
            break
    return "%s@%s" % (kind, fn) if fn else kind, what

def read_prog(path):
    try:
        with open(path, "rb") as f:
            s = f.read(256).split(b"\0")[0].decode()
        fam, i = s.rsplit(" ", 1)
        return fam, int(i)
    except Exception:
        return None

class Worker(threading.Thread):
    def __init__(self, name, h, prop, seed, tier, w, nw, out, viols, errors):
        super().__init__()
        self.a = (name, h, prop, seed, tier, w, nw, out, viols, errors)
        self.hist = []
    def run(self):
        try:
            self.go()
        except Exception as ex:
            self.a[9].append("driver: %r" % ex)
    def one(self, cmd, env, base, limit, cwd):
        ef = base + ".err"
        ranks = self.a[1].get("ranks", 1) if self.a[1].get("kind") == "mpi" else 1
        progs = [base + ".prog"] if ranks == 1 else [base + "r%d.prog" % r for r in range(ranks)]
        with open(ef, "ab") as f:
            f.write(b"\n==== run\n")
            f.flush()
            pos = f.tell()
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=f, stdin=subprocess.DEVNULL, env=env, start_new_session=True, cwd=cwd)
            last, t0, hung = None, time.time(), False
            while True:
                try:
                    rc = p.wait(timeout=0.25)
                    break
                except subprocess.TimeoutExpired:
                    pass
                cur = tuple(read_prog(x) for x in progs)
                if cur != last:
                    last, t0 = cur, time.time()
                elif time.time() - t0 > limit:
                    hung = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                    rc = -9
                    break
            try:
                os.killpg(p.pid, signal.SIGKILL)   # stragglers of an aborted MPI job
            except OSError:
                pass
        with open(ef, "rb") as f:
            f.seek(pos)
            err = f.read().decode(errors="replace")
        prog = None
        for x in progs:
            q = read_prog(x)
            if q and (prog is None or q[0] != "done"):
                if prog is None or prog[0] == "done":
                    prog = q
        return rc, hung, err, prog
    def go(self):
        name, h, prop, seed, tier, w, nw, out, viols, errors = self.a
        env = run_env(h)
        base = os.path.join(out, "%s_w%d" % (h.get("exe", name), w))
        if h.get("exe"):
            env["VF_VARIANT"] = name
        limit = h.get("case_limit", 90)
        skip = []
        crashes = 0
        exe = h.get("exe", name)
        while True:
            args = ["run", prop, str(seed), tier, str(w), str(nw), out] + skip
            rc, hung, err, prog = self.one(command(exe, h, args), env, base, limit, out)
            if not hung and rc in (0, 1):
                # every rank must have written its end record
                return
            if prog is None or prog[0] in ("done",):
                if rc == 3 or prog is None:
                    errors.append("%s worker %d: rc=%s before the first case: %s" % (name, w, rc, err[-800:]))
                else:
                    viols.append(dict(case="exit:0", key="crash-at-exit", msg="rc=%s %s" % (rc, err[-2500:]), trace="", harness=name))
                return
            fam, i = prog
            if hung:
                # re-run that single case alone before believing it
                rargs = ["replay", prop, str(seed), tier, fam, str(i), out]
                b2 = base + "_hang"
                try:
                    rr = subprocess.run(command(exe, h, rargs), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, timeout=limit * 1.5, cwd=out)
                    if rr.returncode == 99 or rr.returncode < 0:
                        viols.append(dict(case="%s:%d" % (fam, i), key="crash", msg="rc=%d" % rr.returncode, trace="", harness=name))
                    elif rr.returncode == 1:
                        viols.append(dict(case="%s:%d" % (fam, i), key="violated-on-rerun", msg="", trace="", harness=name))
                    else:
                        errors.append("inconclusive: %s case %s:%d exceeded %ss once, not on its own" % (name, fam, i, limit))
                except subprocess.TimeoutExpired:
                    viols.append(dict(case="%s:%d" % (fam, i), key="hang", msg="no progress for %ss, twice" % limit, trace="", harness=name))
                    subprocess.run(["pkill", "-9", "-f", os.path.join(BUILD, h.get("variant", "asan"), "bin", exe) + " replay"], stderr=subprocess.DEVNULL) if h.get("kind") == "mpi" else None
                    return
            elif rc == 98 and h.get("kind") == "mpi":
                pass    # a rank recorded its violation and ended the job
            else:
                key, what = crash_key(err, rc)
                viols.append(dict(case="%s:%d" % (fam, i), key=key, msg=what + "\n" + err[-6000:], trace="", harness=name))
            crashes += 1
            if crashes >= 3:
                return
            skip = [fam, str(i)]

def load_known():
    known = []
    with open(os.path.join(V, "known_findings.txt")) as f:
        for l in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                known.append(m.groups())
    return known

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sp = SPEC[prop]
    if tier == "quick" and "VF_SCALE" not in os.environ:
        os.environ["VF_SCALE"] = str(sp.get("scale", 1))
    by_variant = {}
    for n in sp["harness"]:
        h = HARNESS[n]
        by_variant.setdefault(h.get("variant", "asan"), []).extend(targets_of(n, h))
    for v, t in by_variant.items():
        if not build(v, sorted(set(t))):
            return 2
    tb = time.time()
    out = tempfile.mkdtemp(prefix="vfrun_%s_" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    viols, errors = [], []
    try:
        for n in sp["harness"]:
            h = HARNESS[n]
            nw = h.get("workers", NCPU)
            ws = [Worker(n, h, prop, seed, tier, w, nw, out, viols, errors) for w in range(nw)]
            for x in ws: x.start()
            for x in ws: x.join()
            # collect the logs of this harness
        evals, counters, samples, hashes, ends = 0, {}, [], set(), 0
        for fn in sorted(os.listdir(out)):
            p = os.path.join(out, fn)
            if fn.endswith(".jsonl") and not fn.startswith("replay"):
                nonroot = re.search(r"r[1-9]\d*\.jsonl$", fn)
                for l in open(p, errors="replace"):
                    try:
                        r = json.loads(l)
                    except ValueError:
                        continue
                    if r["t"] == "viol":
                        hn = fn.split("_w")[0]
                        r["harness"] = hn
                        viols.append(r)
                    else:
                        ends += 1
                        if not nonroot:
                            evals += r["evals"]
                        for k, v in r["counters"].items():
                            if nonroot and k.startswith("cases:"):
                                continue
                            counters[k] = counters.get(k, 0) + v
                        samples += r["samples"]
            elif fn.endswith(".hash"):
                b = open(p, "rb").read()
                hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
    finally:
        shutil.rmtree(out, ignore_errors=True)
    known = load_known()
    kf, real = {}, {}
    for v in viols:
        k = v["key"]
        m = [x for x in known if x[0] == prop and x[1] == k]
        if m:
            kf[k] = m[0][2]
        else:
            real.setdefault(k, v)
    for k, d in sorted(kf.items()):
        print("KNOWN-FINDING: property=%s key=%s %s" % (prop, k, d))
    rdir = os.path.join(V, "replays")
    for k, v in sorted(real.items()):
        os.makedirs(rdir, exist_ok=True)
        fam, i = v["case"].rsplit(":", 1)
        path = os.path.join(rdir, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", k)[:80]))
        v["replay_cmd"] = "VERIF_SEED=%d python3 %s/run.py replay %s %s %s %s %s" % (seed, V, prop, v.get("harness", "?"), fam, i, tier)
        json.dump(v, open(path, "w"), indent=1)
        print("  case %s: [%s] %s" % (v["case"], k, v["msg"][:700].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    missing = [c for c in sp.get("need", []) if not counters.get(c)]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=sp.get("level", "exploration"),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=sp["rule"],
                            samples=sorted(samples)[:6] or ["none"],
                            observed={k: counters[k] for k in sorted(counters)},
                            workers_finished=ends, known_findings=sorted(kf), inconclusive=errors[:10]),
              assumptions=sp.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(real))
    ev["coverage"]["build_s"] = round(tb - t0, 2)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    if real:
        return 1
    hard = [e for e in errors if not e.startswith("inconclusive")]
    if hard or missing or evals == 0 or len(hashes) == 0:
        print("no verdict: errors=%s missing=%s evals=%d distinct=%d" % (hard[:3], missing, evals, len(hashes)))
        return 2
    print("held: property=%s evaluations=%d distinct=%d build %.0fs total %.0fs" % (prop, evals, len(hashes), tb - t0, time.time() - t0))
    return 0

def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        ok = True
        tg = {}
        for n, h in HARNESS.items():
            tg.setdefault(h.get("variant", "asan"), []).extend(targets_of(n, h))
        for v, t in tg.items():
            ok = build(v, sorted(set(t))) and ok
        return 0 if ok else 2
    if a[0] == "replay":
        prop, name, fam, i = a[1:5]
        tier = a[5] if len(a) > 5 else "quick"
        h = HARNESS[name]
        if not os.environ.get("VF_NOBUILD") and not build(h.get("variant", "asan"), targets_of(name, h)):
            return 2
        out = tempfile.mkdtemp(prefix="vfreplay_")
        try:
            env = run_env(h)
            if h.get("exe"): env["VF_VARIANT"] = name
            return subprocess.run(command(h.get("exe", name), h, ["replay", prop, os.environ.get("VERIF_SEED", "1"), tier, fam, i, out]), env=env, cwd=out).returncode
        finally:
            shutil.rmtree(out, ignore_errors=True)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    return check(a[0], tier)

sys.exit(main())
