#!/usr/bin/env python3
"""Runner of the model-based checks: run.py check <PROPERTY> | run.py setup | run.py list.

For each property, props.py lists steps: model checking of the specification itself (MC),
generation of cases from the specification (GEN), recording of the real code (HARNESS) and
validation of the recorded behaviour against the specification (TRACE). Exit 0: property held;
1: VIOLATION line printed; 2: the check could not be carried out."""
import hashlib, json, os, re, shutil, subprocess, sys, time, glob, resource
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HRM_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
NCPU = os.cpu_count() or 4
TLAJ = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """the check itself could not be carried out"""


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


def sh(cmd, timeout=600, env=None, cwd=None, **kw):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                          env=e, cwd=cwd, text=True, errors="replace", **kw)


# ---------------------------------------------------------------- building
INC = ["-I{b}/gen", "-I{r}", "-I{r}/include", "-I{r}/src", "-I{v}/harness",
       "-I/usr/include/ompl-1.5", "-I/usr/include/eigen3",
       "-I{r}/src/util/external/kdl_parser/include", "-I/usr/include/urdfdom"]
LIBS = ["-lompl", "-lfcl", "-lccd", "-lgmp", "-lorocos-kdl", "-ltinyxml2", "-lurdfdom_model",
        "-lurdfdom_world", "-lboost_filesystem", "-lboost_system", "-pthread"]
CXX = ["g++", "-std=c++17", "-pthread", "-O1", "-DNDEBUG", "-w"]


def java_build():
    out = os.path.join(B, "java")
    srcs = sorted(glob.glob(os.path.join(V, "java", "*.java")))
    key = hashlib.sha1(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
    stamp = os.path.join(out, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    os.makedirs(out, exist_ok=True)
    r = sh(["javac", "-nowarn", "-cp", TLAJ, "-d", out] + srcs)
    if r.returncode:
        raise Broken("javac: " + r.stdout)
    open(stamp, "w").write(key)


def gen_config():
    d = os.path.join(B, "gen", "hrm")
    os.makedirs(d, exist_ok=True)
    for s in ("config", "result"):
        os.makedirs(os.path.join(B, "scratch", s), exist_ok=True)
    # the paths the build of the repository defines, with outputs kept in scratch space
    txt = open(os.path.join(REPO, "include/hrm/config.h.in")).read() if \
        os.path.exists(os.path.join(REPO, "include/hrm/config.h.in")) else ""
    defs = dict(RESOURCES_PATH=REPO + "/resources", CONFIG_PATH=B + "/scratch/config",
                SOLUTION_DETAILS_PATH=B + "/scratch/result", BENCHMARK_DATA_PATH=B + "/scratch/result",
                TEST_DATA_PATH=B + "/scratch/result", CONFIG_FILE_PATH=B + "/scratch/config")
    for m in re.findall(r"#define\s+(\w+)", txt):
        defs.setdefault(m, B + "/scratch/result")
    h = "#pragma once\n" + "".join('#define %s "%s"\n' % kv for kv in sorted(defs.items()))
    f = os.path.join(d, "config.h")
    if not os.path.exists(f) or open(f).read() != h:
        open(f, "w").write(h)


def tree_key():
    h = hashlib.sha1()
    for root in ("include", "src"):
        for dp, dn, fn in sorted(os.walk(os.path.join(REPO, root))):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".h", ".hpp", ".in")):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def compile_one(src, tkey, extra):
    inc = [i.format(b=B, r=REPO, v=V) for i in INC]
    h = hashlib.sha1((tkey + " ".join(CXX + inc + extra)).encode())
    h.update(open(src, "rb").read())
    if src.startswith(V):
        for f in sorted(glob.glob(os.path.join(V, "harness", "*.hpp"))):
            h.update(open(f, "rb").read())
    obj = os.path.join(B, "obj", os.path.basename(src) + "." + h.hexdigest()[:16] + ".o")
    if os.path.exists(obj):
        return obj, None
    tmp = obj + ".%d" % os.getpid()
    r = sh(CXX + inc + extra + ["-c", src, "-o", tmp])
    if r.returncode:
        return None, r.stdout
    os.replace(tmp, obj)
    return obj, None


def build(harness, extra=(), full=False):
    """compiles every library source of the repository that compiles, and the harness, from the
    current tree; objects are reused only when the source and every header are byte-identical"""
    gen_config()
    os.makedirs(os.path.join(B, "obj"), exist_ok=True)
    os.makedirs(os.path.join(B, "bin"), exist_ok=True)
    tkey = tree_key()
    srcs = []
    for dp, dn, fn in sorted(os.walk(os.path.join(REPO, "src"))):
        srcs += [os.path.join(dp, f) for f in sorted(fn) if f.endswith(".cpp")]
    only = HARNESS[harness].get("only")
    hs = os.path.join(V, "harness", harness + ".cpp")
    if only and not full:
        lib = [s for s in srcs if os.path.basename(s)[:-4] in only]
    else:
        lib = [s for s in srcs if os.path.basename(s) != "GTestUtils.cpp"]
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda s: (s,) + compile_one(s, tkey, list(extra)), [hs] + lib))
    objs, errs = [], []
    for s, o, e in res:
        if o:
            objs.append(o)
        elif s == hs:
            raise Broken("harness %s does not compile:\n%s" % (harness, e[-3000:]))
        else:
            errs.append((s, e))
    out = os.path.join(B, "bin", harness)
    r = sh(["g++"] + objs + ["-o", out + ".tmp"] + LIBS)
    if r.returncode and only and not full:
        return build(harness, extra, True)
    if r.returncode:
        raise Broken("link of %s failed:\n%s\n%s" % (harness, r.stdout[-2000:],
                     "\n".join(s + ": " + e[-500:] for s, e in errs)))
    os.replace(out + ".tmp", out)
    return out


# ---------------------------------------------------------------- TLC
STATE_RE = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg=None, trace=None, params=None, timeout=800, workers=None, deadlock=False,
        simulate=None, tag=None):
    java_build()
    md = os.path.join(B, "meta", "%s.%d.%s" % (module, os.getpid(), tag or ""))
    shutil.rmtree(md, ignore_errors=True)
    os.makedirs(md)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-DTLA-Library=" + V + "/tla"]
    if trace:
        cmd.append("-Dtrace=" + trace)
    for k, v in (params or {}).items():
        cmd.append("-Dp.%s=%s" % (k, v))
    cmd += ["-cp", "%s/java:%s:%s" % (B, TLAJ, CM), "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE",
            "-workers", str(workers or NCPU)]
    if not deadlock:
        cmd.append("-deadlock")
    if simulate:
        cmd += ["-simulate", simulate, "-seed", str(SEED)]
    cmd += ["-config", os.path.join(V, "tla", cfg or module + ".cfg"),
            os.path.join(V, "tla", module + ".tla")]
    t0 = time.time()
    try:
        r = sh(cmd, timeout=timeout, cwd=md)
    except subprocess.TimeoutExpired:
        raise Broken("TLC on %s ran out of its %d s" % (module, timeout))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    o = r.stdout
    m = None
    for m in STATE_RE.finditer(o):
        pass
    res = dict(module=module, wall=round(time.time() - t0, 2), out=o,
               states=int(m.group(2)) if m else 0, transitions=int(m.group(1)) if m else 0)
    res["ok"] = r.returncode == 0 and "Error:" not in o
    if not res["ok"]:
        v = re.search(r"Error: (Invariant|Action property|Temporal properties|Property) ?(\S+)? ?(is|was|were) violated", o)
        res["violated"] = v.group(2) if v else ("Deadlock" if "Error: Deadlock reached" in o else None)
        st = re.findall(r"State \d+: .*?\n(.*?)(?=\n\n|\nState|\Z)", o, re.S)
        if not st:
            st = re.findall(r"violated by the initial state:\n(.*?)(?=\n\n|\Z)", o, re.S)
        res["last"] = st[-1].strip() if st else ""
        e = re.search(r"Error: (.*?)(?=\n\n\n|\nFinished|\Z)", o, re.S)
        res["error"] = (e.group(1) if e else o)[-2500:]
        res["parse_error"] = bool(re.search(r"Parsing or semantic analysis failed|Could not parse|Unknown operator|Fatal errors while parsing|was not found|ConfigFileException|does not exist", o))
    return res


class Run:
    Broken = Broken
    def __init__(self, prop):
        self.prop = prop
        self.dir = os.path.join(B, "run", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.notes = []
        self.assumptions = []
        self.bins = {}

    def log(self, *a):
        print("[%6.1fs] %s" % (time.time() - self.t0, " ".join(str(x) for x in a)), flush=True)

    # the specification itself
    def mc(self, module, cfg=None, params=None, **kw):
        r = tlc(module, cfg, params=params, **kw)
        self.log("MC", cfg or module, "states", r["states"], "transitions", r["transitions"], r["wall"], "s")
        if not r["ok"]:
            raise Broken("the specification %s does not satisfy its own properties: %s\n%s" %
                         (module, r.get("violated"), r.get("error")))
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["transitions"]
        self.notes.append("MC %s: %d distinct states" % (cfg or module, r["states"]))
        return r

    # cases written out by the specification
    def gen(self, module, name=None, params=None):
        out = os.path.join(self.dir, (name or module) + ".cases")
        p = dict(params or {})
        p["out"] = out
        p["tier"] = TIER
        r = tlc(module, params=p, workers=1)
        if not r["ok"] or not os.path.exists(out):
            raise Broken("generation by %s failed: %s" % (module, r.get("error", r["out"][-1500:])))
        n = sum(1 for _ in open(out))
        self.log("GEN", module, n, "cases", r["wall"], "s")
        self.cov["spec_generated_cases"] = self.cov.get("spec_generated_cases", 0) + n
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["transitions"]
        return out

    def harness(self, name, mode, args=(), env=None, timeout=500, shards=1, out=None):
        if name not in self.bins:
            t = time.time()
            self.bins[name] = build(name)
            self.log("built", name, round(time.time() - t, 1), "s")
        tr = os.path.join(self.dir, (out or mode) + ".ndjson")

        def one(k):
            f = tr if shards == 1 else tr + ".%d" % k
            scratch = os.path.join(self.dir, "scratch.%s.%d" % (mode, k))
            shutil.rmtree(scratch, ignore_errors=True)
            os.makedirs(scratch)
            e = dict(SHARD=str(k), SHARDS=str(shards), VERIF_SEED=str(SEED), VERIF_TIER=TIER,
                     SCRATCH=scratch, **(env or {}))
            try:
                r = sh([self.bins[name], mode, f] + list(args), timeout=timeout, env=e, cwd=scratch)
            except subprocess.TimeoutExpired:
                return f, "timeout", "no end within %d s" % timeout
            return f, r.returncode, r.stdout
        t = time.time()
        with ThreadPoolExecutor(min(shards, NCPU)) as ex:
            res = list(ex.map(one, range(shards)))
        for f, rc, o in res:
            if rc == 3:
                raise Broken("harness %s %s: %s" % (name, mode, o[-2000:]))
            if rc != 0:
                last = ""
                if os.path.exists(f):
                    ls = open(f, errors="replace").read().splitlines()
                    last = ls[-1][:2000] if ls else ""
                raise Violation("the real code did not survive the run (%s %s: exit %s)" % (name, mode, rc),
                                dict(kind="crash", harness=name, mode=mode, exit=str(rc),
                                     output=o[-3000:], last_record=last, env=env or {}))
        if shards > 1:
            with open(tr, "w") as w:
                for f, _, _ in res:
                    shutil.copyfileobj(open(f), w)
                    os.remove(f)
        n = sum(1 for _ in open(tr))
        self.log("HARNESS", name, mode, n, "records", round(time.time() - t, 1), "s",
                 "%.1f MB" % (os.path.getsize(tr) / 1e6))
        if n == 0:
            raise Broken("harness %s %s recorded nothing" % (name, mode))
        return tr

    def script(self, argv, mode, timeout=500):
        """a non-C++ harness (Python tools of the repository)"""
        tr = os.path.join(self.dir, mode + ".ndjson")
        scratch = os.path.join(self.dir, "scratch." + mode)
        os.makedirs(scratch, exist_ok=True)
        r = sh(argv + [tr], timeout=timeout, cwd=scratch,
               env=dict(VERIF_SEED=str(SEED), VERIF_TIER=TIER, SCRATCH=scratch, HRM_REPO=REPO))
        if r.returncode == 3:
            raise Broken(r.stdout[-2000:])
        if r.returncode:
            raise Violation("the real code did not survive the run", dict(kind="crash", output=r.stdout[-3000:]))
        n = sum(1 for _ in open(tr))
        self.log("SCRIPT", mode, n, "records")
        if n == 0:
            raise Broken("script recorded nothing")
        return tr

    # recorded behaviour against the specification
    def trace(self, module, tr, cfg=None, params=None, chain=False, **kw):
        lines = open(tr).read().splitlines()
        r = tlc(module, cfg, trace=tr, params=params, deadlock=chain, **kw)
        self.log("TRACE", cfg or module, len(lines), "records", "states", r["states"], r["wall"], "s")
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["transitions"]
        if not r["ok"]:
            if r.get("parse_error"):
                raise Broken("TLC could not read %s: %s" % (module, r["error"]))
            m = re.search(r"(?:^|\s|/\\ )i = (\d+)", r.get("last", "") or r["out"])
            idx = int(m.group(1)) if m else None
            rec = lines[idx - 1] if idx and 0 < idx <= len(lines) else ""
            if "OutOfMemory" in r["out"] or "StackOverflow" in r["out"]:
                raise Broken("TLC resources: " + r["error"])
            raise Violation("%s rejects the recorded behaviour (%s)" % (module, r.get("violated") or "evaluation"),
                            dict(kind="trace", module=module, cfg=cfg, violated=r.get("violated"),
                                 record_index=idx, record=rec[:200000], state=r.get("last", "")[:4000],
                                 params=params or {}, error=r.get("error", "")[:3000]))
        if not chain and r["states"] < len(lines):
            raise Broken("only %d of %d records were reached" % (r["states"], len(lines)))
        self.cov["traces_validated_against_impl"] += len(lines)
        if lines:
            for k in {0, len(lines) // 2}:
                self.cov["samples"].append(lines[k][:600])
        kinds = {}
        for l in lines:
            m = re.match(r'\{"k":"([^"]*)"', l)
            k = m.group(1) if m else "?"
            kinds[k] = kinds.get(k, 0) + 1
        d = self.cov.setdefault("records_by_kind", {})
        for k, v in kinds.items():
            d[k] = d.get(k, 0) + v
        return r


def known_findings(prop):
    f = os.path.join(V, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("known: property=%s " % prop):
                out.append(l[len("known: "):].strip())
    return out


def check(prop):
    import props
    for l in known_findings(prop):
        m = re.search(r"\[([a-z_]+)\]", l)
        if m:                      # the specification accepts exactly this deviation (see RecTree)
            os.environ["KNOWN_" + m.group(1)] = "1"
    entry = props.PROPS[prop]
    run = Run(prop)
    rc, viol = 0, 0
    try:
        try:
            entry["run"](run)
        except Violation as v:
            viol = 1
            rc = 1
            rp = os.path.join(B, "replay", prop + ".json")
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            json.dump(dict(property=prop, what=v.what, seed=SEED, tier=TIER, detail=v.detail,
                           rerun="VERIF_SEED=%d VERIF_TIER=%s python3 %s/run.py check %s" % (SEED, TIER, V, prop)),
                      open(rp, "w"), indent=1)
            print(v.what)
            print((v.detail.get("error") or v.detail.get("output") or "")[:1500])
            print((v.detail.get("record") or "")[:800])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
    except Broken as b:
        print("CHECK ERROR (%s): %s" % (prop, b))
        rc = 2
    for l in known_findings(prop):
        print("KNOWN-FINDING: " + l)
    ev = dict(property=prop, tier=TIER, seed=SEED, level=entry.get("level", "model_checking"), coverage=run.cov,
              wall_s=round(time.time() - run.t0, 2), violations=viol,
              assumptions=entry.get("assumptions", []))
    run.cov["steps"] = run.notes
    if not run.cov["samples"]:
        run.cov["samples"] = ["(none)"]
    # a run on another tree (HRM_REPO) leaves the evidence of /repo alone
    d = os.path.join(V if REPO == "/repo" else B, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1)
    shutil.rmtree(run.dir, ignore_errors=True) if rc == 0 and not os.environ.get("KEEP") else None
    run.log("exit", rc)
    return rc


HARNESS = {}


def main():
    sys.path.insert(0, V)
    import props
    HARNESS.update(props.HARNESS)
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        sys.exit(check(sys.argv[2]))
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        java_build()
        gen_config()
        print("ok")
        return
    if len(sys.argv) >= 2 and sys.argv[1] == "list":
        print(" ".join(sorted(props.PROPS)))
        return
    print(__doc__)
    sys.exit(2)


if __name__ == "__main__":
    sys.modules.setdefault("run", sys.modules["__main__"])
    main()
