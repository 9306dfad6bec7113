#!/usr/bin/env python3
"""Run the monitor of one property against the code in /repo.

  check.py C01 [--tier quick|thorough] [--seed N]
  check.py --replay FILE          re-run one recorded violation

Builds the library from /repo's working tree (several build flavours), runs the monitor
in shards, merges what the shards observed, writes evidence/<id>.json.
exit 0: held on everything observed; exit 1 + "VIOLATION property=<id> replay=<path>";
exit 2: no verdict (build failure, too little observed)."""
import glob, hashlib, json, os, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LIBAMI_REPO", "/repo")
BUILD = os.path.join(V, ".build")
NCPU = max(2, min(8, os.cpu_count() or 2))

STD = "-O2 -std=gnu++14"
HARN = "-O2 -std=gnu++17"
FLAV = {  # library flags, harness flags, link flags
    "std": (STD, HARN, "-lquadmath"),
    "mp": ("-O2 -std=gnu++14 -DBOOST_MP", HARN + " -DBOOST_MP", "-lquadmath"),
    "asan": ("-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -std=gnu++14",
             "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -std=gnu++17", "-lquadmath"),
    "asanmp": ("-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -std=gnu++14 -DBOOST_MP",
               "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -std=gnu++17 -DBOOST_MP", "-lquadmath"),
    "dbg": ("-O1 -g -std=gnu++14", "-O1 -g -std=gnu++17", "-lquadmath"),
    "tsan": ("-O1 -g -fsanitize=thread -std=gnu++14", "-O1 -g -fsanitize=thread -std=gnu++17", "-lquadmath -lpthread"),
    "tsanmp": ("-O1 -g -fsanitize=thread -std=gnu++14 -DBOOST_MP", "-O1 -g -fsanitize=thread -std=gnu++17 -DBOOST_MP", "-lquadmath -lpthread"),
}
ENV = {
    "ASAN_OPTIONS": "halt_on_error=1:exitcode=65:detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:hard_rss_limit_mb=3500:allocator_may_return_null=0",
    "UBSAN_OPTIONS": "halt_on_error=1:exitcode=65:print_stacktrace=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:hard_rss_limit_mb=6000",
}


def mon(pid, q, t, **kw):
    d = dict(src="mon.cpp", defs="-DONLY_ID=%s -DONLY_FN=%s" % (pid, pid.lower()), stages=[dict(flav="std", quick=q, thorough=t)])
    m = kw.pop("mp", None)  # the same monitor on the multiprecision build
    if m:
        d["stages"].append(dict(flav="mp", quick=m[0], thorough=m[1], tag="multiprecision build"))
    d.update(kw)
    return d


# scale = multiple of the case counts written in the monitors ("thorough" also switches
# the monitor to larger problems)
P = {
    "C01": mon("C01", 8, 10, mp=(0.5, 2), need={"separable sums compared": 8, "brute-force Matsubara sums compared with the reference": 400, "comparisons with the exact sum": 40000, "comparisons sharper than 1e-6 relative": 20000}),
    "C02": mon("C02", 8, 8, mp=(0.5, 2), need={"comparisons with the exact sum": 40000, "highest pole multiplicity 3": 500}),
    "C03": mon("C03", 10, 10, mp=(0.5, 2), need={"solutions with Bose factors": 8000, "static bosonic external": 50}),
    "C04": mon("C04", 10, 10, mp=(0.5, 2), need={"last frequency not summed": 4000, "solutions with Bose factors": 8000, "via double-occupancy type": 5000, "via bosonic_external option": 2000}),
    "C05": mon("C05", 8, 8, mp=(0.5, 2), need={"separable sums compared": 15, "comparisons with the exact sum": 20000, "list rearrangements compared": 60000}),
    "C06": mon("C06", 10, 10, mp=(0.5, 2), need={"separable sums compared": 20, "comparisons with the exact sum": 40000, "products merged away": 300000}),
    "C07": mon("C07", 10, 10, mp=(0.5, 2), need={"separable sums compared": 20, "comparisons": 35000, "products merged away": 300000, "lists with a term without propagators": 2000}),
    "C08": mon("C08", 10, 10, need={"groups checked": 80000, "groups with merged products": 40000, "dirty output lists": 8000, "lists of long products": 500}),
    "C09": dict(src="dist.cpp", defs="", stages=[dict(flav="std", quick=8, thorough=12)], need={"saturated arguments": 100000, "Fermi": 200000, "Bose": 200000}),
    "C10": mon("C10", 8, 8, mp=(0.5, 2), need={"symmetry comparisons": 200000}),
    "C11": mon("C11", 8, 8, mp=(0.5, 2), need={"rewritten integrands compared": 20000, "rewriting: reroute": 4000, "rewriting: sum-order": 5000}),
    "C12": mon("C12", 4, 4, mp=(0.5, 2), need={"jobs compared between processes": 10000, "building blocks compared": 2000, "detours with other options": 2000, "evaluations compared bit by bit": 100000, "printed solutions": 1500}),
    "C13": dict(src="thr.cpp", defs="", stages=[dict(flav="tsan", quick=2, thorough=10, shards=32, par=2), dict(flav="tsanmp", quick=0.4, thorough=2, shards=16, par=2, tag="tsan multiprecision")], need={"thread groups run": 80, "cold thread groups run": 40, "concurrent calls, kind evaluate": 5000}),
    "C14": dict(src="san.cpp", defs="", stages=[dict(flav="asan", quick=4, thorough=6, tag="asan+ubsan"), dict(flav="dbg", quick=0.16, thorough=0.8, tool="valgrind", tag="memcheck"), dict(flav="asanmp", quick=0.5, thorough=2, tag="asan+ubsan multiprecision")],
                need={"evaluations": 20000, "on-the-fly evaluations": 1000}),
    "C15": mon("C15", 10, 10, mp=(0.5, 2), need={"nearly degenerate points resolved": 1000, "comparisons with the exact sum": 12000, "points where the plain evaluation breaks down": 1500, "generic points": 2000}),
    "C16": mon("C16", 10, 10, mp=(0.5, 2), need={"only a merged product beyond the cut-off": 1500, "evaluations beyond the cut-off": 20000, "regular evaluations": 120000}),
    "C17": mon("C17", 8, 8, mp=(0.5, 2), need={"comparisons with the exact sum": 30000, "points with dropped factors": 6000, "points with a Bose factor at zero energy": 3000, "inert options compared": 4000}),
    "C18": mon("C18", 4, 4, kind="mp", need={"values compared between the builds": 30000, "symbolic solutions compared": 5000, "flags compared between the builds": 20000}),
    "C19": mon("C19", 4, 6, kind="py", need={"values compared bit by bit": 8000, "member writes observed from C++": 2000}),
    "C20": mon("C20", 10, 10, need={"poles checked": 50000, "multipoles checked": 5000}),
    "C21": mon("C21", 10, 10, mp=(0.5, 2), need={"derivatives of hand-made forms": 15000, "first derivatives": 5000, "second derivatives": 2000, "zero derivatives": 200}),
    "C22": dict(src="prim22.cpp", defs="", stages=[dict(flav="std", quick=8, thorough=12)], need={"steps with simple poles only": 3000, "residues of higher-order poles": 10000, "summation steps checked": 8000, "substitutions": 100000}),
    "C23": dict(src="prim23.cpp", defs="", stages=[dict(flav="std", quick=16, thorough=20)], need={"pairs equal up to sign": 300000, "transitive triples": 3000000, "equal lists with repeated factors": 1000000, "long lists": 10000, "wide propagators": 10000}),
    "C24": mon("C24", 10, 10, mp=(0.5, 2), need={"resumed constructions compared": 4000, "comparisons with the exact sum": 80000, "levels of a full solution evaluated": 10000}),
    "C25": dict(src="ctor.cpp", defs="-O1 -fno-lifetime-dse", stages=[dict(flav="std", quick=8, thorough=16)], need={"values built in dirty storage": 30000, "problems built in several ways": 1500, "evaluations compared bit by bit": 60000}),
    "C26": dict(src="trace.cpp", defs="", stages=[dict(flav="std", quick=8, thorough=10)], need={"printed entries read back": 3000000, "edited solutions": 1500}),
    "C27": dict(src="trace.cpp", defs="", stages=[dict(flav="std", quick=5, thorough=8), dict(flav="mp", quick=0.5, thorough=1, tag="multiprecision build")], need={"process states compared": 4000, "evaluations whose heap was watched": 2000000, "heap allocations observed": 10000000, "constructions whose heap was watched": 20000, "short-lived threads": 5000, "directories inspected": 1}),
}
RULE = {
    "mon.cpp": "random Feynman-type integrands (random multigraph with conserved frequencies; flavours: plain, four sums, many lines, dense/shared energy symbols, collinear energies that make poles coincide after a sum, repeated and mirrored propagators) with random points (temperature, real/complex/large energies, Matsubara/real/complex external frequencies, prefactors); each is executed by the library and judged by the oracle of this property. Non-trivial: the oracle could judge it and the case exercises the property (see counters); distinct: by hash of integrand and point.",
    "dist.cpp": "random (m, sigma, beta, E) over ordinary, near-pole, tail and saturated arguments; each compared with the quad-precision value. Non-trivial: not within rounding distance of a pole; distinct: by hash of the arguments.",
    "thr.cpp": "groups of 6 threads, each with its own object, running random sequences of construct/factorise/evaluate/on-the-fly/derivative calls on shared solutions under ThreadSanitizer, compared bit by bit with a sequential run; the cold groups make the first library calls of a process concurrently. Distinct: by thread, position and result.",
    "san.cpp": "random regular and degenerate integrands (unused frequencies, all-zero lines, no poles, no lines left, no energies), lists with empty and repeated products, singular and extreme points, used output containers, prints, derivatives; executed under AddressSanitizer+UBSan+checked STL, under valgrind memcheck, and (multiprecision build) under ASan+UBSan. Non-trivial: at least one library evaluation ran; distinct: by hash of integrand and point.",
    "prim22.cpp": "random products (hand-made with repeated/mirrored factors, or taken from the middle of real constructions) and frequencies; every symbolic step compared with Taylor series in quad precision at random complex points. Non-trivial: the product has at least one pole / dependence; distinct: by hash of product and index.",
    "trace.cpp": "random problems and solutions. C26: every printer called on real and edited solutions, the numbers and brackets it writes read back and compared with the structure. C27: process state, terminal output, random generators, open files and live heap bytes (counted in the allocator) before and after construction, factorisation, four evaluation routes, on-the-fly evaluation and derivatives. Non-trivial: at least two terms; distinct: by hash of the problem.",
    "ctor.cpp": "propagators, poles, terms, parameters, points and objects built by every constructor (and copied) in storage filled with five byte patterns, then used in construction, factorisation and evaluation; compared with the documented defaults and, bit by bit, with the same problem spelled out in full. Distinct: by hash of the integrand and pattern.",
    "prim23.cpp": "random structures and small edits of them (negated, one coefficient changed, longer, shorter, other species), lists with repeated factors; comparisons judged by definition and as relations. Distinct: by hash of the structures.",
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def lib_sources():
    s = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    if not s:
        raise SystemExit("no library sources in %s/src" % REPO)
    return s


def digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (cmd, r.stdout[-3000:]))


def prune():
    ds = sorted((d for d in glob.glob(os.path.join(BUILD, "b-*")) if os.path.isdir(d)), key=os.path.getmtime)
    for d in ds[:-24]:
        shutil.rmtree(d, ignore_errors=True)


def make(src, defs, flav):
    """compile library and monitor in one flavour; returns the program"""
    lf, hf, link = FLAV[flav]
    hdr = sorted(glob.glob(os.path.join(REPO, "src", "*.h*"))) + sorted(glob.glob(os.path.join(V, "mon", "*.hpp")))
    libs = lib_sources(); ms = os.path.join(V, "mon", src)
    key = digest(libs + hdr + [ms], flav + lf + hf + defs)
    d = os.path.join(BUILD, "b-" + key); prog = os.path.join(d, "prog")
    if os.path.exists(prog):
        os.utime(d); return prog
    prune()
    tmp = d + ".tmp%d" % os.getpid(); os.makedirs(tmp, exist_ok=True)
    inc = "-I%s/src -I%s/mon" % (REPO, V)
    cmds = ["g++ %s -w %s %s -c %s -o m.o" % (hf, inc, defs, ms)]
    cmds += ["g++ %s -w %s -c %s -o l%d.o" % (lf, inc, s, i) for i, s in enumerate(libs)]
    try:
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda c: sh(c, tmp), cmds))
        san = " ".join(w for w in hf.split() if w.startswith("-fsanitize"))
        sh("g++ %s m.o %s -o prog %s -lpthread" % (san, " ".join("l%d.o" % i for i in range(len(libs))), link), tmp)
        if os.path.isdir(d):
            shutil.rmtree(tmp)
        else:
            os.rename(tmp, d)
    except BuildError:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return prog


def make_py():
    libs = lib_sources(); w = sorted(glob.glob(os.path.join(REPO, "pyami_src", "*.cpp")))
    hdr = sorted(glob.glob(os.path.join(REPO, "src", "*.h*"))) + sorted(glob.glob(os.path.join(REPO, "pyami_src", "*.h*")))
    probe = os.path.join(V, "mon", "probe.cpp")
    key = digest(libs + w + hdr + [probe], "py2")
    d = os.path.join(BUILD, "b-" + key)
    if os.path.exists(os.path.join(d, "ok")):
        os.utime(d); return d
    prune()
    tmp = d + ".tmp%d" % os.getpid(); os.makedirs(tmp, exist_ok=True)
    inc = subprocess.run(["/usr/bin/python3", "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], stdout=subprocess.PIPE, text=True).stdout.strip()
    I = "-I%s -I%s/src -I%s/pyami_src" % (inc, REPO, REPO)
    cmds = ["g++ -O1 -fPIC -std=c++14 -fvisibility=hidden -w %s -c %s -o w%d.o" % (I, s, i) for i, s in enumerate(w)]
    cmds += ["g++ %s -fPIC -w %s -c %s -o l%d.o" % (STD, I, s, i) for i, s in enumerate(libs)]
    cmds += ["g++ -O1 -fPIC -std=c++14 -fvisibility=hidden -w %s -c %s -o probe.o" % (I, probe)]
    try:
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda c: sh(c, tmp), cmds))
        ls = " ".join("l%d.o" % i for i in range(len(libs)))
        sh("g++ -shared %s %s -o pyami.so" % (" ".join("w%d.o" % i for i in range(len(w))), ls), tmp)
        sh("g++ -shared probe.o %s -o amiprobe.so" % ls, tmp)
        open(os.path.join(tmp, "ok"), "w").close()
        if os.path.isdir(d):
            shutil.rmtree(tmp)
        else:
            os.rename(tmp, d)
    except BuildError:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return d


def limits(mb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mb:
            resource.setrlimit(resource.RLIMIT_AS, (mb << 20, mb << 20))
    return f


def cpu(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


def run_proc(cmd, out, err, prog, mb, stall_cpu, stall_wall):
    """returns (return code or None when it hung, case being executed, its dump)"""
    env = dict(os.environ); env.update(ENV)
    with open(out, "wb") as fo, open(err, "wb") as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, preexec_fn=limits(mb), env=env)
        last, c0, w0 = None, 0.0, time.time()
        hung = False
        nap = 0.02
        while p.poll() is None:
            time.sleep(nap); nap = min(0.5, nap * 1.5)
            cur = b""
            if prog:
                try:
                    with open(prog, "rb") as f:
                        cur = f.read(128)
                except OSError:
                    pass
            else:
                try:
                    cur = str(os.path.getsize(out)).encode()
                except OSError:
                    pass
            if cur != last:
                last, c0, w0 = cur, cpu(p.pid), time.time()
            elif cpu(p.pid) - c0 > stall_cpu or time.time() - w0 > stall_wall:
                hung = True
                os.killpg(p.pid, signal.SIGKILL); p.wait()
    g, i, d = "", -1, ""
    if prog and os.path.exists(prog):
        raw = open(prog, "rb").read()
        h = raw[:128].split(b"\0")[0].decode("latin1").split()
        if len(h) == 2:
            g, i = h[0], int(h[1])
        d = raw[128:].split(b"\0")[0].decode("latin1")
    return (None if hung else p.returncode), (g, i), d


def parse(out):
    v, st = [], None
    for l in open(out, encoding="utf-8", errors="replace"):
        l = l.strip()
        if not l.startswith("{"):
            continue
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if "viol" in j:
            v.append(j["viol"])
        elif "stats" in j:
            st = j["stats"]
    return v, st


class Stage:
    def __init__(self, pid, cfg, st, prog, seed, tier, scale, work):
        self.pid, self.cfg, self.st, self.prog, self.seed, self.tier, self.scale, self.work = pid, cfg, st, prog, seed, tier, scale, work
        self.flav = st["flav"]; self.n = st.get("shards", NCPU); self.par = st.get("par", NCPU)
        self.tag = st.get("tag", self.flav)
        self.mb = 3800 if self.flav in ("std", "mp") else 0
        self.slow = self.flav not in ("std", "mp")

    def cmd(self, shard, extra, progress):
        c = [self.prog, "--prop", self.pid, "--seed", str(self.seed), "--scale", repr(self.scale), "--shard", str(shard), "--nshards", str(self.n), "--progress", progress] + extra
        if self.tier == "thorough":
            c.append("--thorough")
        if self.st.get("tool") == "valgrind":
            c = ["valgrind", "-q", "--error-exitcode=9", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=20"] + c
        return c

    def once(self, shard, extra, name):
        b = os.path.join(self.work, "%s-%s" % (self.tag.replace(" ", "_"), name))
        t = 150 if self.slow else 100
        io = list(self.st.get("io", []))
        io = [x.replace("@", str(shard)) for x in io]
        rc, case, dump = run_proc(self.cmd(shard, extra + io, b + ".p"), b + ".o", b + ".e", b + ".p", self.mb, t, 4 * t)
        v, st = parse(b + ".o")
        err = open(b + ".e", encoding="utf-8", errors="replace").read()
        return rc, case, dump, v, st, err

    def shard(self, k):
        rc, case, dump, v, st, err = self.once(k, [], "s%d" % k)
        if rc == 0 and st is not None:
            return v, st
        if rc == 2 or rc == 3:
            raise BuildError("monitor gave up (exit %d): %s" % (rc, err[-2000:]))
        why = "did not terminate" if rc is None else "was killed by signal %d (%s)" % (-rc, signal.Signals(-rc).name) if rc < 0 else {65: "sanitizer report", 66: "data race report", 9: "memcheck report"}.get(rc, "exit code %d" % rc)
        rep = rc in (65, 66, 9)
        if not rep and case[1] >= 0:  # a crash or hang is believed when the case alone repeats it
            rc2, _, d2, v2, st2, err2 = self.once(k, ["--group", case[0], "--case", str(case[1])], "r%d" % k)
            if rc2 == 0 and st2 is not None:
                rc3, case3, d3, v3, st3, err3 = self.once(k, [], "t%d" % k)
                if rc3 == 0 and st3 is not None:
                    return v3, st3
                case, dump, err = case3, d3, err3
            else:
                dump, err = d2 or dump, err2 or err
        if case[1] < 0 and not rep:
            raise BuildError("monitor failed before its first case (%s): %s" % (why, err[-2000:]))
        head = ""
        for l in err.splitlines():
            if "ERROR:" in l or "runtime error" in l or "WARNING: ThreadSanitizer" in l or ("==" in l and ("Invalid" in l or "uninitialised" in l)) or "Assertion" in l or "what()" in l:
                head = l.strip()[:300]; break
        v = v + [dict(group=case[0], case=case[1], key="", msg="%s: %s %s" % (self.tag, why, head), dump=dump, report=err[-6000:])]
        return v, st or dict(evals=0, counters={}, max={}, samples=[], sig=[])

    def run(self):
        with ThreadPoolExecutor(self.par) as ex:
            res = list(ex.map(self.shard, range(self.n)))
        return [(v, s) for v, s in res]


def merge(res, acc):
    for v, s in res:
        acc["viol"] += v
        acc["evals"] += s["evals"]
        for k, n in s["counters"].items():
            acc["cnt"][k] = acc["cnt"].get(k, 0) + n
        for k, n in s["max"].items():
            acc["max"][k] = max(acc["max"].get(k, n), n)
        acc["sig"].update(s["sig"])
        acc["samples"] += s["samples"]


def python_stage(pid, seed, tier, scale, work, prog, only=None):
    """C19: the std monitor writes what C++ did, the Python monitor repeats it"""
    d = make_py()

    def one(k):
        f = os.path.join(work, "py-%d.jsonl" % k)
        base = [prog, "--prop", pid, "--seed", str(seed * 1000 + k), "--scale", repr(scale / 4.0), "--out", f] + (["--thorough"] if tier == "thorough" else [])
        rc, case, dump = run_proc(base, f + ".o0", f + ".e0", None, 6000, 300, 900)
        if rc != 0:
            raise BuildError("dump for Python failed (%s)" % rc)
        c = ["/usr/bin/python3", os.path.join(V, "mon", "pymon.py"), d, f, str(seed * 1000 + k), repr(scale)]
        rc, case, dump = run_proc(c, f + ".o", f + ".e", None, 6000, 300, 900)
        v, st = parse(f + ".o")
        for x in v:
            x["shard"] = k
        if rc != 0 or st is None:
            err = open(f + ".e", errors="replace").read()
            v = v + [dict(group="python", case=-1, key="", shard=k, msg="the Python side failed: " + (err.strip().splitlines() or ["exit %s" % rc])[-1][:400], dump="", report=err[-4000:])]
            st = dict(evals=0, counters={}, max={}, samples=[], sig=[])
        return v, st

    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, range(4 if only is None else 4)))


def known():
    f = os.path.join(V, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else {"known": [], "fixed": []}


def check(pid, tier, seed):
    t0 = time.time(); cfg = P[pid]
    work = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid())); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    acc = dict(viol=[], evals=0, cnt={}, max={}, sig=set(), samples=[])
    stages = {}
    kn = {k["key"]: k for k in known()["known"] if k["property"] == pid}
    try:
        progs = [(s, make(cfg["src"], cfg["defs"], s["flav"])) for s in cfg["stages"]]
        for s, prog in progs:
            scale = s[tier]
            if cfg.get("kind") == "py":
                res = python_stage(pid, seed, tier, scale, work, prog)
            elif cfg.get("kind") == "mp":
                mp = make(cfg["src"], cfg["defs"], "mp")
                a = Stage(pid, cfg, dict(s, io=["--out", os.path.join(work, "std-@.txt")]), prog, seed, tier, scale, work).run()
                merge([(v, dict(x, evals=0, counters={}, sig=[], samples=[])) for v, x in a], acc)
                res = Stage(pid, cfg, dict(s, flav="mp", io=["--in", os.path.join(work, "std-@.txt")]), mp, seed, tier, scale, work).run()
            else:
                res = Stage(pid, cfg, s, prog, seed, tier, scale, work).run()
            n0 = acc["evals"]; merge(res, acc)
            for v, _ in res:
                for x in v:
                    x.setdefault("flav", s["flav"]); x.setdefault("scale", scale)
            stages[s.get("tag", s["flav"])] = acc["evals"] - n0
            if any(not (v.get("key") and v["key"] in kn) for v in acc["viol"]):
                break  # already decided
    except BuildError as e:
        log("no verdict for %s: %s" % (pid, e)); shutil.rmtree(work, ignore_errors=True)
        return 2
    new, seen = [], {}
    for v in acc["viol"]:
        if v.get("key") and v["key"] in kn:
            seen[v["key"]] = v
        else:
            new.append(v)
    for k in kn:
        if k in seen:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, kn[k]["what"]))
    paths = []
    rd = os.path.join(V, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
    for f in glob.glob(os.path.join(rd, pid + "-*.json")):
        os.remove(f)
    for i, v in enumerate(new[:5]):
        p = os.path.join(rd, "%s-%d.json" % (pid, i))
        json.dump(dict(property=pid, seed=seed, tier=tier, **v), open(p, "w"), indent=1)
        paths.append(p)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=acc["evals"], distinct_nontrivial=len(acc["sig"]), rule=RULE[cfg["src"]], samples=acc["samples"][:5],
                            counters=dict(sorted(acc["cnt"].items())), maxima=acc["max"], evaluations_by_build=stages),
              assumptions=ASSUME.get(cfg["src"], []) + ([ASSUME_MON] if cfg["src"] == "mon.cpp" else []),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    if seen:
        ev["coverage"]["known_findings_observed"] = sorted(seen)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    if new:
        for v, p in zip(new, paths):
            print("VIOLATION property=%s replay=%s" % (pid, p))
            log("  [%s#%s] %s" % (v["group"], v["case"], v["msg"][:500]))
        return 1
    few = ["%s: %d < %d" % (k, acc["cnt"].get(k, 0), n) for k, n in cfg["need"].items() if acc["cnt"].get(k, 0) < n]
    if len(acc["sig"]) < 500:
        few.append("only %d distinct non-trivial cases" % len(acc["sig"]))
    if few:
        log("no verdict for %s: observed too little: %s" % (pid, "; ".join(few)))
        return 2
    print("%s held: %d evaluations, %d distinct non-trivial, %.1f s" % (pid, acc["evals"], len(acc["sig"]), time.time() - t0))
    return 0


ASSUME_MON = "Trusted: the reference model mon/ref.hpp (independent symbolic summation evaluated in IEEE quad; itself compared with brute-force Matsubara sums in C01), libquadmath, and the rounding bound it derives from the sizes of its own terms. Points closer than 1e-4 (relative) to the vanishing of one denominator, or 1e-3 to a pole of a Bose factor, are skipped and counted."
ASSUME = {
    "dist.cpp": ["Trusted: expq/sinq/cosq of libquadmath and exact integer coefficients of the derivatives."],
    "thr.cpp": ["ThreadSanitizer sees only the interleavings that ran; happens-before analysis extends this to unsynchronised accesses on the paths executed."],
    "san.cpp": ["A sanitizer decides only the executions observed; uninitialised reads are decided by valgrind memcheck on a smaller sample."],
}


def replay(path):
    r = json.load(open(path)); pid = r["property"]; cfg = P[pid]
    print("property %s, group %s, case %s\n%s\n%s" % (pid, r["group"], r["case"], r["msg"], r.get("dump", "")))
    if cfg.get("kind") == "py" or r["case"] < 0:
        return check(pid, r["tier"], r["seed"])
    fl = r.get("flav", "std")
    st = [s for s in cfg["stages"] if s["flav"] == fl] or [dict(flav=fl)]
    prog = make(cfg["src"], cfg["defs"], fl)
    c = [prog, "--prop", pid, "--seed", str(r["seed"]), "--scale", repr(r.get("scale", 1e6)), "--group", r["group"], "--case", str(r["case"])] + (["--thorough"] if r["tier"] == "thorough" else [])
    if st[0].get("tool") == "valgrind":
        c = ["valgrind", "-q", "--error-exitcode=9", "--leak-check=no"] + c
    if cfg.get("kind") == "mp":
        return check(pid, r["tier"], r["seed"])
    print(" ".join(c)); sys.stdout.flush()
    env = dict(os.environ); env.update(ENV)
    return subprocess.call(c, env=env)


def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == "--replay":
        return replay(a[1])
    if a == ["--setup"]:  # nothing is kept between runs: just say whether the tools are there
        for t in (["g++", "--version"], ["valgrind", "--version"], ["/usr/bin/python3", "--version"]):
            subprocess.run(t, check=True, stdout=subprocess.DEVNULL)
        return 0
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1); pid = None
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--seed": seed = int(a.pop(0))
        else: pid = x
    if pid not in P or tier not in ("quick", "thorough"):
        log(__doc__); return 2
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    return check(pid, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
