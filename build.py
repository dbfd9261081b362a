#!/usr/bin/env python3
"""Builds the simulated libossia from /repo's working tree and runs the checks.

  build.py setup                 build everything
  build.py check <P> [tier]      build what <P> needs, run its check
  build.py needs                 recompute needs.json (maintenance)
Objects are cached in build/ by the content of everything they were compiled from.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
B = os.environ.get("SIM_BUILD", os.path.join(V, "build"))
OBJ = os.path.join(B, "obj")
SRC = os.path.join(REPO, "src")
CXX = "g++"
COMMON = ["-std=c++20", "-w", "-g0"]
LIB = COMMON + ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer",
    "-DRAPIDJSON_HAS_STDSTRING=1", "-DTINYSPLINE_DOUBLE_PRECISION",
    "-DBOOST_MATH_DISABLE_FLOAT128=1", "-DBOOST_ASIO_DISABLE_CONCEPTS=1", "-DBOOST_ASIO_DISABLE_EPOLL=1",
    "-DFMT_HEADER_ONLY=1", "-DSPDLOG_FMT_EXTERNAL", "-DFMT_USE_CONSTEVAL=0", "-DFMT_CONSTEVAL=",
    "-DOSSIA_SIM=2", "-DOSSIA_ASAN=1", # as under ASan: no SSE in rapidjson, which reads up to 15 bytes more than there are
    "-I" + V + "/shim", "-I" + B + "/ws", "-include", V + "/shim/sim_prefix.hpp",
    "-I" + SRC, "-I" + REPO + "/3rdparty/timertt", "-I/usr/include/concurrentqueue/moodycamel",
    "-I" + V + "/sim", "-I" + V + "/props"]
RT = COMMON + ["-O2", "-g", "-fno-builtin", "-fno-gnu-unique", "-I" + V + "/sim"]
SKIP = re.compile(r"protocols/(wiimote|artnet|joystick|leapmotion|phidgets|libmapper)|ossia/gfx/|math_expression|sound_|ossia/audio/(?!audio_parameter|audio_protocol|audio_device)")

_hash_lock = threading.Lock()
_hashes = {}
def fhash(p):
    h = _hashes.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "-"
        _hashes[p] = h
    return h

def prepare():
    os.makedirs(OBJ, exist_ok=True)
    ws = os.path.join(B, "ws", "websocketpp")
    stamp = os.path.join(B, "ws", "done3")
    if not os.path.exists(stamp):
        shutil.rmtree(os.path.join(B, "ws"), ignore_errors=True)
        shutil.copytree("/usr/include/websocketpp", ws)
        def sub(rel, *pairs):
            p = os.path.join(ws, rel)
            s = open(p).read()
            for a, b in pairs:
                s = s.replace(a, b)
            open(p, "w").write(s)
        sub("endpoint.hpp", ("~endpoint<connection,config>()", "~endpoint()"))
        sub("logger/basic.hpp", (" basic<concurrency,names>(", " basic("), ("~basic<concurrency,names>()", "~basic()"))
        sub("roles/server_endpoint.hpp", ("~server<config>()", "~server()"),
            ("    server<config>(server<config>", "    server(server<config>"))
        # a flag which every thread sets to the same value
        sub("common/network.hpp", ("static int typ = TYP_INIT;", "int typ = TYP_INIT;"))
        # waiting threads of the graph's executor spin before they sleep: less so here
        for f in ("concurrentqueue.h", "blockingconcurrentqueue.h", "lightweightsemaphore.h"):
            s = open("/usr/include/concurrentqueue/moodycamel/" + f).read()
            s = s.replace("MAX_SEMA_SPINS = 10000", "MAX_SEMA_SPINS = 3").replace("maxSpins = 10000", "maxSpins = 3")
            open(os.path.join(B, "ws", f), "w").write(s)
        open(stamp, "w").write("1")

def lib_sources():
    r = []
    for d, _, fs in os.walk(os.path.join(SRC, "ossia")):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".cpp") and not SKIP.search(p):
                r.append(p)
    r.sort()
    return r

def oname(src):
    return re.sub(r"[^A-Za-z0-9_.]", "_", os.path.relpath(src, "/")) + ".o"

def compile_one(src, flags):
    o = os.path.join(OBJ, oname(src))
    k = o + ".key"
    fl = hashlib.sha1(" ".join(flags).encode()).hexdigest()
    if os.path.exists(o) and os.path.exists(k):
        try:
            d = json.load(open(k))
            if d["flags"] == fl and all(fhash(p) == h for p, h in d["deps"]):
                return o, None
        except Exception:
            pass
    for x in (o, k):
        if os.path.exists(x):
            os.unlink(x)
    dep = o + ".d"
    r = subprocess.run([CXX] + flags + ["-MMD", "-MF", dep, "-c", src, "-o", o], capture_output=True, text=True)
    if r.returncode != 0:
        return o, r.stderr[-3000:]
    txt = open(dep).read().replace("\\\n", " ")
    files = sorted({os.path.realpath(x) for x in txt.split(":", 1)[1].split()})
    files = [x for x in files if x.startswith(REPO) or x.startswith(V)]
    json.dump({"flags": fl, "deps": [[x, fhash(x)] for x in files]}, open(k, "w"))
    os.unlink(dep)
    return o, None

def jobs():
    try:
        return max(2, len(os.sched_getaffinity(0)))
    except Exception:
        return 8

def compile_all(items):
    """items: [(src, flags)] -> ({src: obj}, {src: error})"""
    ok, bad = {}, {}
    # the slow ones first
    slow = ("osc_factory", "oscquery", "graph", "props")
    items = sorted(items, key=lambda x: 0 if any(s in x[0] for s in slow) else 1)
    with cf.ThreadPoolExecutor(jobs()) as ex:
        for (src, _), (o, e) in zip(items, ex.map(lambda x: compile_one(*x), items)):
            if e is None:
                ok[src] = o
            else:
                bad[src] = e
    return ok, bad

def rt_items():
    return [(os.path.join(V, "sim", f + ".cpp"), RT) for f in ("rt", "net", "fs", "driver")]

def rt_merge(ok):
    """The runtime as one object whose inline and template functions stay its own: the linker
    must not take those, which are not instrumented, for the ones of the library."""
    objs = [ok[s] for s, _ in rt_items()]
    out = os.path.join(OBJ, "rt_all.o")
    k = hashlib.sha1("".join(hashlib.sha1(open(o, "rb").read()).hexdigest() for o in objs).encode()).hexdigest()
    if os.path.exists(out) and os.path.exists(out + ".key") and open(out + ".key").read() == k:
        return out
    tmp = out + ".tmp.o"
    subprocess.run(["ld", "-r", "--force-group-allocation", "-o", tmp] + objs, check=True)
    syms = subprocess.run(["nm", tmp], check=True, capture_output=True, text=True).stdout
    keep = [l.split()[-1] for l in syms.splitlines() if len(l.split()) == 3 and l.split()[1] in "TDBRG"
            and not re.match(r"_Z(Z|GV|T[ISV])?N?K?S[a-z]", l.split()[-1])]
    lst = out + ".keep"
    open(lst, "w").write("\n".join(keep) + "\n")
    subprocess.run(["objcopy", "--keep-global-symbols=" + lst, tmp, out], check=True)
    os.unlink(tmp)
    open(out + ".key", "w").write(k)
    return out

def shim_items():
    return [(os.path.join(V, "shim", "oscpack_impl.cpp"), LIB), (os.path.join(V, "shim", "stubs.cpp"), LIB)]

def checks():
    return json.load(open(os.path.join(V, "checks.json")))

def prop_items(c):
    return [(os.path.join(V, "props", s), LIB) for s in c["src"]]

def link(prop, c, objs_main, objs_lib, mapfile=None):
    out = os.path.join(B, "bin_" + c.get("bin", prop))
    lib = os.path.join(B, "lib_%s.a" % c.get("bin", prop))
    if os.path.exists(lib):
        os.unlink(lib)
    subprocess.run(["ar", "rcsT", lib] + sorted(objs_lib), check=True, capture_output=True)
    cmd = [CXX, "-no-pie", "-rdynamic"] + objs_main + [lib, "-o", out + ".tmp", "-lfmt", "-lspdlog", "-lpthread", "-ldl"]
    if mapfile:
        cmd.append("-Wl,-Map=" + mapfile)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr[-4000:]
    os.replace(out + ".tmp", out)
    return out, None

def build_check(prop, c, everything=False):
    needs = {}
    try:
        needs = json.load(open(os.path.join(V, "needs.json")))
    except Exception:
        pass
    libs = lib_sources()
    key = c.get("bin", prop)
    sel = libs
    if not everything and key in needs:
        want = set(needs[key])
        sel = [x for x in libs if os.path.relpath(x, REPO) in want]
    for attempt in (0, 1):
        items = rt_items() + prop_items(c) + shim_items() + [(x, LIB) for x in sel]
        ok, bad = compile_all(items)
        must = [s for s, _ in rt_items() + prop_items(c) + shim_items()]
        for s in must:
            if s in bad:
                return None, "cannot compile %s:\n%s" % (s, bad[s])
        main = [rt_merge(ok)] + [ok[s] for s, _ in prop_items(c)]
        lib = [ok[s] for s in ok if s not in dict(rt_items() + prop_items(c))]
        out, e = link(prop, c, main, lib)
        if out:
            return out, None
        if len(sel) == len(libs):
            return None, "cannot link: %s\n%s" % (e, "\n".join("%s: %s" % (a, b[-500:]) for a, b in bad.items()))
        sel = libs
    return None, "?"

def cmd_setup():
    prepare()
    cs = checks()
    t = time.time()
    items = {}
    for s, f in rt_items() + shim_items() + [(x, LIB) for x in lib_sources()]:
        items[s] = f
    for p, c in cs.items():
        for s, f in prop_items(c):
            items[s] = f
    ok, bad = compile_all(list(items.items()))
    for s, e in bad.items():
        print("cannot compile", s, "\n", e)
    done = set()
    rc = 0
    for p, c in cs.items():
        if c.get("bin", p) in done:
            continue
        done.add(c.get("bin", p))
        out, e = build_check(p, c)
        if not out:
            print(p, e)
            rc = 2
    print("built %d objects, %d binaries in %.0f s" % (len(ok), len(done), time.time() - t))
    return rc

def cmd_needs():
    prepare()
    res = {}
    for p, c in checks().items():
        key = c.get("bin", p)
        if key in res:
            continue
        items = rt_items() + prop_items(c) + shim_items() + [(x, LIB) for x in lib_sources()]
        ok, bad = compile_all(items)
        for s, e in bad.items():
            print(s, e)
        main = [rt_merge(ok)] + [ok[s] for s, _ in prop_items(c)]
        lib = [ok[s] for s in ok if s not in dict(rt_items() + prop_items(c))]
        mp = os.path.join(B, "map.txt")
        out, e = link(p, c, main, lib, mp)
        if not out:
            print(p, e)
            return 2
        txt = open(mp).read()
        used = set()
        back = {o: s for s, o in ok.items()}
        for m in re.finditer(r"(\S+\.o)\b", txt.split("Discarded input")[0] if False else txt):
            q = os.path.join(OBJ, os.path.basename(m.group(1).rstrip(")").split("(")[-1]))
            if q in back and back[q].startswith(REPO):
                used.add(os.path.relpath(back[q], REPO))
        res[key] = sorted(used)
    json.dump(res, open(os.path.join(V, "needs.json"), "w"), indent=0, sort_keys=True)
    print({k: len(v) for k, v in res.items()})
    return 0

def cmd_check(prop, tier, extra):
    prepare()
    cs = checks()
    c = cs[prop]
    t = time.time()
    out, e = build_check(prop, c)
    if not out:
        print("ERROR property=%s build: %s" % (prop, e))
        return 2
    print("built in %.1f s" % (time.time() - t), flush=True)
    seed = os.environ.get("VERIF_SEED", "1")
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    runs, cap = c["runs"], c.get("cap", 90)
    if tier == "thorough":
        runs, cap = runs * 40, 1500
    cmd = [out, "--prop", prop, "--seed", seed, "--runs", str(runs), "--cap", str(cap), "--tier", tier,
           "--evidence", os.path.join(V, "evidence", prop + ".json"),
           "--findings", os.path.join(V, "known-findings.txt"),
           "--replay-dir", os.path.join(V, "replays"), "--jobs", str(jobs()), "--det", str(c.get("det", 50))]
    comp = {"real": c.get("real", []), "stub": c.get("stub", [])}
    cmd += ["--assume", json.dumps(comp)]
    cmd += extra
    return subprocess.run(cmd).returncode

def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        return cmd_setup()
    if a[0] == "needs":
        return cmd_needs()
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        extra = a[2:]
        if extra and extra[0] in ("quick", "thorough"):
            tier = extra.pop(0)
        return cmd_check(a[1], tier, extra)
    if a[0] == "build":
        prepare()
        rc = 0
        for p in a[1:]:
            out, e = build_check(p, checks()[p])
            print(p, out or e)
            rc |= out is None
        return rc
    return 2

sys.exit(main())
