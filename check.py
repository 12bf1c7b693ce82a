#!/usr/bin/env python3
"""Build the code under test and the harness from /repo's working tree, run one property's
generated-input search, write its evidence file.

  check.py C01 [quick|thorough]     run a check (VERIF_SEED, VERIF_TIER honoured)
  check.py --replay FILE            re-run a replay file
  check.py --setup                  build everything once
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(V, "build")
REPLAYS = os.path.join(V, "replays")
NPROC = os.cpu_count() or 8

INC = [f"-I{REPO}/{d}" for d in ("src", "generated", "src/gdlib", "src/global", "src/rtl")]
BASE = ["-std=c++17", "-g1", "-DNDEBUG", "-DGC_NO_MUTEX", "-fno-omit-frame-pointer", "-w"] + INC
VARIANTS = {
    "asan": dict(cxx="g++", cc="gcc", flags=["-O1", "-fsanitize=address"]),
    "tsan": dict(cxx="g++", cc="gcc", flags=["-O1", "-fsanitize=thread"]),
    "plain": dict(cxx="g++", cc="gcc", flags=["-O1"]),
}

# property -> harness sources (besides core.cpp, model.cpp), build variant, extra products
CONF = {}
exec(open(os.path.join(V, "conf.py")).read())

LEVELS = {}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def header_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, fs in sorted(os.walk(d)):
            if "/tests" in root or "/.git" in root or "/examples" in root:
                continue
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inc")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


_hh = {}


def compile_all(srcs, variant, extra=()):
    """srcs: list of source paths; returns object paths (content-addressed cache)."""
    v = VARIANTS[variant]
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    if "h" not in _hh:
        _hh["h"] = header_hash([REPO + "/src", REPO + "/generated"])
        _hh["v"] = header_hash([V + "/harness"])
    jobs, objs = [], []
    for s in srcs:
        c = s.endswith(".c")
        flags = [f for f in BASE if not (c and f.startswith("-std="))] + v["flags"] + list(extra) + [f"-I{V}/harness"]
        h = hashlib.sha256()
        h.update(" ".join(flags).encode())
        h.update(s.encode())
        h.update(open(s, "rb").read())
        h.update(_hh["h"].encode())
        if s.startswith(V):
            h.update(_hh["v"].encode())
        o = os.path.join(out, os.path.basename(s).replace(".", "_") + "-" + h.hexdigest()[:24] + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(([v["cc"] if c else v["cxx"]] + flags + ["-c", s], o))

    def one(j):
        cmd, o = j
        t = o + f".{os.getpid()}.tmp"
        r = sh(cmd + ["-o", t])
        if r.returncode == 0:
            os.replace(t, o)
        return r, cmd

    # big files first
    jobs.sort(key=lambda j: -os.path.getsize(j[0][-1]))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r, cmd in ex.map(one, jobs):
            if r.returncode:
                sys.stderr.write("build failed: " + " ".join(cmd) + "\n" + r.stderr[-4000:] + "\n")
                sys.exit(2)
    return objs


def link(objs, variant, name, extra=()):
    v = VARIANTS[variant]
    h = hashlib.sha256((" ".join(sorted(objs)) + " ".join(extra)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, variant, f"{name}-{h}")
    if not os.path.exists(exe):
        t = exe + f".{os.getpid()}.tmp"
        r = sh([v["cxx"]] + v["flags"] + objs + list(extra) + ["-o", t])
        if r.returncode:
            sys.stderr.write("link failed\n" + r.stderr[-4000:] + "\n")
            sys.exit(2)
        os.replace(t, exe)
    return exe


def lib_sources():
    s = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/gdlib/*.cpp") + glob.glob(REPO + "/src/rtl/*.cpp")
               + glob.glob(REPO + "/src/rtl/*.c") + glob.glob(REPO + "/src/gdlib/*.c"))
    return s


def build(prop):
    cf_ = CONF[prop]
    variant = cf_.get("variant", "asan")
    srcs = lib_sources() + [f"{V}/harness/{f}" for f in ["core.cpp", "model.cpp"] + cf_["src"]]
    srcs += [f"{REPO}/{f}" for f in cf_.get("repo_src", [])]
    objs = compile_all(srcs, variant)
    env = {}
    if cf_.get("tools") or cf_.get("clib"):
        env = build_tools(cf_.get("tools", []), cf_.get("clib"))
    exe = link(objs, variant, prop if not cf_.get("shared") else cf_["shared"], ["-lz", "-ldl", "-lpthread"])
    return exe, env


def build_tools(tools, clib):
    """Shared C library and the command line tools, laid out in one directory."""
    variant = "asan" if tools else "plain"
    fl = ["-fPIC"] if tools else ["-fPIC", "-O2"]
    lib = lib_sources() + [REPO + "/generated/gdxcclib.cpp"]
    objs = compile_all(lib, variant, fl)
    h = hashlib.sha256(" ".join(sorted(objs)).encode())
    tobj = {}
    for t in tools:
        ts = sorted(glob.glob(f"{REPO}/src/tools/{t}/*.cpp") + glob.glob(f"{REPO}/src/tools/library/*.cpp")) + [REPO + "/generated/gdxcc.c"]
        tobj[t] = compile_all(ts + lib_sources(), variant, fl + ["-I" + REPO, "-I" + REPO + "/src/tools"])
        h.update(" ".join(tobj[t]).encode())
    d = os.path.join(BUILD, "tools-" + h.hexdigest()[:24])
    if not os.path.exists(d + "/.ok"):
        os.makedirs(d, exist_ok=True)
        v = VARIANTS[variant]
        jobs = [["g++"] + v["flags"] + ["-shared", "-o", d + "/libgdxcclib64.so"] + objs + ["-lz", "-ldl", "-lpthread"]]
        for t, o in tobj.items():
            jobs.append(["g++", "-Wl,--disable-new-dtags,-rpath,$ORIGIN"] + v["flags"] + ["-o", f"{d}/{t}"] + o + ["-lz", "-ldl", "-lpthread"])
        for j in jobs:
            r = sh(j)
            if r.returncode:
                sys.stderr.write("link failed\n" + r.stderr[-4000:])
                sys.exit(2)
        open(d + "/.ok", "w").close()
    return {"VP_TOOLS": d}


def known_findings(prop):
    res = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) probe=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def run_env(extra):
    e = dict(os.environ)
    for k in ("GDXCOMPRESS", "GDXCONVERT", "LD_PRELOAD", "ASAN_OPTIONS", "TSAN_OPTIONS"):
        e.pop(k, None)
    e["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_signal_unsafe=0"
    e["LC_ALL"] = "C"
    e.update(extra)
    return e


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for p in CONF:
            build(p)
        return 0
    if a and a[0] == "--replay":
        prop = None
        with open(a[1]) as f:
            prop = f.read().split()[2]
        exe, env = build(prop)
        return subprocess.run([exe, "--replay", os.path.abspath(a[1])], env=run_env(env)).returncode
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    exe, env = build(prop)
    cf_ = CONF[prop]
    scratch = tempfile.mkdtemp(prefix=f"vp_{prop}_", dir="/tmp")
    out = os.path.join(scratch, "out.json")
    work = os.path.join(scratch, "w")
    os.makedirs(work)
    os.makedirs(REPLAYS, exist_ok=True)
    kf = known_findings(prop)
    cmd = [exe, "--prop", prop, "--tier", tier, "--seed", str(seed), "--jobs", str(cf_.get("jobs", NPROC)),
           "--budget", str(cf_.get("budget", (150, 1500))[0 if tier == "quick" else 1]),
           "--out", out, "--replay-dir", REPLAYS, "--scratch", work]
    if os.environ.get("VP_SCALE"):
        cmd += ["--scale", os.environ["VP_SCALE"]]
    r = subprocess.run(cmd, env=run_env(env), stdout=subprocess.PIPE, text=True)
    try:
        res = json.load(open(out))
    except Exception as ex:
        sys.stderr.write(f"harness ended with {r.returncode} and no result: {ex}\n")
        shutil.rmtree(scratch, ignore_errors=True)
        return 2
    shutil.rmtree(scratch, ignore_errors=True)
    viol = []
    for v in res["violations"]:
        hit = [k for k in kf if v["sub"] == k[0]]
        if hit:
            print(f"KNOWN-FINDING: property={prop} {hit[0][1]}")
        else:
            viol.append(v)
    subs = res["subs"]
    man = json.load(open(os.path.join(V, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "exploration")
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(
                  evaluations=sum(x["evaluations"] for x in subs),
                  distinct_nontrivial=sum(x["distinct"] for x in subs),
                  rule="; ".join(f"[{x['name']}] {x['rule']}" for x in subs),
                  samples=[f"[{x['name']}] {y}" for x in subs for y in x["samples"][:4]],
                  per_generator=[dict(name=x["name"], evaluations=x["evaluations"], nontrivial=x["nontrivial"], distinct=x["distinct"], labels=x["labels"]) for x in subs],
                  failures_not_reproduced=bool(res["unreplayed"])),
              assumptions=cf_.get("assumptions", ["the reference model in harness/ states the documented behaviour", "Linux x86-64, little endian, system zlib"]),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in viol:
        print(f"  {v['sub']}: {v['msg']}")
        print(f"VIOLATION property={prop} replay={v['replay']}")
    if viol:
        return 1
    print(f"OK property={prop} tier={tier} evaluations={ev['coverage']['evaluations']} distinct_nontrivial={ev['coverage']['distinct_nontrivial']} wall={ev['wall_s']}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
