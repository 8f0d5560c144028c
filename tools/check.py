#!/usr/bin/env python3
"""Build one harness against /repo's current working tree and run it.

usage: check.py <property-id> [quick|thorough]     (VERIF_SEED / VERIF_TIER are honoured)
       check.py <property-id> replay <file>
Exit 0: nothing violated; 1: a VIOLATION line was printed; 2: the check itself could not run.
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
NEEDS_ROOT = {"ROOTNtuple.cpp", "ROOTTree.cpp", "BinnedEDGenerator.cpp", "DistTools.cpp", "EventConvolution.cpp",
              "ROOTMultiPlot.cpp", "DataSetGenerator.cpp", "IO.cpp", "LazyOXSXDataSet.cpp", "Gaussian.cpp",
              "VaryingCDF.cpp", "MCMC.cpp", "MCMCSamples.cpp", "MetropolisSampler.cpp", "Minuit.cpp",
              "MinuitFCN.cpp", "Rand.cpp"}
JOBS = 8
SAN = {
    "gcc": ["g++", "-std=c++17", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=null",
            "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-w"],
    "fuzz": ["clang++", "-std=c++17", "-O1", "-g1", "-fsanitize=fuzzer-no-link,address,undefined",
             "-fno-sanitize-recover=undefined", "-fno-sanitize=null", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DPBT_FUZZ", "-w"],
}
LIBS = ["-larmadillo", "-lgsl", "-lgslcblas", "-lhdf5_serial_cpp", "-lhdf5_serial", "-lpthread"]


def die(msg):
    print("check.py: " + msg, file=sys.stderr)
    sys.exit(2)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def harness_info(pid):
    src = os.path.join(HARNESS, pid + ".cpp")
    if not os.path.exists(src):
        die("no harness " + src)
    text = read(src).decode()
    m = re.search(r"^// SRC:(.*)$", text, re.M)
    dirs = m.group(1).split() if m else ["all"]
    m = re.search(r"^// EXTRA:(.*)$", text, re.M)     # ROOT-dependent sources built against the stand-in headers
    extra = m.group(1).split() if m else []
    m = re.search(r"^// FUZZ:(.*)$", text, re.M)
    fuzz = (m.group(1).strip() if m else "yes") == "yes"
    return src, dirs, extra, fuzz


def build(pid, flavour="gcc", everything=False):
    src, dirs, extra, _ = harness_info(pid)
    if everything:
        dirs = ["all"]
    flags = SAN[flavour]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    # flat copy of the headers, as the project's own build does
    headers, sources = [], []
    for root, _, files in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith((".h", ".hpp", ".hh")):
                headers.append(p)
            elif f.endswith(".cpp"):
                d = os.path.relpath(root, os.path.join(REPO, "src"))
                if f in extra or (f not in NEEDS_ROOT and (dirs == ["all"] or d in dirs)):
                    sources.append(p)
    hk = sha(*[os.path.basename(h) + sha(read(h)) for h in headers])
    inc = os.path.join(BUILD, "inc-" + hk)
    if not os.path.isdir(inc):
        tmp = inc + ".%d" % os.getpid()
        os.makedirs(tmp)
        for h in headers:
            shutil.copy(h, os.path.join(tmp, os.path.basename(h)))
        try:
            os.rename(tmp, inc)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    stub = os.path.join(HARNESS, "rootstub")
    stubk = sha(*[read(os.path.join(d, f)) for d, _, fs in sorted(os.walk(stub)) for f in sorted(fs)])
    hh = [os.path.join(HARNESS, f) for f in sorted(os.listdir(HARNESS)) if f.endswith(".hpp")]
    hhk = sha(*[read(f) for f in hh])
    base = flags + (["-I" + stub] if extra else []) + ["-I" + inc, "-I/usr/include/hdf5/serial"]

    def obj(path, is_harness):
        key = sha(" ".join(flags), hk, stubk if extra else "", hhk if is_harness else "", path, read(path))
        return os.path.join(BUILD, "obj", key + ".o")

    jobs = []
    for s in [src, os.path.join(HARNESS, "driver.cpp")]:
        jobs.append((s, obj(s, True), True))
    for s in sources:
        jobs.append((s, obj(s, False), False))
    # biggest first
    todo = sorted([j for j in jobs if not os.path.exists(j[1])], key=lambda j: (not j[2], -os.path.getsize(j[0])))

    def compile_one(j):
        s, o, is_h = j
        t = o + ".%d.tmp" % os.getpid()
        r = subprocess.run(base + (["-I" + HARNESS] if is_h else []) + ["-c", s, "-o", t], capture_output=True, text=True)
        if r.returncode and flavour == "fuzz" and not is_h:  # what only g++ accepts takes part without instrumentation
            r = subprocess.run(["g++", "-std=c++17", "-O1", "-w"] + [f for f in base if f.startswith("-I")] + ["-c", s, "-o", t],
                               capture_output=True, text=True)
        if r.returncode:
            return "%s:\n%s" % (s, r.stderr[-4000:])
        os.rename(t, o)
        return None

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(compile_one, todo) if e]
    if errs:
        die("compilation failed\n" + "\n".join(errs))
    objs = [j[1] for j in jobs[2:]]
    key = sha(flavour, *[j[1] for j in jobs])
    exe = os.path.join(BUILD, "%s-%s-%s" % (pid, flavour, key))
    if not os.path.exists(exe):
        lib = exe + ".a"
        if os.path.exists(lib):
            os.unlink(lib)
        subprocess.run(["ar", "rcs", lib] + objs, check=True)
        link = flags + [jobs[0][1], jobs[1][1], lib] + LIBS
        if flavour == "fuzz":
            link = [f for f in link if not f.startswith("-fsanitize=fuzzer")] + ["-fsanitize=fuzzer,address,undefined"]
        r = subprocess.run(link + ["-o", exe + ".tmp"], capture_output=True, text=True)
        os.unlink(lib)
        if r.returncode and dirs != ["all"]:
            return build(pid, flavour, True)  # the code now depends on more of the library than the harness names
        if r.returncode:
            die("link failed\n" + r.stderr[-6000:])
        os.rename(exe + ".tmp", exe)
    return exe


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def violation(pid, v, evid):
    print("check %s: facet=%s id=%s" % (pid, v.get("facet"), v.get("id")))
    print("  " + v.get("message", "").replace("\n", "\n  ")[:1500])
    print("  case: " + v.get("case", "").replace("\n", "\n  ")[:1500])
    print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    evid["violations"] = 1
    evid["coverage"].setdefault("violation", {k: v[k] for k in ("facet", "id", "message", "replay") if k in v})


def main():
    if len(sys.argv) < 2:
        die(__doc__)
    pid = sys.argv[1]
    if pid == "--selfcheck":
        for tool in ("g++", "clang++", "ar"):
            if not shutil.which(tool):
                die(tool + " is missing")
        for f in sorted(os.listdir(HARNESS)):
            if re.fullmatch(r"P\d+\.cpp", f):
                harness_info(f[:-4])
        print("framework present; every check builds what it needs from /repo")
        return
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    script = os.path.join(HARNESS, pid + ".py")
    if os.path.exists(script):            # the property is about the scripts in util/, not the library
        py = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
        if mode == "replay":
            sys.exit(subprocess.run([py, script, "replay", REPO, sys.argv[3]]).returncode)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        secs = os.environ.get("VERIF_SECS") or str({"quick": 20, "thorough": 300}[mode])
        r = subprocess.run([py, "-B", script, "run", REPO, mode, os.environ.get("VERIF_SEED", "1") or "1", secs,
                            os.path.join(VERIF, "evidence", pid + ".json"), os.path.join(VERIF, "replays", pid)],
                           env=dict(os.environ, PYTHONHASHSEED=str(int(os.environ.get("VERIF_SEED", "1") or 1) % 2 ** 32)))
        sys.exit(r.returncode if r.returncode in (0, 1) else 2)
    if mode == "replay":
        exe = build(pid)
        sys.exit(subprocess.run([exe, "replay", sys.argv[3]]).returncode)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    exe = build(pid)
    fuzz_ok = harness_info(pid)[3]
    build_s = time.time() - t0
    replays = os.path.join(VERIF, "replays", pid)
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    out = os.path.join(BUILD, "%s.%d.json" % (pid, os.getpid()))
    secs = {"quick": 20, "thorough": 300}[mode]
    if os.environ.get("VERIF_SECS"):
        secs = float(os.environ["VERIF_SECS"])
    evid = {"property": pid, "tier": mode, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []},
            "assumptions": ["the C++ compiler, the standard library, Armadillo and the sanitizer runtimes are correct",
                            "the reference models in harness/%s.cpp state the property correctly" % pid],
            "violations": 0, "wall_s": 0.0}
    rc = 0
    for key, text in known_findings(pid):
        r = subprocess.run([exe, "probe", key])
        if r.returncode == 1:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
        elif r.returncode != 0:
            die("probe %s did not run" % key)
    r = subprocess.run([exe, "run", "--seed", str(seed), "--workers", str(JOBS), "--secs", str(secs), "--min", "300",
                        "--out", out, "--replays", replays, "--shrink", "45"])
    try:
        res = json.load(open(out))
    except Exception as e:
        die("harness gave no result (exit %d): %s" % (r.returncode, e))
    os.unlink(out)
    if "violation" in res:
        evid["coverage"]["evaluations"] = res["violation"]["evaluations"]
        evid["coverage"]["distinct_nontrivial"] = 0
        evid["coverage"]["rule"] = "stopped at the first violation"
        evid["coverage"]["samples"] = [res["violation"]["case"]]
        violation(pid, res["violation"], evid)
        rc = 1
    elif "unreproducible" in res:
        die("a failure did not reproduce: %s" % res["unreproducible"])
    else:
        evid["coverage"].update(res)
        if res["distinct_nontrivial"] < 50:
            die("too few non-trivial cases: %d" % res["distinct_nontrivial"])
        for f, n in res["facets"].items():
            if n.get("once"):
                if n["evaluations"] != 1:
                    die("large case %s was run %d times" % (f, n["evaluations"]))
                continue
            if n["evaluations"] < 20 or n["nontrivial"] < 3:
                die("facet %s was hardly exercised: %s" % (f, n))
    if rc == 0 and mode == "thorough" and fuzz_ok:
        fexe = build(pid, "fuzz")
        work = os.path.join(BUILD, "fuzz-%s-%d" % (pid, os.getpid()))
        os.makedirs(work)
        fsecs = int(float(os.environ.get("VERIF_FUZZ_SECS", "240")))
        procs = []
        for i in range(JOBS):
            art = os.path.join(work, "art%d-" % i)
            log = open(os.path.join(work, "log%d" % i), "w")
            corpus = os.path.join(work, "corpus")
            os.makedirs(corpus, exist_ok=True)
            procs.append(subprocess.Popen(
                [fexe, "-max_total_time=%d" % fsecs, "-artifact_prefix=" + art, "-seed=%d" % (seed * 100 + i + 1), "-max_len=600",
                 "-len_control=10", "-reload=1", "-rss_limit_mb=3000", "-timeout=60", "-print_final_stats=1", corpus],
                stdout=log, stderr=log, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0")))
        for p in procs:
            p.wait()
        execs = 0
        for i in range(JOBS):
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", open(os.path.join(work, "log%d" % i), errors="replace").read())
            execs += int(m.group(1)) if m else 0
        evid["coverage"]["coverage_guided_executions"] = execs
        evid["coverage"]["coverage_guided_corpus"] = len(os.listdir(os.path.join(work, "corpus")))
        for f in sorted(os.listdir(work)):
            if f.startswith("art") and not ("slow-unit" in f or "oom-" in f or "timeout-" in f):
                r = subprocess.run([exe, "frombytes", "--file", os.path.join(work, f), "--out", out, "--replays", replays,
                                    "--shrink", "45"])
                if os.path.exists(out):
                    res = json.load(open(out))
                    os.unlink(out)
                    if "violation" in res:
                        violation(pid, res["violation"], evid)
                        rc = 1
                        break
        shutil.rmtree(work, ignore_errors=True)
    evid["coverage"]["build_s"] = round(build_s, 1)
    evid["wall_s"] = round(time.time() - t0, 2)
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(evid, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    if rc == 0:
        print("OK property=%s evaluations=%d nontrivial=%d wall=%.1fs" %
              (pid, evid["coverage"]["evaluations"], evid["coverage"]["distinct_nontrivial"], evid["wall_s"]))
    sys.exit(rc)


main()
