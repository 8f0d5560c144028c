"""P32: the ntuple scripts in util/ (run by check.py with python3-vt).

The real scripts are executed as __main__ with generated command lines and generated input trees, with rootstub.py in
place of ROOT; what they leave in its files is compared with a reference. Failures are shrunk by Hypothesis.

usage: P32.py run <repo> <tier> <seed> <secs> <evidence.json> <replay dir>
       P32.py replay <repo> <file>
"""
import contextlib, io, json, math, os, random, shutil, signal, sys, tempfile, time, traceback, zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rootstub
from hypothesis import HealthCheck, Phase, given, seed as hseed, settings, strategies as st
import numpy as np

REPO = "/repo"
CODE = {}


class Violation(Exception):
    def __init__(self, vid, msg):
        Exception.__init__(self, "%s: %s" % (vid, msg))
        self.vid, self.msg = vid, msg


def want(ok, vid, msg):
    if not ok:
        raise Violation(vid, msg)


class Hang(BaseException):
    pass


def on_alarm(*a):
    raise Hang()


def script(name, args):
    """Runs util/<name> with the arguments; (kind, text): kind is 'done', 'exit' or the exception's name."""
    if name not in CODE:
        path = os.path.join(REPO, "util", name)
        try:
            CODE[name] = compile(open(path).read(), path, "exec", dont_inherit=True)
        except SyntaxError as e:
            return "SyntaxError", str(e)
    old_argv, old_root, old_path = sys.argv, sys.modules.get("ROOT"), list(sys.path)
    sys.modules["ROOT"] = rootstub.module()
    rootstub.STATE["cwd"] = None
    sys.argv = [name] + [str(a) for a in args]
    out = io.StringIO()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(60)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            exec(CODE[name], {"__name__": "__main__", "__file__": os.path.join(REPO, "util", name), "__builtins__": __builtins__})
        return "done", out.getvalue()
    except SystemExit as e:
        # a script may end with sys.exit(main())
        return ("done" if e.code in (None, 0) else "exit"), out.getvalue()
    except Hang:
        raise Violation("hang", "%s %s doesn't end" % (name, sys.argv[1:]))
    except Exception as e:
        return type(e).__name__, "%s: %s" % (type(e).__name__, e)
    finally:
        signal.alarm(0)
        sys.argv = old_argv
        sys.path[:] = old_path
        if old_root is None:
            sys.modules.pop("ROOT", None)
        else:
            sys.modules["ROOT"] = old_root


names = st.sampled_from(["energy", "x", "y", "z", "time", "r", "nhits", "evIndex", "mcEnergy", "posx", "posy", "posz", "E2", "a_b", "q",
                         "fit_valid", "itr", "beta14", "udotr", "skyShine"])
trees = st.sampled_from(["output", "T", "oxsx", "pruned", "nt", "data"])
values = st.one_of(st.integers(-1000, 1000).map(float), st.floats(-1e4, 1e4, width=32), st.floats(-1e4, 1e4), st.integers(-2 ** 31, 2 ** 31).map(float), st.sampled_from([0.0, 6005.0, -6005.0, 0.1, 1e-3]))


@st.composite
def table(draw, need=(), least=1):
    bs = list(need) + draw(st.lists(names.filter(lambda n: n not in need), min_size=max(0, least - len(need)), max_size=6, unique=True))
    order = draw(st.permutations(bs))
    n = draw(st.one_of(st.integers(0, 12), st.integers(0, 60)))
    # rows that can be told apart: the entry's number is in every value unless drawn otherwise
    if n > 12 or draw(st.booleans()):
        k = draw(st.integers(1, 97))
        rows = [[float(k * i + 1000 * j) for j in range(len(order))] for i in range(n)]
    else:
        rows = [[draw(values) for _ in order] for _ in range(n)]
    return {"branches": list(order), "rows": rows}


paths = st.sampled_from(["in.root", "run_1.root", "sub/deep/events.ntuple.root", "a.b.root", "noext", "./x.root"])


@st.composite
def prune_case(draw):
    t = draw(table())
    k = draw(st.integers(1, len(t["branches"])))
    pick = draw(st.permutations(t["branches"]))[:k]
    tree = draw(trees)
    opts = {}
    if tree != "output" or draw(st.booleans()):
        opts["-treename"] = tree
    if draw(st.booleans()):
        opts["-newtreename"] = draw(trees)
    if draw(st.booleans()):
        opts["-outfile"] = draw(st.sampled_from(["out.root", "o/p.root", "pruned"]))
    n = len(t["rows"])
    if draw(st.booleans()):
        opts["-nevents"] = draw(st.sampled_from([0, 1, 2, n - 1, n, n + 1, n + 7, n // 2, -1, -5]))
    return {"table": t, "pick": list(pick), "tree": tree, "opts": opts, "split": draw(st.integers(0, len(opts))),
            "first": draw(st.booleans()), "path": draw(paths), "decoy": draw(st.booleans()), "bad": None}


@st.composite
def prune_bad(draw):
    c = draw(prune_case())
    kind = draw(st.sampled_from(["branch", "tree", "file"]))
    c["bad"] = kind
    if kind == "branch":
        c["pick"].insert(draw(st.integers(0, len(c["pick"]))), draw(absent(c["table"]["branches"])))
    elif kind == "tree":
        c["opts"]["-treename"] = "nosuchtree"
    else:
        c["path"] = "nowhere.root"
    return c


def absent(branches):
    """Names that are not among the branches, also ones that look like them."""
    l = ["missing"] + [f(b) for b in branches for f in (str.upper, str.lower, lambda b: b[:-1], lambda b: b[1:], lambda b: b + "s", lambda b: b * 2)]
    return st.sampled_from([b for b in dict.fromkeys(l) if b and b not in branches])


def command(c, positional):
    o = [[k, str(v)] for k, v in c["opts"].items()]
    a, b = o[:c["split"]], o[c["split"]:]
    flat = lambda l: [x for p in l for x in p]
    if c["first"]:
        return flat(a) + positional + flat(b)
    return positional[:1] + flat(a) + positional[1:] + flat(b)


def setup(c):
    rootstub.FILES.clear()
    p = os.path.abspath(c["path"])
    data = rootstub.Data(c["table"]["branches"], c["table"]["rows"])
    rootstub.FILES[p] = {}
    if c["decoy"]:
        rootstub.FILES[p]["decoy"] = rootstub.Data(["d"], [[1.0]])
    rootstub.FILES[p][c["tree"]] = data
    return p, data


def check_files(c, p, data, out):
    fs = rootstub.FILES
    want(p in fs and fs[p].get(c["tree"]) is data and data.rows == [tuple(r) for r in c["table"]["rows"]], "input-changed",
         "the input tree is not what it was")
    want(set(fs) == {p, out}, "files", "files written: %s want %s" % (sorted(set(fs) - {p}), [out]))


def refused(c, p, kind):
    if c["bad"] == "file":
        left = {f: ts for f, ts in rootstub.FILES.items()}
    else:
        left = {f: ts for f, ts in rootstub.FILES.items() if f != p}
    n = sum(len(d.rows) for ts in left.values() for d in ts.values())
    want(n == 0 and not any(ts for ts in left.values()), "written-anyway", "a %s that isn't there, and still a tree is written: %s" % (c["bad"], sorted(left)))


def run_prune(c):
    p, data = setup(c)
    if c["bad"] == "file":
        rootstub.FILES.clear()
    kind, text = script("prune_flat_tree", command(c, [c["path"]] + c["pick"]))
    want(kind != "SyntaxError", "syntax", text)
    if c["bad"]:
        refused(c, p, kind)
        return True
    want(kind == "done", "failed", "%s %s" % (kind, text[-300:]))
    out = os.path.abspath(c["opts"].get("-outfile") or os.path.splitext(os.path.basename(c["path"]))[0] + "_oxsx.root")
    check_files(c, p, data, out)
    name = c["opts"].get("-newtreename") or c["opts"].get("-treename", "output")
    want(list(rootstub.FILES[out]) == [name], "tree-name", "trees written: %s want %s" % (list(rootstub.FILES[out]), name))
    got = rootstub.FILES[out][name]
    want(got.branches == c["pick"], "branches", "got %s want %s" % (got.branches, c["pick"]))
    n = c["opts"].get("-nevents", -1)
    rows = c["table"]["rows"] if n < 0 else c["table"]["rows"][:n]
    want(len(got.rows) == len(rows), "entries", "%d entries of %d, asked for %d: got %d" % (len(rows), len(c["table"]["rows"]), n, len(got.rows)))
    ix = [c["table"]["branches"].index(b) for b in c["pick"]]
    for i, (g, r) in enumerate(zip(got.rows, rows)):
        w = tuple(rootstub.f32(r[j]) for j in ix)
        want(g == w, "values", "entry %d: got %s want %s" % (i, g, w))
    return len(rows) > 0


@st.composite
def radius_case(draw):
    xyz = draw(st.lists(names, min_size=3, max_size=3, unique=True))
    t = draw(table(need=xyz, least=3))
    tree = draw(trees)
    opts = {}
    if tree != "output" or draw(st.booleans()):
        opts["-treename"] = tree
    if draw(st.booleans()):
        opts["-rname"] = draw(st.sampled_from(["r3", "rho"]))
    if draw(st.booleans()):
        opts["-outfile"] = draw(st.sampled_from(["out.root", "o/p.root", "pruned"]))
    keep = draw(st.permutations(xyz))[:draw(st.integers(0, 3))]
    return {"table": t, "xyz": xyz, "tree": tree, "opts": opts, "split": draw(st.integers(0, len(opts))), "keep": list(keep),
            "first": draw(st.booleans()), "path": draw(paths), "decoy": draw(st.booleans()), "bad": None}


@st.composite
def radius_bad(draw):
    c = draw(radius_case())
    c["bad"] = draw(st.sampled_from(["branch", "tree"]))
    if c["bad"] == "branch":
        c["xyz"][draw(st.integers(0, 2))] = draw(absent(c["table"]["branches"]))
        c["keep"] = []
    else:
        c["opts"]["-treename"] = "nosuchtree"
    return c


def run_radius(c):
    p, data = setup(c)
    args = command(c, [c["path"]] + c["xyz"]) + (["-keep"] + c["keep"] if c["keep"] else [])
    kind, text = script("calc_eff_rad", args)
    want(kind != "SyntaxError", "syntax", text)
    if c["bad"]:
        refused(c, p, kind)
        return True
    want(kind == "done", "failed", "%s %s" % (kind, text[-300:]))
    out = os.path.abspath(c["opts"].get("-outfile") or os.path.splitext(os.path.basename(c["path"]))[0] + "_reff.root")
    check_files(c, p, data, out)
    want(list(rootstub.FILES[out]) == ["output"], "tree-name", "trees written: %s" % list(rootstub.FILES[out]))
    got = rootstub.FILES[out]["output"]
    rname = c["opts"].get("-rname", "r_eff")
    bs = c["table"]["branches"]
    others = [b for b in bs if b not in c["xyz"] or b in c["keep"]]
    want(sorted(got.branches) == sorted(others + [rname]), "branches", "got %s want %s" % (got.branches, others + [rname]))
    want(len(got.rows) == len(c["table"]["rows"]), "entries", "got %d want %d" % (len(got.rows), len(c["table"]["rows"])))
    for i, (g, r) in enumerate(zip(got.rows, c["table"]["rows"])):
        have = dict(zip(got.branches, g))
        for b in others:
            w = rootstub.f32(r[bs.index(b)])
            want(have[b] == w, "values", "entry %d %s: got %r want %r" % (i, b, have[b], w))
        x = [r[bs.index(b)] for b in c["xyz"]]
        w = (math.sqrt(math.fsum(v * v for v in x)) / 6005.) ** 3
        want(abs(have[rname] - w) <= 1e-6 * w + 1e-40, "radius", "entry %d at %s: got %r want %r" % (i, x, have[rname], w))
    return len(c["table"]["rows"]) > 0


@st.composite
def simple_case(draw):
    return {"numpy_seed": draw(st.integers(0, 2 ** 32 - 1))}


def ks(vals, cdf):
    v = np.sort(np.asarray(vals, dtype=float))
    n = len(v)
    f = np.array([cdf(x) for x in v])
    return max(np.max(np.arange(1, n + 1) / n - f), np.max(f - np.arange(n) / n)) * math.sqrt(n)


def run_simple(c):
    rootstub.FILES.clear()
    np.random.seed(c["numpy_seed"])
    kind, text = script("make_simple_data", [])
    want(kind == "done", "failed", "%s %s" % (kind, text[-300:]))
    phi = lambda m, s: (lambda x: 0.5 * math.erfc((m - x) / s / math.sqrt(2)))
    expect = {"simple_bg.root": (100000, phi(2, 4)), "simple_bg1.root": (100000, phi(5, 4)), "simple_sig.root": (100000, phi(7, 5)),
              "simple_data.root": (3000, lambda x: phi(2, 4)(x) / 3 + 2 * phi(7, 5)(x) / 3)}
    want(sorted(rootstub.FILES) == sorted(os.path.abspath(f) for f in expect), "files", str(sorted(rootstub.FILES)))
    for f, (n, cdf) in expect.items():
        ts = rootstub.FILES[os.path.abspath(f)]
        want(list(ts) == ["output"] and ts["output"].branches == ["energy"], "tree", "%s: %s" % (f, list(ts)))
        v = [r[0] for r in ts["output"].rows]
        want(len(v) == n, "entries", "%s: got %d want %d" % (f, len(v), n))
        d = ks(v, cdf)
        want(d < 4, "distribution", "%s: Kolmogorov distance x sqrt(n) = %g" % (f, d))
        mean, sd = {"simple_bg.root": (2, 4), "simple_bg1.root": (5, 4), "simple_sig.root": (7, 5)}.get(f, (16 / 3., None))
        z = (np.mean(v) - mean) / (sd or 5.3) * math.sqrt(n)
        want(abs(z) < 5.6, "mean", "%s: the mean is %g sigma away from %g" % (f, z, mean))
        if sd:
            z = (np.std(v) / sd - 1) * math.sqrt(2. * n)
            want(abs(z) < 5.6, "width", "%s: the width is %g sigma away from %g" % (f, z, sd))
        if f == "simple_data.root":
            for k in (500, 1000, 1500, 2000):
                z = (np.mean(v[:k]) - np.mean(v[k:])) / (5.3 * math.sqrt(1. / k + 1. / (n - k)))
                want(abs(z) < 8, "shuffled", "first %d entries differ from the others by %g sigma" % (k, z))
    return True


@st.composite
def long_case(draw):
    """As many entries as the scripts report their progress on; rows are made from a rule, so that the case stays small."""
    n = draw(st.sampled_from([200001, 120000, 100001, 100000, 99999]))
    return {"n": n, "mult": draw(st.integers(1, 1000)), "nevents": draw(st.sampled_from([-1, n, 65536, 99999, 100000, 100001])),
            "which": draw(st.sampled_from(["prune", "radius"]))}


def run_long(c):
    n, m = c["n"], c["mult"]
    rows = [[float(i * m % 99991), float(i % 1009), 1.0, float(i)] for i in range(n)]
    base = {"table": {"branches": ["x", "y", "z", "e"], "rows": rows}, "tree": "output", "split": 0, "first": True, "path": "long.root",
            "decoy": False, "bad": None, "keep": [], "xyz": ["x", "y", "z"], "pick": ["e", "x"], "opts": {}}
    if c["which"] == "prune":
        base["opts"]["-nevents"] = c["nevents"]
        return run_prune(base)
    return run_radius(base)


LIGHT = {"long": 4, "simple_data": 1}
FACETS = {"prune": (prune_case, run_prune, 10), "prune_refused": (prune_bad, run_prune, 2), "radius": (radius_case, run_radius, 8),
          "radius_refused": (radius_bad, run_radius, 2), "long": (long_case, run_long, 0), "simple_data": (simple_case, run_simple, 0)}


def search(facet, seed, examples, log):
    """One Hypothesis run; returns the shrunk violation or None."""
    gen, run, _ = FACETS[facet]
    last = {}

    @hseed(seed)
    @settings(max_examples=examples, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink))
    @given(gen())
    def test(c):
        text = json.dumps(c, sort_keys=True)
        try:
            nontrivial = run(json.loads(text))
        except rootstub.Unsupported as u:
            log["unsupported"][str(u)] = log["unsupported"].get(str(u), 0) + 1
            return
        except Violation as v:
            last["case"], last["v"] = text, v
            raise
        log["evaluations"] += 1
        if nontrivial:
            log["distinct"].add(hash(facet + text))
            if len(text) < 400 and log["taken"].setdefault(facet, 0) < 2 and log["evaluations"] % 7 == 0:
                log["taken"][facet] += 1
                log["samples"].append("%s %s" % (facet, text))
        log["facets"][facet] = log["facets"].get(facet, 0) + 1

    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            test()
    except Violation:
        return last
    except Exception:
        if not last:
            raise
        return last     # seen once, and not again when Hypothesis repeated it
    return None


def main():
    global REPO
    scratch = tempfile.mkdtemp(prefix="oxsx-p32-")
    args = [os.path.abspath(a) if i in (1, 5, 6) or (sys.argv[1] == "replay" and i == 2) else a for i, a in enumerate(sys.argv[1:])]
    here = os.getcwd()
    os.chdir(scratch)
    try:
        REPO = args[1]
        if args[0] == "replay":
            r = json.load(open(args[2]))
            try:
                FACETS[r["facet"]][1](r["case"])
            except Violation as v:
                print("reproduced: facet=%s id=%s\n  %s" % (r["facet"], v.vid, v.msg))
                return 1
            print("not reproduced")
            return 0
        tier, seed, secs, evidence, replays = args[2], int(args[3]), float(args[4]), args[5], args[6]
        t0 = time.time()
        log = {"evaluations": 0, "distinct": set(), "samples": [], "facets": {}, "taken": {}, "unsupported": {}}
        bad, facet, rnd = None, None, 0
        while bad is None and (rnd == 0 or time.time() - t0 < secs):
            for facet, (_, _, weight) in FACETS.items():
                n = weight * 12 if weight else (LIGHT[facet] if rnd % 8 == 0 else 0)
                if not n:
                    continue
                bad = search(facet, random.Random("%d-%s-%d" % (seed, facet, rnd)).getrandbits(32), n, log)
                if bad:
                    break
            rnd += 1
        ev = {"property": "P32", "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": log["evaluations"], "distinct_nontrivial": len(log["distinct"]),
                           "rule": "distinct generated command lines and trees with at least one entry to write, or a request that has to be refused",
                           "samples": log["samples"][:12], "per_facet": log["facets"], "not_decided": log["unsupported"]},
              "assumptions": ["harness/rootstub.py behaves as PyROOT does for the calls the scripts make",
                              "the reference in harness/P32.py states the property correctly"],
              "violations": 0, "wall_s": 0.0}
        for u, n in log["unsupported"].items():
            print("note: %d cases not decided, as the stand-in for ROOT has no %s" % (n, u))
        rc = 0
        if bad:
            os.makedirs(replays, exist_ok=True)
            path = os.path.join(replays, "%s-%d.json" % (facet, zlib.crc32(bad["case"].encode())))
            with open(path, "w") as f:
                json.dump({"property": "P32", "facet": facet, "id": bad["v"].vid, "case": json.loads(bad["case"])}, f, indent=1)
                f.write("\n")
            print("check P32: facet=%s id=%s" % (facet, bad["v"].vid))
            print("  " + bad["v"].msg[:1500])
            print("  case: " + bad["case"][:1500])
            print("VIOLATION property=P32 replay=%s" % path)
            ev["violations"] = 1
            ev["coverage"]["violation"] = {"facet": facet, "id": bad["v"].vid, "message": bad["v"].msg, "replay": path}
            if not ev["coverage"]["samples"]:
                ev["coverage"]["samples"] = [bad["case"][:400]]
            rc = 1
        ev["wall_s"] = round(time.time() - t0, 2)
        with open(evidence, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        return rc
    finally:
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
