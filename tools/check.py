#!/usr/bin/env python3
"""Runs the check of one property:  check.py <ID> [--tier quick|thorough] [--replay FILE]

Rebuilds the libraries of the code under test from its current working tree (content
addressed through a private ccache when one is installed, so nothing stale can be used),
builds the harnesses of the property, explores, re-executes every violating item
alone, filters the committed known findings, writes the evidence file and prints the verdict.
"""
import glob, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
from registry import CHECKS  # noqa

CXXFLAGS = ["-std=c++20", "-O1", "-g0", "-w", "-D_GLIBCXX_ASSERTIONS",
            "-DSPDLOG_ACTIVE_LEVEL=SPDLOG_LEVEL_TRACE", "-DSPDLOG_COMPILED_LIB",
            "-DSPDLOG_FMT_EXTERNAL", "-isystem", "/usr/include/eigen3",
            "-I" + REPO + "/lib", "-I" + REPO, "-I" + REPO + "/projects", "-I" + V + "/h"]
CXXFLAGS += ["-I" + REPO + "/projects/ipdg_stokes/" + d for d in ("assemble", "mesh", "post_processing")]

LIBS = {
    "base": ["lib/lf/base"], "geometry": ["lib/lf/geometry"],
    "mesh": ["lib/lf/mesh", "lib/lf/mesh/hybrid2d", "lib/lf/mesh/utils", "lib/lf/mesh/test_utils"],
    "refinement": ["lib/lf/refinement"], "quad": ["lib/lf/quad"], "assemble": ["lib/lf/assemble"],
    "fe": ["lib/lf/fe"], "uscalfe": ["lib/lf/uscalfe"], "io": ["lib/lf/io"],
    "dpg": ["projects/dpg"],
    "ipdg": ["projects/ipdg_stokes/assemble", "projects/ipdg_stokes/mesh", "projects/ipdg_stokes/post_processing"],
    "fisher": ["projects/fisher_kpp"],
}
GEO = ["base", "geometry"]
MESH = GEO + ["mesh"]
REF = MESH + ["refinement"]
QUAD = ["base", "quad"]
FE = REF + ["quad", "assemble", "fe", "uscalfe"]
SETS = {"geo": GEO, "mesh": MESH, "ref": REF, "quad": QUAD, "fe": FE, "io": FE + ["io"],
        "proj": FE + ["io", "dpg", "ipdg"], "dpg": FE + ["dpg"], "ipdg": FE + ["ipdg"], "fisher": FE + ["io", "fisher"],
        "asm": MESH + ["assemble"], "gmsh": REF + ["io"]}


def lib_sources(names, extra_exclude=()):
    out = []
    for n in names:
        for d in LIBS[n]:
            for f in sorted(glob.glob(os.path.join(REPO, d, "*.cc"))):
                b = os.path.basename(f)
                if b.endswith("_main.cc"):
                    continue
                out.append((n, f))
    return out


def build(harnesses, bdir, log):
    """harnesses: list of (name, source, libset, extra). Builds into bdir; returns name->exe."""
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    cc = "g++"
    if shutil.which("ccache") and not os.environ.get("VERIF_NO_CCACHE"):
        cc = "ccache g++"
    rules = ["rule cxx", "  command = %s %s $x -c $in -o $out" % (cc, " ".join(CXXFLAGS)),
             "rule ar", "  command = rm -f $out && ar crs $out $in"]
    libs = {}
    need = []
    for _, _, s, _ in harnesses:
        for n in SETS[s]:
            if n not in need:
                need.append(n)
    slow = ["vtk_writer", "gmsh_file", "quad_o", "quad_rules", "gmsh_reader"]
    items = []
    for n, f in lib_sources(need):
        o = os.path.join(bdir, "o", os.path.relpath(f, REPO).replace("/", "_") + ".o")
        libs.setdefault(n, []).append(o)
        items.append((0 if any(s in f for s in slow) else 2, "build %s: cxx %s" % (o, f)))
    exes = {}
    for name, src, s, extra in harnesses:
        o = os.path.join(bdir, "o", name + ".h.o")
        items.append((1, "build %s: cxx %s\n  x = %s" % (o, src, extra)))
    rules += [t for _, t in sorted(items, key=lambda t: t[0])]
    for n in need:
        rules.append("build %s/lib%s.a: ar %s" % (bdir, n, " ".join(libs[n])))
    for name, src, s, extra in harnesses:
        e = os.path.join(bdir, name)
        ar = " ".join("%s/lib%s.a" % (bdir, n) for n in reversed(SETS[s]))
        o = os.path.join(bdir, "o", name + ".h.o")
        # link order: object first, then grouped archives
        rules.append("rule link_%s\n  command = g++ -o $out %s -Wl,--start-group %s -Wl,--end-group -lspdlog -lfmt -lboost_program_options -ldl -lpthread\nbuild %s: link_%s %s %s" % (
            name, o, ar, e, name, o, ar))
        exes[name] = e
    with open(os.path.join(bdir, "build.ninja"), "w") as f:
        f.write("\n".join(rules) + "\n")
    env = dict(os.environ)
    env.update(CCACHE_DIR=os.environ.get("VERIF_CCACHE_DIR", os.path.join(V, ".build", "ccache")), CCACHE_MAXSIZE="4G")
    for k in ("CCACHE_DISABLE", "CCACHE_READONLY"):
        env.pop(k, None)
    r = subprocess.run(["ninja", "--quiet", "-C", bdir, "-j", str(os.cpu_count() or 8)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if r.returncode != 0:
        t = [l[:400] for l in r.stdout.decode(errors="replace").splitlines() if not l.startswith("ccache ")]
        e = [l for l in t if "error" in l or "undefined" in l]
        print("\n".join((e or t)[:25]))
        print("BUILD-ERROR: the harness could not be built")
        sys.exit(3)
    return exes


def known():
    k = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) match=/(.*)/ :: (.*)$", l.strip())
            if m:
                k.append(dict(property=m[1], key=m[2], match=re.compile(m[3]), what=m[4], seen=False))
    return k


def run_exe(exe, args, out, timeout):
    for f in glob.glob(out + ".*"):
        os.unlink(f)
    t0 = time.time()
    try:
        subprocess.run([exe] + args + ["--out", out], timeout=timeout, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, cwd=os.path.dirname(out))
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-f", "^" + exe + " "], check=False)
    recs = []
    for f in sorted(glob.glob(out + ".*")):
        if ".err." in f:
            continue
        for l in open(f, errors="replace"):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    return recs, time.time() - t0


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        tier = replay["tier"]
    c = CHECKS[pid]
    t0 = time.time()
    bdir = os.path.join(V, ".build", pid)
    os.makedirs(os.path.join(V, ".build"), exist_ok=True)
    # a harness "name:k" is source name.cc compiled with -DPART=k (splits long compilations)
    hs = [(h.replace(":", "_"), os.path.join(V, "h", h.split(":")[0] + ".cc"), c.get("libs", "fe"),
           c.get("flags", "") + (" -DPART=" + h.split(":")[1] if ":" in h else "")) for h in c["harnesses"]]
    exes = build(hs, bdir, None)
    tb = time.time() - t0
    print("[%s] built in %.1fs (tier %s)" % (pid, tb, tier), flush=True)
    budget = 800 if tier == "quick" else 6 * 3600
    tot = dict(states=0, transitions=0, checks=0, traces=0, distinct=0, overflow=0, items=0)
    viols, samples, capped, per = [], [], False, {}
    for h in [x[0] for x in hs]:
        if replay and replay["harness"] != h:
            continue
        out = os.path.join(bdir, "run_" + h)
        args = ["--tier", tier]
        if c.get("args"):
            args += c["args"]
        if replay:
            args += ["--item", str(replay["item"]), "--jobs", "1"]
        recs, dt = run_exe(exes[h], args, out, max(60, budget - (time.time() - t0)))
        s = [r for r in recs if r["t"] == "sum"]
        if not s:
            # exploration did not terminate: find out what it was doing, alone, before calling it a hang
            print("[%s] %s: no summary within the time budget" % (pid, h))
            viols.append(dict(t="viol", item=-1, key="hang", case=h, msg="exploration did not terminate", harness=h))
        else:
            s = s[0]
            per[h] = dict(items=s["items"], states=s["states"], transitions=s["transitions"], checks=s["checks"],
                          distinct_outcomes=s["distinct"], wall_s=round(dt, 1))
            for k in tot:
                tot[k] += s[k]
            capped |= s["capped"]
        vs = [dict(r, harness=h) for r in recs if r["t"] == "viol"]
        samples += [r["s"] for r in recs if r["t"] == "sample"][:4]
        # replay before report: every violating (item, key) is executed again alone
        confirmed = []
        seen = set()
        for v in vs:
            kk = (v["item"], v["key"])
            if kk in seen or len(seen) >= 12:
                continue
            seen.add(kk)
            if v["item"] < 0 or replay:
                confirmed.append(v)
                continue
            r2, _ = run_exe(exes[h], ["--tier", tier] + c.get("args", []) + ["--item", str(v["item"]), "--jobs", "1"],
                            out + "_replay", 600 if tier != "quick" else max(60, 850 - (time.time() - t0)))
            if any(r["t"] == "viol" and r["key"] == v["key"] for r in r2):
                confirmed.append(v)
                confirmed += [dict(r, harness=h) for r in r2 if r["t"] == "viol" and r["key"] == v["key"] and r["case"] != v["case"]]
            else:
                print("[%s] NOT REPRODUCED (ignored): %s" % (pid, v))
        viols += confirmed
        if c.get("stop_on_violation", True) and confirmed:
            pass
    kn = [k for k in known() if k["property"] == pid]
    real = []
    for v in viols:
        hit = None
        for k in kn:
            if k["key"] == v["key"] and k["match"].search(v["case"] + " " + v["msg"]):
                hit = k
        if hit:
            hit["seen"] = True
        else:
            real.append(v)
    for k in kn:
        if k["seen"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not replay:
        lvl = c["level"]
        cov = dict(c.get("coverage", {}))
        cov.update(samples=samples[:8] or ["(none)"], exhaustive=not capped and not real, per_harness=per, rule=c["rule"],
                   checks=tot["checks"])
        if lvl == "model_checking":
            cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
                       distinct_outcomes=tot["distinct"])
        else:
            cov.update(evaluations=tot["states"], distinct_nontrivial=tot["distinct"])
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=lvl, coverage=cov,
                  assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(real))
        with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("[%s] states=%d transitions=%d checks=%d traces=%d distinct=%d items=%d wall=%.1fs" % (
        pid, tot["states"], tot["transitions"], tot["checks"], tot["traces"], tot["distinct"], tot["items"], time.time() - t0))
    if real:
        rd = os.path.join(V, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for v in real[:5]:
            print("  violation: [%s] %s :: %s" % (v["key"], v["case"][:600], v["msg"].split("Backtrace:")[0][:600]))
        v = real[0]
        rp = os.path.join(rd, pid + ".json")
        json.dump(dict(property=pid, tier=tier, harness=v["harness"], item=v["item"], key=v["key"], case=v["case"], msg=v["msg"],
                       how="python3 /verif/tools/check.py %s --replay %s" % (pid, rp)), open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if tot["items"] == 0 or tot["checks"] == 0:
        print("vacuous exploration")
        sys.exit(3)
    sys.exit(0)


main()
