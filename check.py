#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

    check.py C01 [--replay FILE] [--only TEST] [--scale N] [--maxsec S]

VERIF_TIER (quick|thorough) and VERIF_SEED select depth and random choices.
Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
Exit 2: the check itself could not run.
"""
import sys, os, json, hashlib, subprocess, shutil, time, fcntl, re, glob, importlib.util

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
CXX = "g++-12"
FLAVORS = {
    # Address sanitizer, assertions (documented preconditions) on.
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    # The flags the project ships with.
    # With the guarded allocator of lib/gmalloc.h.
    "rel": ["-Os", "-g0", "-DNDEBUG=1", "-fno-threadsafe-statics", "-fno-enforce-eh-specs"],
    # Thread sanitizer, for the concurrent checks.
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-DNDEBUG=1"],
}
GUARD = ["malloc", "calloc", "realloc", "free"]
COMMON = ["-std=c++14", "-w", "-pthread"]
sys.path.insert(0, V)
from props import PROPS

def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:16]

def repo_files():
    fs = []
    for f in sorted(os.listdir(REPO)):
        if f in ("config.h", "config.status", "Config.mk", "config.sed"):
            continue
        if f.endswith((".h", ".cc", ".in")) or f in ("configure", "Makefile"):
            fs.append(f)
    return fs

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def prune(prefix, keep):
    ds = [d for d in glob.glob(os.path.join(BUILD, prefix + "*")) if not d.endswith(".lock")]
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        if time.time() - os.path.getmtime(d) > 1800:
            shutil.rmtree(d, ignore_errors=True)

def stage(variant="std"):
    """Copies the sources out of /repo and configures the copy."""
    fs = repo_files()
    h = sha(variant, *[f.encode() + open(os.path.join(REPO, f), "rb").read() for f in fs])
    d = os.path.join(BUILD, "src-" + h)
    with Lock("stage"):
        if not os.path.exists(os.path.join(d, ".done")):
            prune("src-", 8)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for f in fs:
                shutil.copy(os.path.join(REPO, f), d)
            args = ["sh", "./configure", "--builddir=o"] + (["--with-libstdc++"] if variant == "std" else [])
            env = dict(os.environ, LC_ALL="C", GIT_CEILING_DIRECTORIES=V)
            r = subprocess.run(args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
            if r.returncode or not os.path.exists(os.path.join(d, "config.h")):
                die("configure failed:\n" + r.stdout.decode(errors="replace")[-2000:])
            # users include <ustl/...> through ustl.h; make that layout available
            os.makedirs(os.path.join(d, "inc"), exist_ok=True)
            if not os.path.exists(os.path.join(d, "inc", "ustl")):
                os.symlink("..", os.path.join(d, "inc", "ustl"))
            open(os.path.join(d, ".done"), "w").close()
        else:
            os.utime(d)
    return d, h

def run_all(cmds, cwd):
    ps = [(c, subprocess.Popen(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in cmds]
    bad = None
    for c, p in ps:
        out = p.communicate()[0]
        if p.returncode and not bad:
            bad = " ".join(c) + "\n" + out.decode(errors="replace")[:6000]
    if bad:
        die("compilation failed:\n" + bad)

def libdir(src, h, flavor):
    flags = FLAVORS[flavor]
    key = sha(h, CXX, *flags, *COMMON)
    d = os.path.join(BUILD, "lib-" + flavor + "-" + key)
    with Lock("lib-" + flavor):
        if not os.path.exists(os.path.join(d, "libustl.a")):
            prune("lib-", 12)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            ccs = sorted(f for f in os.listdir(src) if f.endswith(".cc"))
            run_all([[CXX] + COMMON + flags + ["-c", f, "-o", os.path.join(d, f[:-3] + ".o")] for f in ccs], src)
            objs = sorted(glob.glob(os.path.join(d, "*.o")))
            r = subprocess.run(["ar", "rcs", os.path.join(d, "libustl.a.tmp")] + objs)
            if r.returncode:
                die("ar failed")
            os.rename(os.path.join(d, "libustl.a.tmp"), os.path.join(d, "libustl.a"))
        else:
            os.utime(d)
    return d

def start_bin(pid, p, src, h, lib, flavor):
    """Starts compiling a harness; returns (path, process or None)."""
    hs = os.path.join(V, "harness", p["harness"])
    deps = [hs] + sorted(glob.glob(os.path.join(V, "lib", "*.h"))) + sorted(glob.glob(os.path.join(V, "harness", "*.h")))
    flags = FLAVORS[flavor] + p.get("cflags", [])
    wrap = list(p.get("wrap", []))
    if flavor == "rel" and p.get("guard", True):
        flags = flags + ["-DPBT_GMALLOC=1"]
        wrap += GUARD
    link = ["-Wl,--wrap=" + w for w in wrap] + p.get("ldflags", [])
    key = sha(h, CXX, *flags, *COMMON, *link, *[open(f, "rb").read() for f in deps])
    d = os.path.join(BUILD, "bin-" + pid + "-" + flavor)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, key)
    if os.path.exists(out):
        return out, None
    for f in os.listdir(d):
        fp = os.path.join(d, f)
        if time.time() - os.path.getmtime(fp) > 900:
            try: os.unlink(fp)
            except OSError: pass
    tmp = out + ".tmp%d" % os.getpid()
    cmd = [CXX] + COMMON + flags + ["-I" + src, "-I" + os.path.join(src, "inc"), "-I" + os.path.join(V, "lib"),
           hs, os.path.join(lib, "libustl.a")] + link + ["-o", tmp]
    return out, (subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), tmp)

def finish_bin(out, st):
    if st is None:
        return
    pr, tmp = st
    o = pr.communicate()[0].decode(errors="replace")
    if pr.returncode == 0:
        os.rename(tmp, out)
    elif re.search(r"^(?:\S+:\d+:\d+: error: |.*undefined reference to )", o, re.M) and not re.search(r"internal compiler error|[Kk]illed signal|No space left|Cannot allocate memory|No such file", o):
        return o
    else:
        die("harness does not compile:\n" + o[:6000])

def uncompilable(pid, p, tier, seed, t0, out):
    """The harness is a program that uses the public interface, and holds compile-time checks of its own: if the
    compiler rejects it with a diagnosis, something a user can write no longer compiles or a compile-time value is wrong."""
    rp = os.path.join(V, "replays", pid, "compile.replay"); os.makedirs(os.path.dirname(rp), exist_ok=True)
    k = re.search(r"^(?:\S+:\d+:\d+: error: |.*undefined reference to )", out, re.M).start(); ctx = out[:k].splitlines()[-12:]
    with open(rp, "w") as f: f.write("# compiling harness/%s against the working tree; --replay compiles it again\n" % p["harness"] + "\n".join(ctx) + "\n" + out[k:k+4000] + "\n")
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": p.get("level", "exploration"), "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "a program using the public interface compiles", "samples": [p["harness"]]}, "assumptions": p.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1}, f, indent=1)
    print("# a program using the public interface does not compile: " + out[k:k+300].splitlines()[0])
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    print("%s %s seed=%d: the harness does not compile" % (pid, tier, seed))
    sys.exit(1)

ENV = dict(os.environ,
    ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=190:quarantine_size_mb=16:handle_abort=0:symbolize=1:max_allocation_size_mb=4096",
    TSAN_OPTIONS="exitcode=98:halt_on_error=1:report_signal_unsafe=0",
    LC_ALL="C", TZ="UTC")

def known_findings(pid):
    kf = {}
    fn = os.path.join(V, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                kf[m.group(2)] = m.group(3)
    return kf

def main():
    a = sys.argv[1:]
    if a == ["--setup"]:        # every check builds for itself; this only shows that it can
        src, h = stage()
        for f in ("asan", "rel"): libdir(src, h, f)
        print("ready: " + " ".join(PROPS))
        return
    if not a or a[0] not in PROPS:
        die("usage: check.py ID; IDs: " + " ".join(PROPS))
    pid = a[0]
    p = PROPS[pid]
    opt = {}
    i = 1
    while i < len(a):
        opt[a[i].lstrip("-")] = a[i+1] if i + 1 < len(a) else ""
        i += 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    t0 = time.time()
    if "module" in p:      # a check with a driver of its own
        spec = importlib.util.spec_from_file_location(pid, os.path.join(V, "harness", p["module"]))
        mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
        return mod.run(pid, p, tier, seed, opt, sys.modules[__name__])
    flavors = list(p.get("flavors", ["asan", "rel"]))
    if "flavor" in opt: flavors = [opt["flavor"]]
    replay = opt.get("replay")
    if replay:
        m = re.search(r"^flavor (\S+)", open(replay).read(), re.M)
        if m and m.group(1) in flavors: flavors = [m.group(1)]
    src, h = stage(p.get("variant", "std"))
    libs = {f: libdir(src, h, f) for f in flavors}
    bins = {f: start_bin(pid, p, src, h, libs[f], f) for f in flavors}
    rejected = [o for o in [finish_bin(*bins[f]) for f in flavors] if o]
    if rejected: uncompilable(pid, p, tier, seed, t0, rejected[0])
    rdir = os.path.join(V, "replays", pid)
    os.makedirs(rdir, exist_ok=True)
    if replay:
        rc = subprocess.run([bins[flavors[0]][0], "--replay", replay], env=ENV).returncode
        if rc == 1: print("VIOLATION property=%s replay=%s" % (pid, replay))
        sys.exit(rc)
    for f in glob.glob(os.path.join(rdir, "*")):
        if os.path.isfile(f): os.unlink(f)
    tb = time.time() - t0
    conf = p["tiers"][tier]
    scale = int(opt.get("scale", conf[0])); maxsec = float(opt.get("maxsec", conf[1]))
    scratch = os.path.join(BUILD, "tmp-%d" % os.getpid()); os.makedirs(scratch, exist_ok=True); ENV["PBT_TMP"] = scratch
    ps = []
    for k, f in enumerate(flavors):
        out = os.path.join(rdir, "out-%s.json" % f)
        sc = scale if f != "rel" else int(scale * p.get("relscale", 1))
        cmd = [bins[f][0], "--seed", str(seed + 1000003 * k), "--scale", str(max(sc, 1)), "--jobs", str(p.get("jobs", 8 // max(len(flavors), 1) or 1)),
               "--maxsec", str(maxsec), "--rdir", rdir, "--flavor", f, "--out", out]
        if "only" in opt: cmd += ["--only", opt["only"]]
        ps.append((f, out, subprocess.Popen(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    res, viol, err = {}, [], []
    for f, out, pr in ps:
        o = pr.communicate()[0].decode(errors="replace")
        for l in o.splitlines():
            m = re.match(r"FAILURE test=(\S+) flavor=\S+ replay=(\S+) (.*)", l)
            if m: viol.append((m.group(1), f, m.group(2), m.group(3)))
        if pr.returncode not in (0, 1):
            err.append("%s: status %s\n%s" % (f, pr.returncode, o[-4000:]))
        try: res[f] = json.load(open(out))
        except Exception as e: err.append("%s: no result (%s)\n%s" % (f, e, o[-3000:]))
    shutil.rmtree(scratch, ignore_errors=True)
    finish(pid, p, tier, seed, t0, tb, res, viol, err, opt)

def finish(pid, p, tier, seed, t0, tb, res, viol, err, opt):
    ev = sum(r["evaluations"] for r in res.values())
    nt = sum(r["distinct_nontrivial"] for r in res.values())
    per, lab, smp, known = {}, {}, [], {}
    for f, r in res.items():
        for k, v in r["per_test"].items():
            x = per.setdefault(k, {"cases": 0, "distinct_nontrivial": 0})
            x["cases"] += v[0]; x["distinct_nontrivial"] += v[1]
        for k, v in r["labels"].items(): lab[k] = lab.get(k, 0) + v
        smp += r["samples"]
        for k, v in r.get("known", {}).items(): known[k] = known.get(k, False) or v
    kf = known_findings(pid)
    evd = {"property": pid, "tier": tier, "seed": seed, "level": p.get("level", "exploration"),
        "coverage": {"evaluations": ev, "distinct_nontrivial": nt, "rule": p["rule"], "samples": smp[:6],
            "per_test": per, "classes": lab, "steps": sum(r.get("steps", 0) for r in res.values()),
            "discarded": sum(r.get("discards", 0) for r in res.values()),
            "flavors": {f: {"evaluations": r["evaluations"], "wall_s": r["wall_s"]} for f, r in res.items()},
            "known_findings_present": sorted(k for k, v in known.items() if v)},
        "assumptions": p.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2),
        "violations": len(viol)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    for k, desc in kf.items():
        if known.get(k, False): print("KNOWN-FINDING: property=%s %s" % (pid, desc))
        else: print("note: known finding %s no longer reproduces" % k)
    for k, v in known.items():
        if v and k not in kf: viol.append((k, "probe", "known_findings.txt", "unlisted finding reproduces: " + k))
    for test, fl, rp, how in viol:
        print("# %s [%s] %s" % (test, fl, how))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s (build %.1f s)" % (pid, tier, seed, ev, nt, len(viol), time.time() - t0, tb))
    if viol: sys.exit(1)
    if err:
        for e in err: print("ERROR: " + e)
        sys.exit(2)
    # A run that explored nothing decides nothing.
    if not opt.get("only") and (ev == 0 or nt == 0): die("no cases were run")
    if not opt.get("only"):
        empty = [k for k, v in per.items() if v["cases"] == 0]
        if empty: die("tests without cases: " + " ".join(empty))
    sys.exit(0)

if __name__ == "__main__":
    main()
