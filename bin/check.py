#!/usr/bin/env python3
"""Builds one property's check from /repo's working tree, runs it, writes its evidence and reports.

usage: check.py <ID> [--tier quick|thorough] [--replay FILE] [--only FACET] [--scale X] [--build-only]
exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself could not run.
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "bin"))
import defs
import props

BASE = ["-funsigned-char", "-DCENTAURUS_BUILD_LINUX", "-w", "-I" + REPO + "/src/core"]
VARIANTS = {
    "plain": {"cxx": "g++", "flags": ["-O1"], "ld": []},
    "asan": {"cxx": "g++", "flags": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                     "-fno-sanitize=vptr"], "ld": ["-fsanitize=address,undefined"]},
    "fast": {"cxx": "g++", "flags": ["-O2"], "ld": []},
    "fuzz": {"cxx": "clang++", "flags": ["-O1", "-g1", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all",
                                         "-fno-sanitize=vptr,function"], "ld": ["-fsanitize=fuzzer,address,undefined"]},
}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_hash(root):
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def compile_one(cmd, out):
    if os.path.exists(out):
        return None
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "compilation failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:])
    os.rename(tmp, out)
    return None


def build(exe_defs):
    """exe_defs: list of dicts name, src, variant, repo (list of repo sources), shim, ldflags, flags. Returns {name: path}."""
    key = sha(tree_hash(REPO + "/src"), tree_hash(VERIF + "/pbt"))
    objdir = os.path.join(BUILD, key)
    os.makedirs(objdir, exist_ok=True)
    os.utime(objdir)
    old = sorted((d for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))),
                 key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in old[:-4]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    jobs, exes = {}, {}
    for e in exe_defs:
        v = VARIANTS[e["variant"]]
        objs = []
        flags = v["flags"] + e.get("flags", [])
        for s in e.get("repo", []):
            inc = BASE + (["-I" + VERIF + "/pbt/shim"] if e.get("shim") else [])
            cmd = [v["cxx"], "-std=c++11", "-fPIC", "-pthread"] + flags + inc + ["-c", REPO + "/" + s]
            o = os.path.join(objdir, sha("repo", *cmd) + ".o")
            jobs[o] = cmd
            objs.append(o)
        for s in e["src"]:
            path = VERIF + "/" + s
            inc = BASE + ["-I" + VERIF + "/pbt"] + (["-I" + VERIF + "/pbt/shim"] if e.get("shim") else [])
            with open(path, "rb") as fh:
                content = fh.read()
            cmd = [v["cxx"], "-std=c++17", "-fPIC", "-pthread"] + flags + inc + ["-c", path]
            o = os.path.join(objdir, sha("verif", content, *cmd) + ".o")
            jobs[o] = cmd
            objs.append(o)
        h = sha(*objs, *e.get("ldflags", []), *v["ld"])
        out = os.path.join(objdir, e["name"] + "-" + h)
        if e.get("out"):        # a fixed file name, in a directory of its own
            os.makedirs(out, exist_ok=True)
            out = os.path.join(out, e["out"])
        exes[e["name"]] = (out, [v["cxx"], "-pthread"] + e.get("linkmode", []) + v["ld"] + objs + e.get("ldflags", []) + ["-lrt"])
    # Big translation units first.
    order = sorted(jobs.items(), key=lambda kv: ("Grammar.cpp" not in kv[1][-1], "/checks/" not in kv[1][-1]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for err in ex.map(lambda kv: compile_one(kv[1], kv[0]), order):
            if err:
                print(err)
                sys.exit(2)
    res = {}
    for n, (out, cmd) in exes.items():
        err = compile_one(cmd, out)
        if err:
            print(err)
            sys.exit(2)
        res[n] = out
    return res


def main():
    args = sys.argv[1:]
    pid = args[0]

    def opt(name, default=None):
        return args[args.index(name) + 1] if name in args else default
    tier = opt("--tier") or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    d = defs.CHECKS[pid]
    exes = build(d["exes"])
    if "--build-only" in args:
        return 0
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    env = dict(os.environ)
    env["VERIF_SEED"] = str(seed)
    env["VERIF_EXES"] = json.dumps(exes)
    env["VERIF_SCRATCH"] = scratch
    env["VERIF_HOME"] = VERIF
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=0")
    env.setdefault("UBSAN_OPTIONS", "print_stacktrace=0")
    try:
        if "--replay" in args:
            rf = opt("--replay")
            with open(rf) as fh:
                first = fh.readline()
            exe = None
            if first.startswith("exe "):
                exe = first.split()[1]
                body = open(rf).read().split("\n", 1)[1]
                rf = os.path.join(scratch, "in.replay")
                open(rf, "w").write(body)
            cand = [exe] if exe else [e["name"] for e in d["exes"]]
            rc = 3
            for n in cand:
                rc = subprocess.run([exes[n], "--replay", rf, "--scratch", scratch], env=env, cwd=scratch).returncode
                if rc != 3:
                    break
            return rc
        budget = d.get("budget", {}).get(tier, 420 if tier == "quick" else 780)
        facets, known, broken = [], [], None
        jobs = str(os.cpu_count() or 8)
        mains = [e for e in d["exes"] if not e.get("helper")]
        for e in mains:
            left = budget - (time.time() - t0)
            res = os.path.join(scratch, e["name"] + ".json")
            cmd = [exes[e["name"]], "--seed", str(seed), "--out", res, "--scratch", scratch, "--jobs", jobs,
                   "--budget", "%.0f" % max(20, left)]
            if tier == "thorough":
                cmd.append("--thorough")
            if opt("--only"):
                cmd += ["--only", opt("--only")]
            if opt("--scale"):
                cmd += ["--scale", opt("--scale")]
            r = subprocess.run(cmd, env=env, cwd=scratch)
            if not os.path.exists(res):
                print("check executable %s ended with %d and no result" % (e["name"], r.returncode))
                return 2
            with open(res) as fh:
                j = json.load(fh)
            for f in j["facets"]:
                f["exe"] = e["name"]
            facets += j["facets"]
            known += j["known"]
            if any(f["violation"] for f in j["facets"]):
                break
        return report(pid, d, tier, seed, facets, known, t0, broken)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        sweep()


def sweep():
    """Removes the shared objects of the library that belong to processes that no longer exist."""
    for n in os.listdir("/dev/shm"):
        m = re.search(r"\{57DF45C9-6D0C-4DD2-9B41-B71F8CF66B13\}Centaurus\[(\d+)\]", n)
        if m and not os.path.exists("/proc/" + m.group(1)):
            try:
                os.unlink("/dev/shm/" + n)
            except OSError:
                pass


def report(pid, d, tier, seed, facets, known, t0, broken):
    listed = {}
    kf = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                listed[key.split("=", 1)[1]] = text
    viol = [f for f in facets if f["violation"]]
    replays = []
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    for f in facets:
        if f.get("replay"):
            dst = os.path.join(VERIF, "evidence", "replay", "%s-%s%s" % (pid, f["facet"], ".flaky" if f["flaky"] else ".txt"))
            with open(f["replay"]) as fh:
                body = fh.read()
            with open(dst, "w") as fh:
                fh.write("exe %s\n" % f["exe"] + body)
            replays.append((f, dst))
    samples = []
    for f in facets:
        for s in f["samples"][:2]:
            samples.append({"facet": f["facet"], "case": s})
    cov = {
        "evaluations": sum(f["evaluations"] for f in facets),
        "distinct_nontrivial": sum(f["distinct_nontrivial"] for f in facets),
        "rule": props.P[pid]["rule"],
        "samples": samples,
        "facets": [{k: f[k] for k in ("facet", "requested", "evaluations", "discarded", "timeouts", "distinct_nontrivial", "labels", "wall_s", "flaky")} for f in facets],
    }
    out_known = []
    unlisted = []
    for k in known:
        if k["present"]:
            if k["key"] in listed:
                out_known.append(k["key"])
                print("KNOWN-FINDING: property=%s %s: %s" % (pid, k["key"], listed[k["key"]]))
            else:
                unlisted.append(k["key"])
    cov["known_findings_present"] = out_known
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": props.P[pid]["assumptions"], "wall_s": round(time.time() - t0, 2),
          "violations": len(viol) + len(unlisted)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    for f in facets:
        print("%s %s: %d cases, %d distinct non-trivial, %d discarded, %d over the time limit, %.1fs%s" % (
            pid, f["facet"], f["evaluations"], f["distinct_nontrivial"], f["discarded"], f["timeouts"], f["wall_s"],
            " FLAKY" if f["flaky"] else ""))
    rc = 0
    for f, dst in replays:
        if f["violation"]:
            print("--- %s/%s\n%s\ncase:\n%s" % (pid, f["facet"], f["message"][:3000], f["case"][:3000]))
            print("VIOLATION property=%s replay=%s" % (pid, dst))
            rc = 1
        elif f["flaky"]:
            print("note: a failure of %s did not reproduce (inconclusive): %s" % (f["facet"], f["message"][:500]))
    for k in unlisted:
        dst = os.path.join(VERIF, "evidence", "replay", "%s-%s.txt" % (pid, k))
        with open(dst, "w") as fh:
            fh.write("fixed case %s of the check (see its source)\n" % k)
        print("VIOLATION property=%s replay=%s" % (pid, dst))
        rc = 1
    if rc == 0 and not facets:
        print("nothing was run")
        return 2
    if rc == 0 and sum(f["evaluations"] for f in facets) == 0:
        print("no case was evaluated")
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
