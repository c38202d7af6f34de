#!/usr/bin/env python3
"""run.py <property> [quick|thorough]    decide one property on /repo's working tree
   run.py --replay <file>               run one recorded violation again
   run.py --list

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.
Any other exit: the check itself could not do its work."""
import glob, json, os, re, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, COMMON_ASSUMPTIONS   # noqa: E402

CXX = ["g++", "-std=c++17", "-O2", "-w", "-ftrivial-auto-var-init=pattern", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS"]
NSHARDS = 8
JOBS = max(2, os.cpu_count() or 2)
KNOWN = os.path.join(HERE, "known_findings.txt")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(prop, tmp, only=None):
    """Compile the harnesses of a property from /repo's current files."""
    units = CHECKS[prop]["units"]
    san = CHECKS[prop].get("cxx", [])       # flags for everything in this check, linking included
    jobs = []
    objs = {}
    libs = {}

    def obj(src, flags, tag):
        o = os.path.join(tmp, tag + ".o")
        cc = (CXX if not src.endswith(".c") else ["gcc", "-std=gnu11", "-O2", "-w"]) + san
        jobs.append((cc + flags + ["-c", src, "-o", o], src))
        return o

    base = [obj(os.path.join(HERE, "src", "mc.cpp"), [], "mc")] + [obj(f, ["-I" + REPO + "/include"], "lib_" + os.path.basename(f)[:-4])
                 for f in sorted(glob.glob(REPO + "/lib/*.cpp"))]
    for u in units:
        if only and u["name"] != only:
            continue
        inc = ["-I" + os.path.join(HERE, "src"), "-I" + REPO + "/include", "-DMC_REPO=\"" + REPO + "\""]
        inc += ["-I" + REPO + "/" + d for d in u.get("inc", [])]
        inc += u.get("flags", [])
        libs[u["name"]] = u.get("libs", [])
        os_ = [obj(os.path.join(HERE, "src", u["src"]), inc, "u_" + u["name"])]
        for i, e in enumerate(u.get("extra", [])):
            os_.append(obj(REPO + "/" + e, inc, "x_%s_%d" % (u["name"], i)))
        objs[u["name"]] = os_
    with ThreadPoolExecutor(JOBS) as ex:
        for (cmd, src), r in zip(jobs, ex.map(lambda j: sh(j[0]), jobs)):
            if r.returncode:
                print("cannot compile %s:\n%s" % (src, r.stdout[-4000:]))
                sys.exit(2)
    exes = {}

    def link(n):
        exe = os.path.join(tmp, n)
        r = sh(["g++", "-o", exe] + san + objs[n] + base + libs.get(n, []) + ["-lntl", "-lpthread"])
        return n, exe, r
    with ThreadPoolExecutor(JOBS) as ex:
        for n, exe, r in ex.map(link, objs):
            if r.returncode:
                print("cannot link %s:\n%s" % (n, r.stdout[-4000:]))
                sys.exit(2)
            exes[n] = exe
    return exes


def run_shard(exe, unit, tier, shard, nshards, tmp, extra=(), stride=1):
    out = os.path.join(tmp, "out_%s_%d_%s" % (unit, shard, "_".join(extra).replace("-", "")))
    work = tempfile.mkdtemp(dir=tmp)
    cmd = [exe, "--unit", unit, "--tier", tier, "--shard", str(shard), "--nshards", str(nshards), "--out", out]
    cmd += list(extra)
    if stride > 1:
        cmd += ["--stride", str(stride)]
    lim = 700 if tier == "quick" else 7200
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=work, timeout=lim)
        log = p.stdout.decode(errors="replace")
        status, tail = p.returncode, log[-300:]
    except subprocess.TimeoutExpired:
        status, tail, log = "timeout", "still running after %d s" % lim, ""
    recs = []
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            line = line.strip()
            if line:
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
    shutil.rmtree(work, ignore_errors=True)
    site = re.findall(r"(\S+:\d+:\d+: runtime error: .*|SUMMARY: AddressSanitizer: .*)", log)
    if not any(r["kind"] in ("summary", "crash", "hang") for r in recs):
        recs.append({"kind": "crash", "unit": unit, "shard": shard, "idx": -1, "key": "ended",
                     "case": "?", "msg": "the process ended without an answer, status %s: %s"
                     % (status, tail)})
    frames = re.findall(r"Direct leak[^\n]*\n(?:\s+#\d+[^\n]*\n)*?\s+#\d+ \S+ in ([^\n]*%s/[^\n]*)" % re.escape(REPO), log)
    for r in recs:
        if r.get("key") == "leak":
            r["msg"] += ": " + "; ".join(sorted(set(f[-160:] for f in frames))[:4])
        r["tier"], r["stride"], r["secs"] = tier, stride, round(time.time() - t0, 1)
        if site and (r["kind"] == "crash" or r.get("key") == "memory"):
            r["msg"] += ": " + site[-1]
            r["key"] = "sanitizer"
    return recs


def known(prop):
    keys = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            f = line.split(None, 3)
            if len(f) >= 3 and f[0] == "finding:" and f[1] == "property=" + prop and f[2].startswith("key="):
                keys[f[2][4:]] = f[3].strip() if len(f) > 3 else ""
    return keys


def confirm(exes, rec, nshards, tmp):
    """Run the failing case again: alone, and if it needs its history, with it."""
    exe = exes[rec["unit"]]
    tier, stride = rec["tier"], rec["stride"]
    if rec["idx"] >= 0:
        r = run_shard(exe, rec["unit"], tier, rec["shard"], nshards, tmp, ("--only", str(rec["idx"])), stride)
        if any(x["kind"] in ("violation", "crash", "hang") and x["key"] == rec["key"] for x in r):
            return "alone"
        r = run_shard(exe, rec["unit"], tier, rec["shard"], nshards, tmp, ("--upto", str(rec["idx"])), stride)
        if any(x["kind"] in ("violation", "crash", "hang") and x["key"] == rec["key"] and x["idx"] == rec["idx"] for x in r):
            return "after its history"
        return None
    r = run_shard(exe, rec["unit"], tier, rec["shard"], nshards, tmp, ("--upto", "999999999999"), stride)
    return "whole shard" if any(x["kind"] in ("violation", "crash", "hang") for x in r) else None


def scratch():
    d = os.path.join(HERE, ".build")
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(prefix="b", dir=d)


def replay(path):
    r = json.load(open(path))
    tmp = scratch()
    try:
        exes = build(r["property"], tmp, r["unit"])
        how = confirm(exes, r, r["nshards"], tmp)
        if how:
            print("reproduced (%s): %s: %s" % (how, r["case"], r["msg"]))
            return 1
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if sys.argv[1:] == ["--list"]:
        for p in sorted(CHECKS):
            print(p, [u["name"] for u in CHECKS[p]["units"]])
        return 0
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[prop]
    t0 = time.time()
    tmp = scratch()
    try:
        return decide(prop, tier, seed, cfg, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, cfg, t0, tmp):
    exes = build(prop, tmp)
    tb = time.time() - t0
    tasks = []
    for u in cfg["units"]:
        if tier == "quick" and u.get("thorough_only"):
            continue
        ns = u.get("shards", NSHARDS)
        for s in range(ns):
            tasks.append((u["name"], s, ns, u.get("tier", tier), u.get("stride", {}).get(tier, 1)))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda t: run_shard(exes[t[0]], t[0], t[3], t[1], t[2], tmp, stride=t[4]), tasks))
    kn = known(prop)
    tot = dict(cases=0, states=0, transitions=0, traces=0, nontrivial=0)
    counters, outcomes, samples, viol, found = {}, {}, [], [], {}
    complete = True
    units = {}
    for (un, s, ns, _, _), recs in zip(tasks, res):
        have = False
        for r in recs:
            if r["kind"] == "summary":
                have = True
                complete &= r["complete"]
                for k in tot:
                    tot[k] += r[k]
                ud = units.setdefault(un, {"cases": 0, "space": r["space"], "states": 0, "transitions": 0, "traces": 0, "shard_s": 0})
                ud["shard_s"] = round(ud["shard_s"] + r["secs"], 1)
                ud["space"] = max(ud["space"], r["space"])
                for k in ("cases", "states", "transitions", "traces"):
                    ud[k] += r[k]
                for k, v in r["counters"].items():
                    counters[un + "." + k] = counters.get(un + "." + k, 0) + v
                for k, v in r["outcomes"].items():
                    outcomes.setdefault(un + "." + k, set()).update(v)
                if s == 0 or len(samples) < 2:
                    samples += r["samples"]
            else:
                if r["key"] in kn:
                    found[r["key"]] = r
                else:
                    r["nshards"] = ns
                    viol.append(r)
        # a check for memory errors only does not report an abort of another kind, but has not completed either
        if cfg.get("cxx"):
            viol = [r for r in viol if r["key"] in ("sanitizer", "leak") or "signal 11" in r["msg"] or "signal 7" in r["msg"]]
        complete &= have
    for k, r in sorted(found.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[k]))
    nconf = 0
    seen = set()
    tc = time.time()
    for r in viol:
        if (r["unit"], r["key"]) in seen or nconf >= 5 or (nconf and time.time() - tc > 60):
            continue
        how = confirm(exes, r, r["nshards"], tmp)
        if not how:
            print("unconfirmed, did not happen again: %s %s" % (r["case"], r["msg"]))
            continue
        seen.add((r["unit"], r["key"]))
        nconf += 1
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d-%d.json" % (prop, r["unit"], r["shard"], r["idx"]))
        json.dump(dict(r, property=prop, reproduced=how,
                       replay="python3 run.py --replay " + path), open(path, "w"), indent=1)
        print("%s: %s: %s [reproduced %s]" % (r["unit"], r["case"], r["msg"], how))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    wall = time.time() - t0
    cov = {
        "states": tot["states"], "transitions": tot["transitions"],
        "traces_validated_against_impl": tot["traces"],
        "evaluations": tot["cases"], "distinct_nontrivial": tot["nontrivial"],
        "rule": cfg["rule"], "samples": samples[:6] or ["none"],
        "exhaustive": bool(complete and not viol),
        "bounds": cfg["bounds"], "units": units, "counters": counters,
        "distinct_outcomes": {k: len(v) for k, v in outcomes.items()},
        "build_s": round(tb, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
          "assumptions": COMMON_ASSUMPTIONS + cfg.get("assumptions", []),
          "wall_s": round(wall, 2), "violations": nconf}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d states, %d transitions, %d executions of the real code compared, %d known, %d violations, %.1f s"
          % (prop, tier, tot["cases"], tot["states"], tot["transitions"], tot["traces"], len(found), nconf, wall))
    if nconf:
        return 1
    if viol:
        print("violations were seen that did not reproduce")
        return 2
    if not complete or tot["cases"] == 0:
        print("the exploration did not complete")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
