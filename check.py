#!/usr/bin/env python3
"""Runs the check of one property:  check.py Q01 [--tier quick|thorough] [--seed N]

Builds the harness and the code under test from /repo's current working tree, replays the regression tapes, runs the
generated-input search, writes evidence/<id>.json and reports VIOLATION / KNOWN-FINDING lines.
Exit status: 0 property held on everything explored, 1 violation (or the check could not run).
"""
import argparse, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, ASSUMPTIONS

BUILD = os.path.join(HERE, "build")
REPO = os.environ.get("QUESO_REPO", "/repo")


def sh(cmd, log, timeout=800, **kw):
    with open(log, "ab") as f:
        return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, **kw).returncode


def clean_env():
    env = {k: v for k, v in os.environ.items() if k not in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "PYTHONPATH", "CXX", "CC")}
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    return env


def build_cpp(target, flavour):
    """flavour: rel | asan | tsan."""
    bdir = os.path.join(BUILD, flavour)
    os.makedirs(bdir, exist_ok=True)
    log = os.path.join(bdir, "build.log")
    env = clean_env()
    args = ["cmake", "-S", os.path.join(HERE, "harness"), "-B", bdir, "-G", "Ninja", "-DREPO=" + REPO,
            "-DCMAKE_CXX_COMPILER=g++", "-DSAN=" + ("none" if flavour == "rel" else flavour)]
    if sh(args, log, env=env) != 0 or sh(["ninja", "-C", bdir, target], log, env=env) != 0:
        tail = open(log, errors="replace").read()[-4000:]
        print("ERROR: build of %s failed\n%s" % (target, tail))
        sys.exit(1)
    return os.path.join(bdir, target)


def build_py():
    """The Python package of the current tree (extension module with sanitizers and Python sources) below build/py."""
    bdir = os.path.join(BUILD, "py")
    os.makedirs(bdir, exist_ok=True)
    log = os.path.join(bdir, "build.log")
    env = clean_env()
    cfg = os.path.join(HERE, "pyharness", "cmake")
    args = ["cmake", "-S", cfg, "-B", bdir, "-G", "Ninja", "-DREPO=" + REPO, "-DCMAKE_CXX_COMPILER=g++", "-DSAN=asan",
            "-DPython3_EXECUTABLE=/usr/bin/python3"]
    if sh(args, log, env=env) != 0 or sh(["ninja", "-C", bdir], log, env=env) != 0:
        print("ERROR: build of the Python module failed\n%s" % open(log, errors="replace").read()[-4000:])
        sys.exit(1)
    pkg = os.path.join(bdir, "QuESoPythonModule")
    src = os.path.join(REPO, "queso", "python")
    shutil.copy(os.path.join(src, "QuESoPythonModule.py"), os.path.join(pkg, "__init__.py"))
    shutil.copy(os.path.join(src, "PyQuESo.py"), pkg)
    for name, d in (("scripts", os.path.join(src, "scripts")), ("kratos_interface", os.path.join(REPO, "kratos_interface"))):
        shutil.rmtree(os.path.join(pkg, name), ignore_errors=True)
        shutil.copytree(d, os.path.join(pkg, name), ignore=shutil.ignore_patterns("__pycache__"))
    return bdir


def known_findings(prop):
    """known_findings.txt:  'KNOWN property=<id> key=<key> <text>' lines are reported, 'fixed:' lines are only a record."""
    res = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--cap", type=float)
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    spec = CHECKS[a.prop]
    t0 = time.time()
    cap = a.cap or (100.0 if a.tier == "quick" else 480.0)
    replays = os.path.join(BUILD, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    known = known_findings(a.prop)
    results, failures = [], []
    for run in spec["runs"]:
        out = os.path.join(BUILD, "out_%s_%d.json" % (a.prop, len(results)))
        if os.path.exists(out):
            os.remove(out)
        env = clean_env()
        env["PBT_KNOWN"] = ",".join(sorted(known))
        share = cap / len(spec["runs"])
        if run["kind"] == "py":
            mod = build_py()
            cmd = ["python3-vt", os.path.join(HERE, "pyharness", run["script"])]
            env["QUESO_PY"] = mod
        else:
            exe = build_cpp(run["target"], run.get("flavour", "rel"))
            cmd = [exe]
        cmd += ["run", "--prop", a.prop, "--seed", str(a.seed), "--tier", a.tier, "--workers", "8",
                "--cap", str(share), "--scale", str(a.scale * run.get("scale", 1.0)), "--shrink", "40", "--out", out,
                "--failures", replays, "--regress", os.path.join(HERE, "regress", a.prop)]
        if run.get("sub"):
            cmd += ["--sub", run["sub"]]
        env["REPLAY_SUFFIX"] = ""
        log = os.path.join(BUILD, "run_%s_%d.log" % (a.prop, len(results)))
        with open(log, "wb") as f:
            try:
                rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, timeout=share * 1.5 + 400).returncode
            except subprocess.TimeoutExpired:
                rc = -1
        if not os.path.exists(out):
            print("ERROR: harness ended with status %d without a result\n%s" % (rc, open(log, errors="replace").read()[-3000:]))
            sys.exit(1)
        r = json.load(open(out))
        r["run"] = run
        results.append(r)
        for f in r["failures"]:
            f["flavour"] = run.get("flavour", "rel") if run["kind"] == "cpp" else "py"
            failures.append(f)
        if any(f["confirmed"] for f in r["failures"]):
            break

    confirmed = [f for f in failures if f["confirmed"]]
    excluded = {}
    for r in results:
        for k, v in r.get("known_excluded", {}).items():
            excluded[k] = excluded.get(k, 0) + int(v)
    classes, counts, maxima, rules, subs, samples = {}, {}, {}, [], {}, []
    for r in results:
        tag = r["run"].get("flavour", "rel") if r["run"]["kind"] == "cpp" else "py"
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + int(v)
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r["maxima"].items():
            maxima[k] = max(maxima.get(k, v), v)
        for k, v in r["subs"].items():
            subs[k if len(results) == 1 else k + "@" + tag] = v
            if k + ": " + v["rule"] not in rules:
                rules.append(k + ": " + v["rule"])
        samples += r["samples"][:8]
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(int(r["evaluations"]) for r in results),
            "distinct_nontrivial": sum(int(r["distinct_nontrivial"]) for r in results),
            "rule": spec["technique"] + " Non-trivial case = " + "; ".join(rules),
            "samples": samples[:16],
            "discarded_inputs": sum(int(r["discarded"]) for r in results),
            "regression_replays": sum(int(r.get("regression_tapes", 0)) for r in results),
            "classes": classes, "counts": counts, "largest_observed": maxima, "parts": subs,
            "excluded_as_known_finding": excluded,
            "unconfirmed_reports": [f for f in failures if not f["confirmed"]],
        },
        "assumptions": ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, known[k]))
    print("%s: %d cases, %d distinct non-trivial, %d discarded, %.1f s" % (a.prop, ev["coverage"]["evaluations"],
          ev["coverage"]["distinct_nontrivial"], ev["coverage"]["discarded_inputs"], ev["wall_s"]))
    for f in failures:
        if f["confirmed"]:
            print("%s [%s/%s] %s" % (f["sub"], f["flavour"], f["kind"], f["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (a.prop, f["replay"]))
        else:
            print("note: unconfirmed report (did not reproduce, not counted): %s %s" % (f["kind"], f["msg"][:300]))
    sys.exit(1 if confirmed else 0)


if __name__ == "__main__":
    main()
