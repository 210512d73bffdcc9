#!/usr/bin/env python3
"""Replays a tape (the file named by a VIOLATION line) against the current tree of /repo:  replay.py FILE [--flavour asan]
Exit status: 0 the property holds on it, 1 it is violated."""
import os, subprocess, sys
import check
from checks import CHECKS


def main():
    path = os.path.abspath(sys.argv[1])
    flavour = sys.argv[3] if len(sys.argv) > 3 else None
    info = dict(l.split(None, 1) for l in open(path) if len(l.split(None, 1)) == 2 and not l.startswith("#"))
    prop = info["property"].strip()
    status, seen = 0, set()
    for run in CHECKS[prop]["runs"]:
        env = check.clean_env()
        env["PBT_STDERR"] = "1"
        env["PBT_KNOWN"] = ",".join(sorted(check.known_findings(prop)))
        if run["kind"] == "py":
            env["QUESO_PY"] = check.build_py()
            cmd = ["python3-vt", os.path.join(check.HERE, "pyharness", run["script"])]
        else:
            fl = run.get("flavour", "rel")
            if flavour and fl != flavour:
                continue
            cmd = [check.build_cpp(run["target"], fl)]
        if tuple(cmd) in seen:
            continue
        seen.add(tuple(cmd))
        rc = subprocess.run(cmd + ["replay", path], env=env).returncode
        status = max(status, 1 if rc else 0)
    sys.exit(status)


if __name__ == "__main__":
    main()
