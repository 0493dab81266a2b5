#!/usr/bin/env python3
"""mkseed.py ID PROP FILE: reads from stdin a python dict literal with keys edits [(file, old, new)], needs, breaks, demo (C++ main body file text)."""
import sys, os, json, subprocess, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
clang++-18 -std=gnu++20 -O1 -w -DNDEBUG -I. -Iinc -I/usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -ltbb -lnlopt || exit 3
timeout 120 "$T/demo"
'''
def make(id, prop, edits, needs, breaks, demo):
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    R = "/tmp/sd"
    if not os.path.isdir(R): subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
    subprocess.run(f"git -C {R} fetch -q; git -C {R} reset -q --hard origin/HEAD", shell=True, check=True)
    for f, old, new in edits:
        p = R + "/" + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print("made", id)
if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for s in ns["SEEDS"]:
        if not only or s["id"] in only:
            make(**s)
