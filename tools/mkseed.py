"""Writes planted bugs: seed(name, prop, kind, edits, demo, needs, breaks) -> /verif/seeded/name."""
import json
import os
import shutil
import subprocess
import tempfile

LIB = "src/lib/sup/oac-tree/"


def seed(name, prop, kind, edits, demo, needs, breaks):
    dst = f"/verif/seeded/{name}"
    os.makedirs(dst, exist_ok=True)
    lib = "/verif/tools/seedlib"
    shutil.copy(f"{lib}/build.sh", dst)
    if kind != "core":
        shutil.copy(f"{lib}/dh.h", dst)
        shutil.rmtree(f"{dst}/standin", ignore_errors=True)
        shutil.copytree("/verif/standin", f"{dst}/standin")
    open(f"{dst}/demo.cpp", "w").write(demo)
    san = {"tsan": "-fsanitize=thread -g1",
           "asan": "-fsanitize=address,undefined -fno-sanitize-recover=all -g1"}.get(kind, "")
    fn = "build_core" if kind == "core" else "build_full"
    open(f"{dst}/demo.sh", "w").write(f"""#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
SAN="{san}"
. "$HERE/build.sh"
{fn} "$HERE/demo.cpp" "$W/demo" >"$W/log" 2>&1 || {{ tail -20 "$W/log"; exit 3; }}
cd "$W" && timeout -k 5 100 "$W/demo"
""")
    os.chmod(f"{dst}/demo.sh", 0o755)
    with tempfile.TemporaryDirectory() as t:
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
        for f, old, new in edits:
            p = f"{t}/r/{LIB}{f}" if not f.startswith("src/") else f"{t}/r/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (name, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        d = subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True)
    open(f"{dst}/patch.diff", "w").write(d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{dst}/meta.json", "w"), indent=1)
    print(name)
