#!/usr/bin/env python3
"""Checks that the tools the framework needs are present; the checks themselves build what they need."""
import shutil
import subprocess
import sys

for t in ("clang++", "python3"):
    if not shutil.which(t):
        print("missing", t)
        sys.exit(1)
p = subprocess.run(["clang++", "-std=c++17", "-fsanitize=thread", "-x", "c++", "-fsyntax-only", "-I/usr/include/libxml2", "-"],
                   input=b"#include <thread>\n#include <libxml/parser.h>\nint main(){}\n")
sys.exit(p.returncode)
