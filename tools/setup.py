#!/usr/bin/env python3-vt
"""Checks that the tools the framework needs are present (nothing is built ahead: every check starts from /repo's sources)."""
import shutil, subprocess, sys
sys.dont_write_bytecode = True
import z3
for t in ("cvc5", "clang++", "clang", "/usr/lib/llvm-18/bin/opt"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
print("z3", z3.get_version_string(), "cvc5 and clang found")
