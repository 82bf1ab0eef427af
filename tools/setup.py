"""checks that the tools the engine uses are present"""
import shutil
import sys
import z3
for t in ("clang++", "g++", "gfortran", "m4", "nm", "cvc5", "/usr/lib/llvm-18/bin/opt"):
    if not shutil.which(t):
        sys.exit(f"missing tool: {t}")
print("z3", z3.get_version_string())
