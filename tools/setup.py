#!/usr/bin/env python3
"""Nothing needs building ahead of the checks; this only confirms that the tools they use are there."""
import subprocess, sys
for tool in (["clang++", "--version"], ["python3", "--version"]):
    subprocess.run(tool, check=True, stdout=subprocess.DEVNULL)
src = b"#include <fmt/format.h>\nint main(){ return fmt::format(\"{}\", 1).size() != 1; }\n"
r = subprocess.run(["clang++", "-std=c++20", "-w", "-fsyntax-only", "-x", "c++", "-"], input=src)
sys.exit(r.returncode)
