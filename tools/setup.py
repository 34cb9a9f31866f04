#!/usr/bin/env python3
"""Nothing is prebuilt (every check compiles its harnesses against /repo's
current headers); this makes sure that what they need is there."""
import shutil
import subprocess
import sys

missing = [t for t in ("clang++", "g++") if not shutil.which(t)]
if missing:
    sys.exit("missing: " + " ".join(missing))
r = subprocess.run(["clang++", "-fsanitize=address,undefined", "-x", "c++", "-", "-o", "/dev/null"],
                   input=b"int main() {}")
sys.exit(r.returncode)
