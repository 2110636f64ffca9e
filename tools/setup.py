#!/usr/bin/env python3
"""Nothing is prebuilt (every check builds what it needs); this only verifies that the toolchain is there."""
import shutil, subprocess, sys
for t in ("gcc", "python3"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
subprocess.run(["gcc", "-x", "c", "-fsanitize=address", "-o", "/dev/null", "-"], input=b"int main(void){return 0;}", check=True)
print("ok")
