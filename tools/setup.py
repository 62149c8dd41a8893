#!/usr/bin/env python3
"""Checks that the tools are there and that the engine builds. Checks build everything they need themselves."""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("cargo", "rustc", "git"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
d = tempfile.mkdtemp(prefix="setup-")
try:
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--target-dir", d],
                       cwd=os.path.join(HERE, "engine"), env=e).returncode
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(r)
