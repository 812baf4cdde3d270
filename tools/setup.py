#!/usr/bin/env python3
"""Offline preparation: checks that the toolchain can build the harness."""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, RUSTFLAGS="--cfg parcom_verif", CARGO_NET_OFFLINE="true")
sys.exit(subprocess.run(["cargo", "build", "--offline", "--bins", "--target-dir", os.path.join(ROOT, "target", "native")], cwd=os.path.join(ROOT, "harness"), env=env).returncode)
