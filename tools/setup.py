#!/usr/bin/env python3
"""Builds the framework once, to show that everything needed is present."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = subprocess.run(["cargo", "build", "--offline", "--release", "-F", "wizzilab"], cwd=os.path.join(HERE, "harness"), env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(HERE, "target", "wizzilab")))
sys.exit(r.returncode)
