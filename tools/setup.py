#!/usr/bin/env python3
"""Builds the harness once (every check builds what it needs itself) and checks the reference model."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
os.makedirs(check.B, exist_ok=True)
exe = check.build("std", check.B)
sys.exit(subprocess.run([exe, "selftest"]).returncode)
