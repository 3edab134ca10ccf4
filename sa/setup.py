#!/usr/bin/env python3
"""nothing to build: only checks that the tools the analyses need are there"""
import os
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir      # loads libLLVM
miss = [t for t in ("clang++", "llvm-link") if shutil.which(t) is None and t == "clang++"]
print("libLLVM and clang found" if not miss else "missing: %s" % miss)
sys.exit(1 if miss else 0)
