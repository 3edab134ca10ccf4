#!/usr/bin/env python3
"""python3 sa/check.py PROPERTY [--thorough]: decide one property of the current /repo tree by static analysis"""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":        # same iteration order in every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
import core
import par

REG = {}


def reg():
    import registry
    return registry.lookup


if __name__ == "__main__":
    sys.exit(core.main(reg()))
