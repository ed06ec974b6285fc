#!/usr/bin/env python3
"""check.py C05 [--tier quick|thorough] [--seed N] [--replay FILE] [--scale F]"""
import importlib, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "pbt"))
sys.dont_write_bytecode = True
import engine

if __name__ == "__main__":
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    sys.exit(engine.main(mod.CHECK(), sys.argv[2:]))
