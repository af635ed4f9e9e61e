#!/usr/bin/env python3
"""Builds the rustc driver once, so that a missing toolchain shows up before any check runs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rules'))
sys.dont_write_bytecode = True
import base
os.makedirs(base.CACHE, exist_ok=True)
print(base.build_driver())
