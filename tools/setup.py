#!/usr/bin/env python3
"""Compiles the TLC overrides.  (The checks build the library from /repo's tree themselves.)"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build  # noqa: E402
os.makedirs(build.BUILD, exist_ok=True)
build.java()
