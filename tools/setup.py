#!/usr/bin/env python3
"""builds extractor and harness once, to show that the framework builds offline; checks rebuild what they need"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
os.makedirs(check.BUILD, exist_ok=True)
x, e1 = check.build_extractor()
h, e2 = check.build_harness("a")
if not x: sys.exit("extractor: " + e1[-2000:])
if not h: sys.exit("harness: " + e2[-2000:])
rc, out, err = check.run(["verus", "--version"], 60)
print(out.strip()); sys.exit(rc)
