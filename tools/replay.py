#!/usr/bin/env python3
"""Replay a recorded counterexample against the real code."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
r = json.load(open(sys.argv[1]))
c = driver.Check(r['property'], 'quick', [{'name': r['instance'], 'src': r['harness'], 'defs': r['defs']}])
c.build()
rc, out, err, f = c.replay(c.specs[0], r, 'replay')
print(out)
print(err[-3000:])
print('exit', rc, '(42: assertion or exception, 44: sanitizer)' if rc else '')
driver.shutil.rmtree(c.dir, ignore_errors=True)
sys.exit(1 if rc else 0)
