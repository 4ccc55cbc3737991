#!/usr/bin/env python3
"""setup_cmd: checks the tools and builds every harness for the current tree (checks rebuild whatever has changed since)."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans, vlib
missing = [t for t in ('g++', 'clang++', 'gcc', 'clang', 'valgrind') if not shutil.which(t)]
if missing:
    print('missing tools: %s' % ' '.join(missing))
    sys.exit(1)
b = vlib.Builder()
todo = {(r['cfg'], r['harness']) for p in plans.PLANS.values() for r in p.get('runs', [])} | {('prod', 'h_dump')}
fs = [(t, b.start(t[0], t[1], **plans.options(t[1]))) for t in sorted(todo)]
for t, f in fs:
    f()
b.shared()
print('%d harnesses built' % len(fs))
