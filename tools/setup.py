#!/usr/bin/env python3
"""setup_cmd: builds everything the checks run (they rebuild what changed)."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import check
bins = sorted(f[:-3] for f in os.listdir(os.path.join(check.HARNESS, 'src/bin')) if f.endswith('.rs'))
check.build(bins, timeout=1500)
print('built', len(bins), 'monitors', flush=True)
for f in sorted(os.listdir(os.path.join(check.ROOT, 'tools'))):
    if f.startswith('check_c') and f.endswith('.py'):
        m = importlib.import_module(f[:-3])
        if hasattr(m, 'build_all'):
            m.build_all(check)
            print('built', f[6:9].upper(), flush=True)
