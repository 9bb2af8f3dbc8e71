#!/usr/bin/env python3
"""Regenerate the flow contract (sa/rules/wiring.json.gz) from a tree; run by hand after reviewing intended changes."""
import gzip
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa.model import Program  # noqa: E402
from sa.rules.wiring import contract, CONTRACT  # noqa: E402

c = contract(Program(sys.argv[1] if len(sys.argv) > 1 else '/repo'))
with open(CONTRACT, 'wb') as raw, gzip.GzipFile(fileobj=raw, mode='wb', mtime=0, filename='') as fh:
    fh.write(json.dumps(c, indent=0, sort_keys=True).encode())
print(len(c['operations']), 'operations', sum(len(v) for v in c['operations'].values()), 'arguments', sum(len(x) for v in c['operations'].values() for x in v.values()), 'flows')
