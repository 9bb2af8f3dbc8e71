#!/usr/bin/env python3
"""Regenerate the inventory of private names (sa/rules/inventory.json.gz) from a tree; run by hand after reviewing intended changes."""
import ast
import gzip
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import normal  # noqa: E402
from sa.inline import inventory  # noqa: E402
if os.path.exists(normal.INVENTORY):
    os.unlink(normal.INVENTORY)
from sa.model import Program  # noqa: E402

p = Program(sys.argv[1] if len(sys.argv) > 1 else '/repo')
trees = {m.name: ast.parse(open(os.path.join(p.repo, m.path), encoding='utf-8').read()) for m in p.modules.values()}
_, sig = normal.collect(trees)
defined = inventory(trees)
with open(normal.INVENTORY, 'wb') as raw, gzip.GzipFile(fileobj=raw, mode='wb', mtime=0, filename='') as fh:
    fh.write(json.dumps({'private': sig, 'defined': defined}, indent=0, sort_keys=True).encode())
print(len(sig), 'private names', len(defined), 'definitions')
