#!/usr/bin/env python3
"""Regenerate the dependence contract (sa/rules/contract.json) from a tree; run by hand after reviewing intended changes."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa.model import Program  # noqa: E402
from sa.rules.dependence import contract, CONTRACT  # noqa: E402

c = contract(Program(sys.argv[1] if len(sys.argv) > 1 else '/repo'))
with open(CONTRACT, 'w', encoding='utf-8') as fh:
    json.dump(c, fh, indent=0, sort_keys=True)
print(len(c), 'classes', sum(len(v) for v in c.values()), 'operations', sum(len(d) for v in c.values() for d in v.values()), 'dependences')
