"""Normal form of the source: private names keep the name they were reviewed under, tests their plain form.

Renaming a private attribute, helper or module function changes nothing a user observes. The rules, their
reviewed tables and the known findings refer to private names, so a name which vanished is matched with the
new name mentioned by the same functions in the same manner, and restored before any rule runs.
"""
from __future__ import annotations
import ast
import gzip
import json
import os
from .inline import undo_extraction

INVENTORY = os.path.join(os.path.dirname(__file__), 'rules', 'inventory.json.gz')
NEGATED = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
           ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}
MIRRORED = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def private(n: str) -> bool:
    return n.startswith('_') and not n.endswith('__') and n.strip('_') != ''


class Collector(ast.NodeVisitor):
    """Mentions of private names: (key) -> [(node, field)], {(manner, scope)}"""

    def __init__(self, module: str):
        self.module = module
        self.cls: list = []
        self.fn: list = []
        self.sites: dict = {}
        self.sig: dict = {}
        self.bound: list = []

    def note(self, name, node, fieldname, how, member):
        if member and name.startswith('__'):
            if not self.cls:
                return
            k = f'{self.module}.{".".join(self.cls)}:{name}'
        elif member:
            k = '.' + name
        else:
            k = f'{self.module}:{name}'
        self.sites.setdefault(k, []).append((node, fieldname))
        scope = '.'.join([self.module] + self.cls + ['~' if private(x) else x for x in self.fn[:1]])
        s = self.sig.setdefault(k, {})
        t = f'{how}@{scope}'
        s[t] = s.get(t, 0) + 1

    def visit_ClassDef(self, n):
        for d in n.decorator_list + n.bases:
            self.visit(d)
        cls, fn = self.cls, self.fn
        self.cls, self.fn = cls + [n.name], []
        for s in n.body:
            self.visit(s)
        self.cls, self.fn = cls, fn

    def visit_FunctionDef(self, n):
        for d in n.decorator_list:
            self.visit(d)
        if private(n.name) and not self.fn:
            self.note(n.name, n, 'name', f'def{len(n.args.args)}', bool(self.cls))
        self.fn.append(n.name)
        a = n.args
        self.bound.append({x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        for s in a.defaults + [x for x in a.kw_defaults if x] + n.body:
            self.visit(s)
        self.bound.pop()
        self.fn.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Attribute(self, n):
        if private(n.attr):
            self.note(n.attr, n, 'attr', type(n.ctx).__name__, True)
        self.visit(n.value)

    def visit_Name(self, n):
        if not private(n.id) or any(n.id in b for b in self.bound):
            return
        if self.cls and not self.fn:
            self.note(n.id, n, 'id', 'body', True)      # declared in the body of a class
        else:
            self.note(n.id, n, 'id', type(n.ctx).__name__, False)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and private(n.func.attr):
            self.note(n.func.attr, n.func, 'attr', 'Call', True)
            self.visit(n.func.value)
        else:
            self.visit(n.func)
        for a in n.args:
            self.visit(a)
        for k in n.keywords:
            self.visit(k.value)

    def visit_ImportFrom(self, n):
        for a in n.names:
            if private(a.name) and a.asname is None:
                self.note(a.name, a, 'name', 'Import', False)


def collect(trees: dict):
    sites: dict = {}
    sig: dict = {}
    for module, tree in trees.items():
        c = Collector(module)
        c.visit(tree)
        for k, v in c.sites.items():
            sites.setdefault(k, []).extend(v)
        for k, v in c.sig.items():
            s = sig.setdefault(k, {})
            for t, n in v.items():
                s[t] = s.get(t, 0) + n
    return sites, sig


def similar(a: dict, b: dict) -> float:
    both = sum(min(n, b.get(t, 0)) for t, n in a.items())
    return both / max(1, sum(a.values()) + sum(b.values()) - both)


def family(k: str) -> str:
    """Names which may replace each other."""
    return '.' if k.startswith('.') else k.rpartition(':')[0]


def reviewed() -> dict:
    with gzip.open(INVENTORY, 'rt', encoding='utf-8') as fh:
        return json.load(fh)


def restore_names(trees: dict):
    """Undo renamings of private names in place. -> {current key: reviewed key}"""
    if not os.path.exists(INVENTORY):
        return {}
    want = reviewed()['private']
    sites, have = collect(trees)
    lost = [k for k in want if k not in have]
    gained = [k for k in have if k not in want]
    if not lost or not gained:
        return {}
    pairs = []
    by: dict = {}
    for g in gained:
        by.setdefault(family(g), []).append(g)
    for k in lost:
        for g in by.get(family(k), ()):
            s = similar(want[k], have[g])
            if s >= 0.6:
                pairs.append((s, name_overlap(k, g), k, g))
    done: dict = {}
    used = set()
    for s, _, k, g in sorted(pairs, key=lambda p: (-p[0], -p[1], p[2], p[3])):
        if k in used or g in done:
            continue
        used.add(k)
        done[g] = k
        name = k[1:] if k.startswith('.') else k.rpartition(':')[2]
        for node, fieldname in sites[g]:
            setattr(node, fieldname, name)
    return done


def name_overlap(a: str, b: str) -> int:
    n = 0
    for x, y in zip(a, b):
        if x != y:
            break
        n += 1
    return n


class Tests(ast.NodeTransformer):
    """Plain tests: negations at the leaves, constants on the right."""

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            r = self.negate(n.operand)
            if r is not None:
                return ast.copy_location(r, n)
        return n

    def negate(self, v):
        if isinstance(v, ast.Compare) and len(v.ops) == 1:
            return ast.copy_location(ast.Compare(v.left, [NEGATED[type(v.ops[0])]()], v.comparators), v)
        if isinstance(v, ast.BoolOp) and any(isinstance(x, (ast.Compare, ast.UnaryOp)) for x in v.values):
            parts = [self.negate(x) or ast.copy_location(ast.UnaryOp(ast.Not(), x), x) for x in v.values]
            return ast.copy_location(ast.BoolOp(ast.And() if isinstance(v.op, ast.Or) else ast.Or(), parts), v)
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
            return v.operand
        return None

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.left, ast.Constant) and not isinstance(n.comparators[0], ast.Constant) and type(n.ops[0]) in MIRRORED:
            return ast.copy_location(ast.Compare(n.comparators[0], [MIRRORED[type(n.ops[0])]()], [n.left]), n)
        return n


def signatures(trees: dict):
    """Parameters of functions and constructors by their name, where all of a name agree."""
    sigs: dict = {}
    made: dict = {}
    for t in trees.values():
        for c in ast.walk(t):
            if not isinstance(c, (ast.Module, ast.ClassDef)):
                continue
            for f in c.body:
                if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                decos = {d.id for d in f.decorator_list if isinstance(d, ast.Name)}
                if 'overload' in decos:
                    sigs.setdefault(f.name, set()).add(None)
                    continue
                a = f.args
                ps = [x.arg for x in a.posonlyargs + a.args]
                if isinstance(c, ast.ClassDef) and 'staticmethod' not in decos:
                    ps = ps[1:]
                sig = None if a.posonlyargs or a.vararg else tuple(ps)
                sigs.setdefault(f.name, set()).add(sig)
                if f.name == '__init__':
                    made.setdefault(c.name, set()).add(sig)
    one = {k: next(iter(v)) for k, v in sigs.items() if len(v) == 1 and None not in v}
    ctor = {k: next(iter(v)) for k, v in made.items() if len(v) == 1 and None not in v}
    return one, ctor


class Arguments(ast.NodeVisitor):
    """Arguments by position wherever all functions of a name agree on their parameters."""

    def __init__(self, one, ctor):
        self.one, self.ctor = one, ctor

    def visit_Call(self, n):
        self.generic_visit(n)
        ps = self.one.get(n.func.attr) if isinstance(n.func, ast.Attribute) else (self.ctor.get(n.func.id) or self.one.get(n.func.id)) if isinstance(n.func, ast.Name) else None
        if not ps or not n.keywords or any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg not in ps for k in n.keywords):
            return
        while len(n.args) < len(ps):
            k = next((k for k in n.keywords if k.arg == ps[len(n.args)]), None)
            if k is None:
                break
            n.keywords.remove(k)
            n.args.append(k.value)


def normalize(trees: dict):
    renamed = restore_names(trees)
    if os.path.exists(INVENTORY):
        undo_extraction(trees, set(reviewed()['defined']))
    for t in trees.values():
        Tests().visit(t)
    one, ctor = signatures(trees)
    for t in trees.values():
        Arguments(one, ctor).visit(t)
    return renamed
