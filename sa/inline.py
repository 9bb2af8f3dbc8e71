"""Undo the extraction of helpers: a function the reviewed tree does not have is a part of those invoking it.

Moving statements into a new helper changes nothing a user observes. A new function is inlined wherever its
call can be replaced by its body without changing what is computed; all other calls stay as they are.
"""
from __future__ import annotations
import ast
import copy

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FUNC + (ast.ClassDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def own(node):
    """Nodes of a function without those of nested functions."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, SCOPES):
            todo.extend(ast.iter_child_nodes(n))


def stored(nodes) -> set:
    out = set()
    for r in nodes:
        for n in [r, *own(r)]:
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    return out


def docless(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[1:]
    return body


class Helper:
    def __init__(self, node, static, member):
        self.node, self.static, self.member = node, static, member
        self.body = docless(node.body)
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.defaults = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults)) if a.defaults else {}
        self.defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        self.open = a.vararg is not None or a.kwarg is not None
        self.left = 0           # references which stay

    def usable(self) -> bool:
        if self.open or not self.body:
            return False
        for n in own(self.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, *FUNC, ast.ClassDef)):
                return False
            if isinstance(n, ast.Name) and n.id in ('super', '__class__', 'locals'):
                return False
            if isinstance(n, (ast.Name, ast.Attribute)) and (n.id if isinstance(n, ast.Name) else n.attr) == self.node.name:
                return False    # recursive
        return True


def tail(body, mk, needed):
    """Replace returns in tail position; None where a return is not in tail position."""
    out = []
    for i, s in enumerate(body):
        if isinstance(s, ast.Return):
            return out + mk(s)
        if isinstance(s, ast.Raise):
            return out + [s]
        if isinstance(s, ast.If) and any(isinstance(n, ast.Return) for n in ast.walk(s)):
            rest = body[i + 1:]
            if rest and not ends(s.body) and not (s.orelse and ends(s.orelse)):
                return None
            a = tail(s.body + ([] if ends(s.body) else copy.deepcopy(rest)), mk, needed)
            b = tail(s.orelse + ([] if s.orelse and ends(s.orelse) else copy.deepcopy(rest)), mk, needed)
            if a is None or b is None:
                return None
            return out + [ast.copy_location(ast.If(s.test, a or [ast.copy_location(ast.Pass(), s)], b), s)]
        if isinstance(s, ast.With) and i == len(body) - 1 and any(isinstance(n, ast.Return) for n in ast.walk(s)):
            a = tail(s.body, mk, needed)
            return None if a is None else out + [ast.copy_location(ast.With(s.items, a), s)]
        if any(isinstance(n, ast.Return) for n in [s, *own(s)]):
            return None
        out.append(s)
    if needed:
        return out + mk(None)
    return out


def ends(body) -> bool:
    s = body[-1] if body else None
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    return isinstance(s, ast.If) and bool(s.orelse) and ends(s.body) and ends(s.orelse)


class Subst(ast.NodeTransformer):
    def __init__(self, names: dict):
        self.names = names          # name -> expression or new name

    def visit_Name(self, n):
        r = self.names.get(n.id)
        if r is None:
            return n
        if isinstance(r, str):
            return ast.copy_location(ast.Name(r, n.ctx), n)
        return copy.deepcopy(r) if isinstance(n.ctx, ast.Load) else n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if isinstance(self.names.get(n.name), str):
            n.name = self.names[n.name]
        return n


def plain(e) -> bool:
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, (ast.Name, ast.Constant))


class Inliner:
    def __init__(self, funcs: dict, klass: str | None):
        self.funcs = funcs      # helpers by name, as seen from the function being processed
        self.done = 0
        self.count = 0

    def helper(self, call, caller):
        f = call.func
        if isinstance(f, ast.Name):
            h = self.funcs.get((None, f.id))
            return (h, None) if h is not None else None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            h = self.funcs.get(('self', f.attr))
            if h is None:
                return None
            args = caller.args.posonlyargs + caller.args.args
            if f.value.id in ('self', 'cls') and args and args[0].arg == f.value.id:
                return h, f.value
            if h.static and f.value.id == h.member:
                return h, None
        return None

    def bind(self, h, recv, call):
        """-> {parameter: argument} or None"""
        ps = list(h.params)
        out = {}
        if h.member is not None and not h.static:
            if recv is None or not ps:
                return None
            out[ps.pop(0)] = recv
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords) or len(call.args) > len(ps):
            return None
        for p, a in zip(ps, call.args):
            out[p] = a
        for k in call.keywords:
            if k.arg not in ps + h.kwonly or k.arg in out:
                return None
            out[k.arg] = k.value
        for p in ps + h.kwonly:
            if p not in out:
                if p not in h.defaults:
                    return None
                out[p] = h.defaults[p]
        return out

    def expression(self, call, caller):
        """A call to a helper that only returns an expression."""
        t = self.helper(call, caller)
        if t is None:
            return None
        h, recv = t
        if not h.usable() or len(h.body) != 1 or not isinstance(h.body[0], ast.Return) or h.body[0].value is None:
            return None
        b = self.bind(h, recv, call)
        if b is None:
            return None
        e = h.body[0].value
        if any(isinstance(n, (ast.Lambda, ast.NamedExpr)) for n in ast.walk(e)):
            return None
        inner = {n.id for c in ast.walk(e) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
        for p, a in b.items():
            uses = sum(1 for n in ast.walk(e) if isinstance(n, ast.Name) and n.id == p)
            if uses > 1 and not plain(a) or p in inner:
                return None
            if inner and any(isinstance(n, ast.Name) and n.id in inner for n in ast.walk(a)):
                return None
        self.done += 1
        return Subst(b).visit(copy.deepcopy(e))

    def statements(self, s, call, targets, caller, returning):
        """The body of a helper in place of a statement."""
        t = self.helper(call, caller)
        if t is None:
            return None
        h, recv = t
        if not h.usable():
            return None
        b = self.bind(h, recv, call)
        if b is None:
            return None
        self.count += 1
        body = copy.deepcopy(h.body)
        locs = stored(body)
        comps = {n.id for r in body for c in ast.walk(r) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
        taken = {n.id for n in ast.walk(caller) if isinstance(n, ast.Name)} | {a.arg for a in ast.walk(caller) if isinstance(a, ast.arg)}
        names: dict = {}
        pre = []
        rets = [n.value for r in body for n in [r, *own(r)] if isinstance(n, ast.Return)]
        result: dict = {}       # local of the helper -> target it becomes
        if targets and len(rets) == 1 and rets[0] is not None:
            rs = rets[0].elts if isinstance(rets[0], ast.Tuple) and len(targets) > 1 and len(rets[0].elts) == len(targets) else [rets[0]] if len(targets) == 1 else []
            for r, tg in zip(rs, targets):
                if isinstance(r, ast.Name) and isinstance(tg, ast.Name) and r.id not in result and tg.id not in result.values():
                    result[r.id] = tg.id
        for p, a in b.items():
            if p in locs:       # reassigned by the helper
                if p in result and isinstance(a, ast.Name) and a.id == result[p]:
                    names[p] = a.id
                    continue
                if p in result and not any(isinstance(n, ast.Name) and n.id == result[p] for q, x in b.items() if q != p for n in ast.walk(x)):
                    names[p] = result[p]
                    pre.append(ast.copy_location(ast.Assign([ast.Name(result[p], ast.Store())], copy.deepcopy(a)), s))
                    continue
                n = p if p not in taken else f'{p}__{self.count}'
                names[p] = n
                pre.append(ast.copy_location(ast.Assign([ast.Name(n, ast.Store())], copy.deepcopy(a)), s))
            elif plain(a) and p not in comps and not (isinstance(a, ast.Attribute) and False):
                base = a
                while isinstance(base, ast.Attribute):
                    base = base.value
                over = {result.get(x, x) for x in locs}
                if isinstance(base, ast.Name) and base.id in over and result.get(p) != base.id:
                    n = f'{p}__{self.count}'
                    names[p] = n
                    pre.append(ast.copy_location(ast.Assign([ast.Name(n, ast.Store())], copy.deepcopy(a)), s))
                else:
                    names[p] = a
            else:
                n = p if p not in taken else f'{p}__{self.count}'
                names[p] = n
                pre.append(ast.copy_location(ast.Assign([ast.Name(n, ast.Store())], copy.deepcopy(a)), s))
        bound_args = {n.id for a in b.values() for n in ast.walk(a) if isinstance(n, ast.Name)}
        for x in locs - set(b):
            if x in result and result[x] not in bound_args and result[x] not in (locs - {x}):
                names[x] = result[x]
            elif x in taken and not returning:
                names[x] = f'{x}__{self.count}'
            elif x in taken and x in bound_args:
                names[x] = f'{x}__{self.count}'
        body = [Subst(names).visit(r) for r in body]

        def mk(r):
            v = r.value if r is not None and r.value is not None else ast.copy_location(ast.Constant(None), s)
            at = r if r is not None else s
            if returning:
                return [ast.copy_location(ast.Return(v), at)]
            if targets is None:
                return [] if isinstance(v, (ast.Constant, ast.Name)) else [ast.copy_location(ast.Expr(v), at)]
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            if len(tg) == 1 and ast.dump(ast.parse(ast.unparse(tg[0]) + ' = 0').body[0].targets[0]) == ast.dump(ast.parse(ast.unparse(v) + ' = 0').body[0].targets[0]) if isinstance(v, (ast.Name, ast.Tuple)) and all(isinstance(x, ast.Name) for x in getattr(v, 'elts', [v])) else False:
                return []
            n = copy.copy(s)
            n.value = v
            return [n]

        if returning:
            out = body if ends(body) or any(not isinstance(n, ast.Return) for n in ()) else body + ([] if ends(body) else [ast.copy_location(ast.Return(ast.copy_location(ast.Constant(None), s)), s)])
        else:
            out = tail(body, mk, targets is not None)
        if out is None:
            return None
        self.done += 1
        return pre + (out or [ast.copy_location(ast.Pass(), s)])

    def block(self, body, caller):
        out = []
        for s in body:
            if isinstance(s, (*FUNC, ast.ClassDef)):
                out.append(s)
                continue
            for fld in ('body', 'orelse', 'finalbody'):
                v = getattr(s, fld, None)
                if v:
                    setattr(s, fld, self.block(v, caller))
            for h in getattr(s, 'handlers', []):
                h.body = self.block(h.body, caller)
            for c in getattr(s, 'cases', []):
                c.body = self.block(c.body, caller)
            r = None
            v = getattr(s, 'value', None)
            if isinstance(v, ast.Call):
                if isinstance(s, ast.Expr):
                    r = self.statements(s, v, None, caller, False)
                elif isinstance(s, ast.Return):
                    r = self.statements(s, v, None, caller, True)
                elif isinstance(s, ast.Assign) and len(s.targets) == 1:
                    t = s.targets[0]
                    r = self.statements(s, v, list(t.elts) if isinstance(t, ast.Tuple) else [t], caller, False)
                elif isinstance(s, ast.AnnAssign):
                    r = self.statements(s, v, [s.target], caller, False)
            if r is not None:
                out.extend(r)
                continue
            # calls within expressions
            hoisted = self.hoist(s, caller)
            out.extend(hoisted)
            for fld, val in ast.iter_fields(s):
                if isinstance(val, ast.expr):
                    setattr(s, fld, self.Expr(self, caller).visit(val))
                elif isinstance(val, list) and val and isinstance(val[0], (ast.expr, ast.withitem)):
                    setattr(s, fld, [self.Expr(self, caller).visit(x) for x in val])
            out.append(s)
        return out

    class Expr(ast.NodeTransformer):
        def __init__(self, inl, caller):
            self.inl, self.caller = inl, caller

        def visit_Call(self, n):
            self.generic_visit(n)
            r = self.inl.expression(n, self.caller)
            return n if r is None else ast.copy_location(r, n)

    def hoist(self, s, caller):
        """Evaluate calls of larger helpers ahead of the statement using their result."""
        if isinstance(s, ast.While) or not isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Return, ast.Expr, ast.If, ast.For, ast.Raise)):
            return []
        root = s.test if isinstance(s, ast.If) else s.iter if isinstance(s, ast.For) else s.exc if isinstance(s, ast.Raise) else s.value
        if root is None:
            return []
        out = []

        def go(e):
            if isinstance(e, (ast.IfExp, ast.BoolOp, ast.Lambda, *COMPS)):
                return
            for fld, val in ast.iter_fields(e):
                for i, x in enumerate(val if isinstance(val, list) else [val]):
                    if isinstance(x, ast.keyword):
                        go_field(x, 'value', x.value)
                    elif isinstance(x, ast.expr):
                        go_field(e, fld, x, i if isinstance(val, list) else None)

        def go_field(owner, fld, x, i=None):
            go(x)
            if isinstance(x, ast.Call):
                t = self.helper(x, caller)
                if t is not None and t[0].usable() and len(t[0].body) > 1:
                    n = f'{t[0].node.name.strip("_")}__{self.count + 1}'
                    a = ast.copy_location(ast.Assign([ast.copy_location(ast.Name(n, ast.Store()), x)], x), s)
                    r = self.statements(a, x, [a.targets[0]], caller, False)
                    if r is not None:
                        out.extend(r)
                        nm = ast.copy_location(ast.Name(n, ast.Load()), x)
                        if i is None:
                            setattr(owner, fld, nm)
                        else:
                            getattr(owner, fld)[i] = nm
        if isinstance(root, ast.Call) or True:
            holder = ast.Expr(root)
            go_field(holder, 'value', root)
            fld = 'test' if isinstance(s, ast.If) else 'iter' if isinstance(s, ast.For) else 'exc' if isinstance(s, ast.Raise) else 'value'
            setattr(s, fld, holder.value)
        return out


def static(node) -> bool | None:
    """None: decorated otherwise."""
    if not node.decorator_list:
        return False
    d = node.decorator_list
    return True if len(d) == 1 and isinstance(d[0], ast.Name) and d[0].id == 'staticmethod' else None


def inventory(trees: dict) -> list:
    """Functions of a tree and names of its modules' variables."""
    out = []
    for m, t in trees.items():
        for c in ast.walk(t):
            if isinstance(c, (ast.Module, ast.ClassDef)):
                pre = f'{m}:' + (c.name if isinstance(c, ast.ClassDef) else '')
                for s in c.body:
                    if isinstance(s, FUNC):
                        out.append(f'{pre}.{s.name}')
                    elif isinstance(c, ast.Module) and isinstance(s, (ast.Assign, ast.AnnAssign)):
                        out += [f'{pre}.{n.id}' for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
    return sorted(set(out))


def undo_extraction(trees: dict, known: set, only=None) -> int:
    total = 0
    undone: list = []
    members: dict = {}
    for m, t in trees.items():
        for c in ast.walk(t):
            if isinstance(c, ast.ClassDef):
                for s in c.body:
                    if isinstance(s, FUNC):
                        members[s.name] = members.get(s.name, 0) + 1
    for m, t in trees.items():
        new: dict = {}
        consts: dict = {}
        for c in ast.walk(t):
            if isinstance(c, (ast.Module, ast.ClassDef)):
                pre = f'{m}:' + (c.name if isinstance(c, ast.ClassDef) else '')
                for s in c.body:
                    if isinstance(s, ast.FunctionDef) and f'{pre}.{s.name}' not in known and not (s.name.startswith('__') and s.name.endswith('__')):
                        st = static(s)
                        if st is None or isinstance(c, ast.ClassDef) and members[s.name] > 1 and not s.name.startswith('__'):
                            continue
                        new[(c, s.name)] = Helper(s, st, c.name if isinstance(c, ast.ClassDef) else None)
                    elif isinstance(c, ast.Module) and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                            f'{pre}.{s.targets[0].id}' not in known and constant(s.value):
                        consts[s.targets[0].id] = s.value
        if consts:
            for n in ast.walk(t):
                for fld, val in ast.iter_fields(n):
                    if isinstance(val, ast.Name) and isinstance(val.ctx, ast.Load) and val.id in consts:
                        setattr(n, fld, ast.copy_location(copy.deepcopy(consts[val.id]), val))
                    elif isinstance(val, list):
                        for i, x in enumerate(val):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in consts:
                                val[i] = ast.copy_location(copy.deepcopy(consts[x.id]), x)
        if not new:
            continue
        classes = [c for c in ast.walk(t) if isinstance(c, (ast.Module, ast.ClassDef))]
        for _ in range(6):
            done = 0
            for c in classes:
                funcs = {(None, n): h for (o, n), h in new.items() if isinstance(o, ast.Module)}
                funcs.update({('self', n): h for (o, n), h in new.items() if o is c})
                if not funcs:
                    continue
                inl = Inliner(funcs, None)
                for f in c.body:
                    if isinstance(f, FUNC):
                        f.body = inl.block(f.body, f)
                done += inl.done
            for h in new.values():
                h.body = docless(h.node.body)
            total += done
            if not done:
                break
        ast.fix_missing_locations(t)
        undone.extend((t, c, n, h) for (c, n), h in new.items())
    # helpers nothing refers to any longer
    if undone:
        names: dict = {}
        for t in trees.values():
            for x in ast.walk(t):
                n = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
                if n is not None:
                    names[n] = names.get(n, 0) + 1
        for t, c, n, h in undone:
            if not names.get(n) and h.node in c.body and len(c.body) > 1:
                c.body.remove(h.node)
    return total


def constant(e) -> bool:
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, ast.UnaryOp):
        return constant(e.operand)
    if isinstance(e, ast.BinOp):
        return constant(e.left) and constant(e.right)
    if isinstance(e, ast.Tuple):
        return all(constant(x) for x in e.elts)
    return False
