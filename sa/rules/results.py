"""M02: what is computed is delivered."""
from __future__ import annotations
import ast
from ..model import Program, Func, Class
from ..absint import NONE, show, alts
from ..report import Result
from .purity import summaries, demangle
from .options import short

MUTATORS = ('append', 'extend', 'add', 'insert', 'update', 'sort', 'setdefault', 'appendleft', 'reverse')


# Values computed without need; reviewed one by one.
REVIEWED = {
    ('DelayCalibration', 'filled'): 'the received signals are kept for debugging',
    ('ClusterDelayLineRealization', 'size'): 'trimmed together with the cluster delays',
    ('Ganesan', 'concatenate+imag+real'): 'split view of the received symbols, recomputed per antenna',
}


def owner(f: Func) -> str:
    return f.cls.name if f.cls is not None else f.module.name.split('.')[-1]


def valuekey(f, v, target: ast.Name) -> str:
    """Identity of a computed value that survives renaming variables and moving code within the class: what it is computed from and, for
    a part of an unpacked value, which part."""
    src, part = [v], ''
    if isinstance(v, ast.Subscript) and isinstance(v.value, ast.Name) and isinstance(v.slice, ast.Constant):
        whole = [x.value for x in ast.walk(f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.value.id for t in x.targets)]
        if len(whole) == 1:
            src, part = whole, f'[{v.slice.value}]'
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and x.value is v:
            for t in x.targets:
                if isinstance(t, (ast.Tuple, ast.List)):
                    part = ''.join(f'[{i}]' for i, y in enumerate(t.elts) if any(z is target for z in ast.walk(y)))
        if isinstance(v, (ast.List, ast.Dict, ast.Tuple)) or isinstance(v, ast.Call) and not v.args:
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Name) and x.func.value.id == target.id:
                src += [*x.args]
            elif isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == target.id for t in x.targets):
                src.append(x.value)
    n = sorted({x.attr for y in src for x in ast.walk(y) if isinstance(x, ast.Attribute)} |
               {x.func.id for y in src for x in ast.walk(y) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)})
    return ('+'.join(n) or ('filled' if isinstance(v, (ast.List, ast.Dict)) else target.id)) + part


def placeholder(v) -> bool:
    """A value that only declares a variable: constants, other variables, attributes, empty containers."""
    if isinstance(v, (ast.Constant, ast.Name, ast.Attribute)):
        return True
    if isinstance(v, ast.UnaryOp):
        return placeholder(v.operand)
    if isinstance(v, (ast.List, ast.Tuple, ast.Set)):
        return all(placeholder(x) for x in v.elts)
    if isinstance(v, ast.Dict):
        return not v.keys
    if isinstance(v, ast.Call):
        n = v.func.attr if isinstance(v.func, ast.Attribute) else getattr(v.func, 'id', '')
        return n in ('list', 'dict', 'tuple', 'set', 'int', 'float', 'str', 'empty', 'zeros', 'ones', 'full', 'array', 'empty_like', 'zeros_like') and \
            (n in ('empty', 'zeros', 'ones', 'full', 'empty_like', 'zeros_like') or not v.args or all(placeholder(a) for a in v.args))
    return False


def parents(node):
    par = {}
    for x in ast.walk(node):
        for c in ast.iter_child_nodes(x):
            par[c] = x
    return par


def dead_locals(prog, R):
    """Local variables which receive a computed value, or containers which are filled, that nothing ever reads."""
    library = {f.node.name for f in prog.all_funcs()} | {c.name for c in prog.classes.values()}
    for f in prog.all_funcs():
        if f.overload or '<locals>' in f.qual or '<lambda>' in f.qual:
            continue
        par = parents(f.node)
        stores: dict = {}
        loads = set()
        shared = {n for x in ast.walk(f.node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        aliases = {t.id for x in ast.walk(f.node) if isinstance(x, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and isinstance(x.value, (ast.Attribute, ast.Subscript, ast.Name))
                   for t in (x.targets if isinstance(x, ast.Assign) else [x.target]) if isinstance(t, ast.Name)} | set(f.params)

        def p_fresh(n):
            return n not in aliases

        for x in ast.walk(f.node):
            if not isinstance(x, ast.Name):
                continue
            if not isinstance(x.ctx, ast.Load):
                stores.setdefault(x.id, []).append(x)
                continue
            p = par[x]
            use = True
            q = p
            while isinstance(q, (ast.BinOp, ast.UnaryOp)):
                q = par[q]
            if q is not p and isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Name) and q.targets[0].id == x.id:
                stores.setdefault(x.id, []).append(x)     # counting
                continue
            if isinstance(p, ast.Subscript) and p.value is x and (isinstance(p.ctx, (ast.Store, ast.Del)) or isinstance(par[p], ast.AugAssign) and par[p].target is p):
                use = False      # filling the container
            elif isinstance(p, ast.Attribute) and p.attr in MUTATORS and isinstance(par[p], ast.Call) and par[p].func is p and isinstance(par[par[p]], ast.Expr):
                use = False
            if use or not p_fresh(x.id):
                loads.add(x.id)
        for v, ss in stores.items():
            if v.startswith('_') or v in shared:
                continue
            R.count('local_variables')
            if v in loads:
                R.ok()
                continue
            steps = [x for x in ss if isinstance(par[x], (ast.AugAssign, ast.BinOp))]
            counter = bool(steps) and len(steps) < len(ss) and all(isinstance(par[x], ast.Assign) and isinstance(par[x].value, ast.Constant) for x in ss if x not in steps)
            s = steps[0] if counter else ss[0]
            p = par[s]
            tup = False
            while isinstance(p, (ast.Tuple, ast.List, ast.Starred)):
                p = par[p]
                tup = True
            if isinstance(p, (ast.For, ast.comprehension, ast.withitem, ast.ExceptHandler)):
                R.ok()
                continue
            val = p if isinstance(p, ast.BinOp) else getattr(p, 'value', None)
            if val is None or isinstance(val, (ast.Constant, ast.Name)) and not counter or (owner(f), valuekey(f, val, s)) in REVIEWED:
                R.ok()
                continue
            if tup and isinstance(val, ast.Call):
                n = val.func.attr if isinstance(val.func, ast.Attribute) else getattr(val.func, 'id', '')
                if n not in library:        # foreign functions return more than everyone needs
                    R.ok()
                    continue
            R.bad(f'{owner(f)}:{valuekey(f, val, s)}', f'{f.module.path}:{s.lineno}',
                  f'{f.qual} computes {v} = {ast.unparse(val)[:90]}{" (in part)" if tup else ""} but nothing ever reads it', alias=f'{owner(f)}:{v.partition("__")[0]}')


class Liveness:
    """Backward liveness of local variables over the statement tree (exceptions may leave a try body anywhere)."""

    def __init__(self, names):
        self.names = names
        self.dead: dict = {}     # id of a store -> (name, node); removed again once a path keeps it alive
        self.alive: set = set()

    def uses(self, e):
        return {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.names} if e is not None else set()

    def store(self, node, target, live):
        for x in ast.walk(target):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in self.names:
                if x.id in live:
                    self.alive.add(id(x))
                else:
                    self.dead[id(x)] = (x, node)
        return live - {x.id for x in ast.walk(target) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def block(self, body, live, brk, cont):
        for s in reversed(body):
            live = self.stmt(s, live, brk, cont)
        return live

    def stmt(self, s, live, brk, cont):
        if isinstance(s, (ast.Return, ast.Raise)):
            return set().union(*[self.uses(c) for c in ast.iter_child_nodes(s)]) | self.exc
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, ast.Assign):
            for t in s.targets:
                live = self.store(s, t, live)
                live |= self.uses(t)
            return live | self.uses(s.value) | self.exc
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return live
            live = self.store(s, s.target, live)
            return live | self.uses(s.target) | self.uses(s.value) | self.exc
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                if s.target.id in self.names:
                    if s.target.id in live:
                        self.alive.add(id(s.target))
                    else:
                        self.dead[id(s.target)] = (s.target, s)
                    live = live | {s.target.id}
            return live | self.uses(s.target) | self.uses(s.value) | self.exc
        if isinstance(s, ast.If):
            return self.block(s.body, set(live), brk, cont) | self.block(s.orelse, set(live), brk, cont) | self.uses(s.test)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            after = self.block(s.orelse, set(live), brk, cont)
            head = set(after)
            for _ in range(8):
                inner = self.block(s.body, set(head), live, head) | self.uses(s.iter)
                inner = (inner - {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}) | after
                if inner <= head:
                    break
                head |= inner
            return head | self.uses(s.iter) | self.uses(s.target)
        if isinstance(s, ast.While):
            after = self.block(s.orelse, set(live), brk, cont)
            head = set(after) | self.uses(s.test)
            for _ in range(8):
                inner = self.block(s.body, set(head), live, head)
                if inner <= head:
                    break
                head |= inner
            return head
        if isinstance(s, (ast.With, ast.AsyncWith)):
            live = self.block(s.body, live, brk, cont)
            for i in reversed(s.items):
                if i.optional_vars is not None:
                    live -= {x.id for x in ast.walk(i.optional_vars) if isinstance(x, ast.Name)}
                live |= self.uses(i.context_expr)
            return live
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, set(live), brk, cont)
            old = self.exc
            hs = set(old)
            for h in s.handlers:
                hs |= self.block(h.body, set(fin), brk, cont)
            els = self.block(s.orelse, set(fin), brk, cont)
            self.exc = hs | (self.block(s.finalbody, set(old), set(), set()) if s.finalbody else set())
            r = self.block(s.body, els, set(brk) | fin, set(cont) | fin) | self.exc
            self.exc = old
            return r
        if isinstance(s, ast.Match):
            r = set(live) | self.uses(s.subject)
            for c in s.cases:
                r |= self.block(c.body, set(live), brk, cont) | (self.uses(c.guard) if c.guard is not None else set())
            return r
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return live | self.uses(s)
        u = set()
        for c in ast.iter_child_nodes(s):
            u |= self.uses(c)
        return live | u | self.exc

    exc: set = set()


def overwritten(prog, R):
    """Computed values replaced before anything reads them."""
    for f in prog.all_funcs():
        if f.overload or '<locals>' in f.qual or '<lambda>' in f.qual:
            continue
        shared = {n for x in ast.walk(f.node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        inner = {y.id for x in ast.walk(f.node) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)) and x is not f.node for y in ast.walk(x) if isinstance(y, ast.Name)}
        read = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        names = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - shared - inner
        L = Liveness({n for n in names if not n.startswith('__')})
        L.block(f.node.body, set(), set(), set())
        for k, (x, s) in L.dead.items():
            R.count('assignments')
            if k in L.alive or x.id not in read or x.id == '_':
                continue
            val = getattr(s, 'value', None)
            if val is None or placeholder(val) or (owner(f), valuekey(f, val, x)) in REVIEWED:
                continue
            R.bad(f'{owner(f)}:{valuekey(f, val, x)}', f'{f.module.path}:{x.lineno}', f'{f.qual} computes {x.id} = {ast.unparse(val)[:90]} but replaces it before anything reads it')
        R.count('assignments', len(L.alive))


def fluent(prog, S):
    """Methods which return the object carrying their effect: themselves on some paths, another object on others."""
    out = set()
    for f in prog.all_funcs():
        if f.overload or f.cls is None or f.kind != 'method':
            continue
        it, fin, val = S.F.of(f)
        rets = [a for e in it.events if e.kind == 'return' and e.func is f and e.data.get('value') is not None for a in alts(e.data['value'])]
        if any(r == ('self',) for r in rets) and any(r != ('self',) and r != NONE for r in rets):
            out.add(f)
    return out


def discarded(prog, R, F, S):
    """Results of functions that do nothing but compute one, dropped by the statement invoking them."""
    fl = fluent(prog, S)
    byname = {}
    for f in prog.all_funcs():
        if f.cls is not None and f.kind == 'method' and not f.overload and not f.abstract:
            byname.setdefault(f.name, []).append(f)
    # names every implementation of which may return another object: believed for receivers of unknown type
    flnames = {f.name for f in fl if all(h in fl or pure(h, F, S) for h in byname[f.name])}
    for f in prog.all_funcs():
        if f.overload or '<locals>' in f.qual or '<lambda>' in f.qual:
            continue
        stm = {id(x.value) for x in ast.walk(f.node) if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call)}
        if not stm:
            continue
        for e in F.of(f)[0].events:
            if e.kind != 'call' or id(e.node) not in stm:
                continue
            if e.data.get('func_') is None:
                if isinstance(e.node.func, ast.Attribute) and e.node.func.attr in flnames:
                    R.count('statements')
                    R.bad(f'{short(f)}->{e.node.func.attr}', e.loc, f'{f.qual} drops the result of {e.node.func.attr}, which may be another object than the one it is invoked on')
                continue
            g = e.data['func_']
            R.count('statements')
            tg = S.targets(g)
            if any(h in fl for h in tg):
                R.bad(f'{short(f)}->{short(g)}', e.loc, f'{f.qual} drops the result of {g.qual}, which may be another object than the one it is invoked on')
                continue
            if all(pure(h, F, S) for h in tg):
                R.bad(f'{short(f)}->{short(g)}', e.loc, f'{f.qual} drops the result of {g.qual}, which has no other effect')
                continue
            R.ok()


def pure(g: Func, F, S) -> bool:
    """Computes a value and neither changes anything nor performs output (as far as the source shows)."""
    if g.abstract or S.mut.get(g):
        return False
    r = g.node.returns
    if r is None or isinstance(r, ast.Constant) and r.value is None:
        return False
    it = F.of(g)[0]
    got = False
    for e in it.events:
        if e.kind in ('setattr', 'setitem', 'delattr', 'delitem', 'aug', 'setprop', 'yield', 'with', 'raise'):
            return False
        if e.kind == 'call':
            h = e.data.get('func_')
            c = e.data.get('callee')
            if h is None and (c is None or c[0] not in ('ext', 'builtin') or c[0] == 'ext' and not c[1].startswith(('numpy', 'scipy', 'math'))):
                return False
            if h is not None and S.mut.get(h):
                return False
        if e.kind == 'return' and e.data.get('value') not in (None, NONE):
            got = True
    return got


def m02(prog: Program, tier: str) -> Result:
    R = Result('M02', 'every local value that is computed and every local container that is filled is read by something, and no statement '
                      'drops the result of a function which only computes it or which returns another object than the one it was invoked on')
    F, S, _ = summaries(prog)
    dead_locals(prog, R)
    overwritten(prog, R)
    discarded(prog, R, F, S)
    R.floors = {'local_variables': 2500, 'statements': 300}
    return R
