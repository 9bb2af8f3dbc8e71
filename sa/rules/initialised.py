"""D01: nothing is read before it was given a value.

Three obligations, decided by a definite-assignment analysis over the statements of the normal form:

* local names: every read of a name a function binds is preceded by a binding on every path to it;
* attributes: for every concrete class, its constructor is executed abstractly - overridden methods, properties and base
  constructors dispatched on that class - and no attribute is read ahead of its first store; afterwards no public member reads
  an attribute the constructor left without a value;
* buffers: memory from numpy.empty is stored to before any element is updated in place, read or returned, and a loop filling
  such a buffer by its index stores on every path through its body.

Loops are assumed to run at least once: how often is a run time quantity.  Tests that are repeated are assumed to decide alike
as long as nothing they read was bound in between.
"""
from __future__ import annotations
import ast
from ..model import Program, Func, Class, Prop, AnalysisBroken, mangle
from ..report import Result

TERMINAL = {'sys.exit', 'exit', 'quit', 'os._exit'}


class State:
    __slots__ = ('asg', 'cond', 'raw', 'done', 'objs')

    def __init__(self, asg=(), cond=None, raw=None):
        self.asg = set(asg)
        self.cond = dict(cond or {})      # test text -> tokens assigned whenever it holds
        self.raw = dict(raw or {})        # buffer name -> node that created it, nothing stored yet

    def copy(self):
        return State(self.asg, self.cond, self.raw)


def join(*states):
    states = [s for s in states if s is not None]
    if not states:
        return None
    out = states[0].copy()
    for s in states[1:]:
        out.asg &= s.asg
        out.cond = {k: (v | s.asg) & (s.cond.get(k, set()) | out.asg) if k in s.cond else set() for k, v in out.cond.items() if k in s.cond}
        for k, v in s.raw.items():
            out.raw.setdefault(k, v)
    return out


def names_in(e) -> set:
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def negated(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return ast.unparse(t.operand)
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        flip = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt,
                ast.In: ast.NotIn, ast.NotIn: ast.In}
        o = flip.get(type(t.ops[0]))
        if o:
            return ast.unparse(ast.Compare(t.left, [o()], t.comparators))
    return ast.unparse(ast.UnaryOp(ast.Not(), t))


def conjuncts(t):
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
        for v in t.values:
            yield from conjuncts(v)
    else:
        yield t


def subject(t) -> set:
    """What a test distinguishes the kinds of: the first argument of isinstance, a side of == or is."""
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
        out = subject(t.values[0])
        for v in t.values[1:]:
            out &= subject(v)
        return out
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and len(t.args) == 2:
        return {ast.unparse(t.args[0])}
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is, ast.IsNot, ast.In)):
        return {ast.unparse(x) for x in (t.left, t.comparators[0]) if not isinstance(x, ast.Constant)}
    return set()


def kinds(t, subj, prog, f):
    """What the test names of its subject: {('enum', class, member)}, {('class', name)}, {('none',)} - or None if something else."""
    if isinstance(t, ast.BoolOp):
        out = set()
        for v in t.values:
            k = kinds(v, subj, prog, f)
            if k is None:
                return None
            out |= k
        return out
    if isinstance(t, ast.Call):
        c = t.args[1]
        return {('class', ast.unparse(x).split('.')[-1]) for x in (c.elts if isinstance(c, ast.Tuple) else [c])}
    other = [x for x in (t.left, t.comparators[0]) if ast.unparse(x) not in subj]
    out = set()
    for x in other:
        for y in (x.elts if isinstance(x, (ast.Tuple, ast.List, ast.Set)) else [x]):
            c = prog.resolve_expr(f.module, y.value, f.cls) if isinstance(y, ast.Attribute) else None
            if isinstance(c, Class) and c.is_enum:
                out.add(('enum', c, y.attr))
            else:
                return None
    return out


def chain_total(s: ast.If, prog, f) -> bool:
    """s is the last link of an if/elif chain without else that tests the kind of the same subject in every link.

    Members of an enumeration: the chain has to name all of them.  Classes: as many as the annotation of the subject names; a
    chain over a subject without annotation is taken to be complete."""
    chain = getattr(s, '_chain', None)
    if chain is None or len(chain[1]) < 2 or s.orelse:
        return False
    subj, links = chain
    for x in ast.walk(f.node):
        # other kinds were refused before
        if isinstance(x, ast.If) and x not in links and x.lineno < links[0].lineno and any(isinstance(y, ast.Raise) for y in x.body + x.orelse) and \
                subj & {ast.unparse(n) for n in ast.walk(x.test) if isinstance(n, (ast.Name, ast.Attribute))}:
            return True
    named = [kinds(x.test, subj, prog, f) for x in links]
    if any(n is None for n in named):
        return True
    named = set().union(*named)
    for c in {n[1] for n in named if n[0] == 'enum'}:
        members = {k for k in c.attrs if not k.startswith('_')}
        if members - {n[2] for n in named if n[0] == 'enum' and n[1] is c}:
            return False
    for v in subj:
        ann = f.annotation_of(v) if v.isidentifier() else None
        if ann is None:
            continue
        for x in union(ann):
            c = prog.resolve_expr(f.module, x, f.cls)
            if not isinstance(c, Class):
                continue
            if c.is_enum:
                if not any(n[0] == 'enum' and n[1] is c or n == ('class', c.name) for n in named):
                    return False
            elif not any(n[0] == 'class' and any(b.name == n[1] for b in c.cmro) for n in named):
                return False
    return True


def union(ann):
    if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
        yield from union(ann.left)
        yield from union(ann.right)
    elif isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            yield from union(ast.parse(ann.value, mode='eval').body)
        except SyntaxError:
            return
    elif isinstance(ann, ast.Subscript) and ast.unparse(ann.value).split('.')[-1] in ('Union', 'Optional'):
        for x in ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]:
            yield from union(x)
    else:
        yield ann


def mark_chains(fn):
    inner = {id(x.orelse[0]) for x in ast.walk(fn) if isinstance(x, ast.If) and len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If)}
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and id(x) not in inner:
            same, links, y = subject(x.test), [], x
            while same:
                links.append(y)
                y._chain = (same, list(links))
                if len(y.orelse) != 1 or not isinstance(y.orelse[0], ast.If):
                    break
                y = y.orelse[0]
                same = same & subject(y.test)


class Walk:
    """Definite assignment through one function body. Subclasses react to loads, stores and calls."""

    def __init__(self, prog: Program, f: Func):
        self.prog, self.f = prog, f
        self.exits: list[State] = []
        self.loops: list = []
        mark_chains(f.node)

    # hooks
    def load_name(self, n, st): pass
    def load_attr(self, n, st): pass
    def store_attr(self, n, st, value): pass
    def call(self, n, st): pass
    def store_name(self, name, st, value): pass
    def store_sub(self, t, st, value, aug): pass

    def run(self, st: State):
        end = self.block(self.f.node.body, st)
        if end is not None:
            self.exits.append(end)
        return join(*self.exits)

    # ------------------------------------------------------------ expressions
    def ex(self, e, st):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.load_name(e, st)
            return
        if isinstance(e, ast.Attribute):
            self.ex(e.value, st)
            self.load_attr(e, st)
            return
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute):
                self.ex(e.func.value, st)
            elif not isinstance(e.func, ast.Name):
                self.ex(e.func, st)
            else:
                self.load_name(e.func, st)
            for a in e.args:
                self.ex(a, st)
            for k in e.keywords:
                self.ex(k.value, st)
            self.call(e, st)
            return
        if isinstance(e, ast.NamedExpr):
            self.ex(e.value, st)
            self.bind(e.target, st, e.value)
            return
        if isinstance(e, ast.BoolOp):
            self.ex(e.values[0], st)
            s2 = st.copy()
            for i, v in enumerate(e.values[1:], 1):
                self.given(e.values[i - 1], s2, isinstance(e.op, ast.And))
                self.ex(v, s2)
            return
        if isinstance(e, ast.IfExp):
            self.ex(e.test, st)
            a, b = st.copy(), st.copy()
            self.given(e.test, a, True)
            self.given(e.test, b, False)
            self.ex(e.body, a)
            self.ex(e.orelse, b)
            j = join(a, b)
            st.asg |= j.asg
            for k in list(st.raw):
                if k not in j.raw:
                    del st.raw[k]
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            s2 = st.copy()
            for g in e.generators:
                self.ex(g.iter, s2)
                self.bind(g.target, s2, None, quiet=True)
                for c in g.ifs:
                    self.ex(c, s2)
                    self.given(c, s2, True)
            if isinstance(e, ast.DictComp):
                self.ex(e.key, s2)
                self.ex(e.value, s2)
            else:
                self.ex(e.elt, s2)
            return
        if isinstance(e, ast.Lambda):
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ex(c, st)
            elif isinstance(c, (ast.keyword, ast.Slice, ast.FormattedValue)):
                self.ex(getattr(c, 'value', None), st)

    def bind(self, t, st, value, quiet=False):
        if isinstance(t, ast.Name):
            st.asg.add(t.id)
            if not quiet:
                self.store_name(t.id, st, value)
            self.forget(t.id, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, st, None, quiet)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, st, None, quiet)
        elif isinstance(t, ast.Attribute):
            self.ex(t.value, st)
            self.store_attr(t, st, value)
            self.forget(ast.unparse(t), st)
        elif isinstance(t, ast.Subscript):
            self.ex(t.slice, st)
            self.store_sub(t, st, value, False)
            if not isinstance(t.value, ast.Name):
                self.ex(t.value, st)

    def forget(self, name, st):
        for k in [k for k in st.cond if name in k]:
            try:
                if name in names_in(ast.parse(k, mode='eval')) or '.' in name:
                    del st.cond[k]
            except SyntaxError:
                del st.cond[k]

    def given(self, test, st, holds: bool):
        """What is known to be assigned where `test` decided this way."""
        if holds:
            st.asg |= st.cond.get(ast.unparse(test), set())
            for c in conjuncts(test):
                st.asg |= st.cond.get(ast.unparse(c), set())
        else:
            st.asg |= st.cond.get(negated(test), set())

    # ------------------------------------------------------------ statements
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Expr):
            self.ex(s.value, st)
            if isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in TERMINAL:
                return None
            return st
        if isinstance(s, ast.Assign):
            self.ex(s.value, st)
            for t in s.targets:
                self.bind(t, st, s.value)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.ex(s.value, st)
                self.bind(s.target, st, s.value)
            return st
        if isinstance(s, ast.AugAssign):
            self.ex(s.value, st)
            t = s.target
            if isinstance(t, ast.Name):
                self.load_name(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
                self.bind(t, st, s)
            elif isinstance(t, ast.Attribute):
                self.ex(t.value, st)
                self.load_attr(t, st)
                self.store_attr(t, st, s.value)
            else:
                self.ex(t.slice, st)
                self.store_sub(t, st, s.value, True)
                self.ex(t.value, st)
            return st
        if isinstance(s, ast.Return):
            self.ex(s.value, st)
            self.exits.append(st)
            return None
        if isinstance(s, ast.Raise):
            self.ex(s.exc, st)
            return None
        if isinstance(s, (ast.Continue, ast.Break)):
            if self.loops:
                self.loops[-1][0 if isinstance(s, ast.Break) else 1].append(st)
            return None
        if isinstance(s, ast.If):
            self.ex(s.test, st)
            a, b = st.copy(), st.copy()
            self.given(s.test, a, True)
            self.given(s.test, b, False)
            a2 = self.block(s.body, a)
            b2 = self.block(s.orelse, b)
            if isinstance(s.test, ast.Constant):
                return a2 if s.test.value else b2
            if chain_total(s, self.prog, self.f):
                # the last alternative of a chain over the kinds of one subject: the chain is taken to name all kinds
                return a2
            out = join(a2, b2)
            if out is not None and a2 is not None and b2 is not None:
                # the condition is remembered: repeated further down, it selects the same branch
                bound = {n.id for x in s.body + s.orelse for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
                        {ast.unparse(n) for x in s.body + s.orelse for n in ast.walk(x) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
                if not names_in(s.test) & bound and not any('.' in x and x in ast.unparse(s.test) for x in bound):
                    k = ast.unparse(s.test)
                    out.cond[k] = out.cond.get(k, set()) | (a2.asg - out.asg)
                    k = negated(s.test)
                    out.cond[k] = out.cond.get(k, set()) | (b2.asg - out.asg)
            return out
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.ex(s.iter, st)
            self.loops.append(([], [], s))
            body = st.copy()
            self.bind(s.target, body, None)
            end = self.block(s.body, body)
            brk, cont, _ = self.loops.pop()
            end = join(end, *cont)
            self.loop_end(s, st, end)
            if end is not None:
                end = self.block(s.orelse, end)
            return join(end, *brk) or (st if not s.body else join(st) if end is None and not brk else None)
        if isinstance(s, ast.While):
            self.ex(s.test, st)
            self.loops.append(([], [], s))
            body = st.copy()
            self.given(s.test, body, True)
            end = self.block(s.body, body)
            brk, cont, _ = self.loops.pop()
            end = join(end, *cont)
            self.loop_end(s, st, end)
            if isinstance(s.test, ast.Constant) and s.test.value:
                return join(*brk)
            if end is not None:
                end = self.block(s.orelse, end)
            return join(end, *brk) or st
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.ex(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, st, i.context_expr)
            return self.block(s.body, st)
        if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            start = st.copy()
            end = self.block(s.body, st)
            if end is not None:
                end = self.block(s.orelse, end)
            outs = [end]
            for h in s.handlers:
                hs = start.copy()
                self.ex(h.type, hs)
                if h.name:
                    hs.asg.add(h.name)
                outs.append(self.block(h.body, hs))
            out = join(*outs)
            if s.finalbody:
                if out is None:
                    self.block(s.finalbody, start.copy())
                    return None
                return self.block(s.finalbody, out)
            return out
        if isinstance(s, ast.Match):
            self.ex(s.subject, st)
            outs, total = [], False
            for c in s.cases:
                b = st.copy()
                for n in ast.walk(c.pattern):
                    nm = getattr(n, 'name', None) or getattr(n, 'rest', None)
                    if isinstance(nm, str):
                        b.asg.add(nm)
                if c.guard is not None:
                    self.ex(c.guard, b)
                elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    total = True
                outs.append(self.block(c.body, b))
            if not total:
                outs.append(st)
            return join(*outs)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            st.asg.add(s.name)
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                st.asg.add((a.asname or a.name).split('.')[0])
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.asg.discard(t.id)
            return st
        if isinstance(s, ast.Assert):
            self.ex(s.test, st)
            return st
        return st

    def loop_end(self, loop, before, end): pass


# ---------------------------------------------------------------- locals
class Locals(Walk):
    def __init__(self, prog, f, report):
        super().__init__(prog, f)
        self.report = report
        self.mine = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.mine.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f.node:
                self.mine.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.mine.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.mine |= {(a.asname or a.name).split('.')[0] for a in n.names}
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.mine -= set(n.names)
        self.reads = 0

    def load_name(self, n, st):
        if n.id in self.mine:
            self.reads += 1
            if n.id not in st.asg:
                self.report(n)


def own_nodes(fn):
    """Nodes of a function that belong to its own scope."""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # targets belong to the comprehension
            inner = {id(x) for g in n.generators for x in ast.walk(g.target)}
            todo += [c for c in ast.walk(n) if c is not n and id(c) not in inner and isinstance(c, ast.NamedExpr)]
            continue
        todo += list(ast.iter_child_nodes(n))


def functions(prog: Program):
    seen = set()
    for m in prog.modules.values():
        for f in m.functions.values():
            if f not in seen:
                seen.add(f)
                yield f
    for c in prog.classes.values():
        for f in list(c.methods.values()) + [g for p in c.props.values() for g in (p.getter, p.setter, p.deleter) if g]:
            if f not in seen:
                seen.add(f)
                yield f


def nested(f: Func):
    """The function and the functions defined inside it."""
    yield f
    for n in ast.walk(f.node):
        if n is not f.node and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield Func(n.name, f.qual + '.<locals>.' + n.name, n, f.module, f.cls, 'function')


def local_obligations(prog: Program, res: Result):
    for f0 in functions(prog):
        for f in nested(f0):
            hits = {}
            w = Locals(prog, f, lambda n: hits.setdefault(n.id, n))
            a = f.node.args
            st = State({x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]})
            w.run(st)
            res.count('local_reads', w.reads)
            if not hits:
                res.ok()
            for name, n in hits.items():
                res.bad(f'local/{short(f)}/{name}', f'{f.module.path}:{n.lineno}',
                        f'{short(f)} reads the local name {name} on a path that never bound it')


def short(f: Func) -> str:
    q = f.qual.split('.')
    return '.'.join(q[-2:]) if f.cls else q[-1]


# ---------------------------------------------------------------- attributes
class Build(Walk):
    """One function run on an object of class cls whose attributes in st.asg have values."""

    def __init__(self, an, f: Func, stack=()):
        super().__init__(an.prog, f)
        self.an = an
        self.stack = stack + (f,)
        ps = f.params
        self.me = ps[0] if ps and f.kind in ('method', 'getter', 'setter', 'deleter') else None

    def is_self(self, e):
        return isinstance(e, ast.Name) and e.id == self.me

    def name(self, attr):
        return mangle(self.f.cls.name, attr) if self.f.cls else attr

    def invoke(self, g: Func, st):
        """Run another function on the same object; what it definitely assigns is assigned."""
        if g in self.stack or len(self.stack) > 40 or g.abstract:
            return
        key = (g, frozenset(x for x in st.asg if x.startswith('@')))
        r = self.an.memo.get(key)
        if r is None:
            b = Build(self.an, g, self.stack)
            s2 = State({x for x in st.asg if x.startswith('@')})
            out = b.run(s2)
            r = frozenset(x for x in out.asg if x.startswith('@')) if out is not None else key[1]
            self.an.memo[key] = r
        st.asg |= r

    def load_attr(self, n, st):
        if not self.is_self(n.value):
            # super().attr
            if self.is_super(n.value):
                m, _ = self.an.cls.lookup(self.name(n.attr), after=self.f.cls)
                if isinstance(m, Prop) and m.getter:
                    self.invoke(m.getter, st)
            return
        nm = self.name(n.attr)
        m, _ = self.an.cls.lookup(nm)
        if isinstance(m, Prop):
            if m.getter is not None:
                self.invoke(m.getter, st)
            return
        if m is not None:
            return
        self.an.read(nm, n, self, st)

    def is_super(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'super'

    def store_attr(self, t, st, value):
        if not self.is_self(t.value):
            return
        nm = self.name(t.attr)
        m, _ = self.an.cls.lookup(nm)
        if isinstance(m, Prop) and not m.cached:
            if m.setter is not None:
                self.invoke(m.setter, st)
            return
        st.asg.add('@' + nm)

    def call(self, n, st):
        fn = n.func
        if not isinstance(fn, ast.Attribute):
            return
        nm = self.name(fn.attr)
        if self.is_self(fn.value):
            m, _ = self.an.cls.lookup(nm)
            if isinstance(m, Func):
                if m.kind == 'method':
                    self.invoke(m, st)
            elif isinstance(m, Prop):
                if m.getter is not None:
                    self.invoke(m.getter, st)
            elif m is None:
                self.an.read(nm, fn, self, st)
        elif self.is_super(fn.value):
            m, _ = self.an.cls.lookup(nm, after=self.f.cls)
            if isinstance(m, Func) and m.kind == 'method':
                self.invoke(m, st)
        elif n.args and self.is_self(n.args[0]):
            if fn.attr in ('fget', 'fset') and isinstance(fn.value, ast.Attribute):
                # Base.property.fset(self, value)
                c = self.prog.resolve_expr(self.f.module, fn.value.value, self.f.cls)
                if isinstance(c, Class) and c in self.an.cls.mro:
                    m, _ = c.lookup(mangle(self.f.cls.name, fn.value.attr))
                    g = m and (m.setter if fn.attr == 'fset' else m.getter) if isinstance(m, Prop) else None
                    if g is not None:
                        self.invoke(g, st)
                return
            c = self.prog.resolve_expr(self.f.module, fn.value, self.f.cls)
            if isinstance(c, Class) and c in self.an.cls.mro:
                m, _ = c.lookup(mangle(self.f.cls.name, fn.attr))
                if isinstance(m, Func) and m.kind == 'method':
                    self.invoke(m, st)

    def ex(self, e, st):
        # setattr / hasattr style access by name is not followed
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'setattr' and e.args and self.is_self(e.args[0]) and \
                len(e.args) == 3 and isinstance(e.args[1], ast.Constant):
            st.asg.add('@' + str(e.args[1].value))
        super().ex(e, st)


class Instance:
    """The constructor of one concrete class, run abstractly."""

    def __init__(self, prog: Program, cls: Class):
        self.prog, self.cls = prog, cls
        self.memo: dict = {}
        self.hits: dict = {}
        self.reads = 0
        self.phase = 'constructor'

    def read(self, nm, node, b: Build, st):
        self.reads += 1
        if '@' + nm in st.asg:
            return
        if any(not isinstance(c, Class) and c.split('.')[-1] not in ('object', 'ABC', 'Generic', 'Protocol') for c in self.cls.mro) and not nm.startswith('_'):
            return      # may come from the foreign base
        self.hits.setdefault((self.phase, nm), (b.f, node, [g for g in b.stack]))


def object_obligations(prog: Program, res: Result):
    for cls in prog.classes.values():
        if cls.is_abstract or cls.is_enum or cls.record_fields() or cls.has_unresolved_base:
            continue
        new = cls.method('__new__')
        if new is not None:
            continue
        init = cls.method('__init__')
        an = Instance(prog, cls)
        start = State({'@' + x for x in ('__class__', '__dict__', '__doc__', '__module__')})
        if init is not None:
            out = Build(an, init).run(start)
            if out is None:
                continue
        else:
            out = start
        built = {x for x in out.asg if x.startswith('@')}
        an.phase = 'use'
        for c in cls.cmro:
            for f in list(c.methods.values()) + [g for p in c.props.values() for g in (p.getter, p.setter, p.deleter) if g]:
                if f.kind not in ('method', 'getter', 'setter', 'deleter') or f.abstract or f is init or f.name == '__init__':
                    continue
                if f.name.startswith('_') and not f.name.endswith('__'):
                    continue
                m, _ = cls.lookup(f.name)
                if f is not m and not (isinstance(m, Prop) and f in (m.getter, m.setter, m.deleter)):
                    continue      # replaced by the class
                Build(an, f).run(State(built))
        res.count('classes_built')
        res.count('attribute_reads', an.reads)
        if not an.hits:
            res.ok()
        for (phase, nm), (f, node, stack) in an.hits.items():
            owner = next((c for c in cls.cmro if nm.startswith('_' + c.name.lstrip('_') + '__')), f.cls)
            if phase == 'constructor':
                res.bad(f'construct/{owner.name}/{nm}', f'{f.module.path}:{node.lineno}',
                        f'constructing {cls.name} reads {nm} in {short(f)} before it has a value', [short(g) for g in stack])
            else:
                res.bad(f'attribute/{owner.name}/{nm}', f'{f.module.path}:{node.lineno}',
                        f'{short(f)} of a {cls.name} reads {nm}, which its constructor leaves without a value', [short(g) for g in stack])


# ---------------------------------------------------------------- buffers
def empties(prog, f: Func, e):
    """The call reserving uninitialised memory, if e is one (through conversions of its result)."""
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('empty', 'empty_like') and isinstance(e.func.value, ast.Name):
            r = prog.resolve_name(f.module, e.func.value.id)
            if r == ('mod', 'numpy'):
                return e
        elif isinstance(e.func, ast.Name) and e.func.id in ('empty', 'empty_like'):
            if prog.resolve_name(f.module, e.func.id) == ('ext', 'numpy.' + e.func.id):
                return e
        elif isinstance(e.func, ast.Attribute) and e.func.attr in ('view', 'reshape', 'astype', 'tolist', 'copy'):
            return empties(prog, f, e.func.value)
    return None


def vacant(e: ast.Call) -> bool:
    """A buffer without elements, or of object references (initialised by numpy to None)."""
    shape = e.args[0] if e.args else next((k.value for k in e.keywords if k.arg == 'shape'), None)
    if isinstance(shape, ast.Constant) and shape.value == 0:
        return True
    if isinstance(shape, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Constant) and x.value == 0 for x in shape.elts):
        return True
    dt = e.args[1] if len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == 'dtype'), None)
    return dt is not None and ast.unparse(dt) in ('object', 'np.object_', "'object'", 'np.object')


META = {'shape', 'size', 'dtype', 'ndim', 'nbytes', 'itemsize', 'strides', 'flags'}


class Buffers(Walk):
    def __init__(self, prog, f, report):
        super().__init__(prog, f)
        self.report = report
        self.known: dict = {}
        self.stores: dict = {}
        self.shapes: dict = {}
        self.handed: set = set()
        self.skip: set = set()
        self.looped: dict = {}       # id(loop) -> {buffer: node} stored under an index of that loop

    def store_name(self, name, st, value):
        st.raw.pop(name, None)
        st.asg -= {f'${name}.real', f'${name}.imag'}
        self.known.pop(name, None)
        e = empties(self.prog, self.f, value) if isinstance(value, ast.AST) else None
        if e is not None and not vacant(e):
            st.raw[name] = e
            self.known[name] = len(self.loops)
            sh = e.args[0] if e.args else None
            self.shapes[name] = sh.elts if isinstance(sh, (ast.Tuple, ast.List)) else []

    def store_sub(self, t, st, value, aug):
        v = t.value
        while isinstance(v, ast.Attribute) and v.attr in ('flat', 'T', 'real', 'imag') or isinstance(v, ast.Subscript):
            v = v.value
        if not isinstance(v, ast.Name) or v.id not in self.known:
            return
        self.skip.add(id(v))
        self.skip.add(id(t.value))
        if aug:
            if v.id in st.raw:
                self.report('updates', v.id, t)
            return
        st.raw.pop(v.id, None)
        own = value is not None and any(isinstance(x, ast.Subscript) and ast.unparse(x) == ast.unparse(t) for x in ast.walk(value))
        if not own:
            self.stores.setdefault(v.id, []).append((self.partial(t, self.known[v.id]), t))
        for depth, (_, _, loop) in enumerate(self.loops):
            if depth < self.known[v.id]:
                continue      # a new buffer per turn of that loop
            st.asg.add(f'%{depth}:{v.id}')
            if isinstance(loop, (ast.For, ast.While)):
                moving = {n.id for x in ([loop.target] if isinstance(loop, ast.For) else []) + loop.body for n in ast.walk(x)
                          if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                if names_in(t.slice) & moving:
                    self.looped.setdefault(id(loop), {})[v.id] = t

    def consumes(self, e: ast.Call) -> bool:
        """The call only reads the arrays it is handed: a constructor, or a numpy function without out."""
        fn = e.func
        if isinstance(fn, ast.Attribute) and fn.attr == '__init__':
            return True
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and self.prog.resolve_name(self.f.module, fn.value.id) == ('mod', 'numpy'):
            return not any(k.arg == 'out' for k in e.keywords) and fn.attr not in ('copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'multiply', 'add',
                                                                               'subtract', 'divide', 'matmul', 'dot', 'take', 'compress', 'conjugate', 'exp')
        r = self.prog.resolve_expr(self.f.module, fn, self.f.cls) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        return isinstance(r, Class)

    def accumulates(self, e: ast.Call, name) -> bool:
        """Every library operation this call may reach only adds onto the elements of the array it is handed."""
        fn = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
        found = False
        for g in self.named().get(fn, ()):
            if g.abstract:
                continue
            ps = g.own_params() if isinstance(e.func, ast.Attribute) else g.params
            par = next((k.arg for k in e.keywords if isinstance(k.value, ast.Name) and k.value.id == name), None)
            if par is None:
                i = next((i for i, a in enumerate(e.args) if isinstance(a, ast.Name) and a.id == name), None)
                par = ps[i] if i is not None and i < len(ps) else None
            if par is None or par not in g.all_params():
                return False
            stores = [n for n in ast.walk(g.node) if isinstance(n, (ast.Assign, ast.AugAssign))
                      for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Subscript) and ast.unparse(t.value) == par]
            if not stores or any(isinstance(n, ast.Assign) for n in stores):
                return False
            found = True
        return found

    def named(self):
        tab = getattr(self.prog, '_by_name', None)
        if tab is None:
            tab = {}
            for g in functions(self.prog):
                tab.setdefault(g.node.name, []).append(g)
            self.prog._by_name = tab
        return tab

    def partial(self, t, level) -> bool:
        """The store evidently reaches only a part of the buffer: a stride, a selection, an open end."""
        if not isinstance(t.value, ast.Name):
            return False
        moving, indices, counters = set(), set(), set()
        for _, _, loop in self.loops[level:]:
            moving |= {n.id for x in ([loop.target] if isinstance(loop, ast.For) else []) + loop.body for n in ast.walk(x)
                       if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            if isinstance(loop, ast.For):
                indices |= {n.id for b in loop.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                it = ast.unparse(loop.iter.func).split('.')[-1] if isinstance(loop.iter, ast.Call) else ''
                tg = loop.target
                if it in ('range', 'ndindex', 'count', 'product'):
                    counters |= names_in(tg)
                elif it in ('enumerate', 'ndenumerate') and isinstance(tg, ast.Tuple):
                    counters |= names_in(tg.elts[0])
                else:
                    counters |= {'*'} if it in ('zip', 'pairwise', 'chunk') or not it and not isinstance(loop.iter, ast.Attribute) else set()
            else:
                counters.add('*')
            for b in loop.body:
                counters |= {n.target.id for n in ast.walk(b) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
                counters |= {y.id for n in ast.walk(b) if isinstance(n, ast.Assign) for y in n.targets if isinstance(y, ast.Name) and
                             names_in(n.value) & (counters | {y.id})}
        shape = self.shapes.get(t.value.id, [])
        for i, d in enumerate(self.dimensions(t.slice)):
            if isinstance(d, ast.Constant) and d.value == 0 and i < len(shape) and isinstance(shape[i], ast.Constant) and shape[i].value == 1:
                continue
            if isinstance(d, ast.Starred):
                continue
            if names_in(d) & moving:
                if not isinstance(d, ast.Slice):
                    continue
                if not (names_in(d) & moving & counters or '*' in counters):
                    return True      # where the element of a collection says, not where a count has come to
                if not (d.lower is None and d.step is None and not names_in(d.upper) & indices):
                    continue
            if isinstance(d, ast.Slice):
                step = d.step is not None and ast.unparse(d.step) not in ('1', '-1', 'None')
                if step or any(b is not None and ast.unparse(b) not in ('0', 'None') for b in (d.lower, d.upper)):
                    return True
            elif isinstance(d, ast.Constant) and d.value in (Ellipsis, None):
                continue
            elif ast.unparse(d) in ('np.newaxis', 'slice(None)'):
                continue
            else:
                return True
        return False

    def dimensions(self, e):
        """The subscripts per dimension, through a tuple put together in a local name."""
        if isinstance(e, ast.Name):
            defs = [n.value for n in ast.walk(self.f.node) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and
                    any(isinstance(t, ast.Name) and t.id == e.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
            if len(defs) == 1 and isinstance(defs[0], (ast.Tuple, ast.BinOp)):
                return self.dimensions(defs[0])
            return [e]
        if isinstance(e, ast.Tuple):
            return [y for x in e.elts for y in self.dimensions(x)]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and (isinstance(e.left, ast.Tuple) or isinstance(e.right, ast.Tuple)):
            return self.dimensions(e.left) + self.dimensions(e.right)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'slice':
            a = e.args
            none = lambda x: None if x is None or isinstance(x, ast.Constant) and x.value in (None, 0) else x
            if len(a) == 1:
                return [ast.Slice(None, none(a[0]), None)]
            return [ast.Slice(none(a[0]), none(a[1]), none(a[2]) if len(a) > 2 else None)]
        return [e]

    def stmt(self, s, st):
        if isinstance(s, (ast.For, ast.While)):
            d = len(self.loops)
            st.asg = {x for x in st.asg if not x.startswith(f'%{d}:')}
        return super().stmt(s, st)

    def loop_end(self, loop, before, end):
        d = len(self.loops)
        for name, t in self.looped.get(id(loop), {}).items():
            if end is not None and f'%{d}:{name}' not in end.asg:
                self.report('skips', name, t)

    def bind(self, t, st, value, quiet=False):
        if isinstance(t, ast.Attribute) and t.attr in ('real', 'imag') and isinstance(t.value, ast.Name) and t.value.id in self.known:
            st.asg.add(f'${t.value.id}.{t.attr}')
            if {f'${t.value.id}.real', f'${t.value.id}.imag'} <= st.asg:
                st.raw.pop(t.value.id, None)
            return
        super().bind(t, st, value, quiet)

    def load_name(self, n, st):
        if n.id in st.raw and id(n) not in self.skip:
            self.report('reads', n.id, n)

    def ex(self, e, st):
        if isinstance(e, ast.Attribute) and e.attr in META and isinstance(e.value, ast.Name):
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in \
                ('einsum_path', 'shape', 'ndim', 'size', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'result_type'):
            return      # looks at the shape only
        if isinstance(e, ast.Call):
            # a callee may fill what it is handed
            given = {a.id for a in list(e.args) + [k.value for k in e.keywords] if isinstance(a, ast.Name)} | \
                    {a.value.id for a in list(e.args) + [k.value for k in e.keywords] if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name)}
            for name in given & set(st.raw):
                r = None
                if isinstance(e.func, ast.Name) and e.func.id in ('len', 'isinstance', 'zip', 'enumerate', 'range', 'print'):
                    continue
                if self.accumulates(e, name):
                    self.report('updates', name, e)
                elif self.consumes(e):
                    continue
                st.raw.pop(name)
                if name not in self.stores:
                    self.handed.add(name)
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.attr in ('fill', 'put', 'itemset', 'partition'):
                st.raw.pop(e.func.value.id, None)
        super().ex(e, st)


def buffer_obligations(prog: Program, res: Result):
    for f0 in functions(prog):
        for f in nested(f0):
            for x in own_nodes(f.node):
                # reserved signals: Signal.Empty(rate, streams, samples) documents its samples as numpy.empty
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'Empty':
                    c = prog.resolve_expr(f.module, x.func.value, f.cls)
                    g = c.method('Empty') if isinstance(c, Class) else None
                    if g is None or not any(empties(prog, g, y) is y for y in ast.walk(g.node) if isinstance(y, ast.Call)):
                        continue
                    res.count('reserved_signals')
                    n = x.args[2] if len(x.args) > 2 else next((k.value for k in x.keywords if k.arg == 'num_samples'), None)
                    if n is not None and not (isinstance(n, ast.Constant) and n.value == 0):
                        res.bad(f'buffer/{short(f)}/Empty', f'{f.module.path}:{x.lineno}', f'{short(f)} creates a signal of samples nobody wrote')
                    else:
                        res.ok()
            n = sum(1 for x in own_nodes(f.node) if isinstance(x, ast.Call) and (e := empties(prog, f, x)) is x and not vacant(x))
            if not n:
                continue
            res.count('buffers', n)
            hits = {}
            w = Buffers(prog, f, lambda how, name, node: hits.setdefault((how, name), node))
            w.run(State())
            assigned = {id(e) for x in ast.walk(f.node) if isinstance(x, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and x.value is not None and
                        (e := empties(prog, f, x.value)) is not None}
            for x in own_nodes(f.node):
                if isinstance(x, ast.Call) and empties(prog, f, x) is x and not vacant(x) and id(x) not in assigned and f.node.name != 'Empty':
                    shape = names_in(x.args[0]) if x.args else set()
                    if any(isinstance(p, ast.If) and names_in(p.test) & shape and any(y is x for s in p.body for y in ast.walk(s)) for p in ast.walk(f.node)):
                        continue      # where the extent was found to be zero
                    if not any(isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ('einsum_path',) and x in ast.walk(p)
                               for p in ast.walk(f.node)):
                        hits.setdefault(('reads', 'numpy.empty'), x)
            for name, sts in w.stores.items():
                where = {ast.unparse(t.slice) for _, t in sts}
                masks = not any(isinstance(d, (ast.Slice, ast.Constant)) and not (isinstance(d, ast.Slice) and d.lower is d.upper is d.step is None)
                                or isinstance(d, ast.UnaryOp) or 'invert' in ast.unparse(d) or 'not' in ast.unparse(d)
                                for _, t in sts for d in (t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]))
                if all(p for p, _ in sts) and (len(where) == 1 or masks) and name not in w.handed:
                    hits.setdefault(('part', name), sts[0][1])
            if not hits:
                res.ok()
            text = {'updates': 'updates elements of {} in place that were never stored',
                    'skips': 'leaves elements of {} unset on a path through the loop that fills it',
                    'part': 'stores into a part of {} only, what the rest holds is left to chance',
                    'reads': 'uses {} on a path that stored nothing into it'}
            for (how, name), node in hits.items():
                res.bad(f'buffer/{short(f)}/{how}', f'{f.module.path}:{node.lineno}', f'{short(f)} ' + text[how].format(name))


def attribute_buffers(prog: Program, res: Result):
    """Attributes reserved by numpy.empty and counted up element by element elsewhere."""
    for cls in prog.classes.values():
        fs = list(cls.methods.values()) + [g for p in cls.props.values() for g in (p.getter, p.setter, p.deleter) if g]
        reserved = {}
        for f in fs:
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and (e := empties(prog, f, n.value)) is not None and not vacant(e):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                            reserved[cls.mangle(t.attr)] = (f, n)
        for attr, (f, n) in reserved.items():
            res.count('attribute_buffers')
            for g in fs + [x for s in cls.subclasses for x in s.methods.values()]:
                hit = next((x for x in ast.walk(g.node) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Subscript) and
                            isinstance(x.target.value, ast.Attribute) and g.cls.mangle(x.target.value.attr) == attr), None)
                if hit is None:
                    subs = [x for x in ast.walk(g.node) if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and
                            g.cls.mangle(x.value.attr) == attr]
                    kept = {ast.unparse(x) for x in subs if isinstance(x.ctx, ast.Store)}
                    first = {}
                    for x in sorted(subs, key=lambda x: (x.lineno, x.col_offset)):
                        first.setdefault(ast.unparse(x), x)
                    # an element read ahead of being stored: a running count
                    hit = next((x for k, x in first.items() if k in kept and isinstance(x.ctx, ast.Load)), None) if g is not f else None
                if hit is not None:
                    res.bad(f'buffer/{cls.name}.{attr}/updates', f'{g.module.path}:{hit.lineno}',
                            f'{short(g)} updates elements of {attr} in place, which {short(f)} reserved without a value')


def d01(prog: Program, tier: str) -> Result:
    res = Result('D01', 'definite assignment of locals, of attributes under construction and of numpy.empty buffers')
    res.floors = {'local_reads': 5000, 'classes_built': 300, 'attribute_reads': 5000, 'buffers': 40}
    local_obligations(prog, res)
    object_obligations(prog, res)
    buffer_obligations(prog, res)
    attribute_buffers(prog, res)
    return res
