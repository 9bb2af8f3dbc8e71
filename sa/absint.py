"""Flow sensitive, context sensitive abstract interpretation over provenance terms.

Every expression is mapped to a *term* describing where its value comes from.
At control flow merges terms are joined (``phi``); loops are iterated to a
bounded join; nothing is executed and no path is handed to a solver.  Calls
that resolve inside the analysed package are inlined up to a stated depth, so
that a helper extracted from (or folded into) a function leaves the facts seen
by the rules unchanged.

Terms (nested tuples):
  ('const', v) ('param', name) ('self',) ('cls', qual) ('fn', qual) ('bound', recv, qual, owner)
  ('mod', n) ('ext', fq) ('builtin', n) ('attr', base, name) ('item', base, idx) ('elem', base)
  ('call', callee, args, kwargs) ('bin', op, a, b) ('aug', op, a, b) ('un', op, a)
  ('cmp', op, a, b) ('bool', op, terms) ('phi', frozenset) ('tuple', items) ('list', items)
  ('set', items) ('dict', items) ('fstr', parts) ('obj', cls qual, site) ('closure', id)
  ('comp', kind, elt, sources) ('slice', a, b, c) ('star', t) ('loopvar', name) ('opaque', frozenset)
  ('deepcall', func qual, args) for recursion / depth cut-offs
"""
from __future__ import annotations
import ast
from dataclasses import dataclass, field
from typing import Optional, Callable
from .model import Program, Module, Class, Func, Prop, mangle, AnalysisBroken

MAX_DEPTH = 14
MAX_SIZE = 260

NONE = ('const', None)


def const(v):
    return ('const', v)


_size_cache: dict = {}
_atom_cache: dict = {}
ATOMS = ('param', 'obj', 'skey', 'self', 'sym', 'ext', 'closure')


def size(t) -> int:
    """Number of nodes of a term (cached by identity; terms are immutable)."""
    if not isinstance(t, (tuple, frozenset)):
        return 1
    c = _size_cache.get(id(t))
    if c is not None:
        return c[1]
    s = 1
    for x in t:
        if isinstance(x, (tuple, frozenset)):
            s += size(x)
    if s > 8:
        _size_cache[id(t)] = (t, s)
    return s


_EMPTY = frozenset()


def atoms(t) -> frozenset:
    """All root subterms (parameters, allocated objects, stored fields, externals) of a term."""
    if not isinstance(t, (tuple, frozenset)) or not t:
        return _EMPTY
    c = _atom_cache.get(id(t))
    if c is not None:
        return c[1]
    if isinstance(t, tuple) and t[0] in ATOMS:
        r = frozenset((t,))
    else:
        r = _EMPTY
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                y = atoms(x)
                if y:
                    r = r | y if r else y
    _atom_cache[id(t)] = (t, r)
    return r


def subterms(t):
    yield t
    if isinstance(t, (tuple, frozenset)):
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                yield from subterms(x)


LEAF_TAGS = {'param', 'self', 'obj', 'cls', 'fn', 'ext', 'builtin', 'closure', 'skey', 'deepcall', 'attr', 'sym'}


def leaves(t, out=None) -> set:
    """Maximal access paths and roots a term is built from."""
    if out is None:
        out = set()
    if isinstance(t, frozenset):
        for x in t:
            leaves(x, out)
        return out
    if not isinstance(t, tuple) or not t:
        return out
    tag = t[0]
    if not isinstance(tag, str):
        for x in t:
            leaves(x, out)
        return out
    if tag == 'attr':
        out.add(t)
        leaves(t[1], out)
    elif tag in ('param', 'self', 'obj', 'ext', 'closure', 'skey', 'sym'):
        out.add(t)
    elif tag == 'opaque':
        out |= set(t[1])
    else:
        for x in t[1:]:
            if isinstance(x, (tuple, frozenset)):
                leaves(x, out)
    return out


CURRENT = [None]        # interpreter at work, asked for the types of terms that are abstracted


def opaque(t, parts):
    it = CURRENT[0]
    ts = tuple(it.types_of(t)) if it is not None else ()
    return ('opaque', frozenset(parts), ts) if ts else ('opaque', frozenset(parts))


def limit(t):
    if size(t) > MAX_SIZE:
        return opaque(t, leaves(t))
    return t


def phi(*ts):
    s = set()
    for t in ts:
        if t is None:
            continue
        if isinstance(t, tuple) and t and t[0] == 'phi':
            s |= t[1]
        else:
            s.add(t)
    if len(s) == 1:
        return next(iter(s))
    if not s:
        return NONE
    if len(s) > 12:
        out = set()
        for x in s:
            leaves(x, out)
        return opaque(('phi', frozenset(s)), out)
    return limit(('phi', frozenset(s)))


def merge_terms(ts):
    """Join of values; containers with the same allocation site are joined element wise."""
    if len(ts) > 1 and all(isinstance(t, tuple) and t and t[0] in ('dict', 'list', 'set') and len(t) > 2 for t in ts) \
            and len({(t[0], t[2]) for t in ts}) == 1:
        if all(t == ts[0] for t in ts):
            return ts[0]
        if ts[0][0] == 'dict':
            keys = []
            for t in ts:
                for k, _ in t[1]:
                    if k not in keys:
                        keys.append(k)
            ds = [dict(t[1]) for t in ts]
            return ('dict', tuple((k, phi(*[d.get(k, ('absent',)) for d in ds])) for k in keys), ts[0][2])
        items = []
        for t in ts:
            for x in t[1]:
                if x not in items:
                    items.append(x)
        return limit((ts[0][0], tuple(items), ts[0][2]))
    return phi(*ts)


def alts(t):
    return list(t[1]) if isinstance(t, tuple) and t and t[0] == 'phi' else [t]


def show(t, depth=6) -> str:
    if depth == 0:
        return '…'
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    d = depth - 1
    if k == 'const':
        return repr(t[1])
    if k in ('param', 'builtin', 'ext', 'mod', 'sym'):
        return str(t[1])
    if k == 'self':
        return 'self'
    if k in ('cls', 'fn'):
        return t[1].split('.')[-1]
    if k == 'obj':
        return f'<new {t[1].split(".")[-1]}>'
    if k == 'attr':
        return f'{show(t[1], d)}.{t[2]}'
    if k == 'item':
        return f'{show(t[1], d)}[{show(t[2], d)}]'
    if k == 'elem':
        return f'each({show(t[1], d)})'
    if k == 'call' or k == 'deepcall':
        fn = show(t[1], d) if isinstance(t[1], tuple) else str(t[1]).split('.')[-1]
        a = [show(x, d) for x in t[2]]
        if k == 'call':
            a += [f'{n}={show(x, d)}' for n, x in t[3]]
        return f'{fn}({", ".join(a)})'
    if k in ('bin', 'aug', 'cmp'):
        return f'({show(t[2], d)} {t[1]} {show(t[3], d)})'
    if k == 'un':
        return f'{t[1]}{show(t[2], d)}'
    if k == 'bool':
        return '(' + f' {t[1]} '.join(show(x, d) for x in t[2]) + ')'
    if k == 'phi':
        return '{' + ' | '.join(sorted(show(x, d) for x in t[1])) + '}'
    if k in ('tuple', 'list', 'set'):
        return k + '(' + ', '.join(show(x, d) for x in t[1]) + ')'
    if k == 'bound':
        return f'{show(t[1], d)}.{t[2].split(".")[-1]}'
    if k == 'skey':
        return f'stored[{t[1]}]'
    if k == 'opaque':
        return 'f(' + ', '.join(sorted(show(x, d) for x in t[1])) + ')'
    if k == 'comp':
        return f'[{show(t[2], d)} for …]'
    return k


@dataclass
class Event:
    kind: str
    node: ast.AST
    func: Func
    guards: tuple
    stack: tuple
    data: dict

    @property
    def loc(self):
        return f'{self.func.module.path}:{getattr(self.node, "lineno", 0)}'

    def __getattr__(self, k):
        d = self.__dict__.get('data')
        if d is not None and k in d:
            return d[k]
        raise AttributeError(k)


class State:
    __slots__ = ('env', 'heap', 'guards', 'refine', 'dead')

    def __init__(self, env=None, heap=None, guards=(), refine=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.guards = guards
        self.refine = refine if refine is not None else {}
        self.dead = False

    def copy(self):
        s = State(dict(self.env), dict(self.heap), self.guards, dict(self.refine))
        return s


UNBOUND = ('unbound',)


def merge_states(states, base_guards=None):
    states = [s for s in states if s is not None]
    if not states:
        return None
    if len(states) == 1:
        return states[0]
    out = State()
    keys = set()
    for s in states:
        keys |= s.env.keys()
    for k in keys:
        vs = [s.env.get(k) for s in states]
        vs = [v for v in vs if v is not None]
        out.env[k] = merge_terms(vs)
    hk = set()
    for s in states:
        hk |= s.heap.keys()
    for k in hk:
        vs = []
        for s in states:
            v = s.heap.get(k)
            vs.append(v if v is not None else ('attr', k[0], k[1]))
        if k[0][0] == 'obj':
            vs = [v for v in vs if v != ('attr', k[0], k[1])] or vs
        out.heap[k] = merge_terms(vs)
    g = states[0].guards
    for s in states[1:]:
        n = 0
        while n < len(g) and n < len(s.guards) and g[n] == s.guards[n]:
            n += 1
        g = g[:n]
    out.guards = g
    r = dict(states[0].refine)
    for s in states[1:]:
        r = {k: v for k, v in r.items() if s.refine.get(k) == v}
    out.refine = r
    return out


class Ctx:
    """One function activation."""

    def __init__(self, func: Func, lexcls: Optional[Class], stack: tuple, closure_env=None):
        self.func = func
        self.module = func.module
        self.lexcls = lexcls
        self.stack = stack
        self.returns: list[tuple[State, tuple]] = []
        self.raises: list[State] = []
        self.breaks: list[list[State]] = []
        self.continues: list[list[State]] = []
        self.closure_env = closure_env
        self.yields: list = []


class Interp:
    def __init__(self, prog: Program, self_cls: Optional[Class] = None,
                 inline: Optional[Callable[['Interp', Func, tuple], bool]] = None,
                 on_call=None, on_attr=None, max_depth=MAX_DEPTH, record_reads=False, exact_params=None):
        self.prog = prog
        self.self_cls = self_cls
        self.inline_policy = inline or (lambda it, f, stack: True)
        self.on_call = on_call
        self.on_attr = on_attr
        self.max_depth = max_depth
        self.events: list[Event] = []
        self.closures: dict = {}
        self.param_types: dict = {}     # ('param', n) -> list of type refs
        self.exact: dict = dict(exact_params or {})   # term -> Class known exactly
        self.record_reads = record_reads
        self.inlined: set = set()
        self._attr_type_cache: dict = {}
        self.bound_methods: dict = {}
        self.steps = 0

    # ------------------------------------------------------------------ events
    def emit(self, kind, node, ctx: Ctx, st: State, **data):
        self.events.append(Event(kind, node, ctx.func, st.guards, ctx.stack, data))

    # ------------------------------------------------------------------ entry points
    def run(self, func: Func, args: Optional[dict] = None, self_term=('self',), state: Optional[State] = None):
        """Interpret ``func`` from its entry; parameters become ('param', name)."""
        st = state.copy() if state is not None else State()
        st.env = {}
        args = args or {}
        names = func.params
        i = 0
        if func.kind in ('method', 'getter', 'setter', 'deleter') and names:
            st.env[names[0]] = self_term
            i = 1
        elif func.kind == 'classmethod' and names:
            st.env[names[0]] = ('cls', self.self_cls.qual) if self.self_cls else ('param', names[0])
            i = 1
        for n in names[i:] + func.kwonly:
            t = args.get(n, ('param', n))
            st.env[n] = t
            if t == ('param', n) and n not in self.param_types:
                self.param_types[t] = self.ann_types(func.annotation_of(n), func.module, func.cls)
        if func.vararg:
            st.env[func.vararg] = args.get(func.vararg, ('param', '*' + func.vararg))
        if func.kwarg:
            st.env[func.kwarg] = args.get(func.kwarg, ('param', '**' + func.kwarg))
        ctx = Ctx(func, func.cls, (func,))
        end = self.block(func.node.body, st, ctx)
        outs = list(ctx.returns)
        if end is not None:
            outs.append((end, NONE))
            self.emit('return', func.node, ctx, end, value=NONE, implicit=True)
        final = merge_states([s for s, _ in outs])
        val = phi(*[v for _, v in outs]) if outs else None
        return final, val, ctx

    # ------------------------------------------------------------------ types
    def ann_types(self, ann, module: Module, cls: Optional[Class], depth=0):
        """Annotation -> list of (Class | ('seq', [..]) | ('type', Class) | ('ext', fq) | ('none',))"""
        if ann is None or depth > 6:
            return []
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return [('none',)]
            if isinstance(ann.value, str):
                try:
                    return self.ann_types(ast.parse(ann.value, mode='eval').body, module, cls, depth + 1)
                except SyntaxError:
                    return []
            return []
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return self.ann_types(ann.left, module, cls, depth) + self.ann_types(ann.right, module, cls, depth)
        if isinstance(ann, ast.Subscript):
            b = self.prog.resolve_expr(module, ann.value)
            bn = b[1].split('.')[-1] if isinstance(b, tuple) and b[0] in ('ext', 'mod') else (
                ann.value.id if isinstance(ann.value, ast.Name) else '')
            sl = ann.slice
            args = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
            if bn == 'Optional':
                return self.ann_types(args[0], module, cls, depth + 1) + [('none',)]
            if bn == 'Union':
                r = []
                for a in args:
                    r += self.ann_types(a, module, cls, depth + 1)
                return r
            if bn in ('Type', 'type'):
                return [('type', x) for x in self.ann_types(args[0], module, cls, depth + 1) if isinstance(x, Class)]
            if bn in ('Sequence', 'List', 'list', 'Set', 'set', 'Iterable', 'Collection', 'Iterator', 'MutableSequence', 'Generator',
                      'frozenset', 'deque', 'Deque', 'MutableSet', 'AbstractSet', 'Iterable'):
                e = []
                e += self.ann_types(args[0], module, cls, depth + 1)
                return [('seq', tuple(e), bn.lower())]
            if bn in ('Tuple', 'tuple'):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return [('seq', tuple(self.ann_types(args[0], module, cls, depth + 1)), 'tuple')]
                return [('tup', tuple(tuple(self.ann_types(a, module, cls, depth + 1)) for a in args))]
            if bn in ('Dict', 'dict', 'Mapping', 'MutableMapping', 'OrderedDict', 'defaultdict'):
                k = self.ann_types(args[0], module, cls, depth + 1)
                v = self.ann_types(args[1], module, cls, depth + 1) if len(args) > 1 else []
                return [('map', tuple(k), tuple(v))]
            if isinstance(b, Class):
                return [b]
            return [('ext', b[1])] if isinstance(b, tuple) and b[0] == 'ext' else []
        r = self.prog.resolve_expr(module, ann)
        if isinstance(r, Class):
            return [r]
        if isinstance(r, tuple):
            if r[0] == 'ext':
                return [('ext', r[1])]
            if r[0] == 'var':
                e = r[1]
                # TypeVar bound / alias
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'TypeVar':
                    b = self._typevar_binding(ann.id if isinstance(ann, ast.Name) else None, cls)
                    if b:
                        return b
                    for k in e.keywords:
                        if k.arg == 'bound':
                            return self.ann_types(k.value, r[2], cls, depth + 1)
                    out = []
                    for a in e.args[1:]:
                        out += self.ann_types(a, r[2], cls, depth + 1)
                    return out
                return self.ann_types(e, r[2], cls, depth + 1)
        if isinstance(ann, ast.Name):
            if ann.id in ('list', 'set', 'tuple', 'frozenset', 'dict'):
                return [('seq', (), ann.id)]
            if ann.id == 'Self' and cls is not None:
                return [cls]
            return [('builtin', ann.id)]
        return []

    def _typevar_binding(self, name, cls):
        """Bind a class level TypeVar through the generic bases of the analysed concrete class."""
        if name is None or self.self_cls is None or cls is None or cls not in self.self_cls.mro:
            return None
        # find declaration order of type vars on cls
        def tvars(c: Class):
            out = []
            for b in c.base_exprs:
                if isinstance(b, ast.Subscript):
                    sl = b.slice
                    for a in (sl.elts if isinstance(sl, ast.Tuple) else [sl]):
                        if isinstance(a, ast.Name):
                            rr = self.prog.resolve_name(c.module, a.id)
                            if isinstance(rr, tuple) and rr[0] == 'var' and isinstance(rr[1], ast.Call) and isinstance(rr[1].func, ast.Name) and rr[1].func.id == 'TypeVar':
                                if a.id not in out:
                                    out.append(a.id)
                            elif rr is None and a.id not in out:
                                out.append(a.id)
            return out
        tv = tvars(cls)
        if name not in tv:
            return None
        idx = tv.index(name)
        for c in self.self_cls.cmro:
            for b, be in zip(c.bases, c.base_exprs):
                if b is cls and isinstance(be, ast.Subscript):
                    sl = be.slice
                    args = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
                    if idx < len(args):
                        r = self.prog.resolve_expr(c.module, args[idx])
                        if isinstance(r, Class):
                            return [r]
        return None

    def attr_types(self, cls: Class, name: str):
        """Types of a data attribute from class annotations or constructor assignments."""
        key = (cls, name)
        if key in self._attr_type_cache:
            return self._attr_type_cache[key]
        self._attr_type_cache[key] = []
        out = []
        ann, owner = cls.ann(name)
        if ann is not None:
            out = self.ann_types(ann, owner.module, owner)
        if not out:
            for c in cls.cmro:
                for f in list(c.methods.values()):
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name) \
                                and n.target.value.id == 'self' and c.mangle(n.target.attr) == name:
                            out = self.ann_types(n.annotation, c.module, c)
                        elif isinstance(n, ast.Assign) and not out:
                            for t in n.targets:
                                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and c.mangle(t.attr) == name:
                                    v = n.value
                                    if isinstance(v, ast.Call):
                                        r = self.prog.resolve_expr(c.module, v.func) if isinstance(v.func, (ast.Name, ast.Attribute)) else None
                                        if isinstance(r, Class):
                                            out = [r]
                                    elif isinstance(v, ast.Name) and v.id in f.params:
                                        out = self.ann_types(f.annotation_of(v.id), c.module, c)
                    if out:
                        break
                if out:
                    break
        self._attr_type_cache[key] = out
        return out

    def types_of(self, t, st: Optional[State] = None, depth=0):
        """-> list of type refs; exactness is asked separately (is_exact)."""
        if depth > 8 or not isinstance(t, tuple) or not t:
            return []
        if st is not None and t in st.refine:
            return st.refine[t]
        if t in self.exact:
            return [self.exact[t]]
        k = t[0]
        if k == 'self':
            return [self.self_cls] if self.self_cls else []
        if k == 'obj':
            return [self.prog.classes[t[1]]]
        if k == 'param' or k == 'sym':
            return self.param_types.get(t, [])
        if k == 'typed' or k == 'opaque' and len(t) > 2:
            return list(t[2])
        if k == 'attr':
            out = []
            for b in self.types_of(t[1], st, depth + 1):
                if isinstance(b, Class):
                    m, o = b.lookup(t[2])
                    if isinstance(m, Prop) and m.getter is not None:
                        out += self.ann_types(m.getter.node.returns, m.getter.module, m.getter.cls)
                    else:
                        out += self.attr_types(b, t[2])
            return out
        if k == 'phi':
            out = []
            for x in t[1]:
                for y in self.types_of(x, st, depth + 1):
                    if y not in out:
                        out.append(y)
            return out
        if k in ('item', 'elem'):
            out = []
            for b in self.types_of(t[1], st, depth + 1):
                if isinstance(b, tuple) and b[0] == 'seq':
                    if k == 'item' and isinstance(t[2], tuple) and t[2][0] == 'slice':
                        out.append(b)
                    else:
                        out += list(b[1])
                elif isinstance(b, tuple) and b[0] == 'map':
                    out += list(b[2] if k == 'item' else b[1])
                elif isinstance(b, tuple) and b[0] == 'tup':
                    if k == 'item' and t[2][0] == 'const' and isinstance(t[2][1], int) and -len(b[1]) <= t[2][1] < len(b[1]):
                        out += list(b[1][t[2][1]])
                    else:
                        for x in b[1]:
                            out += list(x)
                elif isinstance(b, Class):
                    f = b.method('__getitem__')
                    if f is not None and k == 'item':
                        out += self.ann_types(f.node.returns, f.module, f.cls)
                    elif k == 'elem':
                        f = b.method('__iter__')
                        if f is not None:
                            for x in self.ann_types(f.node.returns, f.module, f.cls):
                                if isinstance(x, tuple) and x[0] == 'seq':
                                    out += list(x[1])
                        if not out:
                            out += self._seq_base_elem(b)
            return out
        if k == 'call':
            c = t[1]
            if isinstance(c, tuple) and c[0] == 'cls':
                return [self.prog.classes[c[1]]]
            if isinstance(c, tuple) and c[0] == 'builtin':
                if c[1] in ('list', 'tuple', 'sorted', 'reversed', 'set') and t[2]:
                    e = self.types_of(('elem', t[2][0]), st, depth + 1)
                    return [('seq', tuple(e), c[1])]
                if c[1] == 'enumerate' and t[2]:
                    e = self.types_of(('elem', t[2][0]), st, depth + 1)
                    return [('seq', (('tup', ((('builtin', 'int'),), tuple(e))),), 'enumerate')]
                if c[1] == 'zip':
                    es = tuple(tuple(self.types_of(('elem', a), st, depth + 1)) for a in t[2])
                    return [('seq', (('tup', es),), 'zip')]
                if c[1] in ('int', 'float', 'str', 'len', 'bool', 'complex'):
                    return [('builtin', c[1] if c[1] != 'len' else 'int')]
            if isinstance(c, tuple) and c[0] == 'attr' and c[2] in ('values', 'items', 'keys', 'copy'):
                for b in self.types_of(c[1], st, depth + 1):
                    if isinstance(b, tuple) and b[0] == 'map':
                        if c[2] == 'values':
                            return [('seq', b[2], 'values')]
                        if c[2] == 'items':
                            return [('seq', (('tup', (b[1], b[2])),), 'items')]
                        if c[2] == 'keys':
                            return [('seq', b[1], 'keys')]
                    if c[2] == 'copy' and isinstance(b, tuple):
                        return [b]
            f = None
            if isinstance(c, tuple) and c[0] == 'fn':
                f = self._fn(c[1])
            elif isinstance(c, tuple) and c[0] == 'bound':
                f = self._bound_func(c)
            if f is not None:
                return self.ann_types(f.node.returns, f.module, f.cls)
            return []
        if k == 'deepcall':
            f = self._fn(t[1])
            return self.ann_types(f.node.returns, f.module, f.cls) if f is not None else []
        if k in ('list', 'tuple', 'set'):
            out = []
            for x in t[1]:
                for y in self.types_of(x, st, depth + 1):
                    if y not in out:
                        out.append(y)
            return [('seq', tuple(out), k)]
        if k == 'comp':
            return [('seq', tuple(self.types_of(t[2], st, depth + 1)), t[1])]
        if k == 'const':
            return [('builtin', type(t[1]).__name__)] if t[1] is not None else [('none',)]
        if k == 'aug':
            return self.types_of(t[2], st, depth + 1)
        if k == 'bin':
            for x in (t[2], t[3]):
                r = [y for y in self.types_of(x, st, depth + 1) if isinstance(y, tuple) and y[0] == 'seq']
                if r:
                    return r
            return []
        return []

    def _seq_base_elem(self, c: Class):
        for cc in c.cmro:
            for be in cc.base_exprs:
                if isinstance(be, ast.Subscript):
                    nm = be.value.id if isinstance(be.value, ast.Name) else getattr(be.value, 'attr', '')
                    if nm in ('Sequence', 'Iterable', 'list'):
                        return self.ann_types(be.slice, cc.module, cc)
        return []

    def _fn(self, qual) -> Optional[Func]:
        return self.bound_methods.get(qual)

    def _bound_func(self, c) -> Optional[Func]:
        return self.bound_methods.get((c[2], c[3]))

    def classes_of(self, t, st=None) -> list[Class]:
        out = []
        for x in self.types_of(t, st):
            if isinstance(x, Class) and x not in out:
                out.append(x)
        return out

    def is_exact(self, t) -> bool:
        return t[0] in ('self', 'obj') or t in self.exact

    # ------------------------------------------------------------------ blocks and statements
    def block(self, body, st: Optional[State], ctx: Ctx) -> Optional[State]:
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st, ctx)
        return st

    def stmt(self, s, st: State, ctx: Ctx) -> Optional[State]:
        self.steps += 1
        if self.steps > 400000:
            raise AnalysisBroken(f'analysis budget exceeded in {ctx.func.qual}')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken(f'unsupported statement {type(s).__name__} at {ctx.func.loc}')
        return m(s, st, ctx)

    def s_Expr(self, s, st, ctx):
        v = self.ev(s.value, st, ctx)
        if v == ('noreturn',) or st.dead:
            return None
        return st

    def s_Pass(self, s, st, ctx):
        return st

    s_Import = s_Pass
    s_Global = s_Pass
    s_Nonlocal = s_Pass

    def s_ImportFrom(self, s, st, ctx):
        base = self.prog._abs(ctx.module, s)
        for a in s.names:
            r = self.prog.resolve_from(base, a.name)
            st.env[a.asname or a.name] = self.entity(r)
        return st

    def s_Assert(self, s, st, ctx):
        self.ev(s.test, st, ctx)
        return st

    def s_Delete(self, s, st, ctx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, ctx)
                n = self._mangle(t.attr, ctx)
                self.emit('delattr', s, ctx, st, base=b, name=n)
                st.heap.pop((b, n), None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, ctx)
                i = self.ev(t.slice, st, ctx)
                self.emit('delitem', s, ctx, st, base=b, index=i)
        return st

    def s_FunctionDef(self, s, st, ctx):
        cid = ('closure', f'{ctx.func.qual}.{s.name}', s.lineno)
        f = Func(s.name, f'{ctx.func.qual}.<locals>.{s.name}', s, ctx.module, ctx.lexcls, 'function')
        self.closures[cid] = (f, st.env)
        st.env[s.name] = cid
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st, ctx):
        st.env[s.name] = ('opaque', frozenset())
        return st

    def s_Return(self, s, st, ctx):
        v = self.ev(s.value, st, ctx) if s.value is not None else NONE
        if st.dead:
            return None
        self.emit('return', s, ctx, st, value=v, implicit=False)
        ctx.returns.append((st, v))
        return None

    def s_Raise(self, s, st, ctx):
        v = self.ev(s.exc, st, ctx) if s.exc is not None else NONE
        self.emit('raise', s, ctx, st, exc=v)
        ctx.raises.append(st)
        return None

    def s_Break(self, s, st, ctx):
        if ctx.breaks:
            ctx.breaks[-1].append(st)
        return None

    def s_Continue(self, s, st, ctx):
        if ctx.continues:
            ctx.continues[-1].append(st)
        return None

    def s_Assign(self, s, st, ctx):
        v = self.ev(s.value, st, ctx)
        if st.dead:
            return None
        for t in s.targets:
            self.assign(t, v, st, ctx, s)
        return None if st.dead else st

    def s_AnnAssign(self, s, st, ctx):
        if s.value is None:
            if isinstance(s.target, ast.Name):
                st.env.setdefault('@ann:' + s.target.id, ('ann', id(s)))
            return st
        v = self.ev(s.value, st, ctx)
        if st.dead:
            return None
        if isinstance(s.target, ast.Name) and not self.types_of(v, st):
            tr = self.ann_types(s.annotation, ctx.module, ctx.lexcls)
            if tr and v[0] not in ('const',):
                st.refine[v] = tr
        elif v in (('list', ()), ('dict', ()), ('set', ())):
            pass
        self.assign(s.target, v, st, ctx, s)
        return None if st.dead else st

    def s_AugAssign(self, s, st, ctx):
        op = OPS[type(s.op)]
        r = self.ev(s.value, st, ctx)
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st, ctx)
            self.emit('aug', s, ctx, st, base=cur, op=op, value=r, target='name')
            st.env[t.id] = limit(('aug', op, cur, r))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, ctx)
            cur = self.getattr_(b, t.attr, st, ctx, t)
            self.emit('aug', s, ctx, st, base=cur, op=op, value=r, target='attr', owner=b, name=self._mangle(t.attr, ctx))
            self.setattr_(b, t.attr, limit(('aug', op, cur, r)), st, ctx, s, aug=True)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, ctx)
            i = self.ev(t.slice, st, ctx)
            self.emit('setitem', s, ctx, st, base=b, index=i, value=limit(('aug', op, ('item', b, i), r)), aug=op)
        return None if st.dead else st

    def assign(self, t, v, st, ctx, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            self.emit('local', node, ctx, st, name=t.id, value=v)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, ctx)
            self.setattr_(b, t.attr, v, st, ctx, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, ctx)
            i = self.ev(t.slice, st, ctx)
            self.emit('setitem', node, ctx, st, base=b, index=i, value=v, aug=None)
            for x in self.classes_of(b, st):
                m = x.method('__setitem__')
                if m is not None:
                    self.call_func(m, [i, v], {}, st, ctx, node, self_term=b, exact=self.is_exact(b))
                break
            else:
                self._store_item(b, i, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, ('item', v, ('slice', const(i), const(-(n - i - 1)) if n - i - 1 else NONE, NONE)), st, ctx, node)
                    continue
                if v[0] in ('tuple', 'list') and not star and len(v[1]) == n:
                    self.assign(e, v[1][i], st, ctx, node)
                else:
                    idx = i if not star or i < star[0] else i - n
                    self.assign(e, self.item(v, const(idx)), st, ctx, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, ctx, node)

    def _store_item(self, b, i, v, st):
        """Element assignment on a container known by its allocation site."""
        if b[0] == 'dict' and len(b) > 2:
            d = dict(b[1])
            d[i] = v
            self._subst(b, limit(('dict', tuple(d.items()), b[2])), st)
        elif b[0] == 'list' and len(b) > 2 and len(b[1]) < 8 and v not in b[1]:
            self._subst(b, limit(('list', b[1] + (v,), b[2])), st)

    def _subst(self, old, new, st):
        for k, x in list(st.env.items()):
            if x == old:
                st.env[k] = new
        for k, x in list(st.heap.items()):
            if x == old:
                st.heap[k] = new

    def item(self, v, idx):
        if v[0] in ('tuple', 'list') and idx[0] == 'const' and isinstance(idx[1], int) and not isinstance(idx[1], bool) and -len(v[1]) <= idx[1] < len(v[1]):
            x = v[1][idx[1]]
            if not any(y[0] == 'star' for y in v[1]):
                return x
        if v[0] == 'phi':
            return phi(*[self.item(x, idx) for x in v[1]])
        if v[0] == 'dict' and idx[0] == 'const':
            for k, x in v[1]:
                if k == idx:
                    return phi(*[y for y in alts(x) if y != ('absent',)])
        return ('item', v, idx)

    def s_If(self, s, st, ctx):
        c = self.ev(s.test, st, ctx)
        if st.dead:
            return None
        tv = self.truth(c, st)
        if tv is True:
            return self.block(s.body, self.guarded(st, c, True), ctx)
        if tv is False:
            return self.block(s.orelse, self.guarded(st, c, False), ctx)
        a = self.block(s.body, self.guarded(st.copy(), c, True), ctx)
        b = self.block(s.orelse, self.guarded(st.copy(), c, False), ctx)
        return merge_states([a, b])

    def guarded(self, st, c, pol):
        st.guards = st.guards + ((c, pol),)
        self.refine(st, c, pol)
        return st

    def refine(self, st, c, pol):
        if not isinstance(c, tuple):
            return
        if c[0] == 'un' and c[1] == 'not':
            return self.refine(st, c[2], not pol)
        if c[0] == 'bool':
            if (c[1] == 'and' and pol) or (c[1] == 'or' and not pol):
                for x in c[2]:
                    self.refine(st, x, pol)
            return
        if c[0] == 'call' and c[1] == ('builtin', 'isinstance') and len(c[2]) == 2 and pol:
            ty = c[2][1]
            cs = []
            for x in (ty[1] if ty[0] in ('tuple',) else [ty]):
                if x[0] == 'cls':
                    cs.append(self.prog.classes[x[1]])
                elif x[0] == 'ext':
                    cs.append(('ext', x[1]))
                elif x[0] == 'builtin':
                    cs.append(('builtin', x[1]))
            if cs and not self.is_exact(c[2][0]):
                st.refine[c[2][0]] = cs
        if c[0] == 'cmp' and c[1] in ('is', '==') and c[3] == NONE and pol:
            for k, v in list(st.env.items()):
                if v == c[2] and c[2][0] == 'param':
                    st.env[k] = NONE
        if c[0] == 'cmp' and c[1] in ('is', 'is not', '==', '!=') and c[3] == NONE:
            isnone = (c[1] in ('is', '==')) == pol
            if not isnone and c[2][0] == 'phi':
                rest = [x for x in c[2][1] if x != NONE]
                if rest and len(rest) < len(c[2][1]):
                    new = phi(*rest)
                    for k, v in list(st.env.items()):
                        if v == c[2]:
                            st.env[k] = new
                    for k, v in list(st.heap.items()):
                        if v == c[2]:
                            st.heap[k] = new
            if isnone and c[2][0] == 'phi' and NONE in c[2][1]:
                for k, v in list(st.env.items()):
                    if v == c[2]:
                        st.env[k] = NONE

    def truth(self, c, st=None) -> Optional[bool]:
        if c[0] == 'const':
            return bool(c[1])
        if c[0] == 'un' and c[1] == 'not':
            r = self.truth(c[2], st)
            return None if r is None else not r
        if c[0] == 'bool':
            rs = [self.truth(x, st) for x in c[2]]
            if c[1] == 'and':
                if any(r is False for r in rs):
                    return False
                if all(r is True for r in rs):
                    return True
            else:
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
            return None
        if c[0] == 'cmp':
            op, a, b = c[1], c[2], c[3]
            if a[0] == 'const' and b[0] == 'const':
                try:
                    return {'is': lambda: a[1] is b[1] if a[1] is None or b[1] is None else a[1] == b[1],
                            'is not': lambda: not (a[1] is b[1]) if a[1] is None or b[1] is None else a[1] != b[1],
                            '==': lambda: a[1] == b[1], '!=': lambda: a[1] != b[1],
                            '<': lambda: a[1] < b[1], '>': lambda: a[1] > b[1],
                            '<=': lambda: a[1] <= b[1], '>=': lambda: a[1] >= b[1]}[op]()
                except Exception:
                    return None
            if b == NONE and a[0] in ('obj', 'self', 'tuple', 'list', 'dict', 'set', 'fstr', 'closure', 'cls', 'comp', 'fn', 'bound'):
                return op in ('is not', '!=')
        if c[0] == 'call' and c[1] == ('builtin', 'isinstance') and len(c[2]) == 2:
            x, ty = c[2]
            tys = ty[1] if ty[0] == 'tuple' else [ty]
            if x[0] in ('self', 'obj') or x in self.exact:
                cl = self.classes_of(x, st)
                if cl:
                    res = []
                    for y in tys:
                        if y[0] == 'cls':
                            res.append(cl[0].is_a(self.prog.classes[y[1]]))
                        elif y[0] in ('builtin',):
                            res.append(False)
                        else:
                            res.append(None)
                    if any(r is True for r in res):
                        return True
                    if all(r is False for r in res):
                        return False
            if x == NONE and all(y[0] in ('cls', 'builtin', 'ext') for y in tys):
                return False
        return None

    def s_For(self, s, st, ctx):
        it = self.ev(s.iter, st, ctx)
        if st.dead:
            return None
        self.emit('iter', s, ctx, st, iterable=it)
        return self.loop(s, st, ctx, it)

    s_AsyncFor = s_For

    def s_While(self, s, st, ctx):
        return self.loop(s, st, ctx, None)

    def loop(self, s, st, ctx, it):
        ev0 = len(self.events)
        elem = self.elem(it) if it is not None else None
        # unroll short literal iterables
        if it is not None and it[0] in ('tuple', 'list') and 0 < len(it[1]) <= 6 and not any(x[0] == 'star' for x in it[1]) and not s.orelse:
            cur = st
            brk = []
            for x in it[1]:
                if cur is None:
                    break
                self.assign(s.target, x, cur, ctx, s)
                ctx.breaks.append([])
                ctx.continues.append([])
                end = self.block(s.body, cur.copy(), ctx)
                brk += ctx.breaks.pop()
                cont = ctx.continues.pop()
                cur = merge_states([end] + cont)
            return merge_states([cur] + brk)
        nret = None
        exits = []
        head = st
        for p in (0, 1):
            del self.events[ev0:]
            if nret is not None:
                del ctx.returns[nret:]
                del ctx.raises[nraise:]
            nret, nraise = len(ctx.returns), len(ctx.raises)
            cur = head.copy()
            if it is not None:
                cur.guards = cur.guards + ((('loop', it), True),)
                self.assign(s.target, elem, cur, ctx, s)
                infinite = False
            else:
                c = self.ev(s.test, cur, ctx)
                infinite = self.truth(c, cur) is True
                cur = self.guarded(cur, ('loop', c), True)
            ctx.breaks.append([])
            ctx.continues.append([])
            end = self.block(s.body, cur, ctx)
            brk = ctx.breaks.pop()
            cont = ctx.continues.pop()
            ends = [end] + cont
            ends = [e for e in ends if e is not None]
            for e in ends + brk:
                e.guards = head.guards
            head = merge_states([st.copy()] + [e.copy() for e in ends])
            head.guards = st.guards
            exits = brk
        normal = None if infinite else head.copy()
        if s.orelse and normal is not None:
            normal = self.block(s.orelse, normal, ctx)
        r = merge_states([normal] + exits)
        if r is not None:
            r.guards = st.guards
        return r

    def elem(self, it):
        if it[0] in ('tuple', 'list', 'set') and it[1] and not any(x[0] == 'star' for x in it[1]):
            return phi(*it[1])
        if it[0] == 'call' and it[1] == ('builtin', 'enumerate') and it[2]:
            return ('tuple', (('sym', 'index', it[2][0]), self.elem(it[2][0])))
        if it[0] == 'call' and it[1] == ('builtin', 'zip') and it[2] and not any(x[0] == 'star' for x in it[2]):
            return ('tuple', tuple(self.elem(x) for x in it[2]))
        if it[0] == 'call' and it[1] == ('builtin', 'reversed') and len(it[2]) == 1:
            return ('elem', it)
        if it[0] == 'comp':
            return it[2]
        if it[0] == 'phi':
            return phi(*[self.elem(x) for x in it[1]])
        return ('elem', it)

    def s_With(self, s, st, ctx):
        for item in s.items:
            v = self.ev(item.context_expr, st, ctx)
            self.emit('with', s, ctx, st, value=v)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st, ctx, s)
        return self.block(s.body, st, ctx)

    s_AsyncWith = s_With

    def s_Try(self, s, st, ctx):
        pre = st.copy()
        body = st.copy()
        end = self.block(s.body, body, ctx)
        if end is not None and s.orelse:
            end = self.block(s.orelse, end, ctx)
        outs = [end]
        for h in s.handlers:
            hs = pre.copy()
            if end is not None:
                hs = merge_states([pre.copy(), end.copy()])
            hs.guards = pre.guards + ((('except', ast.unparse(h.type) if h.type else ''), True),)
            if h.name:
                hs.env[h.name] = ('opaque', frozenset())
            outs.append(self.block(h.body, hs, ctx))
        r = merge_states(outs)
        if s.finalbody:
            if r is None:
                fs = pre.copy()
                self.block(s.finalbody, fs, ctx)
                return None
            r = self.block(s.finalbody, r, ctx)
        return r

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st: State, ctx: Ctx):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken(f'unsupported expression {type(e).__name__} at {ctx.func.module.path}:{getattr(e, "lineno", 0)}')
        CURRENT[0] = self
        r = m(e, st, ctx)
        CURRENT[0] = self
        return limit(r)

    def e_Constant(self, e, st, ctx):
        return ('const', e.value)

    def entity(self, r):
        if r is None:
            return None
        if isinstance(r, Class):
            return ('cls', r.qual)
        if isinstance(r, Func):
            self.bound_methods[r.qual] = r
            return ('fn', r.qual)
        if r[0] in ('mod', 'ext'):
            return r
        return None

    def e_Name(self, e, st, ctx):
        if e.id in st.env:
            return st.env[e.id]
        if ctx.closure_env is not None and e.id in ctx.closure_env:
            return ctx.closure_env[e.id]
        r = self.prog.resolve_name(ctx.module, e.id)
        if r is not None:
            t = self.entity(r)
            if t is not None:
                return t
            if r[0] == 'var':
                v = r[1]
                if isinstance(v, ast.Constant):
                    return ('const', v.value)
                if isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.Constant) and isinstance(v.op, ast.USub):
                    return ('const', -v.operand.value)
                return ('ext', r[2].name + '.' + e.id)
        return ('builtin', e.id)

    def _mangle(self, attr, ctx):
        return mangle(ctx.lexcls.name, attr) if ctx.lexcls is not None else attr

    def e_Attribute(self, e, st, ctx):
        b = self.ev(e.value, st, ctx)
        return self.getattr_(b, e.attr, st, ctx, e)

    def getattr_(self, b, attr, st, ctx, node):
        name = self._mangle(attr, ctx)
        if b[0] in ('mod', 'ext'):
            r = self.prog.member(b, attr)
            t = self.entity(r) if r is not None else None
            return t if t is not None else ('ext', b[1] + '.' + attr)
        if size(b) > MAX_SIZE - 12 and b[0] != 'phi':
            b = opaque(b, leaves(b))
        if b[0] == 'phi' and len(b[1]) <= 4:
            return phi(*[self.getattr_(x, attr, st, ctx, node) for x in b[1] if x != NONE] or [('attr', b, name)])
        if (b, name) in st.heap:
            return st.heap[(b, name)]
        if self.on_attr is not None:
            r = self.on_attr(self, b, name, st, ctx, node)
            if r is not None:
                return r
        if b[0] == 'super':
            sub, after, selft = b[1], b[2], b[3]
            m, owner = sub.lookup(name, after)
            if isinstance(m, Func):
                return self.bind(m, selft, owner, sub)
            if isinstance(m, Prop) and m.getter is not None:
                return self.call_func(m.getter, [], {}, st, ctx, node, self_term=selft, exact=True)
            return ('attr', selft, name)
        if b[0] == 'cls':
            c = self.prog.classes[b[1]]
            r = self.prog.classes.get(c.qual + '.' + attr)
            if r is not None:
                return ('cls', r.qual)
            m, owner = c.lookup(name)
            if isinstance(m, Func):
                self.bound_methods[(m.qual, owner.qual)] = m
                if m.kind == 'classmethod':
                    return ('bound', b, m.qual, owner.qual)
                self.bound_methods[m.qual] = m
                return ('fn', m.qual)
            if isinstance(m, Prop):
                return ('propobj', owner.qual, name)
            if isinstance(m, ast.expr):
                if isinstance(m, ast.Constant) and not c.is_enum:
                    return ('const', m.value)
                return ('attr', b, name)
            return ('attr', b, name)
        if b[0] == 'propobj':
            p = self.prog.classes[b[1]].props[b[2]]
            f = {'fget': p.getter, 'fset': p.setter, 'fdel': p.deleter}.get(attr)
            if f is not None:
                self.bound_methods[f.qual + '@' + f.kind] = f
                return ('fn', f.qual + '@' + f.kind)
            return ('attr', b, name)
        for c in self.classes_of(b, st):
            m, owner = c.lookup(name)
            if isinstance(m, Func):
                return self.bind(m, b, owner, c)
            if isinstance(m, Prop):
                if self.record_reads:
                    self.emit('read', node, ctx, st, base=b, name=name, prop=m)
                if m.getter is None:
                    return ('attr', b, name)
                if m.cached:
                    return ('attr', b, name)
                if self.is_exact(b) or not self.overridden(c, name):
                    r = self.call_func(m.getter, [], {}, st, ctx, node, self_term=b, exact=True, soft=True)
                    if r is not None:
                        return r
                return ('attr', b, name)
            if isinstance(m, ast.expr):
                if isinstance(m, ast.Constant) and not c.is_enum and self.is_exact(b) and not self.assigned_instance_attr(c, name):
                    return ('const', m.value)
                break
        if self.record_reads:
            self.emit('read', node, ctx, st, base=b, name=name, prop=None)
        return ('attr', b, name)

    _aia: dict = {}

    def assigned_instance_attr(self, c: Class, name) -> bool:
        k = (c, name)
        if k not in self._aia:
            self._aia[k] = any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and cc.mangle(n.attr) == name
                               for cc in c.cmro for n in ast.walk(cc.node))
        return self._aia[k]

    def overridden(self, c: Class, name: str) -> bool:
        return any(name in s.methods or name in s.props for s in c.subclasses)

    def bind(self, m: Func, recv, owner: Class, sub=None):
        self.bound_methods[(m.qual, owner.qual)] = m
        if m.kind == 'staticmethod':
            self.bound_methods[m.qual] = m
            return ('fn', m.qual)
        if m.kind == 'classmethod' and recv[0] != 'cls':
            return ('bound', ('cls', sub.qual) if sub is not None and self.is_exact(recv) else recv, m.qual, owner.qual)
        return ('bound', recv, m.qual, owner.qual)

    def setattr_(self, b, attr, v, st, ctx, node, aug=False):
        name = self._mangle(attr, ctx)
        if b[0] == 'phi':
            for x in b[1]:
                if x != NONE:
                    self.setattr_(x, attr, v, st, ctx, node, aug)
            return
        for c in self.classes_of(b, st):
            m, owner = c.lookup(name)
            if isinstance(m, Prop):
                if m.setter is not None and (self.is_exact(b) or not self.overridden(c, name)):
                    self.emit('setprop', node, ctx, st, base=b, name=name, value=v, prop=m)
                    self.call_func(m.setter, [v], {}, st, ctx, node, self_term=b, exact=True)
                    return
                self.emit('setprop', node, ctx, st, base=b, name=name, value=v, prop=m)
                st.heap[(b, name)] = v
                return
            break
        self.emit('setattr', node, ctx, st, base=b, name=name, value=v, aug=aug)
        st.heap[(b, name)] = v

    def e_Subscript(self, e, st, ctx):
        b = self.ev(e.value, st, ctx)
        i = self.ev(e.slice, st, ctx)
        if b[0] == 'cls':
            return b
        self.emit('getitem', e, ctx, st, base=b, index=i)
        for c in self.classes_of(b, st)[:1]:
            m = c.method('__getitem__')
            if m is not None:
                self.emit('call', e, ctx, st, callee=('bound', b, m.qual, m.cls.qual), func_=m, recv=b, args=(i,), kwargs={}, result=('item', b, i), inlined=False)
        return self.item(b, i)

    def e_Slice(self, e, st, ctx):
        f = lambda x: self.ev(x, st, ctx) if x is not None else NONE
        return ('slice', f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, st, ctx):
        return ('tuple', tuple(self.ev(x, st, ctx) for x in e.elts))

    def e_List(self, e, st, ctx):
        return ('list', tuple(self.ev(x, st, ctx) for x in e.elts), self._site(e, ctx))

    def e_Set(self, e, st, ctx):
        return ('set', tuple(self.ev(x, st, ctx) for x in e.elts), self._site(e, ctx))

    def e_Dict(self, e, st, ctx):
        out = {}
        for k, v in zip(e.keys, e.values):
            v = self.ev(v, st, ctx)
            if k is None:
                if v[0] == 'dict':
                    out.update(dict(v[1]))
                else:
                    out[('star', v)] = v
            else:
                out[self.ev(k, st, ctx)] = v
        return ('dict', tuple(out.items()), self._site(e, ctx))

    def e_Starred(self, e, st, ctx):
        return ('star', self.ev(e.value, st, ctx))

    def e_JoinedStr(self, e, st, ctx):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(('const', v.value))
            else:
                fs = ast.unparse(v.format_spec) if v.format_spec is not None else ''
                parts.append(('fmt', self.ev(v.value, st, ctx), fs))
        return ('fstr', tuple(parts))

    def e_FormattedValue(self, e, st, ctx):
        return ('fmt', self.ev(e.value, st, ctx), '')

    def e_BinOp(self, e, st, ctx):
        a, b = self.ev(e.left, st, ctx), self.ev(e.right, st, ctx)
        op = OPS[type(e.op)]
        if a[0] == 'const' and b[0] == 'const' and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            try:
                v = {'+': lambda: a[1] + b[1], '-': lambda: a[1] - b[1], '*': lambda: a[1] * b[1], '/': lambda: a[1] / b[1],
                     '**': lambda: a[1] ** b[1] if abs(b[1]) < 64 else None, '//': lambda: a[1] // b[1], '%': lambda: a[1] % b[1]}.get(op, lambda: None)()
                if isinstance(v, (int, float)):
                    return ('const', v)
            except Exception:
                pass
        if op == '+' and a[0] in ('list', 'tuple') and a[0] == b[0]:
            return (a[0], a[1] + b[1])
        self.emit('bin', e, ctx, st, op=op, left=a, right=b)
        return ('bin', op, a, b)

    def e_UnaryOp(self, e, st, ctx):
        a = self.ev(e.operand, st, ctx)
        op = {ast.Not: 'not', ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)]
        if a[0] == 'const' and op == '-' and isinstance(a[1], (int, float)):
            return ('const', -a[1])
        if a[0] == 'const' and op == 'not':
            return ('const', not a[1])
        return ('un', op, a)

    def e_BoolOp(self, e, st, ctx):
        op = 'and' if isinstance(e.op, ast.And) else 'or'
        ts = []
        cur = st
        snap = None
        for i, v in enumerate(e.values):
            t = self.ev(v, cur, ctx)
            ts.append(t)
            tv = self.truth(t, cur)
            if i == 0 and len(e.values) > 1:
                snap = (st.guards, dict(st.refine))
            if i < len(e.values) - 1:
                # later operands are evaluated under the earlier ones
                st.guards = st.guards + ((t, op == 'and'),)
                if op == 'and':
                    c = t
                    if c[0] == 'call' and c[1] == ('builtin', 'isinstance') and len(c[2]) == 2:
                        self.refine(st, c, True)
            if op == 'and' and tv is False or op == 'or' and tv is True:
                break
        if snap is not None:
            st.guards, st.refine = snap[0], snap[1]
        if len(ts) == 1:
            return ts[0]
        if op == 'or' and all(self.truth(t, st) is False for t in ts[:-1]):
            return ts[-1]
        if op == 'and' and all(self.truth(t, st) is True for t in ts[:-1]):
            return ts[-1]
        return ('bool', op, tuple(ts))

    def e_Compare(self, e, st, ctx):
        left = self.ev(e.left, st, ctx)
        out = []
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, st, ctx)
            self.emit('cmp', e, ctx, st, op=CMPS[type(op)], left=left, right=r)
            t = ('cmp', CMPS[type(op)], left, r)
            out.append(t)
            left = r
        return out[0] if len(out) == 1 else ('bool', 'and', tuple(out))

    def e_IfExp(self, e, st, ctx):
        c = self.ev(e.test, st, ctx)
        tv = self.truth(c, st)
        if tv is True:
            return self.ev(e.body, st, ctx)
        if tv is False:
            return self.ev(e.orelse, st, ctx)
        g, rf, env = st.guards, dict(st.refine), dict(st.env)
        self.guarded(st, c, True)
        a = self.ev(e.body, st, ctx)
        da = st.dead
        st.guards, st.refine, st.env, st.dead = g, dict(rf), dict(env), False
        self.guarded(st, c, False)
        b = self.ev(e.orelse, st, ctx)
        db = st.dead
        st.guards, st.refine, st.env, st.dead = g, rf, env, da and db
        self.emit('ifexp', e, ctx, st, cond=c, a=a, b=b)
        return phi(a, b)

    def e_NamedExpr(self, e, st, ctx):
        v = self.ev(e.value, st, ctx)
        st.env[e.target.id] = v
        return v

    def e_Lambda(self, e, st, ctx):
        cid = ('closure', f'{ctx.func.qual}.<lambda>', e.lineno, e.col_offset)
        fn = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.copy_location(ast.Return(e.body), e)], decorator_list=[], returns=None, type_params=[])
        ast.copy_location(fn, e)
        f = Func('<lambda>', f'{ctx.func.qual}.<lambda>', fn, ctx.module, ctx.lexcls, 'function')
        env = dict(ctx.closure_env or {})
        env.update(st.env)
        self.closures[cid] = (f, env)
        return cid

    def e_Await(self, e, st, ctx):
        return self.ev(e.value, st, ctx)

    def e_Yield(self, e, st, ctx):
        v = self.ev(e.value, st, ctx) if e.value is not None else NONE
        ctx.yields.append(v)
        self.emit('yield', e, ctx, st, value=v)
        return NONE

    def e_YieldFrom(self, e, st, ctx):
        v = self.ev(e.value, st, ctx)
        ctx.yields.append(('elem', v))
        return NONE

    def _comp(self, e, st, ctx, kind, elts):
        env = dict(st.env)
        g = st.guards
        rf = dict(st.refine)
        srcs = []
        for gen in e.generators:
            it = self.ev(gen.iter, st, ctx)
            self.emit('iter', gen.iter, ctx, st, iterable=it)
            srcs.append(it)
            self.assign(gen.target, self.elem(it), st, ctx, e)
            st.guards = st.guards + ((('loop', it), True),)
            for c in gen.ifs:
                ct = self.ev(c, st, ctx)
                self.guarded(st, ct, True)
                srcs.append(('filter', ct))
        r = [self.ev(x, st, ctx) for x in elts]
        st.env, st.guards, st.refine = env, g, rf
        return ('comp', kind, r[0] if len(r) == 1 else ('tuple', tuple(r)), tuple(srcs))

    def e_ListComp(self, e, st, ctx):
        return self._comp(e, st, ctx, 'list', [e.elt])

    def e_SetComp(self, e, st, ctx):
        return self._comp(e, st, ctx, 'set', [e.elt])

    def e_GeneratorExp(self, e, st, ctx):
        return self._comp(e, st, ctx, 'gen', [e.elt])

    def e_DictComp(self, e, st, ctx):
        return self._comp(e, st, ctx, 'dict', [e.key, e.value])

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, ctx):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and ctx.lexcls is not None:
            selfname = ctx.func.params[0] if ctx.func.params else None
            if len(e.args) == 2:
                st_arg = self.ev(e.args[1], st, ctx)
                after = self.ev(e.args[0], st, ctx)
                ac = self.prog.classes[after[1]] if after[0] == 'cls' else ctx.lexcls
            else:
                st_arg = st.env.get(selfname, ('self',))
                ac = ctx.lexcls
            if st_arg[0] == 'cls':
                sub = self.prog.classes[st_arg[1]]
            else:
                cs = self.classes_of(st_arg, st)
                sub = cs[0] if cs and ac in cs[0].mro else ac
            return ('super', sub, ac, st_arg)
        callee = self.ev(e.func, st, ctx)
        args = [self.ev(a, st, ctx) for a in e.args]
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, st, ctx)
            if k.arg is None:
                if v[0] == 'dict' and all(x[0][0] == 'const' for x in v[1]):
                    for kk, vv in v[1]:
                        kwargs[kk[1]] = vv if ('absent',) not in alts(vv) else ('maybe', vv)
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        # expand literal star args
        ex = []
        for a in args:
            if a[0] == 'star' and a[1][0] in ('tuple', 'list'):
                ex += list(a[1][1])
            else:
                ex.append(a)
        return self.call(callee, ex, kwargs, st, ctx, e)

    def call(self, callee, args, kwargs, st, ctx, node):
        if st.dead:
            return NONE
        if callee[0] == 'phi' and len(callee[1]) <= 4:
            return phi(*[self.call(c, args, kwargs, st, ctx, node) for c in sorted(callee[1], key=repr)])
        if self.on_call is not None:
            r = self.on_call(self, callee, args, kwargs, st, ctx, node)
            if r is not None:
                return r
        raw = ('call', callee, tuple(args), tuple(sorted(kwargs.items())))
        if callee[0] == 'builtin' and callee[1] == 'cast' and len(args) == 2:
            return args[1]
        if callee == ('ext', 'typing.cast') and len(args) == 2:
            return args[1]
        if callee == ('builtin', 'type') and len(args) == 1 and self.is_exact(args[0]):
            c = self.classes_of(args[0], st)
            if c:
                return ('cls', c[0].qual)
        if callee == ('builtin', 'getattr') and len(args) >= 2 and args[1][0] == 'const' and isinstance(args[1][1], str):
            return phi(self.getattr_(args[0], args[1][1], st, ctx, node), *args[2:3])
        if callee[0] == 'closure':
            f, env = self.closures[callee]
            self.emit('call', node, ctx, st, callee=callee, func_=f, recv=None, args=tuple(args), kwargs=dict(kwargs), result=None, inlined=True)
            return self.call_func(f, args, kwargs, st, ctx, node, closure_env=env)
        if callee[0] == 'cls':
            return self.construct(self.prog.classes[callee[1]], args, kwargs, st, ctx, node)
        if callee[0] == 'fn':
            f = self.bound_methods.get(callee[1])
            if f is not None:
                if f.kind in ('method', 'getter', 'setter') and args:
                    return self.call_func(f, args[1:], kwargs, st, ctx, node, self_term=args[0], exact=True)
                return self.call_func(f, args, kwargs, st, ctx, node, exact=True)
        if callee[0] == 'bound':
            f = self._bound_func(callee)
            recv = callee[1]
            if f is not None:
                exact = self.is_exact(recv) or recv[0] == 'cls'
                if not exact:
                    cs = self.classes_of(recv, st)
                    exact = bool(cs) and not self.overridden(cs[0], f.name)
                return self.call_func(f, args, kwargs, st, ctx, node, self_term=recv, exact=exact)
        if args and args[0][0] == 'cls' and (callee[0] == 'attr' and callee[2] in ('__new__', 'view') or callee[0] == 'ext' and callee[1].endswith('.__new__')
                                             or callee == ('builtin', '__new__')):
            # allocation through a foreign base: a fresh instance whose buffer derives from the remaining arguments
            o = ('obj', args[0][1], self._site(node, ctx))
            data = [callee[1]] if callee[0] == 'attr' and callee[2] == 'view' else []
            data += list(args[1:]) + list(kwargs.values())
            self.emit('call', node, ctx, st, callee=callee, func_=None, recv=callee[1] if callee[0] == 'attr' else None,
                      args=tuple(args), kwargs=dict(kwargs), result=o, inlined=False)
            st.heap[(o, '@data')] = limit(('tuple', tuple(data)))
            return o
        self.emit('call', node, ctx, st, callee=callee, func_=None, recv=callee[1] if callee[0] == 'attr' else None,
                  args=tuple(args), kwargs=dict(kwargs), result=raw, inlined=False)
        if callee[0] == 'attr' and callee[2] in ('append', 'add', 'extend', 'insert') and args:
            self.container_add(callee, args, st)
        if callee[0] == 'builtin' and callee[1] in ('dict', 'list', 'set') and not args and callee[1] in ('dict', 'list', 'set'):
            if callee[1] == 'dict':
                if '**' not in kwargs:
                    return limit(('dict', tuple((const(k), v) for k, v in kwargs.items()), self._site(node, ctx)))
            else:
                return (callee[1], (), self._site(node, ctx))
        if callee[0] == 'attr' and callee[1][0] == 'dict' and len(callee[1]) > 2:
            b = callee[1]
            if callee[2] == 'update':
                d = dict(b[1])
                for a in args:
                    if a[0] == 'dict':
                        d.update(dict(a[1]))
                    else:
                        d[('star', a)] = a
                d.update({const(k): v for k, v in kwargs.items()})
                self._subst(b, limit(('dict', tuple(d.items()), b[2])), st)
                return NONE
            if callee[2] in ('get', 'pop') and args and args[0][0] == 'const' and not any(k[0] != 'const' for k, _ in b[1]):
                d = dict(b[1])
                dflt = args[1] if len(args) > 1 else NONE
                if args[0] in d:
                    if callee[2] == 'pop':
                        v = d.pop(args[0])
                        self._subst(b, ('dict', tuple(d.items()), b[2]), st)
                    else:
                        v = d[args[0]]
                    return phi(*[dflt if x == ('absent',) else x for x in alts(v)])
                return dflt
            if callee[2] in ('setdefault',) and len(args) == 2:
                d = dict(b[1])
                if args[0] not in d:
                    d[args[0]] = args[1]
                    self._subst(b, limit(('dict', tuple(d.items()), b[2])), st)
                return d[args[0]]
        if callee in (('ext', 'sys.exit'), ('builtin', 'exit')):
            st.dead = True
        return limit(raw)

    def container_add(self, callee, args, st):
        """list.append & co. on a literal container: weakly extend the term."""
        b = callee[1]
        x = args[-1]
        new = None
        if b[0] in ('list', 'set') and len(b[1]) < 6:
            add = ('star', x) if callee[2] == 'extend' else x
            if add in b[1]:
                return
            new = (b[0], b[1] + (add,)) + b[2:]
        if new is None or len(b) < 3:
            return
        self._subst(b, limit(new), st)

    def construct(self, c: Class, args, kwargs, st, ctx, node):
        raw = ('call', ('cls', c.qual), tuple(args), tuple(sorted(kwargs.items())))
        f = c.method('__init__')
        fields = c.record_fields()
        if f is None and fields:
            o = ('obj', c.qual, self._site(node, ctx))
            self.emit('new', node, ctx, st, cls=c, args=tuple(args), kwargs=dict(kwargs), result=o, func_=None)
            for n, d in fields:
                st.heap[(o, n)] = NONE if d is not None else ('missing', n)
                if isinstance(d, ast.Constant):
                    st.heap[(o, n)] = const(d.value)
            for (n, _), a in zip(fields, args):
                st.heap[(o, n)] = a
            for n, a in kwargs.items():
                st.heap[(o, n)] = a
            return o
        nw = c.method('__new__')
        if nw is not None and not c.is_enum and len(ctx.stack) < self.max_depth and nw not in ctx.stack and self.inline_policy(self, nw, ctx.stack):
            self.emit('new', node, ctx, st, cls=c, args=tuple(args), kwargs=dict(kwargs), result=raw, func_=nw)
            o = self.call_func(nw, [('cls', c.qual)] + list(args), kwargs, st, ctx, node, exact=True)
            if f is not None and o[0] == 'obj' and f not in ctx.stack:
                self.call_func(f, args, kwargs, st, ctx, node, self_term=o, exact=True)
            return o
        if c.is_enum or f is None or nw is not None:
            self.emit('new', node, ctx, st, cls=c, args=tuple(args), kwargs=dict(kwargs), result=raw, func_=nw or f)
            if not c.is_enum and f is None and nw is None:
                o = ('obj', c.qual, self._site(node, ctx))
                return o
            return limit(raw)
        if len(ctx.stack) >= self.max_depth or f in ctx.stack or not self.inline_policy(self, f, ctx.stack):
            self.emit('new', node, ctx, st, cls=c, args=tuple(args), kwargs=dict(kwargs), result=raw, func_=f)
            return limit(raw)
        o = ('obj', c.qual, self._site(node, ctx))
        self.emit('new', node, ctx, st, cls=c, args=tuple(args), kwargs=dict(kwargs), result=o, func_=f)
        self.call_func(f, args, kwargs, st, ctx, node, self_term=o, exact=True)
        return o

    def _site(self, node, ctx):
        return (ctx.func.qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), len(ctx.stack))

    def bind_args(self, f: Func, args, kwargs, st, ctx):
        env = {}
        names = f.params
        if f.kind in ('method', 'classmethod', 'getter', 'setter', 'deleter'):
            names = names[1:]
        rest = list(args)
        star = any(a[0] == 'star' for a in rest)
        extra = []
        i = 0
        for a in rest:
            if a[0] == 'star':
                for n in names[i:]:
                    env[n] = ('item', a[1], const(names[i:].index(n)))
                i = len(names)
                if f.vararg:
                    extra.append(a)
                continue
            if i < len(names):
                env[names[i]] = a
                i += 1
            else:
                extra.append(a)
        kwx = []
        for k, v in kwargs.items():
            if k == '**':
                kwx.append((('star', NONE), v))
                continue
            if v[0] == 'maybe':
                dflt = self.default_term(f, k) if k in names or k in f.kwonly else ('absent',)
                v = phi(*[dflt if x == ('absent',) else x for x in alts(v[1])])
            if k in names or k in f.kwonly:
                env[k] = v
            else:
                kwx.append((const(k), v))
        dstar = kwargs.get('**')
        self.bad_args = [k for k in kwargs if k != '**' and k not in names and k not in f.kwonly] if not f.kwarg else []
        if extra and not f.vararg:
            self.bad_args.append(f'{len(extra)} surplus positional')
        if dstar is None and not star:
            self.bad_args += [n for n in names + f.kwonly if n not in env and f.default_of(n) is None]
        for n in names + f.kwonly:
            if n not in env:
                if dstar is not None:
                    env[n] = phi(('item', dstar, const(n)), self.default_term(f, n))
                else:
                    env[n] = self.default_term(f, n)
        if f.vararg:
            env[f.vararg] = ('tuple', tuple(extra))
        if f.kwarg:
            env[f.kwarg] = ('dict', tuple(kwx), ('kwargs', f.qual, len(ctx.stack)))
        return env

    def default_term(self, f: Func, n: str):
        d = f.default_of(n)
        if d is None:
            return ('missing', n)
        dctx = Ctx(f, f.cls, (f,))
        ev = len(self.events)
        s = State()
        if f.cls is not None and isinstance(d, ast.Name):
            m, o = f.cls.lookup(f.cls.mangle(d.id))
            if isinstance(m, ast.expr):
                d = m
        try:
            t = self.ev(d, s, dctx)
        except AnalysisBroken:
            t = ('opaque', frozenset())
        del self.events[ev:]
        return t

    def call_func(self, f: Func, args, kwargs, st: State, ctx: Ctx, node, self_term=None, exact=True, closure_env=None, soft=False):
        """Inline ``f`` if allowed; returns its value term."""
        cal = ('bound', self_term, f.qual, f.cls.qual if f.cls else '') if self_term is not None else ('fn', f.qual)
        self.bound_methods[(f.qual, f.cls.qual if f.cls else '')] = f
        self.bound_methods.setdefault(f.qual, f)
        raw = limit(('call', cal, tuple(args), tuple(sorted(kwargs.items()))))
        can = exact and not f.abstract and len(ctx.stack) < self.max_depth and f not in ctx.stack and self.inline_policy(self, f, ctx.stack) \
            and not _is_stub(f)
        if f.kind == 'getter' and f.cached:
            can = False
        if not soft or not can:
            if f.kind != 'getter':
                self.emit('call', node, ctx, st, callee=cal, func_=f, recv=self_term, args=tuple(args), kwargs=dict(kwargs), result=raw, inlined=can)
        if not can:
            if soft and f.kind == 'getter':
                return None
            if f.kind == 'getter':
                return ('attr', self_term, f.name)
            return raw
        self.inlined.add(f)
        env = self.bind_args(f, args, kwargs, st, ctx)
        if self.bad_args:
            self.emit('badcall', node, ctx, st, func_=f, problem=list(self.bad_args))
        sub = State(env, st.heap, st.guards, st.refine)
        sub.heap = dict(st.heap)
        sub.refine = dict(st.refine)
        if self_term is not None and f.params and f.kind in ('method', 'getter', 'setter', 'deleter', 'classmethod'):
            sub.env[f.params[0]] = self_term
        # transient parameter typing through annotations, for otherwise untyped terms
        for n, v in list(env.items()):
            if isinstance(v, tuple) and v and v[0] in ('attr', 'item', 'elem', 'call', 'param', 'skey', 'deepcall', 'opaque') and v not in sub.refine:
                if not self.types_of(v, sub):
                    tr = [x for x in self.ann_types(f.annotation_of(n), f.module, f.cls)]
                    if tr:
                        sub.refine[v] = tr
        nctx = Ctx(f, f.cls, ctx.stack + (f,), closure_env)
        e0 = len(self.events)
        end = self.block(f.node.body, sub, nctx)
        outs = list(nctx.returns)
        if end is not None:
            outs.append((end, NONE))
        if not outs:
            st.dead = True
            return NONE
        final = merge_states([s for s, _ in outs])
        st.heap = final.heap
        st.refine = {k: v for k, v in final.refine.items() if k in st.refine or k[0] in ('self', 'param', 'attr')}
        # path facts established by the callee on every returning path persist
        st.guards = final.guards if final.guards[:len(st.guards)] == st.guards else st.guards
        if nctx.yields:
            return ('comp', 'gen', phi(*nctx.yields), ())
        vals = [v for _, v in outs]
        return limit(phi(*vals))


def _is_stub(f: Func) -> bool:
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) == 0 or (len(body) == 1 and isinstance(body[0], ast.Pass) and f.abstract)


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.MatMult: '@',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
CMPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
        ast.In: 'in', ast.NotIn: 'not in'}
