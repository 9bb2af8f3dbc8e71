"""Resolved program model of the hermespy package, built from source with the stdlib ast.

Nothing of hermespy is imported or executed.  The model resolves names through
imports and re-exports, linearises class hierarchies (C3) and mangles private
attribute names, so that every later rule works on resolved entities and not on
source text.
"""
from __future__ import annotations
import ast
import os
from .normal import normalize
from dataclasses import dataclass, field
from typing import Optional, Union


NDARRAY = {'view', '__mul__', '__add__', '__sub__', '__getitem__', '__setitem__', '__len__', '__iter__', 'copy', 'shape', '__truediv__',
           'conj', 'real', 'imag', 'flatten', 'reshape', 'T', 'sum', 'size', 'ndim', 'dtype', 'resize', 'transpose'}


class AnalysisBroken(Exception):
    """The analysis lost an anchor it depends on: neither 'holds' nor 'violated'."""


@dataclass(eq=False)
class Func:
    name: str
    qual: str
    node: ast.FunctionDef
    module: 'Module'
    cls: Optional['Class'] = None
    kind: str = 'method'          # function | method | classmethod | staticmethod | getter | setter | deleter
    abstract: bool = False
    overload: bool = False
    cached: bool = False          # cached_property / cache

    def __hash__(self):
        return id(self)

    @property
    def params(self) -> list[str]:
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def kwonly(self) -> list[str]:
        return [x.arg for x in self.node.args.kwonlyargs]

    @property
    def vararg(self):
        return self.node.args.vararg.arg if self.node.args.vararg else None

    @property
    def kwarg(self):
        return self.node.args.kwarg.arg if self.node.args.kwarg else None

    @property
    def is_helper(self) -> bool:
        """A part of the implementation of its class or module that no other class declares, replaces or documents."""
        n = self.node.name
        if not n.startswith('_') or n.startswith('__') and n.endswith('__') or self.abstract:
            return False
        if self.cls is None:
            return True
        if n.startswith('__'):
            return True
        return not any(n in getattr(b, 'methods', ()) or n in getattr(b, 'props', ()) for b in self.cls.mro if b is not self.cls) and \
            not any(n in s.methods or n in s.props for s in self.cls.subclasses)

    def own_params(self) -> list[str]:
        """Parameters without the implicit first one."""
        p = self.params
        if self.kind in ('method', 'classmethod', 'getter', 'setter', 'deleter') and p:
            return p[1:]
        return p

    def all_params(self) -> list[str]:
        return self.own_params() + self.kwonly

    def default_of(self, name: str):
        a = self.node.args
        pos = a.posonlyargs + a.args
        nd = len(a.defaults)
        for i, x in enumerate(pos):
            if x.arg == name:
                j = i - (len(pos) - nd)
                return a.defaults[j] if j >= 0 else None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == name:
                return d
        return None

    def annotation_of(self, name: str):
        a = self.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            if x.arg == name:
                return x.annotation
        return None

    @property
    def loc(self) -> str:
        return f'{self.module.path}:{self.node.lineno}'

    def __repr__(self):
        return f'<Func {self.qual}>'


@dataclass(eq=False)
class Prop:
    name: str
    getter: Optional[Func] = None
    setter: Optional[Func] = None
    deleter: Optional[Func] = None
    cached: bool = False

    def __hash__(self):
        return id(self)


@dataclass(eq=False)
class Class:
    name: str
    qual: str
    node: ast.ClassDef
    module: 'Module'
    methods: dict[str, Func] = field(default_factory=dict)
    overloads: dict[str, list[Func]] = field(default_factory=dict)
    props: dict[str, Prop] = field(default_factory=dict)
    attrs: dict[str, ast.expr] = field(default_factory=dict)       # class level assignments
    anns: dict[str, ast.expr] = field(default_factory=dict)        # class level annotations (mangled names)
    base_exprs: list[ast.expr] = field(default_factory=list)
    bases: list[Union['Class', str]] = field(default_factory=list)
    mro: list[Union['Class', str]] = field(default_factory=list)
    subclasses: set['Class'] = field(default_factory=set)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f'<Class {self.qual}>'

    def mangle(self, name: str) -> str:
        return mangle(self.name, name)

    @property
    def cmro(self) -> list['Class']:
        return [c for c in self.mro if isinstance(c, Class)]

    def is_a(self, other: Union['Class', str]) -> bool:
        if isinstance(other, Class):
            return other in self.mro
        return any((c.name == other or c.qual == other) if isinstance(c, Class) else c == other or c.endswith('.' + other) for c in self.mro)

    def lookup(self, name: str, after: Optional['Class'] = None):
        """Resolve a member along the MRO -> Func | Prop | ast.expr | None, with owner."""
        seq = self.mro
        if after is not None:
            seq = seq[seq.index(after) + 1:] if after in seq else []
        for c in seq:
            if not isinstance(c, Class):
                if c == 'numpy.ndarray' and name in NDARRAY:
                    return None, None     # provided by the foreign base
                continue
            if name in c.props:
                return c.props[name], c
            if name in c.methods:
                return c.methods[name], c
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def method(self, name: str, after=None) -> Optional[Func]:
        m, _ = self.lookup(name, after)
        return m if isinstance(m, Func) else None

    def prop(self, name: str) -> Optional[Prop]:
        m, _ = self.lookup(name)
        return m if isinstance(m, Prop) else None

    def ann(self, name: str):
        for c in self.cmro:
            if name in c.anns:
                return c.anns[name], c
        return None, None

    def all_members(self) -> dict[str, object]:
        out = {}
        for c in reversed(self.cmro):
            out.update(c.methods)
            out.update(c.props)
        return out

    def abstract_members(self) -> set[str]:
        out = set()
        for name in {n for c in self.cmro for n in list(c.methods) + list(c.props)}:
            m, o = self.lookup(name)
            # a member of a concrete foreign base ahead of the abstract declaration (numpy.ndarray) overrides it
            if 'numpy.ndarray' in self.mro and o is not None and self.mro.index('numpy.ndarray') < self.mro.index(o) and name in NDARRAY:
                continue
            if isinstance(m, Func) and m.abstract:
                out.add(name)
            if isinstance(m, Prop) and m.getter is not None and m.getter.abstract:
                out.add(name)
        return out

    @property
    def is_abstract(self) -> bool:
        return bool(self.abstract_members())

    @property
    def has_unresolved_base(self) -> bool:
        ok = {'object', 'Generic', 'ABC', 'Enum', 'IntEnum', 'Protocol', 'Thread', 'Exception'}
        return any(isinstance(c, str) and c.split('.')[-1] not in ok for c in self.mro)

    def record_fields(self):
        """Fields of a dataclass / NamedTuple: [(name, default expr)]."""
        deco = any(_deco_name(d) == 'dataclass' for c in self.cmro for d in c.node.decorator_list)
        nt = any(isinstance(c, str) and c.split('.')[-1] == 'NamedTuple' for c in self.mro)
        if not deco and not nt:
            return []
        out = {}
        for c in reversed(self.cmro):
            for st in c.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and 'ClassVar' not in ast.unparse(st.annotation):
                    out[c.mangle(st.target.id)] = st.value
        return list(out.items())

    @property
    def is_enum(self) -> bool:
        return any(isinstance(c, str) and c.split('.')[-1] in ('Enum', 'IntEnum', 'Flag') for c in self.mro)

    @property
    def loc(self) -> str:
        return f'{self.module.path}:{self.node.lineno}'


@dataclass(eq=False)
class Module:
    name: str
    path: str                      # relative to repo root
    tree: ast.Module
    is_pkg: bool
    scope: dict[str, object] = field(default_factory=dict)   # name -> Class|Func|('import',...)|('var', expr)
    classes: dict[str, Class] = field(default_factory=dict)
    functions: dict[str, Func] = field(default_factory=dict)

    def __hash__(self):
        return id(self)


def mangle(cls_name: str, attr: str) -> str:
    if attr.startswith('__') and not attr.endswith('__'):
        return '_' + cls_name.lstrip('_') + attr
    return attr


def _deco_name(d: ast.expr) -> str:
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    return ''


class Program:
    def __init__(self, repo: str, package: str = 'hermespy', exclude: tuple[str, ...] = ()):
        self.repo = repo
        self.modules: dict[str, Module] = {}
        self.classes: dict[str, Class] = {}      # by qualified name
        self.package = package
        self.exclude = exclude
        self._load()
        self._link()

    # ------------------------------------------------------------ loading
    def _load(self):
        root = os.path.join(self.repo, self.package)
        for d, dirs, files in os.walk(root):
            dirs.sort()
            dirs[:] = [x for x in dirs if x != '__pycache__']
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                full = os.path.join(d, f)
                rel = os.path.relpath(full, self.repo)
                if any(rel.startswith(e) for e in self.exclude):
                    continue
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == '__init__'
                if is_pkg:
                    parts = parts[:-1]
                name = '.'.join(parts)
                with open(full, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, rel)
                except SyntaxError as e:
                    raise AnalysisBroken(f'{rel} does not parse: {e}')
                self.modules[name] = Module(name, rel, tree, is_pkg)
        if len(self.modules) < 100:
            raise AnalysisBroken(f'only {len(self.modules)} modules found below {root}')
        self.renamed = normalize({m.name: m.tree for m in self.modules.values()})
        for m in self.modules.values():
            self._collect(m, m.tree.body)

    def _collect(self, m: Module, body):
        for st in body:
            if isinstance(st, (ast.Import,)):
                for a in st.names:
                    if a.asname:
                        m.scope[a.asname] = ('mod', a.name)
                    else:
                        m.scope[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                base = self._abs(m, st)
                for a in st.names:
                    if a.name == '*':
                        m.scope.setdefault('*', [])
                        m.scope['*'].append(base)
                    else:
                        m.scope[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(st, ast.ClassDef):
                self._collect_class(m, st)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._mkfunc(m, st, None)
                if not f.overload:
                    m.functions[st.name] = f
                    m.scope[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.scope[t.id] = ('var', st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    m.scope[st.target.id] = ('var', st.value)
            elif isinstance(st, ast.If):
                self._collect(m, st.body)
                self._collect(m, st.orelse)
            elif isinstance(st, ast.Try):
                self._collect(m, st.body)
                for h in st.handlers:
                    # bindings of the fallback never override the regular ones
                    before = dict(m.scope)
                    self._collect(m, h.body)
                    m.scope.update(before)
                self._collect(m, st.orelse)
                self._collect(m, st.finalbody)

    def _abs(self, m: Module, st: ast.ImportFrom) -> str:
        if st.level == 0:
            return st.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        if st.level > 1:
            parts = parts[:len(parts) - (st.level - 1)]
        if st.module:
            parts = parts + st.module.split('.')
        return '.'.join(parts)

    def _mkfunc(self, m: Module, node, cls: Optional[Class]) -> Func:
        decos = [_deco_name(d) for d in node.decorator_list]
        kind = 'function' if cls is None else 'method'
        if cls is not None:
            if 'staticmethod' in decos or node.name == '__new__':
                kind = 'staticmethod'
            elif 'classmethod' in decos or node.name in ('__init_subclass__', '__class_getitem__'):
                kind = 'classmethod'
            elif 'setter' in decos:
                kind = 'setter'
            elif 'deleter' in decos:
                kind = 'deleter'
            elif 'property' in decos or 'cached_property' in decos or 'abstractproperty' in decos or 'register' in decos and False:
                kind = 'getter'
        for d in node.decorator_list:
            # @register(...) above a @property keeps the property
            pass
        qual = (cls.qual + '.' if cls else m.name + '.') + node.name
        return Func(node.name, qual, node, m, cls, kind, 'abstractmethod' in decos or 'abstractproperty' in decos,
                    'overload' in decos, 'cached_property' in decos or 'cache' in decos or 'lru_cache' in decos)

    def _collect_class(self, m: Module, node: ast.ClassDef, outer: Optional[Class] = None):
        qual = (outer.qual if outer else m.name) + '.' + node.name
        c = Class(node.name, qual, node, m)
        c.base_exprs = list(node.bases)
        if outer is None:
            m.classes[node.name] = c
            m.scope[node.name] = c
        self.classes[qual] = c
        self._class_body(m, c, node.body)

    def _class_body(self, m: Module, c: Class, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._mkfunc(m, st, c)
                nm = c.mangle(st.name)
                f.name = nm
                if f.overload:
                    c.overloads.setdefault(nm, []).append(f)
                    continue
                if f.kind == 'getter':
                    c.props[nm] = Prop(nm, getter=f, cached=f.cached)
                elif f.kind in ('setter', 'deleter'):
                    p = c.props.get(nm)
                    if p is None:
                        # @Base.prop.setter style: inherit getter when linked
                        p = Prop(nm)
                        c.props[nm] = p
                    setattr(p, f.kind, f)
                else:
                    c.methods[nm] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[c.mangle(t.id)] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.anns[c.mangle(st.target.id)] = st.annotation
                if st.value is not None:
                    c.attrs[c.mangle(st.target.id)] = st.value
            elif isinstance(st, ast.ClassDef):
                self._collect_class(m, st, c)
            elif isinstance(st, ast.If):
                self._class_body(m, c, st.body)
                self._class_body(m, c, st.orelse)

    # ------------------------------------------------------------ linking
    def resolve_name(self, m: Module, name: str, _seen=None):
        """Resolve a module level name -> Class | Func | ('mod', n) | ('ext', fq) | ('var', expr, Module) | None"""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        if name in m.scope:
            v = m.scope[name]
            if isinstance(v, (Class, Func)):
                return v
            if v[0] == 'mod':
                return ('mod', v[1])
            if v[0] == 'var':
                return ('var', v[1], m)
            if v[0] == 'from':
                return self.resolve_from(v[1], v[2], _seen)
        for base in m.scope.get('*', []):
            if base in self.modules:
                r = self.resolve_name(self.modules[base], name, _seen)
                if r is not None:
                    return r
        return None

    def resolve_from(self, base: str, name: str, _seen=None):
        if base in self.modules:
            r = self.resolve_name(self.modules[base], name, _seen)
            if r is not None:
                return r
            sub = base + '.' + name
            if sub in self.modules:
                return ('mod', sub)
            return ('ext', base + '.' + name)
        return ('ext', base + '.' + name)

    def resolve_expr(self, m: Module, e: ast.expr, cls: Optional[Class] = None):
        """Resolve a Name / dotted Attribute / subscripted generic to an entity."""
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(m, e.value, cls)
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.resolve_expr(m, ast.parse(e.value, mode='eval').body, cls)
            except SyntaxError:
                return None
        if isinstance(e, ast.Name):
            if cls is not None:
                for c in cls.cmro:
                    q = c.qual + '.' + e.id
                    if q in self.classes:
                        return self.classes[q]
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, cls)
            return self.member(b, e.attr)
        return None

    def member(self, b, attr: str):
        if isinstance(b, tuple) and b[0] == 'mod':
            if b[1] in self.modules:
                r = self.resolve_from(b[1], attr)
                return r
            return ('ext', b[1] + '.' + attr)
        if isinstance(b, tuple) and b[0] == 'ext':
            return ('ext', b[1] + '.' + attr)
        if isinstance(b, Class):
            q = b.qual + '.' + attr
            if q in self.classes:
                return self.classes[q]
            mem, own = b.lookup(attr)
            if mem is not None:
                return ('member', b, attr)
        return None

    def _link(self):
        for c in list(self.classes.values()):
            for b in c.base_exprs:
                r = self.resolve_expr(c.module, b)
                if isinstance(r, tuple) and r[0] == 'var':
                    r2 = self.resolve_expr(r[2], r[1])
                    r = r2
                if isinstance(r, Class):
                    c.bases.append(r)
                elif isinstance(r, tuple) and r[0] == 'ext':
                    c.bases.append(r[1])
                else:
                    c.bases.append(ast.unparse(b).split('[')[0])
        done: dict[Class, list] = {}

        def lin(c: Class, stack=()):
            if c in done:
                return done[c]
            if c in stack:
                raise AnalysisBroken(f'cyclic inheritance at {c.qual}')
            seqs = []
            for b in c.bases:
                seqs.append(list(lin(b, stack + (c,))) if isinstance(b, Class) else [b])
            seqs.append(list(c.bases))
            out = [c]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h and x != h] if (h in s) else s for s in seqs]
                seqs = [s for s in seqs if s]
            done[c] = out
            return out
        for c in self.classes.values():
            c.mro = lin(c)
        for c in self.classes.values():
            for b in c.cmro[1:]:
                b.subclasses.add(c)
            # complete setter-only properties from bases (``@Base.prop.setter``)
            for n, p in c.props.items():
                if p.getter is None:
                    for b in c.cmro[1:]:
                        if n in b.props and b.props[n].getter is not None:
                            p.getter = b.props[n].getter
                            p.cached = b.props[n].cached
                            break

    # ------------------------------------------------------------ queries
    def cls(self, qual: str) -> Class:
        if qual in self.classes:
            return self.classes[qual]
        c = [x for x in self.classes.values() if x.name == qual]
        if len(c) == 1:
            return c[0]
        raise AnalysisBroken(f'class {qual} {"vanished" if not c else "is ambiguous"}')

    def maybe_cls(self, qual: str) -> Optional[Class]:
        try:
            return self.cls(qual)
        except AnalysisBroken:
            return None

    def func(self, qual: str) -> Func:
        """'module.func', 'Class.method' or 'Class.prop' (getter)."""
        head, _, tail = qual.rpartition('.')
        if head in self.modules and tail in self.modules[head].functions:
            return self.modules[head].functions[tail]
        c = self.cls(head)
        m, _ = c.lookup(c.mangle(tail))
        if isinstance(m, Func):
            return m
        if isinstance(m, Prop):
            return m.getter
        raise AnalysisBroken(f'function {qual} vanished')

    def all_funcs(self):
        for m in self.modules.values():
            yield from m.functions.values()
        for c in self.classes.values():
            yield from c.methods.values()
            for p in c.props.values():
                for f in (p.getter, p.setter, p.deleter):
                    if f is not None and f.cls is c:
                        yield f

    def subclasses(self, c: Class) -> list[Class]:
        return sorted(c.subclasses, key=lambda x: x.qual)
