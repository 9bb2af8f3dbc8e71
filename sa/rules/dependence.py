"""K03: operations keep depending on the configuration that governs them."""
from __future__ import annotations
import ast
import json
import os
from ..model import Program, Func, Class, Prop
from ..absint import subterms
from ..facts import facts
from ..report import Result
from .options import bound, stub

CONTRACT = os.path.join(os.path.dirname(__file__), 'contract.json')
# Physical quantities which parametrize signals, devices, waveforms and channels.
FOREIGN = ('sampling_rate', 'carrier_frequency', 'bandwidth', 'oversampling_factor', 'noise_power', 'delay', 'gain', 'interference', 'relative_transmit_velocity')


def mentions(t, p) -> bool:
    """Does a value carry parameter p?  What a collection is iterated over does not count: a comprehension is as good as a loop filling a list."""
    if isinstance(t, frozenset):
        return any(mentions(x, p) for x in t)
    if not isinstance(t, tuple) or not t:
        return False
    if len(t) == 2 and t[0] == 'param' and isinstance(t[1], str):
        return t[1].split(':')[-1] == p
    if t[0] == 'comp':
        return mentions(t[2], p)
    return any(mentions(x, p) for x in t if isinstance(x, (tuple, frozenset)))


SKIP = ('serialize', 'Deserialize', '__init__', '__new__', '__repr__', '__str__')


class Model:
    """Configuration fields of classes and the fields their operations read."""

    def __init__(self, prog: Program):
        self.prog, self.F = prog, facts(prog)
        self._ctor: dict = {}
        self._set: dict = {}
        self._reads: dict = {}
        self.foreign = set(FOREIGN)

    # ------------------------------------------------------------------ options -> fields

    def setter_fields(self, c: Class, name: str, busy=()):
        k = (c, name)
        if k in self._set:
            return self._set[k]
        if k in busy:
            return set()
        m, owner = c.lookup(name)
        out: set = set()
        if isinstance(m, Prop) and m.setter is not None and not stub(m.setter):
            s = m.setter
            p = s.own_params()[0] if s.own_params() else None
            for e in self.F.of(s)[0].events:
                if e.kind == 'setattr' and e.data['base'] == ('self',) and p and mentions(e.data['value'], p):
                    out.add(e.data['name'])
                elif e.kind == 'setprop' and e.data['base'] == ('self',) and p and mentions(e.data['value'], p):
                    out |= self.setter_fields(c, e.data['name'], busy + (k,))
                elif e.kind == 'call' and e.data.get('func_') is not None and e.data.get('recv') == ('self',) and e.func is s:
                    out |= self.call_fields(c, e, p, busy + (k,))
            self.derived(s, out)
        self._set[k] = out
        return out

    def derived(self, f, out):
        """Add what helpers of f compute from fields it just stored."""
        parts, todo = [], [f]
        while todo:
            for e in self.F.of(todo.pop())[0].events:
                g = e.data.get('func_') if e.kind == 'call' and e.data.get('recv') == ('self',) else None
                if g is not None and g.is_helper and g is not f and g not in parts:
                    parts.append(g)
                    todo.append(g)
        while True:
            new = {w.data['name'] for g in parts for w in self.F.of(g)[0].events if w.kind == 'setattr' and w.data['base'] == ('self',) and any(
                isinstance(x, tuple) and len(x) == 3 and x[0] == 'attr' and x[1] == ('self',) and x[2] in out for x in subterms(w.data['value']))}
            if new <= out:
                return
            out |= new

    def call_fields(self, c, e, p, busy):
        g = e.data['func_']
        b, star = bound(e)
        out = set()
        for q, v in b.items():
            if mentions(v, p):
                out |= self.param_fields(c, g, q, busy)
        return out

    def param_fields(self, c: Class, f: Func, p: str, busy=()):
        """Fields of the object which receive parameter p of its method f."""
        k = (c, f, p)
        if k in self._ctor:
            return self._ctor[k]
        if k in busy or len(busy) > 12:
            return set()
        out: set = set()
        for e in self.F.of(f)[0].events:
            if e.kind == 'setattr' and e.data['base'] == ('self',) and mentions(e.data['value'], p):
                out.add(e.data['name'])
            elif e.kind == 'setprop' and e.data['base'] == ('self',) and mentions(e.data['value'], p):
                out |= self.setter_fields(c, e.data['name'])
            elif e.kind == 'call' and e.data.get('func_') is not None and e.data.get('recv') == ('self',):
                out |= self.call_fields(c, e, p, busy + (k,))
        self.derived(f, out)
        self._ctor[k] = out
        return out

    def options(self, c: Class):
        """public option name -> fields"""
        out: dict = {}
        m, owner = c.lookup('__init__')
        if isinstance(m, Func):
            for p in m.own_params() + m.kwonly:
                if not p.startswith('_'):
                    fs = self.param_fields(c, m, p)
                    if fs:
                        out.setdefault(p, set()).update(fs)
        for b in c.cmro:
            for name, pr in b.props.items():
                if pr.setter is not None and not name.startswith('_'):
                    fs = self.setter_fields(c, name)
                    if fs:
                        out.setdefault(name, set()).update(fs)
        return out

    # ------------------------------------------------------------------ operations -> fields

    def reads(self, c: Class | None, f: Func, selfname: str | None, busy=None):
        """What f reads when given an object of class c under the name selfname: members of the object (through helpers and
        properties) and, marked by ~, options of other objects."""
        k = (c, f, selfname)
        if k in self._reads:
            return self._reads[k]
        top = busy is None
        busy = busy if busy is not None else set()
        if k in busy:
            return set()
        busy.add(k)
        out: set = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                if isinstance(x.value, ast.Name) and x.value.id == selfname:
                    out |= self.member(c, f.cls.mangle(x.attr) if f.cls else x.attr, busy)
                elif x.attr in self.foreign:
                    out.add('~' + x.attr)
            if isinstance(x, ast.Call):
                for g, args, kws, first in self.callees(f, x, selfname):
                    names = list(g.params)
                    mine = None
                    if first and names:
                        mine = names[0]
                    else:
                        for i, a in enumerate(args):
                            if isinstance(a, ast.Name) and a.id == selfname and i < len(names):
                                mine = names[i]
                        for kw in kws:
                            if isinstance(kw.value, ast.Name) and kw.value.id == selfname:
                                mine = kw.arg
                    out |= self.reads(c if mine else None, g, mine, busy)
        busy.discard(k)
        if top:
            self._reads[k] = out
        return out

    def member(self, c: Class, n: str, busy):
        m, owner = c.lookup(n)
        if isinstance(m, Func):
            first = m.params[0] if m.kind == 'method' and m.params else None
            return self.reads(c if first else None, m, first, busy) | {n}
        if isinstance(m, Prop):
            return (self.reads(c, m.getter, m.getter.params[0], busy) if m.getter is not None else set()) | {n}
        return {n}

    def callees(self, f: Func, x: ast.Call, selfname):
        """Functions of the program an invocation names directly: helper(...), Base.m(self, ...), super().m(...)."""
        fn = x.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and f.cls is not None:
            n = f.cls.mangle(fn.attr)
            for b in f.cls.cmro[1:]:
                if n in b.methods:
                    yield b.methods[n], x.args, x.keywords, True
                    return
            return
        g = None
        if isinstance(fn, (ast.Name, ast.Attribute)):
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == selfname:
                return      # a member: followed by its name
            r = self.prog.resolve_expr(f.module, fn, f.cls) if not isinstance(fn, ast.Attribute) or isinstance(fn.value, (ast.Name, ast.Attribute)) else None
            if isinstance(r, Func):
                g = r
            elif r is None and isinstance(fn, ast.Attribute):
                k = self.prog.resolve_expr(f.module, fn.value, f.cls)
                if isinstance(k, Class):
                    m, _ = k.lookup(k.mangle(fn.attr) if f.cls is k else fn.attr)
                    g = m if isinstance(m, Func) else None
        if isinstance(g, Func) and g.module.name.startswith('hermespy'):
            args = x.args
            if g.kind == 'classmethod':
                args = [None] + list(args)
            yield g, args, x.keywords, False

    def hook(self, c: Class, n: str) -> bool:
        """A protected method that is part of an interface: declared by one class, implemented by another."""
        return sum(1 for b in set(c.cmro) | set(c.subclasses) if n in b.methods or n in b.props) > 1

    def operations(self, c: Class):
        """name -> implementation: public methods, getters without a setter, and overridden protected hooks."""
        out: dict = {}
        for b in reversed(c.cmro):
            for n, m in b.methods.items():
                out[n] = m
            for n, p in b.props.items():
                out[n] = p
        for n, m in out.items():
            if n in SKIP or '__' in n and not n.startswith('__'):
                continue
            if n.startswith('_') and not n.startswith('__') and not self.hook(c, n):
                continue
            if isinstance(m, Func):
                if m.kind == 'method' and not m.abstract and not stub(m) and not m.overload:
                    yield n, m
            elif m.getter is not None and m.setter is None and not m.getter.abstract and not stub(m.getter):
                yield n, m.getter


def dependences(prog: Program):
    M = Model(prog)
    for c in prog.classes.values():
        opts = M.options(c)
        for n, f in M.operations(c):
            if not f.params:
                continue
            rd = M.reads(c, f, f.params[0])
            dep = {o for o, fs in opts.items() if fs & rd or o in rd} | {x for x in rd if x.startswith('~')}
            yield c, n, f, dep


def contract(prog: Program) -> dict:
    out: dict = {}
    for c, n, f, dep in dependences(prog):
        if dep:
            out.setdefault(c.name, {})[n] = sorted(dep)
    return out


def k03(prog: Program, tier: str) -> Result:
    R = Result('K03', 'every operation of every component reads (through the helpers and properties it uses) each configuration option, and each physical '
                      'parameter of the objects it is handed, that its reviewed dependence contract lists')
    R.assumptions = ['the dependence contract (sa/rules/contract.json) lists what the operations depended on when it was reviewed']
    with open(CONTRACT, encoding='utf-8') as fh:
        want = json.load(fh)
    have: dict = {}
    where: dict = {}
    for c, n, f, dep in dependences(prog):
        have.setdefault(c.name, {})[n] = dep
        where[(c.name, n)] = f
    for cn, ops in want.items():
        for n, deps in ops.items():
            if cn not in have or n not in have[cn]:
                R.count('operations_gone')
                continue
            f = where[(cn, n)]
            R.count('operations')
            for d in deps:
                R.count('dependences')
                if d in have[cn][n]:
                    R.ok(f'{cn}.{n} depends on {d}')
                elif d.startswith('~'):
                    R.bad(f'{f.cls.name}.{f.node.name}:{d}', f'{f.module.path}:{f.node.lineno}', f'{f.qual} no longer reads {d[1:]} of the objects it works on')
                else:
                    R.bad(f'{f.cls.name}.{f.node.name}:{d}', f'{f.module.path}:{f.node.lineno}', f'{f.qual} no longer depends on the option {d} of {cn}')
    R.floors = {'dependences': 4000}
    return R
