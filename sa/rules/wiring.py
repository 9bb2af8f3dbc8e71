"""W01: processing steps work on what they are documented to work on."""
from __future__ import annotations
import ast
import gzip
import json
import os
from ..model import Program, Func, Class, Prop
from ..report import Result
from .options import stub
from ..facts import Facts
from .dependence import Model

CONTRACT = os.path.join(os.path.dirname(__file__), 'wiring.json.gz')
# Quantities of exchanged objects which parametrize processing steps.
QUANTITIES = {'sampling_rate', 'carrier_frequency', 'bandwidth', 'oversampling_factor', 'noise_power', 'delay', 'gain', 'power', 'timestamp', 'time', 'velocity', 'position',
              'pose', 'antennas', 'orientation', 'transmitter', 'receiver', 'signal', 'cube', 'states', 'raw', 'mode', 'leaking_signal', 'trigger_realization',
              'frames', 'num_transmit_rf_ports', 'num_receive_rf_ports', 'num_transmit_ports', 'num_receive_ports',
              'num_transmit_antennas', 'num_receive_antennas', 'num_transmit_antenna_ports', 'num_receive_antenna_ports', 'impinging_signals', 'operator_inputs', 'mixed_signal', 'coupled_signal', 'bits', 'symbols', 'output', 'decoded_bits', 'encoded_bits', 'equalized_symbols'}
SKIP = {'serialize', 'Deserialize', '_DeserializeParameters', '__init__', '__new__', '__repr__', '__str__', '__eq__', '__hash__', '__init_subclass__', '__getstate__', '__setstate__'}
# Names of methods that belong to containers, arrays and plots at least as often as to components of the library.
COMMON = {'copy', 'append', 'add', 'update', 'get', 'items', 'keys', 'values', 'pop', 'sort', 'index', 'count', 'remove', 'insert', 'extend', 'reshape', 'flatten', 'mean', 'sum',
          'min', 'max', 'std', 'view', 'astype', 'tobytes', 'plot', 'set', 'join', 'split', 'read', 'write', 'close', 'open', 'clear', 'conj', 'dot', 'fill', 'repeat', 'transpose',
          'put', 'wait', 'cancel', 'submit', 'result', 'start', 'stop', 'run', 'new', 'New', 'visualize', 'create_figure', 'print', 'format', 'resize', 'integers', 'normal', 'uniform'}
MUTATORS = {'append', 'extend', 'add', 'insert', 'update', 'appendleft', 'put', 'setdefault'}
ALLOCATE = {'empty', 'zeros', 'ones', 'empty_like', 'zeros_like', 'ones_like', 'eye', 'identity'}
NONE: frozenset = frozenset()
OTHER: frozenset = frozenset({'k:'})        # a value that is no single constant


REVERSED: frozenset = frozenset({'f:reversed'})
TRANSPOSED: frozenset = frozenset({'f:transposed'})
CONJUGATED: frozenset = frozenset({'f:conjugated'})
TRANSPOSING = {'T', 'H', 'transpose', 'swapaxes', 'moveaxis', 'einsum', 'permute_dims', 'rollaxis'}
CONJUGATING = {'H', 'conj', 'conjugate', 'vdot'}
# Numerical operations whose arguments are recorded one by one.
NUMERIC = {'exp': 'phase', 'sin': 'phase', 'cos': 'phase', 'sinc': 'phase', 'round': 'rounding', 'rint': 'rounding', 'int': 'rounding', 'ceil': 'rounding', 'floor': 'rounding', 'around': 'rounding',
           'arange': 'range', 'linspace': 'range', 'range': 'range', 'log10': 'log', 'log2': 'log', 'log': 'log', 'sqrt': 'root',
           'tensordot': 'product', 'dot': 'product', 'inner': 'product', 'outer': 'product', 'matmul': 'product', 'vdot': 'product', 'kron': 'product', 'einsum': 'product',
           'fft': 'fft', 'ifft': 'ifft', 'fft2': 'fft', 'ifft2': 'ifft', 'fftshift': 'fft', 'ifftshift': 'ifft', 'fftfreq': 'fft',
           'convolve': 'filter', 'correlate': 'filter', 'lfilter': 'filter', 'interp': 'filter', 'resample': 'filter', 'roll': 'roll', 'repeat': 'repeat', 'tile': 'repeat', 'clip': 'limit',
           'minimum': 'limit', 'maximum': 'limit', 'min': 'limit', 'max': 'limit', 'argmax': 'argmax', 'argmin': 'argmin', 'where': 'where', 'norm': 'norm', 'angle': 'angle', 'arctan2': 'angle',
           'normal': 'draw', 'uniform': 'draw', 'integers': 'draw', 'choice': 'draw', 'standard_normal': 'draw', 'beta': 'draw', 'laplace': 'draw', 'permutation': 'draw'}


def mixed(v: frozenset) -> frozenset:
    """The outcome of combining values: constants among them do not show."""
    return frozenset(x for x in v if x[:2] != 'k:') | OTHER


def field(a: str) -> str:
    """Name of an attribute without the class it is private to."""
    if a.startswith('_') and '__' in a[1:]:
        a = a[a.index('__', 1):]
    return a.lstrip('_')


def flat(v) -> frozenset:
    if isinstance(v, tuple):
        r = NONE
        for x in v:
            r |= flat(x)
        return r
    return v


def join(a, b):
    if a is None or b is None:
        return b if a is None else a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(join(x, y) for x, y in zip(a, b))
    return flat(a) | flat(b)


def merge(*envs):
    envs = [e for e in envs if e is not None]
    if not envs:
        return None
    out = dict(envs[0])
    for e in envs[1:]:
        for k, v in e.items():
            out[k] = join(out[k], v) if k in out else v
    return out


def covers(w, v) -> bool:
    return all(a >= b for a, b in zip(w, v))


def served(sites, w) -> int:
    """Number of operations working on all of the sources."""
    return sum(any(covers(v, w) for v in xs) for _, xs in sites)


def solid(v: frozenset) -> frozenset:
    return frozenset(x for x in v if x[:2] != 'k:')


class Universe:
    """Functions of the library by the name they are invoked under."""

    def __init__(self, prog: Program, known=None):
        self.prog = prog
        self.by: dict = {}
        for f in prog.all_funcs():
            if '<locals>' in f.qual or '<lambda>' in f.qual or f.kind in ('getter', 'setter', 'deleter'):
                continue
            self.by.setdefault(f.node.name, []).append(f)
        self.known = known      # names of the reviewed tree: other functions are parts of implementations
        self._label: dict = {}
        self.M = Model(prog)
        self._opts: dict = {}
        self._mem: dict = {}
        self.F = Facts(prog)
        self._calls: dict = {}
        self._over: dict = {}
        self._state: dict = {}
        self.flags = {n for c in prog.classes.values() for n, p in c.props.items() if p.getter is not None and isinstance(p.getter.node.returns, ast.Name) and p.getter.node.returns.id == 'bool'}

    def part(self, f: Func) -> bool:
        return f.is_helper or self.known is not None and f.node.name not in self.known and not f.node.name.startswith('__')

    def invoked(self, f: Func, e: ast.Call, fs):
        """Those of the candidates an object of the type invoked on provides."""
        if f not in self._calls:
            m: dict = {}
            for x in self.F.events(f):
                g = x.data.get('func_')
                if g is not None and isinstance(x.node, ast.Call):
                    m.setdefault(id(x.node), []).append(g)
            self._calls[f] = m
        out = []
        for g in self._calls[f].get(id(e), ()):
            if g.cls is None:
                return None
            for c in [g.cls] + list(g.cls.subclasses):
                h = c.methods.get(g.name)
                if h is not None and h in fs and h not in out:
                    out.append(h)
        return out

    def label(self, fs, i=None, k=None):
        """Name of the parameter an argument is bound to, if all candidates agree on it."""
        ps = [f.own_params() for f in fs]
        if k is not None:
            at = {p.index(k) if k in p else None for p in ps}
            if len(at) == 1 and None in at:
                return k
            at.discard(None)
            i = at.pop() if len(at) == 1 else None
            if i is None:
                return '*'
        names = {p[i] for p in ps if i < len(p)}
        if len(names) == 1:
            n = names.pop()
            if all(n not in p or p.index(n) == i for p in ps):
                return n
        return '*'

    def defaults(self, fs) -> dict:
        """Constants parameters default to, where all candidates agree."""
        out: dict = {}
        for g in fs:
            a = g.node.args
            ps = a.posonlyargs + a.args
            d = {x.arg: v for x, v in zip(ps[len(ps) - len(a.defaults):], a.defaults)}
            d |= {x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
            out = {k: ast.dump(v) for k, v in d.items()} if g is fs[0] else {k: v for k, v in out.items() if k in d and ast.dump(d[k]) == v}
            last = d
        r = {}
        for k in out:
            v = last[k]
            if isinstance(v, ast.Constant) and isinstance(v.value, (bool, int, float, str)):
                r[k] = frozenset({'k:' + repr(float(v.value) if isinstance(v.value, int) and not isinstance(v.value, bool) else v.value)})
            elif isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.attr.isupper():
                c = self.prog.resolve_expr(fs[0].module, v.value, fs[0].cls)
                if isinstance(c, Class) and c.is_enum:
                    r[k] = frozenset({f'e:{c.name}.{v.attr}'})
        return r

    def options_of(self, c: Class, n: str) -> frozenset:
        """Options of an object one of its attributes or properties is computed from."""
        k = (c, n)
        if k not in self._mem:
            if c not in self._opts:
                self._opts[c] = self.M.options(c)
            rd = self.M.member(c, n, set())
            self._mem[k] = frozenset('o:' + o for o, fs in self._opts[c].items() if fs & rd or o in rd)
        return self._mem[k]


    def state_of(self, c: Class, n: str) -> frozenset:
        """Attributes operations update which an attribute or property is read from."""
        if c not in self._state:
            st = set()
            for b in c.cmro:
                # helpers of constructors and setters set up what is configured
                setup = [b.methods[n].node for n in ('__init__', '__new__') if n in b.methods] + [p.setter.node for p in b.props.values() if p.setter is not None]
                early = {field(x.func.attr) for g in setup for x in ast.walk(g) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr.startswith('_')
                         and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self'}
                for g in list(b.methods.values()) + [p.getter for p in b.props.values() if p.getter is not None]:
                    if g.node.name in ('__init__', '__new__', 'Deserialize', '__setstate__') or g.kind in ('classmethod', 'staticmethod') or not g.params:
                        continue
                    me = g.params[0]
                    if field(g.node.name) in early:
                        continue
                    known = {x.targets[0].id: x.value for x in ast.walk(g.node) if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)
                             and isinstance(x.value, ast.Attribute) and isinstance(x.value.value, ast.Name) and x.value.value.id == me}
                    for x in ast.walk(g.node):
                        t = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else [x.func.value] if \
                            isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS else []
                        for y in t:
                            for z in (y.elts if isinstance(y, (ast.Tuple, ast.List)) else [y]):
                                deep = False
                                while isinstance(z, ast.Subscript):
                                    z, deep = z.value, True
                                if isinstance(z, ast.Name) and z.id in known and (deep or isinstance(x, ast.Call)):
                                    z = known[z.id]
                                if isinstance(z, ast.Attribute) and isinstance(z.value, ast.Name) and z.value.id == me:
                                    a = b.mangle(z.attr)
                                    if not isinstance(c.lookup(a)[0], Prop):
                                        st.add(a)
            self._state[c] = st
        rd = self.M.member(c, n, set()) if isinstance(c.lookup(n)[0], Prop) else {n}
        return frozenset('s:' + field(a) for a in rd & self._state[c])


class Flow:
    """Forward flow of values through one operation, following the helpers it is made of."""

    def __init__(self, U: Universe, op: Func):
        self.U, self.op = U, op
        self.edges: dict = {}
        self.sites: dict = {}
        self.closures: dict = {}
        self.depth = 0
        self.stored: dict = {}
        self.numeric: dict = {}
        self.guard = NONE       # sources of the conditions the current statement is subject to
        self.cut = NONE         # ... of returns, continues and breaks passed before it

    def sink(self, name, label, v, node):
        k = f'{name}.{label}' if label else name
        v = flat(v)
        if not (len(v) == 1 and label) or v & {'k:None', 'k:'}:
            v = solid(v)
        self.edges[k] = self.edges.get(k, NONE) | v
        if not label and name != 'return' and name[0] != '=':
            self.edges[name + '.?'] = self.edges.get(name + '.?', NONE) | self.guard | self.cut
        self.sites.setdefault(k, node.lineno)

    def record(self, group, parts, node):
        v = tuple(frozenset(x for x in flat(p) if x[:2] not in ('k:', 'f:')) for p in parts)
        if any(v):
            self.numeric.setdefault((group, len(v)), {}).setdefault((id(node), tuple(getattr(self, 'stack', ()))), [node.lineno, set()])[1].add(v)

    def numerics(self) -> dict:
        """Sources of the arguments of the numerical operations, without those covered by others."""
        out = {}
        for (g, n), sites in self.numeric.items():
            out[f'{g}/{n}'] = [(ln, [v for v in xs if not any(w != v and covers(w, v) for w in xs)]) for ln, xs in sites.values()]
        return out

    # -------------------------------------------------------------- functions

    def body(self, f: Func, env: dict, selfname):
        fr = Frame(f, env, selfname)
        stack = getattr(self, 'stack', ())
        if f in stack or len(stack) > 6:
            r = NONE
            for v in env.values():
                r |= flat(v)
            return r
        self.stack = stack + (f,)
        cut = self.cut
        self.block(f.node.body, fr)
        self.cut = cut
        self.stack = stack
        return fr.ret if fr.ret is not None else NONE

    def run(self):
        f = self.op
        env = {}
        a = f.node.args
        self.switches = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if isinstance(x.annotation, ast.Name) and x.annotation.id == 'bool'}
        sn = f.params[0] if f.kind in ('method', 'getter', 'setter') and f.params else None
        for p in f.params + f.kwonly:
            env[p] = frozenset() if p == sn or p == 'cls' else frozenset({'p:' + p})
        for p in (f.vararg, f.kwarg):
            if p:
                env[p] = frozenset({'p:' + p})
        r = self.body(f, env, sn)
        for k, v in self.stored.items():
            self.sink('=' + k, '', v, f.node)
        if flat(r):
            self.sink('return', '', r, f.node)
        return self

    def inline(self, g: Func, args, kws, fr, recv_self):
        env: dict = {}
        ps = list(g.params)
        sn = None
        if g.kind in ('method', 'getter') and ps:
            sn = ps.pop(0) if recv_self else None
            if sn is None:
                env[ps.pop(0)] = NONE
        elif g.kind == 'classmethod' and ps:
            env[ps.pop(0)] = NONE
        if sn is not None:
            env[sn] = NONE
            for k, v in fr.env.items():
                if k.startswith('self.'):
                    env[k] = v
        i = 0
        for a in args:
            v = self.ev(a.value if isinstance(a, ast.Starred) else a, fr)
            if isinstance(a, ast.Starred) or i >= len(ps):
                for p in ps[i:] + ([g.vararg] if g.vararg else []):
                    env[p] = join(env.get(p), flat(v))
            else:
                env[ps[i]] = v
                if isinstance(a, ast.Name) and a.id == fr.selfname:
                    sn = sn or ps[i]
                i += 1
        for k in kws:
            v = self.ev(k.value, fr)
            if k.arg is None:
                for p in [p for p in ps if p not in env] + ([g.kwarg] if g.kwarg else []):
                    env[p] = join(env.get(p), flat(v))
            elif k.arg in ps or k.arg in g.kwonly:
                env[k.arg] = v
            elif g.kwarg:
                env[g.kwarg] = join(env.get(g.kwarg), flat(v))
        for p in g.params + g.kwonly + [x for x in (g.vararg, g.kwarg) if x]:
            env.setdefault(p, NONE)
        given = {p: a for p, a in zip(ps, args) if isinstance(a, ast.Name)}
        stack = getattr(self, 'stack', ())
        if g in stack or len(stack) > 8:
            r = NONE
            for v in env.values():
                r |= flat(v)
            return r
        sub = Frame(g, env, sn)
        self.stack = stack + (g,)
        cut = self.cut
        self.block(g.node.body, sub)
        self.cut = cut
        self.stack = stack
        end = merge(*sub.ends, sub.env) or {}
        if sn is not None:
            for k, v in end.items():
                if k.startswith('self.'):
                    fr.env[k] = join(fr.env.get(k), v)
        for p, a in given.items():      # filled in place
            if p in end and p in sub.filled and a.id in fr.env:
                fr.env[a.id] = join(fr.env[a.id], end[p])
                fr.filled.add(a.id)
        return sub.ret if sub.ret is not None else NONE

    # -------------------------------------------------------------- statements

    def block(self, body, fr):
        for s in body:
            if fr.env is None:
                return
            getattr(self, 's_' + type(s).__name__, self.s_other)(s, fr)

    def s_other(self, s, fr):
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.ev(c, fr)

    def s_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else NONE
        fr.ret = v if fr.ret is None else join(fr.ret, v)
        fr.ends.append(fr.env)
        fr.env = None
        self.cut |= self.guard

    def s_Raise(self, s, fr):
        fr.env = None

    def s_Break(self, s, fr):
        fr.jumps.append(fr.env)
        fr.env = None
        self.cut |= self.guard

    s_Continue = s_Break

    def s_Pass(self, s, fr):
        pass

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_ClassDef = s_Pass

    def s_FunctionDef(self, s, fr):
        fr.env[s.name] = NONE
        fr.local[s.name] = s
        sub = Frame(fr.f, dict(fr.env), fr.selfname)
        sub.local = fr.local
        for a in s.args.args + s.args.kwonlyargs:
            sub.env[a.arg] = NONE
        if len(getattr(self, 'stack', ())) < 8:
            st = self.stack
            self.stack = st + (fr.f,)
            self.block(s.body, sub)
            self.stack = st
        fr.env[s.name] = flat(sub.ret) if sub.ret is not None else NONE

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.store(t, v, fr)
            if isinstance(t, ast.Name) and isinstance(s.value, ast.Subscript) and not any(isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(s.value)):
                fr.alias[t.id] = s.value.value
            elif isinstance(t, ast.Name) and isinstance(s.value, ast.Attribute) and isinstance(s.value.value, ast.Name) and s.value.value.id == fr.selfname:
                fr.alias[t.id] = s.value
                fr.direct.add(t.id)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.store(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        v = mixed(flat(self.ev(s.value, fr)))
        old = fr.ctx_load(self, s.target)
        if isinstance(s.op, (ast.Mult, ast.Div)):
            self.record('scaling', [v | old], s)
        elif isinstance(s.op, (ast.Add, ast.Sub)):
            self.record('sum', [v | old], s)
        self.weak(s.target, v, fr, True)

    def s_Expr(self, s, fr):
        self.ev(s.value, fr)

    def s_If(self, s, fr):
        g, cut = self.guard, self.cut
        self.guard = g | self.condition(s.test, fr)
        pre = dict(fr.env)
        self.block(s.body, fr)
        a, after = fr.env, self.cut
        fr.env, self.cut = pre, cut
        self.block(s.orelse, fr)
        self.guard, self.cut = g, self.cut | after
        fr.env = merge(a, fr.env)

    def condition(self, test, fr) -> frozenset:
        """Settings a condition depends on: options of the component, switches of the objects it works with."""
        r = frozenset(x for x in flat(self.ev(test, fr)) if x[:2] == 'o:' or x[2:] in self.switches)
        return r | {'a:' + x.attr for x in ast.walk(test) if isinstance(x, ast.Attribute) and x.attr in self.U.flags and not (isinstance(x.value, ast.Name) and x.value.id == fr.selfname)}

    def loop(self, s, fr, bind):
        jumps, fr.jumps = fr.jumps, []
        head = dict(fr.env)
        g, cut = self.guard, self.cut
        for _ in range(3):
            fr.env = dict(head)
            bind()
            if isinstance(s, ast.While):
                self.guard = g | self.condition(s.test, fr)
            self.block(s.body, fr)
            new = merge(head, fr.env, *fr.jumps)
            fr.jumps = []
            if new == head:
                break
            head = new
        fr.env = head
        fr.jumps = jumps
        self.guard = g
        if not any(isinstance(x, ast.Return) for b in s.body for x in ast.walk(b)):
            self.cut = cut
        self.block(s.orelse, fr)

    def s_For(self, s, fr):
        v = self.elem(s.iter, self.ev(s.iter, fr), fr)
        self.loop(s, fr, lambda: self.store(s.target, v, fr))
        self.absorb(s.target, s.iter, fr)

    def absorb(self, t, it, fr):
        """What is done to the elements of a container is done to the container."""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            n = it.func.id
            if n == 'enumerate' and it.args and isinstance(t, ast.Tuple) and len(t.elts) == 2:
                return self.absorb(t.elts[1], it.args[0], fr)
            if n == 'zip' and isinstance(t, ast.Tuple) and len(t.elts) == len(it.args):
                for x, a in zip(t.elts, it.args):
                    self.absorb(x, a, fr)
                return
            if n in ('chain', 'list', 'tuple', 'reversed', 'sorted'):
                for a in it.args:
                    self.absorb(t, a, fr)
                return
            return
        if isinstance(it, (ast.Tuple, ast.List)):
            for a in it.elts:
                self.absorb(t, a, fr)
        elif isinstance(it, ast.BinOp) and isinstance(it.op, ast.Add):
            self.absorb(t, it.left, fr)
            self.absorb(t, it.right, fr)
        elif isinstance(t, ast.Name) and t.id in fr.filled and t.id in fr.env and isinstance(it, (ast.Name, ast.Attribute, ast.Subscript)):
            self.weak(it, fr.env[t.id], fr)

    s_AsyncFor = s_For

    def s_While(self, s, fr):
        self.loop(s, fr, lambda: self.ev(s.test, fr))

    def s_With(self, s, fr):
        for i in s.items:
            v = self.ev(i.context_expr, fr)
            if i.optional_vars is not None:
                self.store(i.optional_vars, v, fr)
        self.block(s.body, fr)

    s_AsyncWith = s_With

    def s_Try(self, s, fr):
        pre = dict(fr.env)
        self.block(s.body, fr)
        mid = merge(pre, fr.env)
        self.block(s.orelse, fr) if fr.env is not None else None
        outs = [fr.env]
        for h in s.handlers:
            fr.env = dict(mid)
            self.block(h.body, fr)
            outs.append(fr.env)
        fr.env = merge(*outs)
        if s.finalbody:
            fr.env = fr.env if fr.env is not None else dict(mid)
            self.block(s.finalbody, fr)

    def s_Match(self, s, fr):
        v = self.ev(s.subject, fr)
        pre = fr.env
        outs = [dict(pre)]
        for c in s.cases:
            fr.env = dict(pre)
            for x in ast.walk(c.pattern):
                n = getattr(x, 'name', None)
                if isinstance(n, str):
                    fr.env[n] = flat(v)
            self.block(c.body, fr)
            outs.append(fr.env)
        fr.env = merge(*outs)

    def store(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
            fr.filled.discard(t.id)
            fr.alias.pop(t.id, None)
            fr.direct.discard(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, tuple) and len(v) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                for e, x in zip(t.elts, v):
                    self.store(e, x, fr)
            else:
                for e in t.elts:
                    self.store(e.value if isinstance(e, ast.Starred) else e, flat(v), fr)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == fr.selfname:
            fr.env['self.' + t.attr.lstrip('_')] = flat(v)
            self.keep(t.attr, v, fr)
        else:
            if isinstance(t, ast.Attribute):
                self.sink('=>' + field(t.attr), '', v, t)
            self.weak(t, v, fr)

    def keep(self, attr, v, fr):
        """State of the component is updated."""
        c = self.op.cls
        if c is not None and not attr.endswith('__') and self.U.state_of(c, (fr.f.cls or c).mangle(attr)):
            k = attr.lstrip('_')
            self.stored[k] = self.stored.get(k, NONE) | flat(v) | self.guard | self.cut

    def weak(self, t, v, fr, counting=False):
        """Something becomes a part of, or is combined with, an object."""
        r, v = t, mixed(flat(v))
        while isinstance(r, (ast.Subscript, ast.Attribute, ast.Call, ast.Starred)):
            if isinstance(r, ast.Subscript):
                self.ev(r.slice, fr)
            if isinstance(r, ast.Attribute) and isinstance(r.value, ast.Name) and r.value.id == fr.selfname:
                k = 'self.' + r.attr.lstrip('_')
                fr.env[k] = join(fr.env.get(k), flat(v))
                self.keep(r.attr, v, fr)
                return
            r = r.func if isinstance(r, ast.Call) else r.value
        if isinstance(r, ast.Name) and r.id in fr.env:
            fr.env[r.id] = flat(fr.env[r.id]) | flat(v) if not isinstance(t, ast.Name) else join(flat(fr.env[r.id]), flat(v))
            fr.filled.add(r.id)
            if r.id in fr.alias and not (counting and r is t and r.id in fr.direct):
                self.weak(fr.alias[r.id], v, fr)

    def elem(self, node, v, fr):
        """What iterating over a value yields."""
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
            if node.func.id == 'enumerate' and node.args:
                return (NONE, self.elem(node.args[0], self.peek(node.args[0], fr), fr))
            if node.func.id == 'zip':
                return tuple(self.elem(a, self.peek(a, fr), fr) for a in node.args)
            if node.func.id == 'range':
                st = node.args[2] if len(node.args) == 3 else None
                return REVERSED if isinstance(st, ast.UnaryOp) and isinstance(st.op, ast.USub) else NONE
        if isinstance(node, (ast.List, ast.Tuple)) and isinstance(v, tuple) and v:
            r = v[0]
            for x in v[1:]:
                r = join(r, x)
            return r
        return flat(v)

    def peek(self, e, fr):
        return self.ev(e, fr)

    # -------------------------------------------------------------- expressions

    def ev(self, e, fr):
        if e is None:
            return NONE
        return getattr(self, 'e_' + type(e).__name__, self.e_other)(e, fr)

    def e_other(self, e, fr):
        r = NONE
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                r |= flat(self.ev(c, fr))
        return mixed(r)

    def e_Constant(self, e, fr):
        v = e.value
        if v is Ellipsis or isinstance(v, bytes) or isinstance(v, str) and (' ' in v or len(v) > 40):
            return OTHER
        return frozenset({'k:' + repr(float(v) if isinstance(v, int) and not isinstance(v, bool) else v)})

    def e_BinOp(self, e, fr):
        r = self.e_other(e, fr)
        if isinstance(e.op, (ast.Mult, ast.Div)):
            self.record('scaling', [r], e)
        elif isinstance(e.op, (ast.Add, ast.Sub)):
            self.record('sum', [r], e)
        elif isinstance(e.op, ast.FloorDiv):
            self.record('rounding', [r], e)
        elif isinstance(e.op, ast.MatMult):
            self.record('product', [r], e)
        return r

    def e_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and isinstance(e.operand.value, (int, float)):
            return frozenset({'k:' + repr(-float(e.operand.value))})
        return self.e_other(e, fr)

    def e_Name(self, e, fr):
        return fr.env.get(e.id, NONE)

    def e_Tuple(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.e_other(e, fr)
        return tuple(self.ev(x, fr) for x in e.elts)

    e_List = e_Tuple

    def e_IfExp(self, e, fr):
        g = self.guard
        self.guard = g | self.condition(e.test, fr)
        v = join(self.ev(e.body, fr), self.ev(e.orelse, fr))
        self.guard = g
        return v

    def e_BoolOp(self, e, fr):
        g = self.guard
        r = NONE
        for x in e.values:
            r |= flat(self.ev(x, fr))
            self.guard |= self.condition(x, fr)
        self.guard = g
        return r

    def e_Compare(self, e, fr):
        r = self.e_other(e, fr)
        if not isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            for a, b in zip([e.left] + e.comparators, e.comparators):
                self.record('comparison', [flat(self.ev(a, fr)) | flat(self.ev(b, fr))], e)
        return frozenset(x for x in r if x[:2] != 'e:')

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.store(e.target, v, fr)
        return v

    def e_Attribute(self, e, fr):
        if isinstance(e.value, ast.Name) and fr.selfname is not None and e.value.id == fr.selfname:
            k = 'self.' + e.attr.lstrip('_')
            out = fr.env.get(k)
            if out is not None:
                return out
            c = self.op.cls or fr.f.cls
            if c is None:
                return NONE
            n = fr.f.cls.mangle(e.attr) if fr.f.cls else e.attr
            m, _ = c.lookup(n)
            if isinstance(m, Prop) and m.getter is not None and self.U.known is not None and self.U.part(m.getter) and not m.getter.abstract:
                return self.inline(m.getter, [], [], fr, True)
            return self.U.options_of(c, n) | self.U.state_of(c, n) | ({'q:' + field(e.attr)} if field(e.attr) in QUANTITIES else NONE)
        if isinstance(e.value, (ast.Name, ast.Attribute)) and e.attr.isupper() and not (isinstance(e.value, ast.Name) and e.value.id in fr.env):
            r = self.U.prog.resolve_expr(fr.f.module, e.value, fr.f.cls)
            if isinstance(r, Class) and r.is_enum:
                return frozenset({f'e:{r.name}.{e.attr}'})
        b = mixed(flat(self.ev(e.value, fr)))
        if e.attr in ('T', 'H'):
            b = b | TRANSPOSED
        if e.attr == 'H':
            b = b | CONJUGATED
        if e.attr in QUANTITIES:
            b = b | {f'{x}.{e.attr}' for x in b if x[:2] in ('p:', 's:') and '.' not in x} | {'q:' + e.attr}
        return b

    def e_Subscript(self, e, fr):
        v = self.ev(e.value, fr)
        i = self.ev(e.slice, fr)
        self.record('index', i if isinstance(i, tuple) else (i,), e)
        if isinstance(e.slice, ast.Slice) and isinstance(e.slice.step, ast.UnaryOp):
            i = flat(i) | REVERSED
        if isinstance(v, tuple) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(v) <= e.slice.value < len(v):
            return v[e.slice.value]
        return mixed(flat(v) | flat(i))

    def e_Lambda(self, e, fr):
        env = dict(fr.env)
        for a in e.args.args + e.args.kwonlyargs:
            fr.env[a.arg] = NONE
        v = self.ev(e.body, fr)
        fr.env = env
        return flat(v)

    def comp(self, e, elts, fr):
        env = dict(fr.env)
        old = self.guard
        for g in e.generators:
            self.store(g.target, self.elem(g.iter, self.ev(g.iter, fr), fr), fr)
            for c in g.ifs:
                self.guard |= self.condition(c, fr)
        r = NONE
        for x in elts:
            r |= flat(self.ev(x, fr))
        self.guard = old
        fr.env = env
        return r

    def e_ListComp(self, e, fr):
        return self.comp(e, [e.elt], fr)

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, fr):
        return self.comp(e, [e.key, e.value], fr)

    # -------------------------------------------------------------- calls

    def target(self, e: ast.Call, fr):
        """-> (functions possibly invoked, arguments, invoked on the object under analysis, constructor)"""
        fn = e.func
        cls = fr.f.cls
        top = self.op.cls or cls
        if isinstance(fn, ast.Name):
            if fn.id in fr.env and fn.id not in fr.local:
                return None
            r = self.U.prog.resolve_expr(fr.f.module, fn, cls)
            if isinstance(r, Func):
                return [r], e.args, False, None
            if isinstance(r, Class):
                return None if r.is_enum else ([], e.args, False, r)
            if fn.id == 'cls' and cls is not None:
                return [], e.args, False, cls
            return None
        if not isinstance(fn, ast.Attribute):
            return None
        v = fn.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and cls is not None:
            n = cls.mangle(fn.attr)
            for b in cls.cmro[1:]:
                if n in b.methods:
                    return [b.methods[n]], e.args, True, None
            return None
        if isinstance(v, ast.Name) and fr.selfname is not None and v.id == fr.selfname and top is not None:
            m, _ = top.lookup(cls.mangle(fn.attr) if cls else fn.attr)
            if isinstance(m, Func):
                return [m], e.args, True, None
        if isinstance(v, (ast.Name, ast.Attribute)) and not (isinstance(v, ast.Name) and v.id in fr.env and v.id != 'cls'):
            r = self.U.prog.resolve_expr(fr.f.module, v, cls)
            if isinstance(v, ast.Name) and v.id == 'cls':
                r = cls
            if isinstance(r, Class):
                m, _ = r.lookup(r.mangle(fn.attr) if cls is r else fn.attr)
                if isinstance(m, Func):
                    if m.kind == 'method' and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == fr.selfname:
                        return [m], e.args[1:], True, None
                    return [m], e.args, False, None
                return None
            if isinstance(r, tuple) and r[0] in ('mod', 'ext'):
                k = self.U.prog.resolve_expr(fr.f.module, fn, cls)
                if isinstance(k, Func):
                    return [k], e.args, False, None
                if isinstance(k, Class):
                    return [], e.args, False, k
                return None
        if fn.attr in COMMON:
            return None
        fs = self.U.by.get(fn.attr) or self.U.by.get(cls.mangle(fn.attr) if cls else fn.attr)
        if fs:
            return fs, e.args, False, None
        return None

    def foreign(self, v, fr) -> bool:
        """A module of another package, like numpy."""
        if isinstance(v, ast.Name) and v.id not in fr.env or isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id not in fr.env:
            r = self.U.prog.resolve_expr(fr.f.module, v, fr.f.cls)
            return isinstance(r, tuple) and r[0] in ('mod', 'ext')
        return False

    def taker(self, v, fr) -> bool:
        if isinstance(v, ast.Subscript):
            v = v.value
            if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == fr.selfname:
                return True
        return isinstance(v, ast.Name) and v.id in fr.env and v.id != fr.selfname and not isinstance(fr.env[v.id], tuple)

    def e_Call(self, e, fr):
        t = self.target(e, fr)
        fn = e.func
        recv = NONE
        if isinstance(fn, ast.Attribute) and not (isinstance(fn.value, ast.Name) and fn.value.id == fr.selfname) and \
                not (isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super'):
            recv = flat(self.ev(fn.value, fr))
        elif isinstance(fn, (ast.Name, ast.Call, ast.Subscript)):
            recv = flat(self.ev(fn, fr))
        if t is not None and len(t[0]) == 1 and self.U.part(t[0][0]) and not t[0][0].abstract and not stub(t[0][0]):
            return self.inline(t[0][0], t[1], e.keywords, fr, t[2])
        if t is None:
            n = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ''
            vs = [self.ev(a, fr) for a in e.args]
            ks = {k.arg: self.ev(k.value, fr) for k in e.keywords}
            r = recv
            if n in MUTATORS and isinstance(fn, ast.Attribute) and not self.foreign(fn.value, fr):
                for v in vs:
                    self.weak(fn.value, v, fr)
                return recv
            if n == 'copyto' and e.args:
                self.weak(e.args[0], flat(tuple(vs[1:])), fr)
            for k in e.keywords:
                if k.arg == 'out':
                    self.weak(k.value, flat(tuple(vs)), fr)
            if n in ALLOCATE and vs:
                sh = vs[0] if isinstance(vs[0], tuple) else (vs[0],)
                if not n.endswith('_like'):
                    self.record('shape', sh, e)
            elif n in NUMERIC and (vs or recv):
                self.record(NUMERIC[n], [flat(tuple(vs)) | flat(tuple(v for k, v in ks.items() if k not in ('dtype', 'axis'))) | (recv if NUMERIC[n] not in ('draw',) else NONE)], e)
            if n in ALLOCATE or n == 'range':
                return NONE
            if n in TRANSPOSING:
                r = r | TRANSPOSED
            if n in CONJUGATING:
                r = r | CONJUGATED
            if n in ('list', 'tuple', 'reversed', 'sorted') and len(vs) == 1 and not ks:
                return flat(vs[0]) | REVERSED if n == 'reversed' else flat(vs[0])
            for v in list(vs) + [v for k, v in ks.items() if k not in ('dtype', 'axis')]:
                r = r | flat(v)
            return mixed(r)
        fs, args, mine, made = t
        if made is not None:
            f = made.method('__init__') or made.method('__new__')
            fields = made.record_fields()
            name = made.name
            fs = [f] if f is not None else []
        else:
            name = fs[0].node.name
            fields = None
        r = recv
        if made is None and len(fs) > 1:
            fs = self.U.invoked(fr.f, e, fs) or fs
        seen = set()
        if recv and made is None:
            self.sink(name, '@', recv, e)
        for i, a in enumerate(args):
            v = flat(self.ev(a, fr))
            r |= v
            if isinstance(a, ast.Starred):
                lab = '*'
            elif fs:
                lab = self.U.label(fs, i=i)
            else:
                lab = list(fields)[i] if fields and i < len(fields) else '*'
            seen.add(lab)
            self.sink(name, lab, v, e)
        for k in e.keywords:
            v = flat(self.ev(k.value, fr))
            r |= v
            lab = '*' if k.arg is None else self.U.label(fs, k=k.arg) if fs else k.arg
            seen.add(lab)
            self.sink(name, lab, v, e)
        if '*' not in seen:
            for lab, v in self.U.defaults(fs).items():
                if lab not in seen:
                    self.sink(name, lab, v, e)
        if made is None:
            self.sink(name, '', NONE, e)
            if isinstance(fn, ast.Attribute) and not mine and isinstance(getattr(fn, 'value', None), ast.expr) and recv is not None:
                fr.pending = (fn.value, r)
            r = solid(r) | {'c:' + name}
            if isinstance(fn, ast.Attribute) and self.taker(fn.value, fr):
                # the object invoked on may have taken up its arguments
                if any(g.node.returns is None or isinstance(g.node.returns, ast.Constant) and g.node.returns.value is None for g in fs):
                    self.weak(fn.value, r, fr)
        return solid(r)


class Frame:
    def __init__(self, f, env, selfname):
        self.f, self.env, self.selfname = f, env, selfname
        self.ret = None
        self.ends: list = []
        self.jumps: list = []
        self.filled: set = set()
        self.direct: set = set()    # names of attributes themselves
        self.alias: dict = {}       # parts of containers by the names they are known under
        self.local: dict = {}
        self.pending = None

    def ctx_load(self, flow, t) -> frozenset:
        return flat(flow.ev(t, self))


def operations(prog, U):
    for f in prog.all_funcs():
        if f.overload or f.abstract or stub(f) or U.part(f) or '<locals>' in f.qual or '<lambda>' in f.qual:
            continue
        n = f.node.name
        if n in SKIP or f.kind == 'deleter' or 'plot' in n or 'visuali' in n.lower():
            continue
        yield f


def key(f: Func) -> str:
    return f'{f.cls.name}.{f.node.name}' + ('=' if f.kind == 'setter' else '') if f.cls is not None else f'{f.module.name.split(".")[-1]}.{f.node.name}'


def wiring(prog: Program, known=None):
    U = Universe(prog, known)
    for f in operations(prog, U):
        fl = Flow(U, f).run()
        yield f, fl


def contract(prog: Program) -> dict:
    ops: dict = {}
    nums: dict = {}
    for f, fl in wiring(prog):
        e = {k: sorted(v) for k, v in sorted(fl.edges.items())}
        if e:
            ops[key(f)] = e
        n = {}
        for g, sites in sorted(fl.numerics().items()):
            vs = {v for _, xs in sites for v in xs}
            n[g] = sorted([served(sites, v), [sorted(x) for x in v]] for v in vs)
        if n:
            nums[key(f)] = n
    return {'names': sorted({f.node.name for f in prog.all_funcs()}), 'operations': ops, 'numerics': nums}


def w01(prog: Program, tier: str) -> Result:
    R = Result('W01', 'in every operation, each processing step is performed and each of its arguments is computed from the results, inputs, '
                      'options and physical quantities its reviewed flow contract lists')
    R.assumptions = ['the flow contract (sa/rules/wiring.json.gz) lists what the steps worked on when it was reviewed']
    with gzip.open(CONTRACT, 'rt', encoding='utf-8') as fh:
        want = json.load(fh)
    have = {key(f): (f, fl) for f, fl in wiring(prog, set(want['names']))}
    for op, sinks in want['operations'].items():
        if op not in have:
            R.count('operations_gone')
            continue
        R.count('operations')
        f, fl = have[op]
        if not any('f:reversed' in x for x in sinks.values()):
            for s, got in fl.edges.items():
                if 'f:reversed' in got and s in sinks:
                    R.bad(f'{op}->{s}:order', f'{f.module.path}:{fl.sites.get(s, f.node.lineno)}', f'{f.qual} hands values to {where(s)} in reversed order')
                    break
        for s, srcs in sinks.items():
            step, _, lab = s.partition('.')
            at = f'{f.module.path}:{fl.sites.get(s, f.node.lineno)}'
            got = fl.edges.get(s)
            if lab == '?' and fl.edges.get(step) is None:
                continue
            if got is None and fl.edges.get(step) is None and step != 'return':
                if not lab and step[:1] == '=':
                    R.count('steps')
                    R.bad(f'{op}->{step}', at, f'{f.qual} no longer updates the state {step[1:]}')
                elif not lab and step[:1].islower() or step[:1] == '_':
                    R.count('steps')
                    R.bad(f'{op}->{step}', at, f'{f.qual} no longer performs {step}')
                continue
            if lab and lab not in ('?', '*', '@') and step + '.*' in fl.edges and step + '.*' not in sinks:
                got = (got or NONE) | fl.edges[step + '.*']      # type of the object invoked on no longer known
            for t in ('k:', 'e:'):
                new = {x for x in got or () if x[:2] == t and x != 'k:'} - set(srcs) if any(x[:2] == t for x in srcs) else ()
                for x in sorted(new):
                    R.bad(f'{op}->{s}:!{x}', at, f'{f.qual} hands {what(x)} to {where(s)} in place of ' + ', '.join(what(y) for y in srcs if y[:2] == t))
            for x in srcs:
                R.count('flows')
                if got is not None and x in got:
                    R.ok()
                else:
                    R.bad(f'{op}->{s}:{x}', at, f'{f.qual}: {what(x)} no longer reaches {where(s)}')
    for op, groups in want['numerics'].items():
        if op not in have:
            continue
        f, fl = have[op]
        now = fl.numerics()
        for g, wanted in groups.items():
            sites = now.get(g, [])
            wanted = [(n, tuple(frozenset(x) for x in w)) for n, w in wanted]
            odd = {v: ln for ln, xs in sites for v in xs if not any(covers(v, w) for _, w in wanted)}
            for n, w in wanted:
                R.count('numerics')
                if served(sites, w) >= n or not odd:
                    R.ok()
                    continue
                v = max(odd, key=lambda v: (sum(len(a & b) for a, b in zip(v, w)), -odd[v]))
                less = ', '.join(sorted(what(x) for a, b in zip(v, w) for x in b - a))
                R.bad(f'{op}->{g}:{less}', f'{f.module.path}:{odd[v]}', f'{f.qual}: {less} no longer used in the {g.partition("/")[0]} operation, or for another of its dimensions')
    R.floors = {'flows': 8000, 'numerics': 1300}
    return R


def what(x: str) -> str:
    k, n = x.split(':', 1)
    return {'c': f'the result of {n}', 'o': f'the option {n}', 'p': f'the argument {n}', 'k': f'the constant {n}', 'e': n, 'f': f'the order {n}', 's': f'the state {n}', 'q': f'the {n} of the objects worked with', 'a': f'the setting {n}'}[k]


def where(s: str) -> str:
    step, _, lab = s.partition('.')
    if step == 'return':
        return 'the result'
    if step[:2] == '=>':
        return f'the attribute {step[2:]}'
    if step[0] == '=':
        return f'the state {step[1:]}'
    if lab == '?':
        return f'the conditions {step} is performed under'
    return f'the object {step} is invoked on' if lab == '@' else f'the parameter {lab} of {step}' if lab != '*' else f'the arguments of {step}'
