"""In-place effects: which caller-visible objects a function may modify.

An access path aliases the object it was read from; copies, arithmetic and
constructors yield fresh objects.  The analysis reports *definite syntactic*
modifications (attribute or element stores, in-place operators on mutable
values, mutating container and array methods, ``out=`` arguments) whose target
aliases a root (parameter, receiver, module level object).
"""
from __future__ import annotations
from .model import Program, Func, Class, Prop
from .absint import Interp, alts, NONE, show, phi

LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'add', 'discard', 'update', 'setdefault', 'popitem',
            'fill', 'resize', 'put', 'partition', 'itemset', 'byteswap', 'appendleft', 'popleft', 'difference_update', 'intersection_update'}
NP_MUT0 = {'numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.fill_diagonal', 'numpy.putmask', 'numpy.random.shuffle', 'numpy.put_along_axis'}
UFUNC_AT = {'at'}
VIEW_METH = {'reshape', 'ravel', 'squeeze', 'transpose', 'view', 'swapaxes', 'diagonal', 'values', 'items', 'keys', '__getitem__', 'getfield',
             'get', 'setdefault'}
VIEW_ATTR = {'T', 'real', 'imag', 'flat'}
NP_VIEW = {'numpy.asarray', 'numpy.reshape', 'numpy.ravel', 'numpy.squeeze', 'numpy.transpose', 'numpy.moveaxis', 'numpy.swapaxes',
           'numpy.broadcast_to', 'numpy.real', 'numpy.imag', 'numpy.expand_dims', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.atleast_3d',
           'numpy.flip', 'numpy.fliplr', 'numpy.flipud', 'numpy.diagonal', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.rollaxis',
           'numpy.split', 'numpy.array_split', 'numpy.rot90', 'numpy.asarray_chkfinite', 'numpy.require'}
CONT_METH = {'values', 'items', 'keys', 'get', 'setdefault', 'pop'}
SCALARS = {'int', 'float', 'complex', 'str', 'bool', 'bytes', 'NoneType'}


class Alias:
    def __init__(self, it: Interp):
        self.it = it

    def scalar(self, t, st=None) -> bool:
        """The value is known to be immutable."""
        if t[0] in ('const', 'fstr', 'cmp'):
            return True
        ty = self.it.types_of(t)
        if ty and all(isinstance(x, tuple) and (x[0] == 'builtin' and x[1] in SCALARS or x[0] == 'none' or x[0] == 'tup' or x[0] == 'seq' and len(x) > 2 and x[2] in ('tuple', 'frozenset'))
                      or isinstance(x, Class) and x.is_enum for x in ty):
            return True
        return False

    def is_list(self, t) -> bool:
        ty = self.it.types_of(t)
        return bool(ty) and all(isinstance(x, tuple) and (x[0] in ('seq', 'map', 'tup', 'none')) for x in ty)

    def roots(self, t, depth=0, kind='data') -> set:
        """Roots of the objects ``t`` may be (part of).

        kind 'data': element stores through ``t`` are visible at the root (views share their buffer);
        kind 'obj': attribute stores are visible (a view is an object of its own).
        """
        if depth > 12 or not isinstance(t, tuple) or not t:
            return set()
        k = t[0]
        if k in ('self', 'param'):
            return {t}
        if k == 'ext' and t[1].startswith('hermespy.'):
            return {t}
        if k == 'attr':
            if t[1][0] == 'cls':
                return {t}
            if kind == 'obj' and t[2] in VIEW_ATTR:
                return set()
            return self.roots(t[1], depth + 1, kind)
        if k == 'item':
            if isinstance(t[2], tuple) and t[2][0] == 'slice' and self.is_list(t[1]):
                return set()
            if kind == 'obj' and self.arrayish(t[1]):
                return set()
            if isinstance(t[2], tuple) and t[2][0] in ('comp', 'list', 'call') and not self.is_list(t[1]):
                return set()      # advanced indexing copies
            if t[1][0] in ('comp', 'list', 'tuple'):
                return self.members(t[1], depth, kind)
            return self.roots(t[1], depth + 1, kind)
        if k == 'elem':
            if t[1][0] in ('comp', 'list', 'tuple'):
                return self.members(t[1], depth, kind)
            return self.roots(t[1], depth + 1, kind)
        if k == 'phi':
            r = set()
            for x in t[1]:
                r |= self.roots(x, depth + 1, kind)
            return r
        if k == 'bool':
            r = set()
            for x in t[2]:
                r |= self.roots(x, depth + 1, kind)
            return r
        if k == 'aug':
            return self.roots(t[2], depth + 1, kind) if not self.scalar(t[2]) else set()
        if k == 'call':
            c = t[1]
            if c[0] == 'attr':
                if c[2] in VIEW_METH and (kind == 'data' or c[2] in CONT_METH):
                    return self.roots(c[1], depth + 1, kind)
                return set()
            if c[0] == 'ext':
                if c[1] in NP_VIEW and t[2] and (kind == 'data' or c[1] in ('numpy.asarray', 'numpy.asanyarray')):
                    return self.roots(t[2][0], depth + 1, kind)
                return set()
            if c[0] == 'builtin' and c[1] in ('iter', 'reversed', 'enumerate', 'zip', 'next', 'filter'):
                r = set()
                for a in t[2]:
                    r |= self.roots(a, depth + 1, kind)
                return r
            if c[0] in ('bound', 'fn', 'cls'):
                return self.summary_roots(t, depth, kind)
            return set()
        return set()

    def members(self, t, depth, kind) -> set:
        r = set()
        for x in ((t[2],) if t[0] == 'comp' else t[1]):
            r |= self.roots(x, depth + 1, kind)
        return r

    def summary_roots(self, t, depth, kind):
        return set()

    def arrayish(self, t) -> bool:
        ty = self.it.types_of(t)
        return any(isinstance(x, tuple) and x[0] == 'ext' and x[1].split('.')[-1] in ('ndarray', 'NDArray') or
                   isinstance(x, Class) and 'numpy.ndarray' in x.mro for x in ty)

    # ------------------------------------------------------------------
    def effects(self, events=None):
        """-> list of (event, target term, roots, how, kind)"""
        out = []
        for e in (self.it.events if events is None else events):
            tg = None
            how = None
            if e.kind in ('setattr', 'delattr'):
                tg, how = e.base, f'.{e.data["name"]} = …'
            elif e.kind == 'setprop':
                # the setter is inlined when the receiver is known; otherwise the store itself counts
                tg, how = e.base, f'.{e.data["name"]} = …'
            elif e.kind in ('setitem', 'delitem'):
                tg, how = e.base, '[…] = …'
            elif e.kind == 'aug' and e.data.get('target') in ('name',):
                if not self.scalar(e.base) and self.mutable(e.base):
                    tg, how = e.base, f'{e.op}='
            elif e.kind == 'call' and not e.data.get('inlined'):
                c = e.data['callee']
                if c[0] == 'attr' and c[2] in LIST_MUT and e.data.get('func_') is None:
                    if self.it.classes_of(c[1]) and any(self._defines(x, c[2]) for x in self.it.classes_of(c[1])):
                        continue
                    tg, how = c[1], f'.{c[2]}(…)'
                elif c[0] == 'ext' and c[1] in NP_MUT0 and e.args:
                    tg, how = e.args[0], f'{c[1]}(…)'
                elif c[0] == 'attr' and c[2] == 'shuffle' and e.args:
                    tg, how = e.args[0], 'shuffle(…)'
                elif c[0] == 'ext' and c[1].startswith('numpy.') and c[1].endswith('.at') and e.args:
                    tg, how = e.args[0], f'{c[1]}(…)'
                if 'out' in e.kwargs and tg is None and c[0] == 'ext' and c[1].startswith(('numpy.', 'scipy.')):
                    tg, how = e.kwargs['out'], 'out='
                    if tg[0] == 'tuple' and tg[1]:
                        tg = tg[1][0]
                ow = [k for k in e.kwargs if k.startswith('overwrite_') and e.kwargs[k] == ('const', True)]
                if ow and tg is None and e.args:
                    tg, how = e.args[0], f'{ow[0]}=True'
            if tg is None:
                continue
            kind = 'obj' if e.kind in ('setattr', 'delattr', 'setprop') else 'data'
            r = self.roots(tg, 0, kind)
            if r:
                out.append((e, tg, r, how, kind))
        return out

    def _defines(self, x: Class, n):
        m, o = x.lookup(n)
        return m is not None

    def mutable(self, t) -> bool:
        """The value is known to be a mutable container or array (so an in-place operator modifies it)."""
        if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in NP_VIEW or \
                t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in VIEW_METH and self.mutable(t[1][1]):
            return True
        if t[0] == 'phi':
            return any(self.mutable(x) for x in t[1])
        if t[0] == 'item' and self.arrayish(t[1]):
            return True       # a row of an array is a view of it
        ty = self.it.types_of(t)
        for x in ty:
            if isinstance(x, tuple):
                if x[0] == 'ext' and x[1].split('.')[-1] in ('ndarray', 'NDArray', 'csr_matrix', 'COO', 'SparseArray'):
                    return True
                if x[0] in ('seq', 'map') and (len(x) < 3 or x[2] in ('list', 'set', 'dict', 'deque')):
                    return True
            elif isinstance(x, Class):
                if 'numpy.ndarray' in x.mro or x.method('__iadd__') or x.method('__imul__'):
                    return True
        return False


def written(e, tg):
    """Name of the root's attribute a direct effect modifies."""
    first = e.data['name'] if e.kind in ('setattr', 'delattr', 'setprop') else None
    t = tg
    for _ in range(12):
        if not isinstance(t, tuple) or not t:
            break
        if t[0] == 'attr':
            first = t[2]
            t = t[1]
        elif t[0] in ('item', 'elem'):
            t = t[1]
        elif t[0] == 'aug':
            t = t[2]
        elif t[0] == 'call' and t[1][0] == 'attr':
            t = t[1][1]
        elif t[0] == 'call' and t[2]:
            t = t[2][0]
        elif t[0] in ('phi',):
            t = sorted(t[1], key=str)[0]
        else:
            break
    return first


class Summaries:
    """Whole-program fixpoint: parameters (and receiver) a function may modify or return (part of)."""

    def __init__(self, prog: Program, F):
        self.prog, self.F = prog, F
        self.mut: dict = {}      # Func -> {(root name, kind): (loc, how, chain)}
        self.ret: dict = {}      # Func -> set of (root name, kind) the result may alias
        self.overrides: dict = {}
        self.where: dict = {}    # (Func, (root name, kind)) -> {(attribute of the root that is modified, location)}
        self.funcs = [f for f in prog.all_funcs() if not f.overload]
        for f in self.funcs:
            self.mut[f] = {}
            self.ret[f] = set()
        self._solve()

    def targets(self, f: Func):
        """The function and every override of it."""
        r = self.overrides.get(f)
        if r is None:
            r = [f]
            if f.cls is not None and f.kind in ('method', 'classmethod', 'getter', 'setter', 'staticmethod') and f.name != '__init__':
                for s in f.cls.subclasses:
                    if f.kind in ('getter', 'setter'):
                        p = s.props.get(f.name)
                        g = getattr(p, f.kind, None) if p is not None else None
                        if g is not None and g.cls is s:
                            r.append(g)
                    elif f.name in s.methods:
                        r.append(s.methods[f.name])
            self.overrides[f] = r
        return r

    @staticmethod
    def rootname(t):
        return 'self' if t[0] == 'self' else t[1] if t[0] in ('param', 'ext') else show(t)

    def actuals(self, g: Func, recv, args, kwargs):
        """parameter name -> argument term"""
        out = {}
        names = g.params
        if g.kind in ('method', 'getter', 'setter', 'deleter') and names:
            if recv is not None:
                out['self'] = recv
                names = names[1:]
            elif args:
                out['self'] = args[0]
                args = args[1:]
                names = names[1:]
        elif g.kind == 'classmethod':
            names = names[1:]
        for n, a in zip(names, args):
            if a[0] == 'star':
                break
            out[n] = a
        for n, a in kwargs.items():
            if n in names or n in g.kwonly:
                out[n] = a
        return out

    class _A(Alias):
        def __init__(self, it, S):
            super().__init__(it)
            self.S = S

        def summary_roots(self, t, depth, kind):
            c = t[1]
            it = self.it
            g = it._bound_func(c) if c[0] == 'bound' else it._fn(c[1]) if c[0] == 'fn' else None
            if g is None:
                return set()
            act = self.S.actuals(g, c[1] if c[0] == 'bound' else None, list(t[2]), dict(t[3]))
            r = set()
            for h in self.S.targets(g):
                for n, k in self.S.ret.get(h, ()):
                    if n in act and k == kind:
                        r |= self.roots(act[n], depth + 1, kind)
            return r

        def roots(self, t, depth=0, kind='data'):
            if isinstance(t, tuple) and t and t[0] == 'item' and depth <= 12:
                for c in self.it.classes_of(t[1])[:1]:
                    g = c.method('__getitem__')
                    if g is not None:
                        r = set()
                        for h in self.S.targets(g):
                            if ('self', kind) in self.S.ret.get(h, ()):
                                r |= self.roots(t[1], depth + 1, kind)
                        return r
            return super().roots(t, depth, kind)

    def _solve(self):
        work = list(self.funcs)
        data = {}
        for rnd in range(12):
            changed = False
            for f in work:
                if f.abstract and rnd == 0:
                    pass
                if f not in data:
                    it, fin, val = self.F.of(f)
                    data[f] = (it, fin, val, self._A(it, self))
                it, fin, val, A = data[f]
                m = self.mut[f]
                for e, tg, r, how, kind in A.effects():
                    for x in r:
                        n = (self.rootname(x), kind)
                        if n not in m:
                            m[n] = (e.loc, how, ())
                            changed = True
                        self.where.setdefault((f, n), set()).add((written(e, tg), e.loc))
                for e in it.events:
                    if e.kind == 'setprop':
                        gs = self.targets(e.data['prop'].setter) if e.data['prop'].setter is not None else []
                        call = (e.base, [e.value], {})
                    elif e.kind == 'read' and e.data.get('prop') is not None:
                        gs = self.targets(e.data['prop'].getter) if e.data['prop'].getter is not None else []
                        call = (e.base, [], {})
                    elif e.kind in ('call', 'new') and e.data.get('func_') is not None:
                        g = e.data['func_']
                        if g not in self.mut:
                            continue
                        exact = e.kind == 'new' or (e.data.get('callee') or ('', ('',)))[1:2] == (('super',),)
                        gs = [g] if e.kind == 'new' else self.targets(g)
                        call = (e.data.get('recv') if e.kind == 'call' else e.data.get('result'), list(e.args), dict(e.kwargs))
                    else:
                        continue
                    for g in gs:
                        mg = self.mut.get(g)
                        if not mg:
                            continue
                        act = self.actuals(g, *call)
                        for (n, kind), (loc, how, chain) in list(mg.items()):
                            if n not in act:
                                if n.startswith('hermespy.') and (n, kind) not in m:
                                    m[(n, kind)] = (e.loc, how, ((g.qual, loc),) + chain)
                                    changed = True
                                continue
                            if e.kind == 'new' and n == 'self':
                                continue
                            for x in A.roots(act[n], 0, kind):
                                q = (self.rootname(x), kind)
                                if q not in m:
                                    m[q] = (e.loc, how, (((g.qual, loc),) + chain)[:6])
                                    changed = True
                if val is not None:
                    rr = {(self.rootname(x), k) for k in ('obj', 'data') for x in A.roots(val, 0, k)}
                    if not rr <= self.ret[f]:
                        self.ret[f] |= rr
                        changed = True
            if not changed:
                break
