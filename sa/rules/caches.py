"""X01: remembered results are never out of date."""
from __future__ import annotations
import ast
from ..model import Program, Func, Class, AnalysisBroken
from ..absint import Interp, show, alts
from ..effects import Summaries
from ..report import Result
from .purity import summaries, short, demangle, reviewed

# Derived attributes that are refreshed before every use; reviewed one by one.
REFRESHED = {
    ('PhysicalDeviceDummy', 'uploaded_signal'): 'placeholder until the first upload',
    ('PhysicalDeviceDummy', 'downloaded_signal'): 'placeholder until the first download',
    ('UsrpDevice', 'current_configuration'): '_configure_device compares it with the wanted configuration before every upload',
}
CONSTRUCTION = ('__init__', '__new__', '__array_finalize__', '__setstate__', '__init_subclass__')


def related(a, b) -> bool:
    return isinstance(a, Class) and isinstance(b, Class) and (a is b or a.is_a(b) or b.is_a(a))


def path(t):
    """Attribute accesses an lvalue passes through: [(base term, attribute)], outermost last."""
    out = []
    for _ in range(14):
        if not isinstance(t, tuple) or not t:
            break
        if t[0] == 'attr':
            out.append((t[1], t[2]))
            t = t[1]
        elif t[0] in ('item', 'elem'):
            t = t[1]
        elif t[0] == 'aug':
            t = t[2]
        elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('values', 'items', 'get', 'view', 'reshape', 'ravel'):
            t = t[1][1]
        else:
            break
    return out


def writes(f: Func, F, S):
    """(event, base term, attribute, text) of everything a function may change on objects that existed before."""
    it, fin, val = F.of(f)
    A = Summaries._A(it, S)
    for e, tg, roots, how, kind in A.effects():
        if e.kind in ('setattr', 'delattr', 'setprop'):
            yield e, tg, e.data['name'], how
        for b, a in path(tg):
            yield e, b, a, how
    for e in it.events:
        if e.kind in ('call', 'new') and e.data.get('func_') in S.mut:
            g = e.data['func_']
            act = S.actuals(g, e.data.get('recv') if e.kind == 'call' else e.data.get('result'), list(e.args), dict(e.kwargs))
            for h in ([g] if e.kind == 'new' else S.targets(g)):
                for (n, kind), (loc, _, chain) in S.mut[h].items():
                    if n in act and not reviewed(loc, chain):
                        for b, a in path(act[n]):
                            yield e, b, a, f'{h.name}(…)'


def with_helpers(F, S, f, seen=None):
    """Events of a function and of the helpers it invokes on its own object."""
    seen = seen if seen is not None else {f}
    out = list(F.of(f)[0].events)
    for e in list(out):
        g = e.data.get('func_') if e.kind == 'call' else None
        if g in S.mut and g.is_helper and g not in seen and e.data.get('recv') == ('self',):
            seen.add(g)
            out += with_helpers(F, S, g, seen)
    return out


def part_of(F, S, f) -> bool:
    """A helper other functions of its class invoke on their own object."""
    return f.is_helper and f.cls is not None and any(
        e.kind == 'call' and e.data.get('func_') is f and e.data.get('recv') == ('self',) for g in S.funcs if g.cls is f.cls and g is not f for e in F.of(g)[0].events)


def local(it, f, stack):
    """Inline calls that stay on the analysed object."""
    return True


def x01(prog: Program, tier='quick') -> Result:
    F, S, V = summaries(prog)
    R = Result('X01', 'everything a remembered value (cached property, memoized function) was computed from is either fixed at construction or every function '
                      'changing it drops the remembered value afterwards on the same path; state derived from a setting at construction is derived again by the setter')
    allw = {}
    for f in S.funcs:
        for e, b, a, how in writes(f, F, S):
            allw.setdefault(a, []).append((f, e, b, how))

    # ---- cached properties and memoized methods
    for c in sorted(prog.classes.values(), key=lambda c: c.qual):
        cached = [(n, p.getter, True) for n, p in c.props.items() if p.getter is not None and p.getter.cached and p.getter.cls is c]
        cached += [(n, m, False) for n, m in c.methods.items() if m.cached and m.kind == 'method']
        for n, g, isprop in cached:
            R.count('remembered_values')
            src = {}      # (class or None, attribute)
            nested = []   # remembered values of other objects this one is computed from
            events, todo, done = [], [g], set()
            while todo:
                h0 = todo.pop()
                done.add(h0)
                it = Interp(prog, self_cls=c, inline=lambda i, h, s: h.cls is not None and related(h.cls, c), record_reads=True)
                it.run(h0)
                events += [(it, e) for e in it.events]
                for e in it.events:
                    p = c.prop(e.data['name']) if e.kind == 'read' and e.base == ('self',) else None
                    if p is not None and p.getter is not None and p.getter.cached and p.getter not in done:
                        todo.append(p.getter)
            for it, e in events:
                if e.kind != 'read':
                    continue
                b, a = e.base, e.data['name']
                if b == ('self',):
                    p = c.prop(a)
                    if p is None or p.getter is None or not p.getter.cached:
                        src[(c, a)] = e.loc
                else:
                    for k in it.classes_of(b)[:4]:
                        rem = [x for x in [k] + list(k.subclasses) if x.prop(a) is not None and x.prop(a).getter is not None and x.prop(a).getter.cached]
                        if rem:
                            nested += [(x, a) for x in rem]
                        else:
                            src[(k, a)] = e.loc
            bad = False
            for (k, a), loc in sorted(src.items(), key=lambda x: (x[0][0].qual, x[0][1])):
                for f, e, b, how in allw.get(a, ()):
                    if f.name in CONSTRUCTION and b == ('self',):
                        continue
                    if b == ('self',):
                        if f.cls is None or not related(f.cls, k):
                            continue
                    else:
                        ks = F.of(f)[0].classes_of(b)
                        if not any(related(x, k) for x in ks) or _fresh(b):
                            continue
                    R.count('writers_checked')
                    if f.name == g.name and f.cls is c:
                        continue
                    if b == ('self',) and isprop and invalidates(prog, f, c if c.is_a(f.cls) else f.cls, n, a):
                        R.ok(f'{f.qual} drops {c.name}.{n}')
                        continue
                    bad = True
                    R.bad(f'{c.name}.{n}:{demangle(a)}', e.loc,
                          f'{f.qual} changes "{a}" ({how}), which the remembered {c.name}.{n} was computed from (read at {loc}), without dropping it')
            for k, q in sorted(set(nested), key=str):
                dels = {d for d in S.funcs if d.cls is not None and related(d.cls, c) and _drops(with_helpers(F, S, d), n)}
                for d in sorted((d for d in S.funcs if d.cls is not None and related(d.cls, k) and not part_of(F, S, d) and _drops(with_helpers(F, S, d), q)), key=lambda d: d.qual):
                    ok = any(e.kind == 'call' and (e.data.get('recv') not in (None, ('self',))) and
                             (e.data.get('func_') in dels or e.data['callee'][0] in ('attr', 'bound') and _callname(e) in {x.name for x in dels})
                             and all(g_[0][0] == 'loop' for g_ in e.guards if isinstance(g_[0], tuple) and g_[0] and g_[0][0] != 'cmp') for e in with_helpers(F, S, d))
                    R.count('propagations_checked')
                    if not ok:
                        bad = True
                        R.bad(f'{c.name}.{n}:{q}', d.loc, f'{d.qual} drops the remembered "{q}", but not {c.name}.{n} of the objects that computed theirs from it')
            if not bad:
                R.ok(f'{c.qual}.{n}')
            # results of memoized functions must not be modified by those who receive them
    # ---- results of memoized functions and cached properties are not modified by their users
    for f in S.funcs:
        it, fin, val = F.of(f)
        A = _Memo(it, S)
        for e, tg, roots, how, kind in A.effects():
            for x in roots:
                if x[0] == 'memo':
                    R.bad(f'modified:{x[1]}', e.loc, f'{f.qual} modifies ({how}) the remembered result of {x[1]}')
    keyed(prog, R, S)
    derived(prog, R, F, S)
    R.floors = {'remembered_values': 12, 'derived_state': 100}
    R.assumptions = ['users do not modify arrays obtained from properties in place']
    return R


def _fresh(b) -> bool:
    return b[0] == 'call' and b[1][0] in ('cls',)


def _callname(e):
    c = e.data['callee']
    if c[0] == 'attr':
        return c[2]
    g = e.data.get('func_')
    return g.name if g is not None else None


def _drops(events, n) -> bool:
    return any(_drop(e, n) for e in events)


def _drop(e, n) -> bool:
    if e.kind == 'delattr' and e.data['name'] == n and e.base == ('self',):
        return True
    if e.kind == 'delitem' and e.base == ('attr', ('self',), '__dict__'):
        return e.data.get('index') == ('const', n)
    if e.kind == 'call':
        c = e.data['callee']
        if c[0] == 'attr' and c[2] == 'pop' and c[1] == ('attr', ('self',), '__dict__') and e.args and e.args[0] == ('const', n):
            return True
        if c == ('builtin', 'delattr') and e.args and e.args[0] == ('self',) and len(e.args) > 1 and e.args[1] == ('const', n):
            return True
    return False


def _benign(g) -> bool:
    """Path condition under which nothing is remembered yet or the object itself."""
    t = g[0]
    return isinstance(t, tuple) and t and t[0] == 'cmp' and '__dict__' in str(t)


_inv: dict = {}


def invalidates(prog, f: Func, c: Class, n: str, a: str) -> bool:
    """Every change of attribute ``a`` in ``f`` is followed by dropping the remembered ``n``."""
    key = (prog, f, c, n, a)
    if key in _inv:
        return _inv[key]
    it = Interp(prog, self_cls=c, inline=lambda i, h, s: h.cls is not None and related(h.cls, c), record_reads=True)
    it.run(f)
    ev = it.events
    names = {a}
    p = c.prop(a)
    if p is not None and p.getter is not None:
        i2 = Interp(prog, self_cls=c, inline=lambda i, h, s: h.cls is not None and related(h.cls, c))
        _, v, _ = i2.run(p.getter)
        names |= {x[2] for x in alts(v) if x[0] == 'attr' and x[1] == ('self',)} if v is not None else set()
    ok = True
    found = False
    for i, e in enumerate(ev):
        w = False
        if e.kind in ('setattr', 'delattr', 'setprop') and e.base == ('self',) and e.data['name'] in names:
            w = True
        elif e.kind in ('setattr', 'setitem', 'delitem', 'aug', 'setprop'):
            w = any(b == ('self',) and x in names for b, x in path(e.base))
        elif e.kind == 'call' and not e.data.get('inlined'):
            r = e.data.get('recv')
            if r is not None and any(b == ('self',) and x in names for b, x in path(r)):
                w = True
            cal = e.data['callee']
            if cal[0] == 'attr' and any(b == ('self',) and x in names for b, x in path(cal[1])):
                w = True
        if not w:
            continue
        if e.kind == 'call' and _pure(e):
            continue
        found = True
        if not any(_drop(d, n) and _covers(d, e) for d in ev[i + 1:]):
            ok = False
            break
    ok = ok and found
    _inv[key] = ok
    return ok


def _pure(e) -> bool:
    from ..effects import LIST_MUT
    g = e.data.get('func_')
    if g is None:
        c = e.data['callee']
        return not (c[0] == 'attr' and c[2] in LIST_MUT)
    return False


def _covers(d, e) -> bool:
    ge = set(map(str, e.guards))
    return all(str(g) in ge or _benign(g) for g in d.guards)


class _Memo(Summaries._A):
    def roots(self, t, depth=0, kind='data'):
        if isinstance(t, tuple) and t and depth <= 12:
            if t[0] == 'attr':
                for c in self.it.classes_of(t[1])[:1]:
                    p = c.prop(t[2])
                    if p is not None and p.getter is not None and p.getter.cached:
                        return {('memo', f'{p.getter.cls.name}.{t[2]}')} | super().roots(t, depth, kind)
            if t[0] == 'call' and t[1][0] in ('bound', 'fn'):
                c = t[1]
                g = self.it._bound_func(c) if c[0] == 'bound' else self.it._fn(c[1])
                if g is not None and g.cached:
                    return {('memo', short(g))}
        return super().roots(t, depth, kind)


# ---------------------------------------------------------------------------
def params_of(t, out=None, depth=0):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'param':
            out.add(t[1])
            return out
        if len(t) == 3 and t[0] == 'item' and isinstance(t[1], tuple) and t[1][:1] == ('param',) and str(t[1][1]).startswith('*'):
            out.add(f'{t[1][1]}[{show(t[2])}]')
            return out
        for x in t:
            params_of(x, out, depth + 1)
    elif isinstance(t, frozenset):
        for x in t:
            params_of(x, out, depth + 1)
    return out


def direct(t):
    """The constructor parameter an attribute simply holds."""
    found = set()
    for x in alts(t):
        while x[0] == 'call' and x[1] in (('builtin', 'float'), ('builtin', 'int'), ('builtin', 'abs'), ('builtin', 'list'), ('ext', 'numpy.array'),
                                          ('ext', 'numpy.asarray')) and x[2]:
            x = x[2][0]
        if x[0] == 'call' and x[1][0] in ('attr', 'bound') and (x[1][2] if x[1][0] == 'attr' else x[1][2].split('.')[-1]) in ('copy', 'flatten', 'astype'):
            x = x[1][1]
        if x[0] in ('param', 'item'):
            p = params_of(x)
            if x[0] == 'item' and not (x[1][0] == 'param' and str(x[1][1]).startswith('*')):
                return None
            found |= p
    return next(iter(found)) if len(found) == 1 else None


def derived(prog, R, F, S):
    seen = set()
    for c in sorted(prog.classes.values(), key=lambda c: c.qual):
        init = c.method('__init__')
        if init is None or c.is_enum or 'numpy.ndarray' in c.mro:
            continue
        try:
            it = Interp(prog, self_cls=c, inline=lambda i, h, s: h.cls is not None and related(h.cls, c))
            fin, _, _ = it.run(init)
        except AnalysisBroken:
            continue
        if fin is None:
            continue
        val = {a: v for (b, a), v in fin.heap.items() if b == ('self',) and '_RandomNode' not in a}
        par = {a: params_of(v) for a, v in val.items()}
        members = c.all_members()
        for q in c.cmro:
            for n, p in q.props.items():
                if p.setter is None or c.prop(n) is not p:
                    continue
                try:
                    it2 = Interp(prog, self_cls=c, inline=lambda i, h, s: h.cls is not None and related(h.cls, c))
                    f2, _, _ = it2.run(p.setter)
                except AnalysisBroken:
                    continue
                if f2 is None:
                    continue
                W = {a for (b, a) in f2.heap if b == ('self',)}
                W |= {e.data['name'] for e in it2.events if e.kind in ('setattr', 'delattr', 'setprop') and e.base == ('self',)}
                W |= {x for e in it2.events if e.kind in ('setattr', 'setitem', 'setprop') for b, x in path(e.base) if b == ('self',)}
                W |= {x for e in it2.events if e.kind == 'call' for t in ([e.data['callee'][1]] if e.data['callee'][0] == 'attr' else [e.data.get('recv')])
                      if isinstance(t, tuple) for b, x in path(t) if b == ('self',)}
                pn = p.setter.params[1] if len(p.setter.params) > 1 else None
                for A in sorted(W):
                    if A not in val:
                        continue
                    src = direct(val[A])
                    if src is None or src == 'seed' or src.startswith('*'):
                        continue
                    new = f2.heap.get((('self',), A))
                    if new is None or pn not in params_of(new):
                        continue
                    R.count('derived_state')
                    for D in sorted(par):
                        if D == A or src not in par[D] or D in W or (A, D) in seen:
                            continue
                        if D in [x for x in W]:
                            continue
                        if not reads(prog, c, D):
                            continue
                        own = (_owner(c, D), demangle(D))
                        if own in REFRESHED:
                            continue
                        seen.add((A, D))
                        R.bad(f'{_owner(c, A)}.{demangle(A)}->{demangle(D)}', p.setter.loc,
                              f'{p.setter.qual} changes "{demangle(A)}" of {c.name}, but "{demangle(D)}", which the constructor derives from the same setting '
                              f'({show(val[D])[:80]}), keeps its old value')
                    R.ok()


def _owner(c, a):
    for k in c.cmro:
        if a.startswith('_' + k.name.lstrip('_') + '__'):
            return k.name
    return c.name


def reads(prog, c: Class, a: str) -> bool:
    """Some function in effect for the class reads the attribute, apart from the constructor."""
    eff = set()
    for q in c.cmro:
        for n, m in q.methods.items():
            if n in CONSTRUCTION or n in ('serialize', 'Deserialize'):
                continue
            if c.method(n) is m or _supered(c, q, n):
                eff.add(m)
        for n, p in q.props.items():
            if c.prop(n) is p:
                eff |= {g for g in (p.getter, p.setter) if g is not None}
    for m in eff:
        if m.cls is None:
            continue
        for x in ast.walk(m.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and m.cls.mangle(x.attr) == a:
                return True
    return False


def _supered(c, q, n) -> bool:
    for k in c.cmro:
        m = k.methods.get(n)
        if m is not None and k is not q:
            for x in ast.walk(m.node):
                if isinstance(x, ast.Attribute) and x.attr == n and (isinstance(x.value, ast.Name) and x.value.id == q.name or
                                                                    isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == 'super'):
                    return True
    return False


def keyed(prog, R, S):
    """Values remembered in a table are looked up under the key they were stored under, which consists of everything they were computed from."""
    for f in S.funcs:
        def table(x):
            return ast.unparse(x) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and (x.value.id in ('self', 'cls') or f.cls is not None and x.value.id == f.cls.name) else None

        single = {}
        for s in ast.walk(f.node):
            for t in s.targets if isinstance(s, ast.Assign) else ():
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        single[n.id] = s.value if n is t and n.id not in single else None

        def text(k, depth=0):
            if isinstance(k, ast.Name) and single.get(k.id) is not None and depth < 3:
                return text(single[k.id], depth + 1)
            return ast.unparse(k)

        stored, asked = {}, {}
        for x in ast.walk(f.node):
            for t in x.targets if isinstance(x, ast.Assign) else ():
                if isinstance(t, ast.Subscript) and table(t.value):
                    stored.setdefault(table(t.value), []).append((t.slice, x))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'setdefault' and len(x.args) == 2 and table(x.func.value):
                stored.setdefault(table(x.func.value), []).append((x.args[0], x))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'get' and x.args and table(x.func.value):
                asked.setdefault(table(x.func.value), []).append(x.args[0])
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)) and table(x.comparators[0]):
                asked.setdefault(table(x.comparators[0]), []).append(x.left)
        for d in sorted(set(stored) & set(asked)):
            R.count('keyed_tables')
            want = {text(k) for k in asked[d]}
            n = d.split('.')[-1].lstrip('_')
            for k, x in stored[d]:
                names = {y.id for y in ast.walk(ast.parse(text(k))) if isinstance(y, ast.Name)} - {'self', 'cls'}
                if text(k) not in want and any(names & {y.id for y in ast.walk(ast.parse(w)) if isinstance(y, ast.Name)} for w in want):
                    R.bad(f'{short(f)}:{n}:key', f'{f.module.path}:{x.lineno}', f'{f.qual} stores into {d} under {text(k)[:60]}, but looks for {", ".join(sorted(want))[:80]}')
                else:
                    R.ok()
