"""I01: separately created objects share no mutable state."""
from __future__ import annotations
import ast
from ..model import Program, Func, Class
from ..absint import NONE, alts, show, subterms
from ..effects import LIST_MUT, Alias, Summaries
from ..report import Result
from .purity import summaries, short, demangle

IMMUTABLE_CALLS = {'float', 'int', 'str', 'bool', 'complex', 'tuple', 'frozenset', 'property', 'TypeVar', 'ParamSpec', 'namedtuple', 'bytes', 'auto', 'field',
                   'NewType', 'object', 'type', 'range', 'slice', 'getLogger', 'Literal', 'Final'}
MUTABLE_NODES = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
SCALAR_NUMPY = {'sqrt', 'log', 'log2', 'log10', 'exp', 'finfo', 'iinfo', 'float64', 'float32', 'int64', 'int32', 'complex128', 'deg2rad', 'rad2deg', 'dtype'}

# (class, attribute): reviewed memo tables keyed by everything the entries depend on
REVIEWED = {('ConsistentGenerator', 'cdf_cache')}


def mutable_expr(prog, m, e, cls=None) -> bool:
    """Evaluating the expression creates a mutable object."""
    if isinstance(e, MUTABLE_NODES):
        return True
    if isinstance(e, ast.IfExp):
        return mutable_expr(prog, m, e.body, cls) or mutable_expr(prog, m, e.orelse, cls)
    if isinstance(e, ast.BoolOp):
        return any(mutable_expr(prog, m, x, cls) for x in e.values)
    if isinstance(e, ast.BinOp):
        return mutable_expr(prog, m, e.left, cls) or mutable_expr(prog, m, e.right, cls)
    if isinstance(e, ast.Call):
        r = None
        try:
            r = prog.resolve_expr(m, e.func, cls)
        except Exception:
            r = None
        if isinstance(r, Class):
            return not r.is_enum
        if isinstance(r, Func):
            ann = ast.unparse(r.node.returns) if r.node.returns is not None else ''
            return ann not in ('float', 'int', 'str', 'bool', 'complex', 'bytes')
        n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
        if n in IMMUTABLE_CALLS or n in SCALAR_NUMPY:
            return False
        return n in ('list', 'dict', 'set', 'deque', 'defaultdict', 'OrderedDict', 'Counter', 'bytearray') or \
            isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ('np', 'numpy')
    return False


class Shared(Summaries._A):
    """Aliases of class level and module level mutable objects, and of parameters left at a mutable default."""

    def __init__(self, it, S, attrs, cls):
        super().__init__(it, S)
        self.attrs, self.cls = attrs, cls

    def roots(self, t, depth=0, kind='data'):
        if isinstance(t, tuple) and t and t[0] == 'attr' and t[1][0] in ('self', 'cls', 'super'):
            owner = self.owner(t)
            if owner is not None:
                return {('shared', owner)}
        if isinstance(t, tuple) and t and t[0] == 'attr' and depth <= 12:
            for c in self.it.classes_of(t[1])[:1]:
                for b in c.cmro:
                    if (b, t[2]) in self.attrs:
                        return {('shared', (b, t[2]))}
        return super().roots(t, depth, kind)

    def owner(self, t):
        c = None
        if t[1][0] == 'self':
            c = self.cls
        elif t[1][0] == 'cls':
            c = self.it.prog.maybe_cls(t[1][1]) if isinstance(t[1][1], str) else t[1][1]
        if c is None:
            return None
        for b in c.cmro:
            if (b, t[2]) in self.attrs:
                return (b, t[2])
        return None


def captures(prog, F, S, touched=None):
    """Parameters a function keeps (part of) in an object that outlives the call."""
    cap = {f: {} for f in S.funcs}
    for _ in range(8):
        changed = False
        for f in S.funcs:
            it, fin, val = F.of(f)
            A = Summaries._A(it, S)
            for e in it.events:
                vals = []
                if e.kind in ('setattr', 'setprop', 'setitem'):
                    base = A.roots(e.base, 0, 'obj')
                    if e.kind == 'setprop' and e.data['prop'].setter is not None:
                        g = e.data['prop'].setter
                        for h in S.targets(g):
                            p = [n for n in h.params[1:]]
                            if p and p[0] in cap.get(h, {}):
                                vals.append((e.value, cap[h][p[0]]))
                    elif base and (touched is None or e.kind != 'setattr' or e.data['name'] in touched):
                        vals.append((e.value, ()))
                elif e.kind == 'call' and e.data.get('func_') is None:
                    c = e.data['callee']
                    if c[0] == 'attr' and c[2] in ('append', 'add', 'insert', 'appendleft', 'extend') and A.roots(c[1], 0, 'data'):
                        vals += [(a, ()) for a in e.args]
                elif e.kind in ('call', 'new') and e.data.get('func_') in cap:
                    g = e.data['func_']
                    act = S.actuals(g, e.data.get('recv') if e.kind == 'call' else e.data.get('result'), list(e.args), dict(e.kwargs))
                    for h in ([g] if e.kind == 'new' else S.targets(g)):
                        for n, ch in cap.get(h, {}).items():
                            if n in act and len(ch) < 6:
                                vals.append((act[n], ((h.qual, e.loc),) + ch))
                for v, ch in vals:
                    for x in A.roots(v, 0, 'obj'):
                        n = S.rootname(x)
                        if x[0] == 'param' and n not in cap[f] and not A.scalar(v):
                            cap[f][n] = ch or ((f.qual, e.loc),)
                            changed = True
        if not changed:
            break
    return cap


def i01(prog: Program, tier='quick') -> Result:
    F, S, V = summaries(prog)
    R = Result('I01', 'no mutable default argument, class attribute or module level object is modified, kept or handed out by any function, no function stores into '
                      'a class, containers are not filled with repetitions of one mutable object, and copies keep nothing mutable of their original')
    cap = captures(prog, F, S)
    inplace = modified_in_place(F, S)
    touched = touched_attributes(prog, F, S)
    kept = captures(prog, F, S, touched)
    # class level mutable objects, unless constructors always replace them by one of the instance
    attrs = {}
    for c in prog.classes.values():
        if c.is_enum:
            continue
        for n, v in c.attrs.items():
            if v is None or n in ('__slots__', '__match_args__', '__all__', 'property_blacklist') or not mutable_expr(prog, c.module, v):
                continue
            r = _descriptor(prog, c, v)
            if r:
                continue
            attrs[(c, n)] = v
    R.stats['class_level_objects'] = len(attrs)
    mods = set()
    for m in prog.modules.values():
        for s in m.tree.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and mutable_expr(prog, m, s.value):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Name) and t.id != '__all__':
                        mods.add(f'{m.name}.{t.id}')
    R.stats['module_level_objects'] = len(mods)

    for f in S.funcs:
        it, fin, val = F.of(f)
        A = Shared(it, S, attrs, f.cls)
        defaults = {}
        for n in f.params + f.kwonly:
            d = f.default_of(n)
            if d is not None and (mutable_expr(prog, f.module, d, f.cls) or isinstance(d, ast.Name) and f'{f.module.name}.{d.id}' in mods):
                defaults[n] = d
                R.count('mutable_defaults')
        bad = False

        def name(x):
            if x[0] == 'shared':
                return f'{x[1][0].name}.{demangle(x[1][1])}'
            if x[0] == 'param' and x[1] in defaults:
                return f'default of {short(f)}({x[1]})'
            if x[0] == 'ext' and x[1] in mods:
                return x[1]
            return None

        def rev(x):
            return x[0] == 'shared' and (x[1][0].name, demangle(x[1][1])) in REVIEWED

        def hit(x, loc, what, trace=()):
            nonlocal bad
            n = name(x)
            if n is None or rev(x):
                return
            bad = True
            R.bad(n.replace(' ', '_'), loc, f'{f.qual} {what} the shared object {n}', [f'{c[0]} at {c[1]}' for c in trace])

        for e, tg, roots, how, kind in A.effects():
            if e.kind == 'setattr' and tg[0] == 'self':
                continue
            if e.kind == 'setattr' and tg[0] in ('cls', 'super') or e.kind == 'setattr' and tg[0] == 'call' and tg[1] == ('builtin', 'type'):
                bad = True
                R.bad(f'class:{f.cls.name if f.cls else f.qual}.{demangle(e.data["name"])}', e.loc, f'{f.qual} stores into a class, changing every instance')
                continue
            for x in roots:
                hit(x, e.loc, f'modifies ({how})')
        for e in it.events:
            if e.kind == 'setattr' and (e.base[0] == 'cls' or e.base[0] == 'call' and e.base[1] == ('builtin', 'type') or
                                        e.base[0] == 'attr' and e.base[2] == '__class__'):
                bad = True
                R.bad(f'class:{show(e.base)}.{demangle(e.data["name"])}', e.loc, f'{f.qual} stores into a class, changing every instance')
            if e.kind in ('setattr', 'setprop', 'setitem'):
                if e.kind == 'setprop':
                    g = e.data['prop'].setter
                    if g is not None and not any(set(h.params[1:]) & set(kept.get(h, ())) for h in S.targets(g)):
                        continue
                if e.kind == 'setattr' and e.data['name'] not in touched:
                    continue      # only ever read
                for x in A.roots(e.value, 0, 'obj'):
                    hit(x, e.loc, 'keeps')
            elif e.kind in ('call', 'new') and e.data.get('func_') in S.mut:
                g = e.data['func_']
                act = S.actuals(g, e.data.get('recv') if e.kind == 'call' else e.data.get('result'), list(e.args), dict(e.kwargs))
                for h in ([g] if e.kind == 'new' else S.targets(g)):
                    for (n, kind), (loc, how, ch) in S.mut[h].items():
                        if n in act and n != 'self':
                            for x in A.roots(act[n], 0, kind):
                                hit(x, e.loc, f'lets {h.qual} modify ({how})', ((h.qual, loc),) + ch)
                    for n, ch in kept.get(h, {}).items():
                        if n in act:
                            for x in A.roots(act[n], 0, 'obj'):
                                hit(x, e.loc, f'lets {h.qual} keep', ch)
        if val is not None and not f.name.startswith('_'):
            for x in A.roots(val, 0, 'obj'):
                hit(x, f.loc, 'hands out')
        for x in ast.walk(f.node):
            if isinstance(x, ast.Global):
                bad = True
                R.bad(f'global:{short(f)}', f.loc, f'{f.qual} rebinds module level names {", ".join(x.names)}')
            rep = _repetition(prog, f, x)
            if rep and not _plot(f):
                R.count('repetitions')
                bad = True
                R.bad(f'repetition:{short(f)}', f'{f.module.path}:{x.lineno}', f'{f.qual} fills a container with repetitions of one mutable object ({rep})')
        # copies
        if f.cls is not None and f.name in ('copy', '__copy__', '__deepcopy__') and f.kind == 'method':
            R.count('copy_methods')
            B = Summaries._A(it, S)
            if val is not None:
                for kind in ('obj', 'data'):
                    if any(x == ('self',) for x in B.roots(val, 0, kind)):
                        bad = True
                        R.bad(f'copy:{f.cls.name}', f.loc, f'{f.qual} returns (part of) the original instead of a copy')
                        break
            for e in it.events:
                if e.kind == 'new':
                    g = e.data.get('func_')
                    ci = cap.get(g, {}) if g is not None else {}
                    act = S.actuals(g, e.data.get('result'), list(e.args), dict(e.kwargs)) if g is not None else {}
                    for n, ch in ci.items():
                        if n in act and n != 'self' and ('self',) in B.roots(act[n], 0, 'obj') and not B.scalar(act[n]) and _mutable_type(it, act[n], V):
                            bad = True
                            R.bad(f'copy:{f.cls.name}', e.loc, f'{f.qual}: the copy shares "{n}" ({show(act[n])[:60]}) with the original', [f'{c[0]} at {c[1]}' for c in ch])
                    if g is not None and g.cls is not None and g.cls in f.cls.mro:
                        for n, v in act.items():
                            m = members(B, v)
                            if n != 'self' and m is not None and n not in ci and keeps_members(F, S, g, n) and _mutable_type(it, m, V):
                                bad = True
                                R.bad(f'copy:{f.cls.name}', e.loc, f'{f.qual}: the copy shares the entries of "{n}" ({show(m)[:60]}) with the original')
                elif e.kind == 'setattr' and e.base[0] != 'self' and ('self',) in B.roots(e.value, 0, 'obj') and not B.scalar(e.value) and _mutable_type(it, e.value, V):
                    bad = True
                    R.bad(f'copy:{f.cls.name}', e.loc, f'{f.qual}: the copy shares "{demangle(e.data["name"])}" with the original')
        for key, loc, msg in one_for_all(S, F, f, V) + local_alias(it, S, f, V) + second_attribute(it, f, V, inplace):
            bad = True
            R.bad(key, loc, msg)
        R.count('functions')
        if not bad:
            R.ok()
    R.floors = {'functions': 1800, 'class_level_objects': 60, 'copy_methods': 12}
    R.assumptions = ['functions of other packages neither keep nor modify what they are given']
    return R


def members(B, t):
    """Entry of the original a freshly built container passes on."""
    if t[0] == 'call' and t[1][0] == 'builtin' and t[1][1] in ('list', 'tuple') and t[2]:
        t = t[2][0]
        if ('self',) in B.roots(t, 0, 'obj'):
            return ('elem', t)
    if t[0] == 'attr' and B.is_list(t) and ('self',) in B.roots(t, 0, 'obj'):
        return ('elem', t)
    if t[0] == 'comp' and ('self',) in B.roots(t[2], 0, 'obj'):
        return t[2]
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'copy' and B.is_list(t[1][1]) and ('self',) in B.roots(t[1][1], 0, 'obj'):
        return ('elem', t[1][1])
    return None


def keeps_members(F, S, g, n) -> bool:
    """The constructor keeps the entries of its argument, if in a container of its own."""
    for h in [g] + [c.methods[g.name] for c in g.cls.mro if hasattr(c, 'methods') and g.name in c.methods]:
        for e in F.of(h)[0].events:
            if e.kind == 'setattr' and e.base == ('self',):
                for x in alts(e.value):
                    if x == ('param', n) or x[0] == 'call' and x[1][0] == 'builtin' and x[1][1] in ('list', 'tuple', 'set') and ('param', n) in x[2] or \
                            x[0] == 'comp' and x[2] == ('elem', ('param', n)):
                        return True
    return False


def effects_of(S, F, f):
    """-> (event, modified term) including what invoked functions modify."""
    it = F.of(f)[0]
    out = []
    for e in it.events:
        if e.kind in ('setattr', 'setprop'):
            out.append((e, e.base))
        elif e.kind in ('call', 'new') and e.data.get('func_') in S.mut:
            g = e.data['func_']
            act = S.actuals(g, e.data.get('recv') if e.kind == 'call' else e.data.get('result'), list(e.args), dict(e.kwargs))
            for h in ([g] if e.kind == 'new' else S.targets(g)):
                for n, k in S.mut[h]:
                    if n in act and not (e.kind == 'new' and n == 'self'):
                        out.append((e, act[n]))
    return out + [(e, tg) for e, tg, r, how, k in Summaries._A(it, S).effects()]


def one_for_all(S, F, f, V):
    """A loop configuring and storing one and the same object in each iteration."""
    loops = [n for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.While))]
    out = []
    eff = None
    for L in loops:
        ids = {id(n) for n in ast.walk(L)}
        for e in F.of(f)[0].events:
            if id(e.node) not in ids:
                continue
            c = e.data.get('callee')
            if e.kind == 'call' and e.data.get('func_') is None and c[0] == 'attr' and c[2] in ('append', 'add', 'insert', 'appendleft') and e.args:
                x, cont = e.args[-1], c[1]
            elif e.kind == 'setitem':
                x, cont = e.value, e.base
            else:
                continue
            if not _invariant(x, L) or any(isinstance(y, tuple) and y and y[0] in ('elem', 'loopvar') for y in subterms(cont)):
                continue
            eff = eff if eff is not None else effects_of(S, F, f)
            if any(id(e2.node) in ids and tg == x and e2 is not e for e2, tg in eff):
                out.append((f'distinct:{short(f)}', e.loc, f'{f.qual} configures and stores the same object {show(x)[:50]} in each iteration instead of one per entry'))
    return out


def _invariant(x, L) -> bool:
    if not isinstance(x, tuple) or not x or x[0] not in ('attr', 'param', 'obj'):
        return False
    for y in subterms(x):
        if isinstance(y, tuple) and y and y[0] in ('elem', 'loopvar', 'call', 'item', 'phi', 'opaque', 'comp'):
            return False
        if isinstance(y, tuple) and y and y[0] == 'obj' and L.lineno <= y[2][1] <= L.end_lineno:
            return False
    return True


def modified_in_place(F, S) -> set:
    """Attributes whose content is modified in place somewhere."""
    out = set()
    for f in S.funcs:
        for e, tg, roots, how, kind in Summaries._A(F.of(f)[0], S).effects():
            _attrs(tg, out)
    return out


def second_attribute(it, f, V, inplace):
    """One attribute stored as another one of the same object, while the content of one of them is modified in place."""
    out = []
    A = Alias(it)
    held = {}        # local name -> attributes holding its value
    for e in it.events:
        if e.kind != 'setattr' or e.base != ('self',) or e.func is not f or A.scalar(e.value) or not isinstance(e.node, (ast.Assign, ast.AnnAssign, ast.Attribute)):
            continue
        name = e.data['name']
        st = _statement(f, e.node)
        v = getattr(st, 'value', None)
        second = []
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and f.params and v.value.id == f.params[0]:
            second = [v.attr] if demangle(v.attr).lstrip('_') != demangle(name).lstrip('_') else []
        elif isinstance(v, ast.Name) and v.id not in f.params + f.kwonly:
            second = [x for x in held.get(v.id, ()) if x != name]
            held.setdefault(v.id, []).append(name)
        for x in alts(e.value):
            if isinstance(x, tuple) and x and x[0] == 'attr' and x[1] == ('self',) and x[2] != name and not A.scalar(x):
                second.append(x[2])
        if isinstance(st, ast.Assign) and len(st.targets) > 1:
            second += [t.attr for t in st.targets if isinstance(t, ast.Attribute) and demangle(t.attr).lstrip('_') != demangle(name).lstrip('_')]
        for x in second:
            if any(demangle(y).lstrip('_') in (demangle(name).lstrip('_'), demangle(x).lstrip('_')) for y in inplace if _own(f, y)):
                out.append((f'alias:{f.cls.name if f.cls else ""}.{demangle(name).lstrip("_")}', e.loc,
                            f'{f.qual} keeps {demangle(x)} as {demangle(name)}, so that modifying one modifies the other'))
                break
    return out


def _own(f, attr) -> bool:
    """The (possibly mangled) attribute name can belong to the class of the function."""
    return not attr.startswith('_') or '__' not in attr[1:] or any(attr.startswith('_' + c.name.lstrip('_') + '__') for c in getattr(f.cls, 'cmro', ()))


def _statement(f, node):
    if isinstance(node, (ast.Assign, ast.AnnAssign)):
        return node
    for s in ast.walk(f.node):
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and any(x is node for x in ast.walk(s)):
            return s
    return None


def local_alias(it, S, f, V):
    """Two local names of one array or container, which is modified through one of them and read through the other."""
    out = []
    own = list(ast.walk(f.node))
    for s in own:
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Name)):
            continue
        b, a = s.targets[0].id, s.value.id
        if a == b or a in f.params or a in f.kwonly:
            continue
        later = [n for n in own if getattr(n, 'lineno', 0) > s.lineno]
        for n in sorted(later, key=lambda n: (n.lineno, n.col_offset)):
            t = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                t = n.value.id
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in LIST_MUT and isinstance(n.func.value, ast.Name):
                t = n.func.value.id
            if t not in (a, b):
                continue
            o = a if t == b else b
            if any(isinstance(x, ast.Name) and x.id in (a, b) and isinstance(x.ctx, ast.Store) and s.lineno < x.lineno <= n.lineno for x in own):
                break
            if any(isinstance(x, ast.Name) and x.id == o and isinstance(x.ctx, ast.Load) and x.lineno > n.lineno for x in own):
                out.append((f'alias:{short(f)}', f'{f.module.path}:{n.lineno}', f'{f.qual} modifies {o} by way of its second name {t} and continues to use it'))
            break
    return out


def _mutable_type(it, t, V) -> bool:
    ty = it.types_of(t)
    for x in ty:
        if isinstance(x, Class) and x in V.cls and not x.is_enum:
            return True
        if isinstance(x, tuple) and (x[0] == 'ext' and x[1].split('.')[-1] in ('ndarray', 'NDArray') or
                                     x[0] in ('seq', 'map') and (len(x) < 3 or x[2] in ('list', 'set', 'dict', 'deque'))):
            return True
    return False


def _plot(f: Func) -> bool:
    return f.cls is not None and f.name != '__init__' and any('Visualiz' in getattr(b, 'name', '') or 'Plot' in getattr(b, 'name', '') for b in f.cls.mro)


def touched_attributes(prog, F, S):
    """Attributes whose value is modified in place, or handed out to callers, somewhere."""
    out = set()
    for f in S.funcs:
        it, fin, val = F.of(f)
        A = Summaries._A(it, S)
        for e, tg, roots, how, kind in A.effects():
            _attrs(tg, out)
        for e in it.events:
            if e.kind in ('call', 'new') and e.data.get('func_') in S.mut:
                g = e.data['func_']
                act = S.actuals(g, e.data.get('recv') if e.kind == 'call' else e.data.get('result'), list(e.args), dict(e.kwargs))
                for h in ([g] if e.kind == 'new' else S.targets(g)):
                    for (n, kind) in S.mut[h]:
                        if n in act:
                            _attrs(act[n], out)
        if val is not None and not f.name.startswith('_'):
            for x in ([val] if val[0] != 'phi' else val[1]):
                if x[0] == 'attr':
                    out.add(x[2])
    return out


def _attrs(t, out, depth=0):
    if not isinstance(t, tuple) or depth > 12 or not t:
        return
    if t[0] == 'attr':
        out.add(t[2])
        _attrs(t[1], out, depth + 1)
    elif t[0] in ('item', 'elem', 'aug'):
        _attrs(t[2] if t[0] == 'aug' else t[1], out, depth + 1)
    elif t[0] == 'phi':
        for x in t[1]:
            _attrs(x, out, depth + 1)
    elif t[0] == 'call' and t[1][0] == 'attr':
        _attrs(t[1][1], out, depth + 1)


def _descriptor(prog, c, v) -> bool:
    if isinstance(v, ast.Call):
        r = prog.resolve_expr(c.module, v.func)
        if isinstance(r, Class) and any(m in r.methods for m in ('__get__', '__set_name__')):
            return True
    return False


def _repetition(prog, f: Func, x):
    def mut(e, depth=0):
        if isinstance(e, ast.Name) and depth < 2:
            for s in ast.walk(f.node):
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets) and mut(s.value, depth + 1):
                    return True
            return False
        return mutable_expr(prog, f.module, e, f.cls)
    if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult):
        for a in (x.left, x.right):
            if isinstance(a, ast.List) and any(mut(e) for e in a.elts):
                return ast.unparse(x)[:60]
    if isinstance(x, ast.Call):
        u = ast.unparse(x.func)
        if u.endswith('fromkeys') and len(x.args) > 1 and mut(x.args[1]):
            return ast.unparse(x)[:60]
        if isinstance(x.func, ast.Attribute) and x.func.attr == 'fill' and len(x.args) == 1 and mut(x.args[0]):
            return ast.unparse(x)[:60]
        if u.split('.')[-1] in ('full', 'full_like') and len(x.args) > 1 and mut(x.args[1]) and any(k.arg == 'dtype' and ast.unparse(k.value).split('.')[-1] in ('object', 'object_') for k in x.keywords):
            return ast.unparse(x)[:60]
        if u in ('repeat', 'itertools.repeat') and x.args and mut(x.args[0]):
            return ast.unparse(x)[:60]
    return None
