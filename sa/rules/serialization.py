"""S01-S04: agreement of the saving and the restoring side of every serialisable type."""
from __future__ import annotations
import ast
import re
from ..model import Program, Class, AnalysisBroken, Prop, Func
from ..absint import Interp, NONE, const, show, subterms, alts, leaves, State, atoms
from ..report import Result
from .serial_facts import SerialFacts, concrete_serialisables, Field, is_loop
from .serial_tables import EXEMPT_PARAMS, EXEMPT_FIELDS, EXEMPT_TYPES, TYPE_ALIAS, DTYPE, KIND_RANK

_CACHE = {}

# C++ backed coders are not part of the built package (their extension modules are absent)
SKIP_PREFIX = ('hermespy.fec.aff3ct',)


def facts(prog):
    if prog not in _CACHE:
        out = []
        for c in concrete_serialisables(prog):
            if c.qual.startswith(SKIP_PREFIX):
                continue
            out.append((c, None if c.is_enum else SerialFacts(prog, c)))
        _CACHE[prog] = out
    return _CACHE[prog]


def short(q):
    return q.split('.')[-1]


# ---------------------------------------------------------------- presence
def _norm_lit(g):
    c, pol = g
    while True:
        if c[0] == 'un' and c[1] == 'not':
            c, pol = c[2], not pol
        elif c[0] == 'cmp' and c[1] in ('is not', '!=', 'not in'):
            c, pol = ('cmp', {'is not': 'is', '!=': '==', 'not in': 'in'}[c[1]], c[2], c[3]), not pol
        elif c[0] == 'cmp' and c[1] == '>=':
            c, pol = ('cmp', '<', c[2], c[3]), not pol
        elif c[0] == 'cmp' and c[1] == '<=':
            c, pol = ('cmp', '>', c[2], c[3]), not pol
        else:
            return c, pol


def expand(g):
    """One guard literal -> list of literal conjunction (or None when it is a disjunction)."""
    c, pol = _norm_lit(g)
    if c[0] == 'bool' and ((c[1] == 'and' and pol) or (c[1] == 'or' and not pol)):
        out = []
        for x in c[2]:
            e = expand((x, pol))
            if e is None:
                return [(c, pol)]
            out += e
        return out
    return [(c, pol)]


def dnf(conjs):
    out = []
    for c in conjs:
        d = {}
        dead = False
        for g in c:
            for k, p in expand(g):
                if d.get(k, p) != p:
                    dead = True
                d[k] = p
        if not dead:
            out.append(d)
    return out


def covers(conjs, budget=4096) -> bool:
    """Is the disjunction of guard conjunctions a tautology?"""
    def rec(ds, n):
        if n <= 0:
            return False
        if any(not d for d in ds):
            return True
        if not ds:
            return False
        v = next(iter(ds[0]))
        for pol in (True, False):
            sub = [{k: p for k, p in d.items() if k != v} for d in ds if d.get(v, pol) == pol]
            if not rec(sub, n // 2):
                return False
        return True
    return rec(dnf(conjs), budget)


def compatible(wkind, rkind):
    return wkind == rkind or (wkind == 'floating' and rkind == 'range') or (wkind == 'custom' and rkind == 'object_sequence' and False)


def key_regex(k):
    return re.compile('^' + re.sub(r'\\\{[^}]*\\\}', '.+', re.escape(k)) + '$')


def key_match(wk, rk):
    if wk == rk:
        return True
    if '{' in wk and '{' not in rk:
        return bool(key_regex(wk).match(rk))
    return False


def s01(prog: Program, tier) -> Result:
    res = Result('S01', 'every field asked for while restoring is written while saving under the same name and data kind; '
                        'fields whose saving is conditional have a fallback on restoring (guard coverage over the joined control flow)')
    for c, f in facts(prog):
        if f is None:
            continue
        res.count('types')
        res.count('fields_written', len(f.writes))
        res.count('fields_read', len(f.reads))
        raises = [tuple(g for g in e.guards if not is_loop(g)) for e in f.wit.events if e.kind == 'raise']
        for r in f.reads:
            ws = [w for w in f.writes if key_match(w.key, r.key)]
            ident = f'{short(c.qual)}/{r.key}'
            where = r.loc
            if not ws:
                res.bad(f'unwritten:{short(c.qual)}:{r.key}', where,
                        f'{c.qual}: restoring asks for field "{r.key}" ({r.kind}) but saving never writes it',
                        [x.qual for x in r.stack])
                continue
            good = [w for w in ws if compatible(w.kind, r.kind)]
            rk = {x.kind for x in f.reads if x.key == r.key}
            if not good:
                res.bad(f'kind:{short(c.qual)}:{r.key}:{r.kind}', where,
                        f'{c.qual}: field "{r.key}" is saved as {sorted({w.kind for w in ws})} ({ws[0].loc}) but restored as {r.kind}',
                        [x.qual for x in r.stack])
                continue
            unread = [w for w in ws if not any(compatible(w.kind, k) for k in rk)]
            if unread:
                res.bad(f'kind:{short(c.qual)}:{r.key}:{unread[0].kind}', unread[0].loc,
                        f'{c.qual}: field "{r.key}" may be saved as {unread[0].kind} ({unread[0].loc}) but is only restored as {sorted(rk)}')
                continue
            if r.has_default:
                res.ok(f'{ident} ({r.kind}, fallback)')
                continue
            pair = [g for g in r.guards if _norm_lit(g)[1] and _norm_lit(g)[0][:2] == ('cmp', 'is') and
                    any(isinstance(x, tuple) and x and x[0] == 'skey' and x[1] == r.key for x in _norm_lit(g)[0][2:])]
            if pair and covers([w.guards for w in ws] + raises):
                res.ok(f'{ident} ({r.kind}, alternative of another kind of the same field)')
                continue
            correlated = any(g[0] and any(isinstance(x, tuple) and x and x[0] == 'skey' for x in subterms(g[0])) for g in r.guards)
            if correlated and not covers([w.guards for w in ws]):
                res.ok(f'{ident} ({r.kind}, read under a stored condition)')
                continue
            looped = r.loops and all(w.loops for w in good)
            if any(w.loops and not r.loops for w in good) and not any(not w.loops for w in good):
                res.bad(f'presence:{short(c.qual)}:{r.key}', where, f'{c.qual}: field "{r.key}" is only saved inside a loop ({good[0].loc}) but restored unconditionally without fallback')
                continue
            if covers([w.guards for w in good] + raises) or looped and covers([w.guards for w in good] + raises):
                res.ok(f'{ident} ({r.kind}) written at {good[0].loc}')
                continue
            res.bad(f'presence:{short(c.qual)}:{r.key}', where,
                    f'{c.qual}: field "{r.key}" is saved only under {[[("" if p else "not ") + show(t) for t, p in w.guards] for w in good]} '
                    f'({good[0].loc}) but restored without a fallback')
        for it in (f.wit, f.rit):
            for e in it.events:
                if e.kind != 'badcall' or any(x.name == 'serialize' for x in e.stack[1:] if it is f.rit):
                    continue
                fn = e.data['func_']
                res.bad(f'args:{short(c.qual)}:{fn.cls.name + "." if fn.cls else ""}{fn.name}', e.loc,
                        f'{c.qual}: restoring calls {fn.qual} with arguments it does not accept or without ones it needs: {", ".join(e.data["problem"])}',
                        [x.qual for x in e.stack])
        always = {w.key for w in f.writes if not [x for x in w.guards]}
        for e in f.rit.events:
            if e.kind != 'raise' or not any(x.name == '__init__' for x in e.stack):
                continue
            for g in e.guards[-1:]:
                if is_loop(g) or len(expand(g)) != 1:
                    continue
                for lit, pol in expand(g):
                    if pol or lit[:2] != ('cmp', 'is') or NONE not in lit[2:]:
                        continue
                    sk = lit[2] if lit[3] == NONE else lit[3]
                    if sk[0] == 'skey' and sk[1] in always:
                        res.bad(f'refused:{short(c.qual)}:{sk[1]}', e.loc, f'{c.qual}: restoring always hands over the saved "{sk[1]}", but the constructor '
                                f'refuses any value of it under {[show(x[0]) for x in e.guards if x is not g and not is_loop(x)]}', [x.qual for x in e.stack])
        # the restored thing must be of the type it was asked to restore
        vals = alts(f.rit.value)
        for v in vals:
            if v[0] in ('obj',):
                ok = prog.classes[v[1]].is_a(c)
                if ok:
                    res.ok()
                elif (short(c.qual), short(v[1])) in TYPE_ALIAS:
                    res.count('exempt')
                else:
                    res.bad(f'type:{short(c.qual)}', c.method('Deserialize').loc, f'{c.qual}: restoring yields a {short(v[1])}')
    backend(prog, res)
    res.floors = {'types': 200, 'fields_read': 600}
    return res


# ---------------------------------------------------------------- storage backend
def backend(prog, res):
    """Writer / reader pairs of the HDF backend agree on slot kind, name and width."""
    W = prog.cls('hermespy.core.factory.HDFSerializationProcess')
    R = prog.cls('hermespy.core.factory.HDFDeserializationProcess')
    widths = {'floating': 'float64', 'complex': 'complex128', 'integer': 'int64'}
    accept = {'floating': 'floating', 'complex': 'complexfloating', 'integer': 'integer'}
    conv = {'floating': 'float', 'complex': 'complex', 'integer': 'int'}
    for kind, width in widths.items():
        f = W.method('serialize_' + kind)
        g = R.method('deserialize_' + kind)
        if f is None or g is None:
            raise AnalysisBroken(f'backend method for {kind} vanished')
        it = Interp(prog, W)
        it.run(f)
        cr = [e for e in it.events if e.kind == 'call' and e.data['callee'][0] == 'attr' and e.data['callee'][2] in ('create', 'modify')]
        v, n = f.own_params()[:2]
        okw = any((e.args[0:1] == (('param', n),) or e.kwargs.get('name') == ('param', n)) and
                  ((e.args[1:2] == (('param', v),)) or e.kwargs.get('data') == ('param', v) or (len(e.args) > 1 and _plain(e.args[1], ('param', v)))) and
                  any(isinstance(t, tuple) and t[0] == 'ext' and t[1].endswith(width) for t in list(e.args[2:]) + [e.kwargs.get('dtype', NONE)])
                  for e in cr)
        if okw:
            res.ok(f'backend writes {kind} values as {width}')
        else:
            res.bad(f'backend:write:{kind}', f.loc, f'storage backend no longer writes {kind} fields under their own name with full {width} width')
        it = Interp(prog, R)
        fin, val, _ = it.run(g)
        ok = any(t[0] == 'call' and t[1] == ('builtin', conv[kind]) for t in alts(val))
        anyget = [e for e in it.events if e.kind == 'call' and e.data['callee'][0] == 'attr' and e.data['callee'][2] == 'get']
        okn = anyget and all(('param', g.own_params()[0]) in e.args for e in anyget)
        if ok and okn:
            res.ok(f'backend reads {kind} values by name')
        else:
            res.bad(f'backend:read:{kind}', g.loc, f'storage backend no longer reads {kind} fields back by their own name as {conv[kind]}')
    # element naming of sequences
    f, g = W.method('serialize_object_sequence'), R.method('deserialize_object_sequence')
    from .serial_facts import key_text
    fw = [key_text(e.args[1]) for e in _events(prog, W, f) if _callname(e) in ('serialize_object', '_serialize_object') and len(e.args) > 1]
    gr = [key_text(e.args[0]) for e in _events(prog, R, g) if _callname(e) in ('deserialize_object', '_deserialize_object') and e.args]
    if fw and gr and set(fw) & set(gr) and '{' in fw[0] and fw[0] == gr[0]:
        res.ok(f'backend sequence element name {fw[0]}')
    else:
        res.bad('backend:sequence', g.loc, f'storage backend writes sequence elements as {fw} but reads them as {gr}')
    # ranges
    f = prog.func('hermespy.core.factory.SerializationProcess.serialize_range')
    g = prog.func('hermespy.core.factory.DeserializationProcess.deserialize_range')
    fw = {(key_text_p(e.args[1], f.own_params()[1]), _rangepart(e.args[0], f.own_params()[0])) for e in _events(prog, W, f) if _callname(e) == 'serialize_floating'}
    it = Interp(prog, R, inline=lambda i, fn, s: fn.name not in ('deserialize_floating',))
    _, val, _ = it.run(g)
    rd = set()
    for a in alts(val):
        if a[0] == 'tuple' and len(a[1]) == 2:
            for i, x in enumerate(a[1]):
                for s in subterms(x):
                    if isinstance(s, tuple) and s and s[0] == 'call' and s[1][0] == 'bound' and s[1][2].endswith('deserialize_floating'):
                        rd.add((key_text_p(s[2][0], g.own_params()[0]), i))
        elif a[0] == 'call' and a[1][0] == 'bound':
            rd.add((key_text_p(a[2][0], g.own_params()[0]), None))
    if fw == rd and len(fw) == 3:
        res.ok(f'backend range parts {sorted(map(str, fw))}')
    else:
        res.bad('backend:range', g.loc, f'range limits are written as {sorted(map(str, fw))} but read as {sorted(map(str, rd))}')


def _plain(t, target):
    """t is target behind plain conversions only."""
    while t[0] == 'call' and t[1][0] in ('builtin', 'ext') and t[2]:
        t = t[2][0]
    return t == target


def key_text_p(t, pname):
    from .serial_facts import key_text
    if t == ('param', pname):
        return '<name>'
    if t[0] == 'fstr':
        return ''.join('<name>' if p[0] == 'fmt' and p[1] == ('param', pname) else str(p[1]) if p[0] == 'const' else '?' for p in t[1])
    if t[0] == 'bin' and t[1] == '+':
        return key_text_p(t[2], pname) + key_text_p(t[3], pname)
    if t[0] == 'const':
        return str(t[1])
    return '?'


def _rangepart(t, pname):
    for s in subterms(t):
        if isinstance(s, tuple) and s and s[0] == 'item' and s[1] == ('param', pname) and s[2][0] == 'const':
            return s[2][1]
    return None


def _events(prog, cls, f):
    it = Interp(prog, cls, inline=lambda i, fn, s: 'serialize' not in fn.name or fn.is_helper)
    it.run(f)
    return [e for e in it.events if e.kind == 'call']


def _callname(e):
    c = e.data['callee']
    if c[0] == 'bound':
        return c[2].split('.')[-1]
    if c[0] == 'attr':
        return c[2]
    return ''


# ---------------------------------------------------------------- S02
LOSSY = {'abs', 'real', 'imag', 'conj', 'conjugate', 'round', 'floor', 'ceil', 'rint', 'log', 'log10', 'log2', 'exp', 'sqrt', 'angle', 'sum', 'mean',
         'max', 'min', 'db2lin', 'lin2db', 'DbConversionType', 'norm', 'sin', 'cos', 'tan', 'deg2rad', 'rad2deg', 'flip',
         'invert', 'cumsum', 'diff', 'reciprocal', 'square', 'power', 'multiply', 'add', 'subtract', 'divide', 'clip', 'sign', 'trunc', 'fix',
         'radians', 'degrees'}
TRUNC = {'int'}


def callee_name(c):
    if not isinstance(c, tuple):
        return ''
    if c[0] in ('builtin', 'ext'):
        return c[1].split('.')[-1]
    if c[0] == 'attr':
        return c[2]
    if c[0] in ('bound', 'fn'):
        return c[2 if c[0] == 'bound' else 1].split('.')[-1]
    return ''


class Heap:
    """Heap index with, per object, the stored fields reachable below it."""

    def __init__(self, heap):
        self.ix = heap_index(heap)
        self.keys = {b: set() for b in self.ix}
        at = {b: frozenset().union(*[atoms(v) for _, v in vs]) for b, vs in self.ix.items()}
        changed = True
        while changed:
            changed = False
            for b, xs in at.items():
                new = set(self.keys[b])
                for x in xs:
                    if x[0] == 'skey':
                        new.add(x[1])
                    elif x in self.keys:
                        new |= self.keys[x]
                if len(new) != len(self.keys[b]):
                    self.keys[b] = new
                    changed = True
        self.cache = {}

    def below(self, t):
        """Names of all stored fields inside t, or inside objects t mentions."""
        out = set()
        for x in atoms(t):
            if x[0] == 'skey':
                out.add(x[1])
            elif x in self.keys:
                out |= self.keys[x]
        return out


def chains(t, target_pred, heap, seen=(), depth=0):
    """Yield the list of operations applied on every occurrence of the target inside t."""
    if depth > 12 or not any(target_pred(('skey', k)) for k in heap.below(t)):
        return
    if target_pred(t):
        yield ()
        return
    if not isinstance(t, (tuple, frozenset)) or not t:
        return
    if isinstance(t, frozenset):
        for x in t:
            yield from chains(x, target_pred, heap, seen, depth)
        return
    k = t[0]
    if not isinstance(k, str):
        for x in t:
            yield from chains(x, target_pred, heap, seen, depth)
        return
    if k == 'obj':
        if t in seen:
            return
        for n, v in heap.ix.get(t, ()):
            for ch in chains(v, target_pred, heap, seen + (t,), depth + 1):
                yield ch + (('in', n),)
        return
    if k in ('bin', 'aug'):
        for i, x in ((0, t[2]), (1, t[3])):
            for ch in chains(x, target_pred, heap, seen, depth + 1):
                yield ch + (('op', t[1], t[3] if i == 0 else t[2]),)
        return
    if k == 'un':
        for ch in chains(t[2], target_pred, heap, seen, depth + 1):
            yield ch + (('op', 'unary' + t[1], None),)
        return
    if k == 'item':
        for ch in chains(t[1], target_pred, heap, seen, depth + 1):
            yield ch + (('item', t[2]),)
        for ch in chains(t[2], target_pred, heap, seen, depth + 1):
            yield ch + (('asindex', None),)
        return
    if k == 'call':
        nm = callee_name(t[1])
        if isinstance(t[1], tuple) and t[1][0] in ('attr', 'bound'):
            for ch in chains(t[1][1], target_pred, heap, seen, depth + 1):
                yield ch + (('call', nm),)
        for a in list(t[2]) + [v for _, v in t[3]]:
            for ch in chains(a, target_pred, heap, seen, depth + 1):
                yield ch + (('call', nm),)
        return
    if k == 'dict':
        for kk, v in t[1]:
            for ch in chains(v, target_pred, heap, seen, depth + 1):
                yield ch + (('dict', kk),)
        return
    for x in t[1:]:
        if isinstance(x, (tuple, frozenset)):
            yield from chains(x, target_pred, heap, seen, depth + 1)


def simplify(ch):
    """Cancel inverse operation pairs and drop presentation steps."""
    out = []
    for s in ch:
        if s[0] == 'op':
            inv = {'*': ('/', '//'), '/': ('*',), '//': ('*',), '+': ('-',), '-': ('+',)}.get(s[1], ())
            if out and out[-1][0] == 'op' and out[-1][1] in inv and out[-1][2] == s[2]:
                out.pop()
                continue
            if out and out[-1][0] == 'op' and s[1] in ('unary-', 'unarynot') and out[-1][1] == s[1]:
                out.pop()
                continue
            out.append(s)
        elif s[0] == 'call' and s[1] in LOSSY:
            out.append(s)
        elif s[0] == 'asindex':
            out.append(s)
    return out


def normalized(ch, pred):
    """The only step is a scaling by a factor computed from the value itself: repeating it changes nothing."""
    return len(ch) == 1 and ch[0][0] == 'op' and ch[0][1] == '/' and ch[0][2] is not None and any(pred(x) for x in subterms(ch[0][2]) if isinstance(x, tuple) and x)


def nullable(prog, c, f):
    """Scalar fields saved without a presence test although their value may be None."""
    ws = [w for w in f.writes if w.kind in ('floating', 'complex', 'integer', 'string') and w.value is not None]
    if not ws:
        return
    init = c.method('__init__')
    if init is None:
        return
    it = Interp(prog, c)
    fin, _, _ = it.run(init)
    if fin is None:
        return
    for w in ws:
        v = w.value
        src = None
        if v == NONE:
            src = 'always'
        elif v[0] == 'attr' and v[1] == ('self',):
            h = fin.heap.get((('self',), v[2]))
            if h == NONE or (h is not None and h[0] == 'phi' and NONE in h[1]):
                src = 'as initialised'
            elif h is not None and h[0] == 'param' and ('none',) in it.ann_types(init.annotation_of(h[1]), init.module, init.cls):
                src = f'constructor parameter {h[1]}'
            else:
                src = setter_nullable(it, c, v[2])
        if src is None:
            continue
        if any(v in list(subterms(g[0])) for g in w.guards):
            continue
        yield w, src


def setter_nullable(it, c, slot):
    for cc in c.cmro:
        for name, m in list(cc.props.items()):
            st = getattr(m, 'setter', None)
            if st is None or len(st.params) < 2:
                continue
            if ('none',) not in it.ann_types(st.annotation_of(st.params[1]), st.module, st.cls):
                continue
            i2 = Interp(it.prog, c)
            fin, _, _ = i2.run(st)
            if fin is not None and fin.heap.get((('self',), slot)) == ('param', st.params[1]):
                return f'assigned through {name}'
    return None


def value_dependent(f):
    """Fields left out for some of their values, for which the restoring side falls back to another value."""
    for w in f.writes:
        if w.value is None or w.kind not in ('floating', 'complex', 'integer', 'string'):
            continue
        if covers([x.guards for x in f.writes if x.key == w.key]):
            continue
        rs = [r for r in f.reads if key_match(w.key, r.key) and r.has_default]
        vals = set(alts(w.value)) | {w.value}
        for g in w.guards:
            for lit, pol in expand(g):
                left_out = None
                if lit in vals:
                    left_out = ('', 0, False) if pol else ()
                    why = f'{show(lit)} is {"true" if pol else "false"}'
                elif lit[0] == 'cmp' and (lit[2] in vals or lit[3] in vals):
                    other = lit[3] if lit[2] in vals else lit[2]
                    if lit[1] in ('is', '==') and other[0] == 'const':
                        left_out = (other[1],) if not pol else None
                    else:
                        left_out = ()
                    why = f'{show(lit)} is {"true" if pol else "false"}'
                if left_out is None:
                    continue
                for r in rs:
                    d = r.default
                    if d[0] == 'const' and (d[1] in left_out and (d[1] is None) == (None in left_out)):
                        continue
                    if lit[0] == 'cmp' and lit[1] in ('is', '==') and d in (lit[2], lit[3]):
                        continue
                    yield w, r, why
                    break


def roundtrip(prog, c, f, o):
    st = f.rit.final.copy()
    g = SerialFacts.__new__(SerialFacts)
    g.prog, g.cls, g.writes, g.reads = prog, c, [], []
    it = Interp(prog, c, inline=g._policy, on_call=g._on_call, on_attr=g._on_attr)
    it.bound_methods.update(f.rit.bound_methods)
    it.closures.update(f.rit.closures)
    it.exact[o] = prog.classes[o[1]] if o[0] == 'obj' else c
    m = c.method('serialize')
    st.guards = ()
    fin, _, _ = it.run(m, {m.own_params()[0]: ('proc', '')}, self_term=o, state=st)
    return g.writes, (fin.heap if fin is not None else st.heap)


def s02(prog: Program, tier) -> Result:
    res = Result('S02', 'provenance composition: saving a freshly restored object writes under every field the value that was read from that same '
                        'field, without arithmetic, unit conversion, truncation or a narrower element type in between')
    for c, f in facts(prog):
        if f is None:
            continue
        for w, src in nullable(prog, c, f):
            res.bad(f'undefined:{short(c.qual)}:{w.key}', w.loc, f'{c.qual}: field "{w.key}" may be undefined (None, {src}) when it is saved as {w.kind}; '
                    'it would be restored as a different value', [x.qual for x in w.stack])
        for w, r, why in value_dependent(f):
            res.bad(f'conditional:{short(c.qual)}:{w.key}', w.loc, f'{c.qual}: field "{w.key}" is only saved if {why}; '
                    f'otherwise it is restored as {show(r.default)}, a different value', [x.qual for x in w.stack])
        if f.rit.final is None:
            res.bad(f'norestore:{short(c.qual)}', c.method('Deserialize').loc, f'{c.qual}: restoring never returns')
            continue
        res.count('types')
        for o in alts(f.rit.value):
            if o[0] != 'obj':
                continue
            writes, heap = roundtrip(prog, c, f, o)
            hp = Heap(heap)
            bykey = {}
            for w in writes:
                if w.value is not None:
                    bykey.setdefault(w.key, []).append(w)
            for k, ws in sorted(bykey.items()):
                if '{' in k:
                    continue
                if any((cc.name, k) in EXEMPT_FIELDS for cc in c.cmro):
                    res.count('exempt')
                    continue
                res.count('fields')
                pred = lambda t, k=k: isinstance(t, tuple) and len(t) > 1 and t[0] == 'skey' and key_match(k, t[1])
                found = []
                dirty = None
                for w in ws:
                    for a in alts(w.value):
                        if a == o:
                            a = heap.get((o, '@data'), a)
                        mine = []
                        for ch in chains(a, pred, hp, (o,)):
                            mine.append(ch)
                            if not simplify(ch):
                                break
                        found += mine
                        if mine and all(simplify(ch) and not normalized(simplify(ch), pred) for ch in mine):
                            dirty = dirty or (w, simplify(min(mine, key=lambda ch: len(simplify(ch)))))
                if not found:
                    others = sorted({s[1] for w in ws for s in atoms(w.value) if s[0] == 'skey'})
                    res.bad(f'lost:{short(c.qual)}:{k}', ws[0].loc,
                            f'{c.qual}: after restoring, field "{k}" holds {show(ws[0].value)}'
                            + (f' (taken from field {others})' if others else ' (not the stored value)'),
                            [x.qual for x in ws[0].stack])
                    continue
                simp = sorted({tuple(simplify(ch)) for ch in found}, key=len)
                if not any(len(s) == 0 for s in simp):
                    s = simp[0]
                    res.bad(f'altered:{short(c.qual)}:{k}', ws[0].loc,
                            f'{c.qual}: field "{k}" is not restored to the value it was saved from; it passes through '
                            f'{[x[1] for x in s]}', [x.qual for x in ws[0].stack])
                    continue
                if dirty:
                    res.bad(f'altered:{short(c.qual)}:{k}', dirty[0].loc, f'{c.qual}: in one of the cases saving distinguishes, field "{k}" is not restored to the value it was saved from; '
                            f'it passes through {[x[1] for x in dirty[1]]}', [x.qual for x in dirty[0].stack])
                    continue
                res.ok(f'{short(c.qual)}/{k}')
        # width of array elements
        for r in f.reads:
            if r.kind == 'array' and r.extra:
                fam = dtype_family(r.extra[0])
                ref = DTYPE.get(f'{short(c.qual)}/{r.key}')
                if ref is None or fam is None:
                    continue
                if KIND_RANK[fam] < KIND_RANK[ref]:
                    res.bad(f'narrow:{short(c.qual)}:{r.key}', r.loc, f'{c.qual}: array field "{r.key}" holds {ref} values but is restored as {fam}')
                else:
                    res.ok()
    res.floors = {'types': 200, 'fields': 600}
    return res


def dtype_family(t):
    n = t[1].split('.')[-1] if t[0] in ('ext', 'builtin') else ''
    if n.startswith('complex'):
        return 'complex' if n not in ('complex64',) else 'complex_narrow'
    if n.startswith('float') or n in ('double', 'floating'):
        return 'float' if n not in ('float16', 'float32') else 'float_narrow'
    if n.startswith(('int', 'uint')) or n == 'integer':
        return 'int'
    if n.startswith('bool'):
        return 'bool'
    return None


# ---------------------------------------------------------------- S03
def s03(prog: Program, tier) -> Result:
    res = Result('S03', 'for every constructor parameter of every serialisable type, the state it configures is fed from the archive again on restoring')
    for c, f in facts(prog):
        if f is None or f.rit.final is None:
            continue
        init = c.method('__init__')
        hx = heap_index(f.rit.final.heap)
        os_ = [o for o in alts(f.rit.value) if o[0] == 'obj']
        if not os_:
            continue
        res.count('types')
        if init is None:
            params = [n for n, _ in c.record_fields()]
            amap = {n: {(n,)} for n in params}
        else:
            it = Interp(prog, c)
            fin, _, _ = it.run(init)
            if fin is None:
                continue
            params = init.all_params()
            ix0 = heap_index(fin.heap)
            amap = {n: _slots(ix0, ('self',), ('param', n)) for n in params}
        written = {w.key for w in f.writes}
        for n in params:
            at = amap[n]
            if not at:
                continue
            res.count('parameters')
            ex = _exempt(c, n)
            ok = False
            for o in os_:
                for path in at:
                    if _reach_key(hx, o, path, written):
                        ok = True
            if ok:
                res.ok(f'{short(c.qual)}({n})')
            elif ex:
                res.count('exempt')
            else:
                res.bad(f'unsaved:{short(c.qual)}:{n}', c.method('Deserialize').loc,
                        f'{c.qual}: the value configured through constructor parameter "{n}" is not restored from the archive')
    res.floors = {'types': 200, 'parameters': 600}
    return res


def _exempt(c: Class, n):
    for cc in c.cmro:
        if (cc.name, n) in EXEMPT_PARAMS:
            return EXEMPT_PARAMS[(cc.name, n)]
    return EXEMPT_PARAMS.get(('*', n))


def heap_index(heap):
    ix = {}
    for (b, n), v in heap.items():
        ix.setdefault(b, []).append((n, v))
    return ix


def _slots(ix, root, target):
    """Attribute paths below root whose value derives from target (objects created meanwhile are followed)."""
    out = {}
    done = {}

    def rec(base, path):
        for n, v in ix.get(base, ()):
            at = atoms(v)
            if target in at:
                k = sum(1 for x in at if x[0] == 'param')
                out[path + (n,)] = min(k, out.get(path + (n,), k))
            for s in at:
                if s[0] == 'obj' and s != root and len(path) < 4 and done.get(s, 9) > len(path):
                    done[s] = len(path)
                    rec(s, path + (n,))
    rec(root, ())
    # the slots the target configures most directly, not those it only contributes to
    least = min(out.values(), default=0)
    return {p for p, k in out.items() if k == least}


def _reach_key(ix, o, path, written):
    """Does a field that saving writes reach the slot, or an object below it?"""
    def stored(s):
        return s[0] == 'skey' and any(key_match(w, s[1]) for w in written)
    bases = {o}
    for n in path:
        nxt = set()
        for b in bases:
            for nn, v in ix.get(b, ()):
                if nn != n:
                    continue
                for s in atoms(v):
                    if stored(s):
                        return True
                    if s[0] == 'obj' and s != o:
                        nxt.add(s)
        bases = nxt
    # below the last slot
    seen = {o}
    todo = list(bases)
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        for _, v in ix.get(b, ()):
            for s in atoms(v):
                if stored(s):
                    return True
                if s[0] == 'obj':
                    todo.append(s)
    return False


# ---------------------------------------------------------------- S04
def exported(prog):
    tops = [m for m in prog.modules.values() if m.is_pkg and m.name.count('.') == 1]

    def names(m, seen):
        out = set()
        if m.name in seen:
            return out
        seen.add(m.name)
        for n in m.scope:
            if n == '*':
                for b in m.scope['*']:
                    if b in prog.modules:
                        out |= names(prog.modules[b], seen)
                continue
            r = prog.resolve_name(m, n)
            if isinstance(r, Class):
                out.add(r)
        return out
    reach = set()
    for m in tops:
        reach |= names(m, set())
    return reach


def s04(prog: Program, tier) -> Result:
    res = Result('S04', 'every concrete serialisable type is visible to the tag registry (exported from its top level package) and its tag is unique')
    reach = exported(prog)
    tags = {}
    base = prog.func('hermespy.core.factory.Serializable.serialization_tag')
    for c, _ in facts(prog):
        if c.name in EXEMPT_TYPES:
            res.count('exempt')
            continue
        res.count('types')
        if c in reach:
            res.ok(c.qual)
        else:
            res.bad(f'unregistered:{short(c.qual)}', c.loc, f'{c.qual} can be saved but no top level package exports it, so the archive can neither write nor restore it')
        m = c.method('serialization_tag')
        tag = tag_of(prog, c, m)
        other = tags.setdefault(tag, c)
        if other is not c:
            res.bad(f'tag:{short(c.qual)}', m.loc, f'{c.qual} and {other.qual} share the archive tag {tag}')
        else:
            res.ok()
    f = prog.cls('hermespy.core.factory.Factory').method('__init__')
    if f is None:
        raise AnalysisBroken('tag registry constructor vanished')
    res.floors = {'types': 250}
    return res


def tag_of(prog, c, m):
    it = Interp(prog, c)
    _, val, _ = it.run(m)
    t = val

    def ev(t):
        if t[0] == 'const':
            return str(t[1])
        if t == ('attr', ('cls', c.qual), '__module__'):
            return c.module.name
        if t == ('attr', ('cls', c.qual), '__name__'):
            return c.name
        if t == ('attr', ('cls', c.qual), '__qualname__'):
            return c.qual[len(c.module.name) + 1:]
        if t[0] == 'bin' and t[1] == '+':
            return ev(t[2]) + ev(t[3])
        if t[0] == 'fstr':
            return ''.join(ev(p[1]) if p[0] == 'fmt' else str(p[1]) for p in t[1])
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'join' and t[2] and t[2][0][0] in ('tuple', 'list'):
            return ev(t[1][1]).join(ev(x) for x in t[2][0][1])
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'format':
            s = ev(t[1][1])
            for a in t[2]:
                s = s.replace('{}', ev(a), 1)
            return s
        return c.qual
    return ev(t)
