"""Parameters take effect (K01) and reach what they are meant for (K02)."""
from __future__ import annotations
import ast
from ..model import Program, Func, Class
from ..absint import NONE, alts, show, subterms
from ..facts import facts
from ..report import Result
from .purity import demangle
from .options_reviewed import UNUSED

CHECKS = {'isinstance', 'issubclass', 'len', 'callable', 'hasattr', 'any', 'all', 'type', 'print'}


def stub(f: Func) -> bool:
    """The body does nothing: a declaration."""
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return not body or all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


def raising(body) -> bool:
    return bool(body) and all(isinstance(s, (ast.Raise, ast.Pass, ast.Assert)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or
                              isinstance(s, ast.If) and raising(s.body) and (not s.orelse or raising(s.orelse)) for s in body)


def consumed(F, f: Func, skip: bool = False) -> set:
    """Parameters whose value flows into a result, an effect or the decision between effects."""
    it, fin, val = F.of(f)
    names = set(f.params) | set(f.kwonly) | {x for x in (f.vararg, f.kwarg) if x}
    out = set()
    seen = set()

    def take(t):
        if not isinstance(t, tuple) or id(t) in seen:
            return
        seen.add(id(t))
        keep.append(t)
        for x in subterms(t):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == 'param' and isinstance(x[1], str):
                out.add(x[1].split(':')[-1].lstrip('*'))

    keep = []
    for e in it.events:
        k = e.kind
        d = e.data
        if k in ('return', 'yield', 'with') and d.get('value') is not None:
            take(d['value'])
        elif k == 'setattr' and skip and d.get('base') == ('self',):
            continue
        elif k in ('setattr', 'setitem', 'setprop', 'aug', 'delitem'):
            for q in ('value', 'base', 'index'):
                if d.get(q) is not None:
                    take(d[q])
        elif k == 'iter':
            take(d['iterable'])
        elif k in ('call', 'new'):
            c = d.get('callee')
            if c is not None and c[0] == 'builtin' and (c[1] in CHECKS or c[1].endswith(('Error', 'Warning', 'Exception'))):
                continue
            if c is not None and c[0] == 'ext' and c[1].split('.')[-1] in ('any', 'all', 'warn', 'isnan', 'isinf'):
                continue
            for a in d.get('args', ()):
                take(a)
            for a in d.get('kwargs', {}).values():
                take(a)
            if d.get('recv') is not None:
                take(d['recv'])
            if c is not None and c[0] in ('param', 'item', 'attr', 'elem', 'phi'):
                take(c)
    if val is not None:
        take(val)
    out |= decisions(f, names)
    return out & names


def decisions(f: Func, names) -> set:
    """Parameters deciding between effects (conditions which do more than reject a value)."""
    out = set()
    origin = {n: {n} for n in names}      # local variable -> parameters it was computed from

    def loads(e):
        r = set()
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                r |= origin.get(x.id, set())
        return r

    for _ in range(3):
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and x.value is not None:
                tg = x.targets if isinstance(x, ast.Assign) else [x.target]
                for t in tg:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name) and y.id not in names:
                            origin.setdefault(y.id, set()).update(loads(x.value))

    def only(body, n):
        """Statements which merely complete or reject the parameter itself."""
        return all(isinstance(s, (ast.Raise, ast.Pass)) or isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) and t.id == n for t in s.targets) or
                   isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or
                   isinstance(s, ast.If) and only(s.body, n) and only(s.orelse, n) for s in body)

    def flags(e):
        """Names used as a truth value."""
        if isinstance(e, ast.Name):
            return origin.get(e.id, set())
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return flags(e.operand)
        if isinstance(e, ast.BoolOp):
            return set().union(*[flags(v) for v in e.values])
        return set()

    for x in ast.walk(f.node):
        if isinstance(x, ast.If):
            fl = flags(x.test)
            for n in loads(x.test):
                if n in fl or not (only(x.body, n) and only(x.orelse, n)):
                    out.add(n)
        elif isinstance(x, ast.While):
            out |= loads(x.test)
        elif isinstance(x, ast.IfExp):
            out |= loads(x.test)
        elif isinstance(x, ast.comprehension):
            for c in x.ifs:
                out |= loads(c)
        elif isinstance(x, ast.Match):
            out |= loads(x.subject)
        elif isinstance(x, ast.FunctionDef) and x is not f.node or isinstance(x, ast.Lambda):
            for b in (x.body if isinstance(x, ast.FunctionDef) else [x.body]):
                out |= loads(b)
    return out & set(names)


# ---------------------------------------------------------------------------------------------------------------- functions

def functions(prog: Program):
    """Every implemented function with parameters, nested functions excluded."""
    for f in prog.all_funcs():
        if f.overload or '<locals>' in f.qual or '<lambda>' in f.qual or f.abstract or stub(f):
            continue
        if f.kind in ('getter', 'deleter') or f.name.startswith('__') and f.name not in ('__init__', '__new__', '__call__', '__getitem__', '__setitem__'):
            continue
        if any(isinstance(x, ast.Name) and x.id == 'locals' for x in ast.walk(f.node)):
            continue
        yield f


def own(f: Func):
    names = list(f.params) + list(f.kwonly)
    if f.kind in ('method', 'classmethod', 'setter') or f.name == '__new__':
        names = names[1:]
    return [n for n in names if not n.startswith('_')]


def short(f: Func) -> str:
    return f'{f.cls.name}.{f.node.name}' if f.cls else f'{f.module.name.split(".")[-1]}.{f.name}'


def bare(f: Func) -> str:
    """Name of a function as written."""
    return f.node.name


def bound(e):
    """Parameters of the callee an invocation supplies -> values; whether it unpacks an argument list."""
    g = e.data['func_']
    names = list(g.params)
    if e.kind == 'new' or g.name in ('__init__', '__new__') and e.data.get('recv') is not None:
        names = names[1:]
    elif names and g.kind in ('method', 'setter', 'getter') and e.data.get('recv') is not None:
        names = names[1:]
    elif names and g.kind == 'classmethod':
        names = names[1:]
    out, star = {}, False
    rest = list(e.args)
    for n in names:
        if not rest:
            break
        if rest[0][0] == 'star':
            star = True
            break
        out[n] = rest.pop(0)
    for k, v in e.kwargs.items():
        if k == '**':
            star = True
        else:
            out[k] = v
    return out, star


# Options the implementation does not need although it accepts one of the same name; reviewed one by one.
NOT_FORWARDED = {
    ('Logarithmic.From_Tuple', 'Logarithmic.__new__', 'conversion'): 'the linear value is already converted',
    ('DuplexJCASOperator.__init__', 'TransmittingModemBase.__init__', 'waveform'): 'attached by the waveform setter after all bases are initialized',
    ('DuplexJCASOperator.__init__', 'ReceivingModemBase.__init__', 'waveform'): 'attached by the waveform setter after all bases are initialized',
    ('DuplexJCASOperator.__init__', 'TransmittingModemBase.__init__', 'seed'): 'the shared random node is seeded by the last base',
    ('DuplexJCASOperator.__init__', 'ReceivingModemBase.__init__', 'seed'): 'the shared random node is seeded by the last base',
}


def delegates(f: Func, g: Func, kind: str) -> bool:
    """f implements its operation by handing it to g: overloads, hidden implementations, base constructors, factories."""
    if f is g:
        return False
    if f.name.strip('_') == g.name.strip('_'):
        return f.name not in ('__init__', '__new__') or kind == 'call' and f.cls is not None and g.cls is not None and f.cls.is_a(g.cls)
    if g.name in ('__init__', '__new__') and g.cls is not None and f.cls is not None:
        return not f.name.startswith('_') and f.kind in ('classmethod', 'staticmethod') and (f.cls is g.cls or f.cls.is_a(g.cls))
    return False


def forwarded(prog, R, F):
    for f in functions(prog):
        mine = {n for n in own(f) if n in consumed(F, f)}
        if not mine:
            continue
        calls: dict = {}
        for e in F.of(f)[0].events:
            if e.kind in ('call', 'new') and e.data.get('func_') is not None and delegates(f, e.data['func_'], e.kind):
                calls.setdefault(e.data['func_'], []).append(e)
        for g, evs in calls.items():
            b = [bound(e) for e in evs]
            if any(s for _, s in b):
                continue
            for p in list(g.params) + list(g.kwonly):
                if p not in mine or g.default_of(p) is None:
                    continue
                R.count('forwarded_options')
                if any(p in x for x, _ in b) or (short(f), short(g), p) in NOT_FORWARDED:
                    R.ok(f'{short(f)} hands {p} to {short(g)}')
                    continue
                # the value may still arrive through a derived argument
                if any(mentions(v, p) for x, _ in b for v in x.values()):
                    R.ok()
                    continue
                R.bad(f'{short(f)}->{short(g)}:{p}', evs[0].loc, f'{f.qual} accepts the option {p} but its implementation {g.qual} is called without it and uses its default instead')


def mentions(t, p) -> bool:
    return any(isinstance(x, tuple) and len(x) == 2 and x[0] == 'param' and isinstance(x[1], str) and x[1].split(':')[-1] == p for x in subterms(t))


# ---------------------------------------------------------------------------------------------------------------- settings

BOOKKEEPING = ('serialize', 'Deserialize', '__repr__', '__str__', '__getstate__', '__setstate__', '__eq__', '__hash__', '__reduce__')


def settings(prog, R, F):
    """Attributes holding a configured value which nothing but their own accessors ever reads."""
    stored: dict = {}       # (class, attribute) -> [(func, parameter, loc)]
    others: set = set()     # (func, parameter) consumed by something else than being stored in an attribute of the object
    for c in prog.classes.values():
        fs = [m for m in c.methods.values() if m.name == '__init__'] + [p.setter for p in c.props.values() if p.setter]
        for f in fs:
            if stub(f) or f.abstract:
                continue
            it = F.of(f)[0]
            names = [n for n in own(f) if not any(isinstance(k, Class) and not k.is_enum for k in it.classes_of(('param', n), None))]
            for e in it.events:
                if e.kind == 'setattr' and e.data['base'] == ('self',) and e.data['name'].startswith('_') and e.func is f:
                    for n in names:
                        if mentions(e.data['value'], n):
                            stored.setdefault((c, e.data['name']), []).append((f, n, e.loc))
            for n in consumed(F, f, skip=True):
                others.add((f, n))
    loads: dict = {}        # attribute -> functions loading it
    uses: dict = {}         # property name -> [(function, owning class of the property or None when the object is unknown)]
    for f in prog.all_funcs():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                loads.setdefault(f.cls.mangle(x.attr) if f.cls else x.attr, set()).add(f)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('getattr', 'setattr', 'hasattr') and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                loads.setdefault(x.args[1].value, set()).add(f)
                uses.setdefault(x.args[1].value, []).append((f, None))
        if f.overload:
            continue
        it = F.of(f)[0]
        for e in it.events:
            if e.kind != 'read':
                continue
            m = e.data.get('prop')
            if m is not None:
                uses.setdefault(e.data['name'], []).append((f, m.getter.cls if m.getter else None))
            elif not it.classes_of(e.data['base'], None):
                uses.setdefault(e.data['name'], []).append((f, None))
    dead: dict = {}
    for (c, a), sites in stored.items():
        R.count('settings')
        rd = loads.get(a, set())
        live = [g for g in rd if g.kind not in ('getter', 'setter') and g.name not in BOOKKEEPING]
        getters = {g for g in rd if g.kind == 'getter'}
        if not live:
            for g in getters:
                for h, owner in uses.get(g.name, ()):
                    if h is g or h.name in BOOKKEEPING or h.kind == 'setter' and h.name == g.name:
                        continue
                    if owner is None or g.cls is None or owner.is_a(g.cls) or g.cls.is_a(owner) or any(k.is_a(owner) for k in prog.classes.values() if k.is_a(g.cls)):
                        live.append(h)
                        break
        if live:
            R.ok(f'{c.name}.{demangle(a)} is read by {short(live[0])}')
        else:
            dead[(c, a)] = (sites, getters)
    used = {(f, n) for k, sites in stored.items() if k not in dead for f, n, _ in sites} | others
    for (c, a), (sites, getters) in dead.items():
        left = [x for x in sites if (x[0], x[1]) not in used]
        if not left or (c.name, demangle(a)) in RECORDS:
            R.ok()
            continue
        f, n, loc = left[0]
        R.bad(f'{c.name}.{demangle(a)}', loc, f'{f.qual} stores {n} as {demangle(a)} but no operation of the library ever reads it' + (f' (property {sorted(g.name for g in getters)[0]})' if getters else ''))


# Stored values whose getter is the purpose of the class: records handed to the user.
RECORDS = {
    ('SionnaRTChannelRealization', 'scene_file'): 'needed to restore the scene',
    ('EvaluatedDrop', 'artifacts'): 'result record',
    ('MonteCarloSample', 'sample_index'): 'result record',
    ('SimulatedDrop', 'channel_realizations'): 'result record',
    ('PointDetection', 'velocity'): 'result record',
    ('PointDetection', 'power'): 'result record',
    ('SignalReceiver', 'expected_power'): 'reported to signal-to-noise ratio definitions through the power property',
    ('EvaluatorRegistration', 'plot_mode'): 'registration record',
    ('Calibration', 'transamit_ports'): 'reported to callers',
}


def overloads(prog, R):
    """Keywords declared by an overload are not swallowed by the catch-all of the implementation."""
    for c, name, fs in [(c, n, fs) for c in prog.classes.values() for n, fs in c.overloads.items()]:
        m = c.module
        g = c.methods.get(name)
        if g is None or g.overload or not g.kwarg:
            continue
        read, passed = set(), False
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call) and any(k.arg is None and isinstance(k.value, ast.Name) and k.value.id == g.kwarg for k in x.keywords):
                passed = True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == g.kwarg and x.args \
                    and isinstance(x.args[0], ast.Constant):
                read.add(x.args[0].value)
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == g.kwarg and isinstance(x.slice, ast.Constant):
                read.add(x.slice.value)
            if isinstance(x, (ast.Call, ast.For, ast.comprehension, ast.Assign, ast.Return)) and any(
                    isinstance(y, ast.Name) and y.id == g.kwarg for y in ([*x.args] if isinstance(x, ast.Call) else [x.iter] if not isinstance(x, (ast.Assign, ast.Return)) else [x.value])):
                passed = True       # the mapping as a whole goes somewhere
        for f in fs:
            for p in f.own_params() + f.kwonly:
                if p in g.params or p in g.kwonly:
                    continue
                R.count('overloaded keywords')
                if passed or p in read:
                    R.ok(f'{short(g)}:{p}')
                else:
                    R.bad(f'{short(g)}:overload:{p}', f'{m.path}:{f.node.lineno}', f'{g.qual} declares the keyword {p} but ignores it')


def k01(prog: Program, tier: str) -> Result:
    R = Result('K01', 'every parameter of every implemented function flows into a result, an effect or a decision; options of a function that '
                      'delegates to another one are handed on; values stored by constructors and setters are read by something else than their own getter')
    R.assumptions = ['parameters listed in options_reviewed.py were reviewed not to influence their implementation by design']
    F = facts(prog)
    for f in functions(prog):
        names = own(f)
        if not names:
            continue
        c = consumed(F, f)
        if f.is_helper:
            # rejecting a value may be all a part of an implementation is for
            c = c | {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        R.count('functions')
        for n in names:
            R.count('parameters')
            if n in c:
                R.ok(f'{short(f)}:{n}')
            elif f.cls is not None and f.cls.name in UNUSED.get((bare(f), n), ()):
                R.ok()
                R.count('reviewed')
            else:
                R.bad(f'{short(f)}:{n}', f.loc if hasattr(f, 'loc') else f'{f.module.path}:{f.node.lineno}', f'{f.qual} accepts {n} but nothing it does depends on it')
    forwarded(prog, R, F)
    settings(prog, R, F)
    overloads(prog, R)
    R.floors = {'parameters': 2000, 'forwarded_options': 100}
    return R


# ---------------------------------------------------------------------------------------------------------------- roles

PAIRS = [('transmit', 'receive'), ('transmitter', 'receiver'), ('transmitting', 'receiving'), ('transmitted', 'received'), ('tx', 'rx'), ('alpha', 'beta'),
         ('azimuth', 'zenith'), ('azimuth', 'elevation'), ('arrival', 'departure'), ('samples', 'streams'), ('min', 'max'), ('minimum', 'maximum'), ('minimal', 'maximal'),
         ('lower', 'upper'), ('start', 'stop'), ('start', 'end'), ('initial', 'final'), ('mean', 'std'), ('real', 'imag'), ('code', 'data'), ('input', 'output'),
         ('first', 'second'), ('row', 'column'), ('rows', 'columns'), ('horizontal', 'vertical'), ('aoa', 'aod'), ('zoa', 'zod'), ('symbols', 'blocks'),
         ('transmission', 'reception'), ('transmissions', 'receptions'), ('bandwidth', 'sampling'), ('uplink', 'downlink'), ('local', 'global'), ('rms', 'mean'),
         ('encoder', 'decoder'), ('encode', 'decode'), ('modulate', 'demodulate'), ('forwards', 'backwards'), ('forward', 'backward'), ('lo', 'rf')]
OPPOSITE: dict = {}
for _a, _b in PAIRS:
    OPPOSITE.setdefault(_a, set()).add(_b)
    OPPOSITE.setdefault(_b, set()).add(_a)

# Deliberate uses of a value under the name of another role; reviewed one by one: (class, callee, parameter, name of the value)
ROLES = {
    ('ClusterDelayLineSample', 'ClusterDelayLineSample.__init__', p, q): 'the reciprocal channel swaps both link ends'
    for a, b in (('arrival', 'departure'), ('departure', 'arrival')) for p, q in ((f'azimuth_of_{a}', f'azimuth_of_{b}'), (f'zenith_of_{a}', f'zenith_of_{b}'))
}
ROLES.update({
    ('SparseSignal', 'SignalBlock.superimpose_to', 'target_carrier_frequency', 'carrier_frequency'): 'the superimposed signal is mixed to the frequency of this one',
    ('SparseSignal', 'SignalBlock.__new__', 'offset', 'num_samples'): 'the appended block starts after the last sample',
})
GENERIC = ('value', 'name')      # names that do not state a role


def tail(t):
    """Name a value is known by: of a parameter, an attribute or a property."""
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == 'param' and isinstance(t[1], str):
        return t[1].split(':')[-1].lstrip('*')
    if t[0] == 'attr':
        return demangle(t[2]).lstrip('_')
    return None


def opposite(n, p):
    """Two names which differ only in naming opposite roles."""
    a, b = n.lower().split('_'), p.lower().split('_')
    if len(a) != len(b):
        return False
    d = [(x, y) for x, y in zip(a, b) if x != y]
    return len(d) >= 1 and all(y in OPPOSITE.get(x, ()) for x, y in d)


ENDS = {w: r for r, ws in {'transmitter': 'transmit transmitter transmitting transmitters tx', 'receiver': 'receive receiver receiving receivers rx',
                           'arrival': 'arrival aoa zoa', 'departure': 'departure aod zod', 'azimuth': 'azimuth', 'zenith': 'zenith elevation'}.items() for w in ws.split()}


def ends(n):
    return {ENDS[w] for w in n.lower().split('_') if w in ENDS}


def other_end(n, p):
    """Names of the two ends of a link, whatever else they say."""
    a, b = ends(n), ends(p)
    return len(a) == 1 and len(b) == 1 and not a & b and any(y in OPPOSITE.get(x, ()) for x in a for y in b)


def local_names(e, b):
    """Parameters of the callee given by a local variable -> its name."""
    n = e.node
    if not isinstance(n, ast.Call):
        return {}
    out = {k.arg: k.value.id for k in n.keywords if k.arg and isinstance(k.value, ast.Name) and k.value.id not in ('self', 'cls')}
    if len(n.args) == len(e.args) and not any(isinstance(a, ast.Starred) for a in n.args):
        for p, a in zip(b, n.args):
            if isinstance(a, ast.Name) and a.id not in ('self', 'cls'):
                out.setdefault(p, a.id)
    return out


# Vectors of spherical angles, azimuth first: results of functions, and rows of arrays.
SPHERICAL = ('to_spherical', 'spherical_angles')
SPHERICAL_ROWS = ('angle_bins', 'focus_angles', 'probe_focus_points', 'receive_angles', 'transmit_angles')


def angles(t, rows=False, F=None, depth=0) -> bool:
    """Is a value a vector (an array of vectors) of azimuth and zenith?"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 'phi':
        return any(angles(x, rows, F, depth) for x in t[1])
    if t[0] == 'call' and len(t) > 2:
        n = t[1][2].split('.')[-1] if t[1][0] in ('attr', 'bound') and isinstance(t[1][2], str) else ''
        return n in SPHERICAL and not rows
    if rows and tail(t) in SPHERICAL_ROWS:
        return True
    if rows and t[0] == 'item':
        if t[1][0] == 'call' and t[2][0] == 'const' and F is not None and depth < 3:
            # one of several results of a function
            val = F(t[1][1])
            return val is not None and any(angles(x[1][t[2][1]], True, F, depth + 1) for x in alts(val)
                                           if x[0] == 'tuple' and isinstance(t[2][1], int) and t[2][1] < len(x[1]))
        # all angles of one of several focus points
        return t[2][0] == 'tuple' and len(t[2][1]) == 3 and t[2][1][-1][0] == 'slice' and tail(t[1]) == 'probe_focus_points'
    if rows:
        return False
    if t[0] == 'elem':
        return angles(t[1], True, F, depth)
    if t[0] == 'item' and angles(t[1], True, F, depth):
        return t[2][0] != 'slice' and not (t[2][0] == 'tuple' and t[2][1] and t[2][1][-1][0] == 'const')
    return False


def component(t, F=None):
    """Role of a component of a vector of spherical angles."""
    if not isinstance(t, tuple) or len(t) != 3 or t[0] != 'item':
        return None
    i = t[2]
    if i[0] == 'tuple' and len(i[1]) > 1 and angles(t[1], True, F):
        i = i[1][-1]
    elif not angles(t[1], False, F):
        return None
    return {0: 'azimuth', 1: 'zenith', -1: 'zenith', -2: 'azimuth'}.get(i[1]) if i[0] == 'const' else None


def misplaced(t, name, F=None) -> bool:
    r = component(t, F)
    w = name.lower().split('_')
    return r is not None and r not in w and any(x in OPPOSITE.get(r, ()) for x in w) and not (r == 'zenith' and 'elevation' in w)


def crossed(prog, R, F):
    for f in prog.all_funcs():
        if f.overload:
            continue
        it = F.of(f)[0]

        def result(c, it=it):
            g = it._bound_func(c) if c[0] == 'bound' else it.bound_methods.get(c[1]) if c[0] == 'fn' else None
            return F.of(g)[2] if g is not None else None

        for e in it.events:
            d = e.data
            if e.kind in ('local', 'setattr', 'setprop') and component(d['value'], result):
                R.count('angles')
                if misplaced(d['value'], demangle(d['name']), result):
                    R.bad(f'{short(f)}={component(d["value"], result)}', e.loc, f'{f.qual} stores the {component(d["value"], result)} {show(d["value"])} as {demangle(d["name"])}')
            if e.kind in ('setattr', 'setprop'):
                m = demangle(d['name']).lstrip('_')
                t = tail(d['value'])
                R.count('stores')
                given = set(f.params) | set(f.kwonly)
                x = e.node.value if isinstance(e.node, ast.Assign) else None
                if e.kind == 'setattr' and d.get('base') == ('self',) and f.cls is not None and f.name.startswith('_') and isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) \
                        and x.value.id == 'self' and f.cls.prop(x.attr) is None and demangle(x.attr).lstrip('_') != m and any(not k.is_enum for k in it.classes_of(d['value'])):
                    R.bad(f'{short(f)}={m}:{demangle(x.attr).lstrip("_")}', e.loc, f'{f.qual} stores the object kept as {demangle(x.attr)} as {m} as well')
                if t and tail(d.get('base')) is None and (opposite(t, m) or d['value'][0] == 'param' and t != m and m in given and t in given):
                    R.bad(f'{short(f)}={m}:{t}', e.loc, f'{f.qual} stores {show(d["value"])} as {m}')
                continue
            if e.kind == 'badcall':
                R.bad(f'{short(f)}->{short(d["func_"])}', e.loc, f'{f.qual} invokes {d["func_"].qual} with arguments it does not accept: {d["problem"]}')
                continue
            if e.kind not in ('call', 'new') or d.get('func_') is None:
                continue
            g = d['func_']
            b, star = bound(e)
            R.count('invocations')
            ps = set(g.params) | set(g.kwonly)
            ln = local_names(e, b)
            for p, v in b.items():
                R.count('arguments')
                t = tail(v) or ln.get(p)
                why = None
                if component(v, result):
                    R.count('angles')
                    if misplaced(v, p, result):
                        why = f'the {component(v, result)} {show(v)} is passed as {p}'
                if t and t != p and t not in GENERIC:
                    if t in ps and (tail(b.get(t)) or ln.get(t)) != t:
                        why = f'{show(v)} is passed as {p} although there is a parameter {t}' + (f', which is given {show(b[t])}' if t in b else '')
                    elif (opposite(t, p) or other_end(t, p)) and (tail(v) or t not in ('input', 'output') and not t.startswith('local_')):
                        why = f'{show(v)} is passed as {p}'
                if why and (f.cls.name if f.cls else '', short(g), p, t) not in ROLES:
                    R.bad(f'{short(f)}->{short(g)}:{p}', e.loc, f'{f.qual} invoking {g.qual}: {why}')
                else:
                    R.ok()




# ---------------------------------------------------------------------------------------------------------------- catch-alls

def positions(prog, R):
    """Implementations of overloads that pick their arguments from a catch-all pick the argument the overload declares at that place."""
    for c, name, fs in [(c, n, fs) for c in prog.classes.values() for n, fs in c.overloads.items()]:
        g = c.methods.get(name)
        if g is None or g.overload or not g.vararg or not g.kwarg:
            continue
        first = len(g.own_params())
        declared = [f.own_params() for f in fs]
        for block in blocks(g.node):
            picked = []
            for x in (y for st in block if not hasattr(st, 'body') for y in ast.walk(st)):
                if not isinstance(x, ast.IfExp):
                    continue
                at = [y.slice.value for y in ast.walk(x) if isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name) and y.value.id == g.vararg and isinstance(y.slice, ast.Constant)]
                at += [y.comparators[0].value for y in ast.walk(x.test) if isinstance(y, ast.Compare) and len(y.ops) == 1 and isinstance(y.ops[0], ast.Gt)
                       and isinstance(y.comparators[0], ast.Constant) and isinstance(y.left, ast.Call) and any(isinstance(z, ast.Name) and z.id == g.vararg for z in y.left.args)]
                keys = [y.args[0].value for y in ast.walk(x) if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name)
                        and y.func.value.id == g.kwarg and y.args and isinstance(y.args[0], ast.Constant)]
                if at and keys:
                    picked.append((set(at), set(keys), x))
            fit = [d for d in declared if all(all(first + a < len(d) and d[first + a] in k for a in at) and len(k) == 1 for at, k, x in picked)]
            for at, k, x in picked:
                R.count('picked_arguments')
                if fit:
                    R.ok(f'{short(g)}:{sorted(k)[0]}')
                else:
                    R.bad(f'{short(g)}:position:{sorted(k)[0]}', f'{g.module.path}:{x.lineno}',
                          f'{g.qual} takes the keyword {sorted(k)[0]} or positional argument {first + min(at)}, but no overload declares all arguments picked here at these places')


def blocks(node):
    for x in ast.walk(node):
        for n in ('body', 'orelse', 'finalbody'):
            b = getattr(x, n, None)
            if isinstance(b, list):
                yield b


# ---------------------------------------------------------------------------------------------------------------- overrides

def conformance(prog, R):
    """A method may be used through its base class: same arguments at the same places, with the same defaults."""
    for c in prog.classes.values():
        for name, m in c.methods.items():
            if name.startswith('__') or m.overload:
                continue
            for b in c.cmro[1:]:
                g = b.methods.get(name)
                if g is None or g.overload or name.startswith('_' + b.name.lstrip('_') + '__'):
                    continue
                R.count('overrides')
                mp = m.own_params() if m.kind != 'staticmethod' else m.params
                gp = g.own_params() if g.kind != 'staticmethod' else g.params
                pr = []
                for i, p in enumerate(gp):
                    if i < len(mp):
                        if mp[i] != p and (p in mp or mp[i] in gp):
                            pr.append((p, f'takes {mp[i]} where the base class takes {p}'))
                        gd, md = g.default_of(p), m.default_of(mp[i])
                        if gd is not None and md is None:
                            pr.append((p, f'requires {p}, which is optional in the base class'))
                        elif gd is not None and isinstance(gd, ast.Constant) and isinstance(md, ast.Constant) and gd.value != md.value:
                            pr.append((p, f'defaults {p} to {md.value!r}, the base class to {gd.value!r}'))
                    elif not m.vararg and p not in m.kwonly:
                        pr.append((p, f'does not accept {p}'))
                for p in mp[len(gp):]:
                    if m.default_of(p) is None and not g.vararg and p not in g.kwonly and p not in gp:
                        pr.append((p, f'requires the additional argument {p}'))
                for p in g.kwonly:
                    if p not in m.kwonly + mp and not m.kwarg:
                        pr.append((p, f'does not accept {p}'))
                for p, why in pr:
                    R.bad(f'{c.name}.{name}:{p}', f'{m.module.path}:{m.node.lineno}', f'{m.qual} overriding {g.qual} {why}')
                if not pr:
                    R.ok(f'{c.name}.{name} is compatible with {b.name}.{name}')


def k02(prog: Program, tier: str) -> Result:
    R = Result('K02', 'no invocation or assignment hands a value known by one name to a parameter or attribute of another role; '
                      'overriding methods accept the arguments of the method they override')
    R.assumptions = ['values keep the role their parameter or attribute name states']
    F = facts(prog)
    crossed(prog, R, F)
    conformance(prog, R)
    positions(prog, R)
    R.floors = {'arguments': 5000, 'overrides': 400}
    return R
