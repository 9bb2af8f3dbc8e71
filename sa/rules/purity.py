"""Effects on values that are handed around: inputs (A01) and data objects (A02)."""
from __future__ import annotations
from ..model import Program, Func, Class, AnalysisBroken
from ..absint import NONE, show
from ..facts import facts
from ..effects import Summaries
from ..report import Result

# Families of values exchanged between components.  Everything derived from these is a value as well.
VALUE_BASES = ('Signal', 'SignalBlock', 'State', 'ChannelRealization', 'ChannelSample', 'ChannelStateInformation', 'DeviceInput', 'DeviceOutput',
               'Transmission', 'Reception', 'TriggerRealization', 'NoiseRealization', 'Symbols', 'StatedSymbols', 'Evaluation', 'Artifact', 'RadarCube',
               'PointDetection', 'RadarPointCloud', 'Drop', 'RandomRealization', 'PhaseNoiseRealization', 'Direction', 'ConsistentRealization',
               'LinkState', 'Transformation', 'GridSample', 'DeviceFrame')
VALUE_SUFFIX = ('Realization', 'Sample', 'Evaluation', 'Artifact', 'Transmission', 'Reception', 'Input', 'Output', 'Frame', 'State', 'Realizations', 'Result')


class Values:
    def __init__(self, prog: Program):
        self.prog = prog
        bases = [c for c in prog.classes.values() if c.name in VALUE_BASES]
        self.cls = {c for c in prog.classes.values() if 'numpy.ndarray' in c.mro or any(c is b or c.is_a(b) for b in bases) or c.name.endswith(VALUE_SUFFIX)}

    def is_value(self, ty, depth=0) -> bool:
        """The type is (a container of) an exchanged value."""
        if isinstance(ty, Class):
            return ty in self.cls
        if not isinstance(ty, tuple) or not ty or depth > 4:
            return False
        if ty[0] == 'ext':
            return ty[1].split('.')[-1] in ('ndarray', 'NDArray', 'ArrayLike', 'COO', 'csr_matrix', 'SparseArray')
        if ty[0] == 'seq':
            return self.anyvalue(ty[1], depth)
        if ty[0] == 'map':
            return self.anyvalue(ty[-1], depth)
        if ty[0] == 'tup':
            return any(self.anyvalue(x, depth) for x in ty[1])
        return False

    def anyvalue(self, tys, depth) -> bool:
        return not tys or any(self.is_value(x, depth + 1) or isinstance(x, tuple) and x and x[0] == 'builtin' and x[1] in ('int', 'float', 'complex')
                              for x in tys)


_cache: dict = {}


def summaries(prog: Program):
    if prog not in _cache:
        F = facts(prog)
        _cache[prog] = (F, Summaries(prog, F), Values(prog))
    return _cache[prog]


def inherited(f: Func) -> bool:
    """The method implements one declared by a base class (it is called through that interface)."""
    if f.cls is None:
        return False
    for b in f.cls.mro[1:]:
        if isinstance(b, Class) and f.name in b.methods:
            return True
    return False


def entry(f: Func) -> bool:
    if '<locals>' in f.qual or '<lambda>' in f.qual:
        return False
    if f.kind in ('getter', 'setter', 'deleter'):
        return True
    n = f.name
    if n.startswith('__') and n.endswith('__'):
        return True
    return not n.startswith('_') or inherited(f)


# Parameters whose purpose is to be updated by the call (accumulators); reviewed one by one.
ACCUMULATORS = {
    ('RadarPath.add_propagation', 'propagated_samples'),     # adds one path to the samples collected so far
    ('RadarPath.add_state', 'state'),                        # adds one path to the state collected so far
}
# Effects that do not change the value: the plot a visualizable object currently shows, the shared scene of the external ray tracer.
REVIEWED_SINKS = ('hermespy.core.visualize.', 'hermespy.channel.sionna_rt_channel.SionnaRTChannelRealization._sample',
                  'hermespy.channel.quadriga.interface.')


def reviewed(loc, chain) -> bool:
    return any(c[0].startswith(REVIEWED_SINKS) for c in chain) or loc.startswith('hermespy/core/visualize.py')


def a01(prog: Program, tier='quick') -> Result:
    F, S, V = summaries(prog)
    R = Result('A01', 'no function stores into, or applies an in-place operation to, an object reachable from a parameter holding an exchanged value, '
                      'directly or through any chain of resolved calls')
    todo = []
    for f in S.funcs:
        if not entry(f):
            continue
        it = F.of(f)[0]
        names = list(f.params) + list(f.kwonly)
        if f.kind in ('method', 'getter', 'setter', 'deleter', 'classmethod') and names:
            names = names[1:]
        for n in names + ([f.vararg] if f.vararg else []):
            ty = it.types_of(('param', n))
            vals = [x for x in ty if V.is_value(x)]
            if not vals:
                continue
            R.count('parameters')
            m = {k: v for (r, k), v in S.mut[f].items() if r == n and not reviewed(v[0], v[2])}
            if (short(f), n) in ACCUMULATORS:
                m = {}
            if not m:
                R.ok(f'{f.qual}({n})')
            else:
                todo.append((f, n, m))
    direct = {(f.qual) for f, n, m in todo if any(not v[2] for v in m.values())}
    shown = set(direct)
    for f, n, m in sorted(todo, key=lambda x: (min(len(v[2]) for v in x[2].values()), x[0].qual)):
        kind, (loc, how, chain) = min(m.items(), key=lambda kv: len(kv[1][2]))
        inner = {c[0] for c in chain}
        key = f'{short(f)}:{n}'
        if chain and inner & shown:
            R.obligations += 1
            R.count('through_reported_callee')
            continue
        shown.add(f.qual)
        R.bad(key, loc, f'{f.qual} modifies its argument "{n}" in place ({how})', [f'{c[0]} at {c[1]}' for c in chain])
    R.floors = {'parameters': 500}
    R.assumptions = ['calls whose target cannot be resolved do not modify their arguments', 'user supplied callbacks do not modify their arguments']
    return R


def short(f: Func) -> str:
    q = f.qual.split('.')
    return '.'.join(q[-2:]) if f.cls is not None else q[-1]


# Methods documented to change the object they are called on; reviewed one by one.
MUTATORS = {
    'ChannelStateInformation.set_state', 'ChannelStateInformation.to_impulse_response', 'ChannelStateInformation.to_frequency_selectivity',
    'DenseSignal.superimpose', 'SparseSignal.superimpose', 'Transformation.lookat', 'Symbols.append_stream', 'Symbols.append_symbols',
    'RadarCube.normalize_power', 'RadarPointCloud.add_point', 'EvaluationResult.add_artifact',
}
LIFE = ('__init__', '__new__', '__array_finalize__', '__setitem__', '__setstate__', '__delitem__')


def a02(prog: Program, tier='quick') -> Result:
    F, S, V = summaries(prog)
    R = Result('A02', 'no method or property of an exchanged value, apart from setters, constructors and reviewed mutators, stores into the value itself, '
                      'directly or through any chain of resolved calls')
    todo = []
    for f in S.funcs:
        if f.cls is None or f.cls not in V.cls or f.kind not in ('method', 'getter') or f.name in LIFE or not entry(f):
            continue
        R.count('methods')
        m = {k: v for (r, k), v in S.mut[f].items() if r == 'self' and not reviewed(v[0], v[2])}
        if short(f) in MUTATORS or any(isinstance(b, Class) and f'{b.name}.{f.name}' in MUTATORS for b in f.cls.mro) or f.qual.startswith(REVIEWED_SINKS):
            R.count('mutators')
            R.ok()
        elif not m:
            R.ok(f.qual)
        else:
            todo.append((f, m))
    shown = set()
    for f, m in sorted(todo, key=lambda x: (min(len(v[2]) for v in x[1].values()), x[0].qual)):
        kind, (loc, how, chain) = min(m.items(), key=lambda kv: len(kv[1][2]))
        if {c[0] for c in chain} & shown:
            R.obligations += 1
            continue
        shown.add(f.qual)
        R.bad(short(f), loc, f'{f.qual} changes the object it is called on ({how})', [f'{c[0]} at {c[1]}' for c in chain])
    held(prog, R, F, S, V)
    R.floors = {'methods': 400, 'holders': 400}
    R.assumptions = ['calls whose target cannot be resolved do not modify their arguments']
    return R


# Components configuring the value they own (a copy of what they have been given).
OWNED = {('Transformable', 'pose'), ('Transformable', '_Transformable__pose')}


def held(prog, R, F, S, V):
    """Objects holding a data object (its plots, evaluators, components) do not change it either."""
    for f in S.funcs:
        if f.cls is None or f.name in LIFE or f.qual.startswith(REVIEWED_SINKS) or f.kind not in ('method', 'getter'):
            continue
        R.count('holders')
        it = F.of(f)[0]
        A = S._A(it, S)
        hits = []
        for e, tg, r, how, kind in A.effects():
            if ('self',) in r:
                hits.append((e, tg, how, kind))
        for e in it.events:
            g = e.data.get('func_') if e.kind == 'call' else None
            if g in S.mut and g.kind == 'method' and e.data.get('recv') not in (None, ('self',)):
                m = {k: v for (n, k), v in S.mut[g].items() if n == 'self' and not reviewed(v[0], v[2])}
                for k in m:
                    hits.append((e, e.recv, f'{g.name}()', k))
        bad = False
        for e, tg, how, kind in hits:
            for t in aliased(A, tg, kind):
                cs = [c for c in it.classes_of(t) if c in V.cls]
                if not cs or not any(x == ('self',) for x in A.roots(t, 0, 'obj')):
                    continue
                a = first_attr(t)
                if a is None or any((b.name, a) in OWNED for b in f.cls.cmro):
                    continue
                if short(f) in MUTATORS or f.cls in V.cls:
                    continue
                bad = True
                R.bad(f'{f.cls.name}>{cs[0].name}', e.loc, f'{f.qual} changes the {cs[0].name} it refers to ({show(t)[:60]} {how})')
                break
        if not bad:
            R.ok()


def aliased(A, t, kind, depth=0):
    """Terms on the way from a modified object down to where it was obtained from."""
    if depth > 12 or not isinstance(t, tuple) or not t or t[0] in ('self', 'param') or not A.roots(t, 0, kind):
        return
    yield t
    k = t[0]
    nxt = [t[1]] if k in ('attr', 'item', 'elem') else list(t[1]) if k == 'phi' else list(t[2]) if k == 'bool' else [t[2]] if k == 'aug' else \
        ([t[1][1]] if t[1][0] in ('attr', 'bound') else []) + list(t[2]) if k == 'call' else []
    for x in nxt:
        yield from aliased(A, x, kind, depth + 1)


def first_attr(t):
    """Name of the attribute of the object itself a term was reached through."""
    while isinstance(t, tuple) and t:
        if t[0] == 'attr' and t[1] == ('self',):
            return t[2]
        t = t[1] if t[0] in ('attr', 'item', 'elem') else t[1][1] if t[0] == 'call' and t[1][0] in ('attr', 'bound') else None
    return None


# State that operations keep on purpose; reviewed attribute by attribute.
KEPT_STATE = {
    ('Channel', 'last_realization'): 'most recent realization, published through Channel.realization',
    ('ConsistentGenerator', 'offset'): 'number of variables registered so far',
    ('ConsistentGenerator', 'variables'): 'variables registered so far',
    ('QuadrigaMatlabInterface', 'engine'): 'connection to the external engine',
    ('Scenario', 'drop_counter'): 'drops recorded so far',
    ('Scenario', 'campaign'): 'campaign being recorded or replayed',
    ('Scenario', 'deserialization_process'): 'file being replayed',
    ('Scenario', 'mode'): 'recording or replaying',
    ('Scenario', 'replay_file'): 'file being replayed',
    ('PseudoRandomGenerator', 'queue_x1'): 'position in the scrambling sequence',
    ('PseudoRandomGenerator', 'queue_x2'): 'position in the scrambling sequence',
    ('Scrambler80211a', 'queue'): 'position in the scrambling sequence',
    ('OFDMRadar', 'last_transmission'): 'most recent transmission, needed to process the echo',
}
# The remote workers of a campaign exist to accumulate results; M01 and M03 decide their bookkeeping.
CAMPAIGN_STATE = {'MonteCarloActor', 'MonteCarloCollector', 'MonteCarloQueueManager'}
# Methods whose name announces that they configure the component.
CONFIGURE = ('add_', 'new_', 'set_', 'pop_', 'remove_', 'insert_', 'register', 'unregister', 'replay', 'record', 'append', 'extend', 'clear', 'reset')


def a03(prog: Program, tier='quick') -> Result:
    F, S, V = summaries(prog)
    R = Result('A03', 'no property getter and no value returning operation of a component stores into the component, directly or through private helpers, '
                      'apart from reviewed attributes that are state by purpose')
    # private helpers reachable from the operations through calls on the component itself
    ops = set()
    for f in S.funcs:
        if f.cls is None or f.kind not in ('getter', 'method') or f.name in LIFE or f.cls in V.cls or not entry(f):
            continue
        if f.name.startswith(CONFIGURE) or f.name == 'add_artifact' or f.module.name.startswith(EXEMPT_MODULES):
            continue
        _, _, val = F.of(f)
        if f.kind == 'getter' or val is not None and val != NONE:
            ops.add(f)
    reach = set(ops)
    work = list(ops)
    while work:
        f = work.pop()
        for e in F.of(f)[0].events:
            g = e.data.get('func_') if e.kind == 'call' else None
            if g is None or g.cls is None or g.kind != 'method' or g.name == '__init__' or g not in S.mut or g in reach or entry(g):
                continue
            if e.data.get('recv') == ('self',):
                reach.add(g)
                work.append(g)
    R.stats['operations'] = len(ops)
    for f in sorted(reach, key=lambda f: f.qual):
        hit = False
        if f.cls is not None and any(c.name in CAMPAIGN_STATE for c in f.cls.cmro):
            R.count('campaign bookkeeping')
            continue
        for (r, kind), (loc, how, chain) in S.mut[f].items():
            if r != 'self' or chain or reviewed(loc, chain):
                continue
            for attr, at in sorted(S.where.get((f, (r, kind)), ()), key=str):
                a = demangle(attr)
                cs = [c.name for c in f.cls.cmro]
                if any((c, a) in KEPT_STATE for c in cs):
                    R.count('reviewed')
                    continue
                hit = True
                R.bad(f'{f.cls.name}.{a}', at, f'{f.qual} changes the component\'s "{a}" while computing a result')
        if not hit:
            R.ok(f.qual)
    R.floors = {'operations': 900}
    R.assumptions = ['calls whose target cannot be resolved do not modify the component']
    return R


# archive backends, plots and drivers of physical devices are stateful by nature
EXEMPT_MODULES = ('hermespy.core.factory', 'hermespy.core.visualize', 'hermespy.hardware_loop')


def demangle(a) -> str:
    return str(a).split('__')[-1].lstrip('_') if a else '?'
