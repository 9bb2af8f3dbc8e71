"""Randomness: where random numbers come from (R01), whose generator is drawn from (R02), what fixes them (R03)."""
from __future__ import annotations
from ..model import Program, Func, Class, AnalysisBroken
from ..absint import NONE, alts, show, subterms, Interp
from ..facts import facts
from ..report import Result
from . import purity
from .purity import short, entry

NODE = 'hermespy.core.random_node.RandomNode'
# Members of numpy.random creating generators or seeds rather than drawing from the process wide generator.
NP_OK = {'default_rng', 'Generator', 'SeedSequence', 'PCG64', 'PCG64DXSM', 'Philox', 'SFC64', 'MT19937', 'BitGenerator'}
NONDET = ('time.', 'uuid.', 'os.urandom', 'os.getpid', 'secrets.', 'datetime.', 'threading.get_ident')
GENS = ('numpy.random.Generator', 'numpy.random._generator.Generator', 'random.Random', 'numpy.random.RandomState', 'numpy.random.mtrand.RandomState')
DRAW_FNS = ('rvs',)
# default_rng(constant) yields a fixed reference sequence by design; reviewed one by one.
FIXED_SEQUENCES = {'PilotSection'}


def is_gen(it, t) -> bool:
    return any(isinstance(x, tuple) and x[0] == 'ext' and x[1] in GENS for x in it.types_of(t))


class Sources:
    """Where the generator a term denotes comes from: 'node' (random hierarchy), 'param', 'fresh' (local, given seed), 'stored', 'unknown'."""

    def __init__(self, prog, F):
        self.prog, self.F = prog, F
        self.busy = set()

    def of(self, it, t, depth=0) -> set:
        if depth > 8 or not isinstance(t, tuple) or not t:
            return {'unknown'}
        k = t[0]
        if k == 'phi':
            return set().union(*[self.of(it, x, depth + 1) for x in t[1] if x != NONE]) or {'unknown'}
        if k == 'bool':
            return set().union(*[self.of(it, x, depth + 1) for x in t[2]])
        if k == 'param':
            return {'param'}
        if k == 'attr':
            if t[2] == '_rng' or any(c.is_a(NODE) for c in it.classes_of(t)):
                return {'node'}
            return {'stored'}
        if k == 'call':
            c = t[1]
            if c[0] == 'ext' and c[1].startswith('numpy.random.'):
                return {'fresh'}
            g = it._bound_func(c) if c[0] == 'bound' else it._fn(c[1]) if c[0] == 'fn' else None
            if g is not None and g not in self.busy:
                self.busy.add(g)
                try:
                    i2, fin, val = self.F.of(g)
                    return self.of(i2, val, depth + 1) if val is not None else {'unknown'}
                finally:
                    self.busy.discard(g)
            if c[0] == 'attr' and c[2] == 'spawn':
                return self.of(it, c[1], depth + 1)
        return {'unknown'}


def raw_rng(it, t) -> bool:
    """The term is (or falls back to) a generator."""
    return is_gen(it, t) or any(x[0] == 'attr' and x[2] == '_rng' for x in alts(t) if isinstance(x, tuple) and x)


def draws(it, events):
    """-> (event, generator term) for each draw and each generator handed to a call"""
    for e in events:
        if e.kind not in ('call', 'new') or e.data.get('inlined'):
            continue
        c = e.data.get('callee')
        if c is not None and c[0] == 'attr' and raw_rng(it, c[1]) and e.data.get('func_') is None:
            yield e, c[1]
        for a in list(e.args) + list(e.kwargs.values()):
            if isinstance(a, tuple) and a and raw_rng(it, a):
                yield e, a


def owner(f: Func) -> str:
    return f.cls.name if f.cls is not None else f.module.name.split('.')[-1]


def definer(c: Class, n: str) -> Class:
    r = c
    for b in c.mro:
        if isinstance(b, Class) and (n in b.props or n in b.methods or n in b.anns):
            r = b
    return r


def set_attr(it, t):
    """Name of the set valued quantity the term denotes, None if it is no set of objects."""
    for x in alts(t):
        if not isinstance(x, tuple) or not x:
            continue
        tys = it.types_of(x)
        for y in tys:
            if isinstance(y, tuple) and y[0] == 'seq' and len(y) > 2 and y[2] in ('set', 'frozenset', 'mutableset', 'abstractset'):
                if y[1] and all(isinstance(z, tuple) and z[0] == 'builtin' and z[1] in ('int', 'bool', 'float') for z in y[1]):
                    continue
                if x[0] == 'attr':
                    n = x[2].split('__')[-1].lstrip('_')
                    cs = [definer(c, x[2]).name for c in it.classes_of(x[1])]
                    return (sorted(cs)[0] if cs else '?') + '.' + n
                return 'local'
        if x[0] == 'set' or x[0] == 'comp' and x[1] == 'set':
            return 'local'
    return None


# Sets whose iteration order cannot influence results: callbacks, cache invalidation.
ORDER_FREE = {'sample_hooks', 'hooks', 'linked_frames'}
ORDER_FREE_CALLS = ('len', 'sum', 'any', 'all', 'sorted', 'set', 'frozenset', 'min', 'max')


def r01(prog: Program, tier='quick') -> Result:
    F, S, V = purity.summaries(prog)
    src = Sources(prog, F)
    node = prog.cls(NODE)
    R = Result('R01', 'every draw of a random number comes from the generator of a random node, a generator handed in by the caller, or a generator freshly built from a '
                      'stored seed; no process wide generator, unseeded generator, entropy source, import time generator or hash ordered iteration feeds results')
    for f in S.funcs:
        it = F.of(f)[0]
        own = owner(f)
        for e, g in draws(it, it.events):
            R.count('draws')
            ss = src.of(it, g)
            if 'stored' in ss and f.cls is not node:
                R.bad(f'stored:{own}', e.loc, f'{f.qual} draws from a generator kept outside of the random node hierarchy ({show(g)[:60]})')
            else:
                R.ok(f'{f.qual}: {show(g)[:60]} ({"/".join(sorted(ss))})')
        for e in it.events:
            if e.kind == 'call':
                ext_random(R, it, f, e, own, node, f.qual)
            if e.kind in ('call', 'new'):
                given(R, F, S, it, f, e, own, node)
            elif e.kind in ('setattr', 'setprop', 'setitem') and nondet(e.value) and own not in ENTROPY_OK:
                R.bad(f'entropy:{own}', e.loc, f'{f.qual} stores a value depending on {nondet(e.value)}')
            if e.kind in ('setprop', 'setattr') and e.data['name'].endswith('seed') or e.kind == 'new' and 'seed' in e.kwargs:
                v = e.value if e.kind != 'new' else e.kwargs['seed']
                R.count('seeds')
                bad = nondet(v)
                if v == NONE and e.kind == 'setprop':
                    R.bad(f'unseeded:{own}', e.loc, f'{f.qual} seeds {show(e.base)[:40]} from fresh entropy')
                elif bad:
                    R.bad(f'entropy:{own}', e.loc, f'{f.qual} seeds a generator from {bad}')
                else:
                    R.ok()
            t = None
            if e.kind == 'iter':
                t = e.iterable
            elif e.kind == 'call' and e.data['callee'][0] == 'builtin' and e.data['callee'][1] in ('list', 'tuple', 'iter', 'enumerate', 'zip', 'next') and e.args:
                t = e.args[0]
            elif e.kind == 'call' and e.data['callee'][0] == 'attr' and e.data['callee'][2] == 'pop' and not e.args:
                t = e.data['callee'][1]
            if t is not None:
                n = set_attr(it, t)
                if n is None:
                    continue
                R.count('set_iterations')
                if n.split('.')[-1] in ORDER_FREE or n == 'local' and not identity(it, t):
                    R.ok()
                else:
                    R.bad(f'order:{n if n != "local" else own}', e.loc, f'{f.qual} iterates over a set ({show(t)[:60]}) whose order differs between runs')
        val = F.of(f)[2]
        n = None if val is None or f.name.startswith('__') else nondet(val)
        if n and own not in ENTROPY_OK and not named(n, f.name):
            R.bad(f'entropy:{own}', f.loc, f'{f.qual} returns a value depending on {n}')
    for m, cls, what, e in F.toplevel():
        if e.kind == 'call' and e.data['callee'][0] == 'ext' and e.data['callee'][1].startswith('numpy.random.') or \
                e.kind == 'new' and e.data['cls'].is_a(node):
            R.bad(f'import:{m.name}:{cls or ""}', e.loc, f'{m.name}: {what} creates a random generator shared by everything using it at import time')
    R.count('import_time_events', len(F.toplevel()))
    R.floors = {'draws': 25, 'seeds': 3}
    R.assumptions = ['third party functions do not draw random numbers unless they are given a generator, except those of numpy.random, random, secrets and scipy distributions']
    return R


def identity(it, t):
    """A local set holding objects (iterated in the order of their addresses) or strings (randomised hashes)."""
    for x in alts(t):
        if not isinstance(x, tuple):
            continue
        if x[0] in ('set', 'comp'):
            elts = x[1] if x[0] == 'set' else (x[2],)
            for y in elts:
                tys = it.types_of(y)
                if any(isinstance(z, Class) and not z.is_enum for z in tys):
                    return True
    return False


# Where the time or identities are the purpose: archive keys, result folders.
ENTROPY_OK = {'HDFSerializationProcess', 'Executable'}


def named(src, name) -> bool:
    """A quantity whose very name says that it is a point in time or an identifier."""
    n = name.lower()
    return 'time' in n or 'date' in n or src in ('id', 'object') and n.split('_')[-1] in ('id', 'uid')


def given(R, F, S, it, f, e, own, node):
    """Values handed to functions of the library: none may stem from entropy, a generator is handed on where one is asked for."""
    g = e.data.get('func_')
    if g is None:
        return
    # A created object is no argument: only the parameters given by the invocation itself matter
    for h in (S.targets(g) if g in S.mut else [g])[:1]:
        act = S.actuals(h, ('self',) if e.kind == 'new' else e.data.get('recv'), list(e.args), dict(e.kwargs))
        for n, v in act.items():
            if n == 'self' or not isinstance(v, tuple):
                continue
            src = nondet(v)
            if src and not named(src, n) and own not in ENTROPY_OK and not (h.is_helper and src in ('id', 'hash', 'object')):
                R.bad(f'entropy:{own}', e.loc, f'{f.qual} passes a value depending on {src} as {n} of {g.qual}')
        if e.data.get('inlined') or not holds_generator(F, f):
            continue
        for n in h.own_params() + h.kwonly:
            if is_gen(F.of(h)[0], ('param', n)) and optional(h, n):
                R.count('generator_parameters')
                if act.get(n, NONE) == NONE:
                    R.bad(f'omitted:{own}.{f.name}', e.loc, f'{f.qual} does not hand its generator to {h.qual}, which then draws from one of its own')
                else:
                    R.ok(f'{f.qual}: {n} of {h.qual} given')


def optional(h, n) -> bool:
    a = h.node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    d.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults)})
    return getattr(d.get(n), 'value', 0) is None


def holds_generator(F, f) -> bool:
    # that of its object or one given to it
    if f.cls is not None and f.kind not in ('classmethod', 'staticmethod') and any(getattr(c, 'qual', '') == NODE for c in f.cls.mro):
        return True
    it = F.of(f)[0]
    return any(is_gen(it, ('param', n)) for n in f.all_params())


def nondet(v):
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, frozenset):
            todo.extend(x)
            continue
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == 'obj' or x[0] == 'call' and x[1][0] in ('cls', 'bound', 'fn'):
            continue            # judged where the object is created
        todo.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        if x[0] == 'call':
            c = x[1]
            if c[0] == 'ext' and c[1].startswith(NONDET):
                return c[1]
            if c[0] == 'builtin' and c[1] in ('id', 'hash', 'object'):
                return c[1]
            if c[0] == 'ext' and c[1].startswith(('random.', 'numpy.random.')) and c[1].split('.')[-1] not in NP_OK:
                return c[1]
    return None


def ext_random(R, it, f, e, own, node, where):
    c = e.data['callee']
    if c[0] == 'ext':
        q = c[1]
        if q.startswith('numpy.random.'):
            n = q.split('.')[2]
            R.count('generator_sites')
            if n not in NP_OK:
                return R.bad(f'global:{own}', e.loc, f'{where} draws from the process wide generator ({q})')
            if n == 'default_rng':
                a = e.args[0] if e.args else e.kwargs.get('seed')
                if own == node.name:
                    if a is None or not any(x[0] in ('param', 'attr') for x in alts(a)):
                        return R.bad(f'unseeded:{own}', e.loc, f'{where} discards the seed')
                    return R.ok()
                if a is None or a == NONE:
                    return R.bad(f'unseeded:{own}', e.loc, f'{where} creates an unseeded generator')
                if nondet(a):
                    return R.bad(f'entropy:{own}', e.loc, f'{where} seeds a generator from {nondet(a)}')
                if a[0] == 'const' and own not in FIXED_SEQUENCES:
                    return R.bad(f'constant:{own}', e.loc, f'{where} creates a generator from a constant seed, independent of the configured one')
                if NONE in alts(a) or ('none',) in it.types_of(a):
                    return R.bad(f'unseeded:{own}', e.loc, f'{where} creates a generator that is unseeded if no seed is given')
            if n in ('PCG64', 'PCG64DXSM', 'Philox', 'SFC64', 'MT19937', 'SeedSequence'):
                a = e.args[0] if e.args else e.kwargs.get('seed', e.kwargs.get('entropy'))
                if a is None or NONE in alts(a) or ('none',) in it.types_of(a):
                    return R.bad(f'unseeded:{own}', e.loc, f'{where} creates an unseeded generator ({n})')
                if nondet(a):
                    return R.bad(f'entropy:{own}', e.loc, f'{where} seeds a generator from {nondet(a)}')
            return R.ok(f'{where}: {q}')
        if q.startswith(('random.', 'secrets.')) or q in ('os.urandom', 'uuid.uuid4', 'uuid.uuid1'):
            return R.bad(f'global:{own}', e.loc, f'{where} draws from {q}')
        if q.startswith('scipy.') and (q.endswith('.rvs') or q in ('scipy.sparse.random', 'scipy.sparse.rand', 'scipy.sparse.random_array')) \
                and not ({'random_state', 'rng', 'seed'} & set(e.kwargs)):
            return R.bad(f'global:{own}', e.loc, f'{where} draws from the process wide generator ({q})')
    elif c[0] == 'attr' and c[2] == 'rvs' and not ({'random_state', 'rng'} & set(e.kwargs)):
        return R.bad(f'global:{own}', e.loc, f'{where} draws from the process wide generator (.rvs without random_state)')


# Components drawing random numbers, and the component they are attached to: (owner class, part class, type name the owner's generator comes from)
OWNED = [
    ('hermespy.core.scenario.Scenario', 'hermespy.core.device.Device'),
    ('hermespy.simulation.scenario.SimulationScenario', 'hermespy.channel.channel.Channel'),
    ('hermespy.simulation.scenario.SimulationScenario', 'hermespy.simulation.rf.noise.model.NoiseModel'),
    ('hermespy.simulation.simulated_device.SimulatedDevice', 'hermespy.simulation.rf.chain.RFChain'),
    ('hermespy.simulation.simulated_device.SimulatedDevice', 'hermespy.simulation.rf.noise.model.NoiseModel'),
    ('hermespy.modem.modem.BaseModem', 'hermespy.fec.coding.EncoderManager'),
    ('hermespy.modem.modem.TransmittingModemBase', 'hermespy.modem.bits_source.BitsSource'),
    ('hermespy.fec.coding.EncoderManager', 'hermespy.fec.coding.Encoder'),
    ('hermespy.simulation.rf.block.RFBlock', 'hermespy.simulation.rf.noise.model.NoiseModel'),
    ('hermespy.simulation.rf.blocks.source.Source', 'hermespy.simulation.rf.noise.phase_noise.PhaseNoise'),
    ('hermespy.simulation.rf.chain.RFChain', 'hermespy.simulation.rf.block.RFBlock'),
    ('hermespy.simulation.rf.presets.ti.xwr1843.TIXWR1843', 'hermespy.simulation.rf.blocks.ramp.RampGenerator'),
    ('hermespy.core.device.DSPSlot', None),      # signal processing algorithms of a device; the parameter type is a type variable
]


class Mothers:
    """Fixpoint: parameters (and receiver) whose random mother a function sets, with the value it is set to."""

    def __init__(self, prog, F, S):
        self.F, self.S = F, S
        self.sets = {f: {} for f in S.funcs}
        for _ in range(8):
            changed = False
            for f in S.funcs:
                it = F.of(f)[0]
                for tgt, val, e in self.events(f):
                    for x in alts(tgt):
                        if x[0] not in ('param', 'self'):
                            continue
                        n = 'self' if x[0] == 'self' else x[1]
                        if n not in self.sets[f]:
                            self.sets[f][n] = val
                            changed = True
            if not changed:
                break

    def events(self, f):
        """-> (target term, value term, event)"""
        it = self.F.of(f)[0]
        for e in it.events:
            if e.kind in ('setprop', 'setattr') and e.data['name'] == 'random_mother':
                yield e.base, e.value, e
                continue
            if e.kind == 'setprop':
                gs = self.S.targets(e.data['prop'].setter) if e.data['prop'].setter is not None else []
                call = (e.base, [e.value], {})
            elif e.kind == 'call' and e.data.get('func_') is not None:
                gs = self.S.targets(e.data['func_']) if e.data['func_'] in self.S.mut else []
                call = (e.data.get('recv'), list(e.args), dict(e.kwargs))
            else:
                continue
            for g in gs[:1]:
                m = self.sets.get(g)
                if m:
                    act = self.S.actuals(g, *call)
                    for n, v in m.items():
                        if n in act:
                            if isinstance(v, tuple) and v and v[0] == 'param' and v[1] in act:
                                v = act[v[1]]
                            elif v == ('self',) and 'self' in act:
                                v = act['self']
                            yield act[n], v, e


def norm(g):
    c, pol = g
    while c[0] == 'un' and c[1] == 'not':
        c, pol = c[2], not pol
    return (c, pol)


def about(guard, v) -> bool:
    """The condition only tests the attached value itself (its presence or type)."""
    c, pol = norm(guard)
    if c[0] == 'call' and c[1][0] == 'builtin' and c[1][1] in ('isinstance', 'hasattr') and c[2]:
        return c[2][0] in alts(v) or c[2][0] == v
    if c[0] == 'cmp' and c[1] in ('is', 'is not', '==', '!=') and c[3] == NONE:
        return c[2] == v or c[2] in alts(v)
    if c[0] == 'cmp' and (c[1], pol) in (('not in', True), ('in', False)) and self_attr(c[3]):
        return c[2] == v or c[2] in alts(v)      # registered (and thereby attached) already
    return False


def r02(prog: Program, tier='quick') -> Result:
    F, S, V = purity.summaries(prog)
    node = prog.cls(NODE)
    M = Mothers(prog, F, S)
    R = Result('R02', 'wherever a randomised component is stored in the component owning it, the same function makes the owner its random mother, on every path storing it; '
                      'attaching a mother discards the own generator, and random nodes resolve their generator through their mother')
    for on, pn in OWNED:
        O, P = prog.cls(on), prog.cls(pn) if pn else None
        pname = P.name if P else 'signal processing algorithm'
        sites = 0
        for f in S.funcs:
            if f.cls is None or not f.cls.is_a(O):
                continue
            it = F.of(f)[0]
            for e in it.events:
                if e.kind == 'setattr' and e.base == ('self',):
                    v = e.value
                elif e.kind == 'setitem' and self_attr(e.base):
                    v = e.value
                elif e.kind == 'call' and e.data['callee'][0] == 'attr' and e.data['callee'][2] in ('append', 'add', 'insert', 'extend') and e.args \
                        and self_attr(e.data['callee'][1]):
                    v = e.args[-1]
                else:
                    continue
                v = unwrap(it, v, P)
                if P is not None and not any(x.is_a(P) for x in it.classes_of(v)) or P is None and (v[0] != 'param' or e.kind == 'setattr'):
                    continue
                for x in alts(v):
                    if x == NONE or P is not None and not any(c.is_a(P) or P.is_a(c) for c in it.classes_of(x)):
                        continue
                    if x[0] == 'self' or x[0] == 'attr' and x[1] == ('self',):
                        continue
                    sites += 1
                    R.count('attachment_sites')
                    bad = unattached(M, it, f, e, x, P)
                    if bad and f.is_helper and x[0] == 'param':
                        # part of an implementation: its callers may make the owner the source of randomness
                        sites_ = list(callers(F, S, f))
                        if sites_ and not any(unattached(M, F.of(h)[0], h, ce, a, P) for h, ce, act in sites_ for a in alts(act.get(x[1], x))):
                            bad = None
                    key = f'{O.name}:{pname.split()[-1]}'
                    if bad:
                        R.bad(key, e.loc, f'{f.qual} stores a {pname} in a {O.name} but {bad}')
                    else:
                        R.ok(f'{f.qual}: {show(x)[:50]}')
        if not sites:
            R.count('pairs_without_site')
    check_node(prog, node, R)
    check_seeds(prog, node, R)
    R.floors = {'attachment_sites': 14, 'seeded_constructors': 40}
    R.assumptions = ['components are attached through the attributes and containers of their owners']
    return R


def callers(F, S, g):
    """-> (calling function, event, parameter -> argument)"""
    for f in S.funcs:
        for e in F.of(f)[0].events:
            if e.kind in ('call', 'new') and e.data.get('func_') is g and e.func is f:
                yield f, e, S.actuals(g, e.data.get('recv') if e.kind == 'call' else e.data.get('result'), list(e.args), dict(e.kwargs))


def constructing(F, S, f, busy=()) -> bool:
    """Constructors and the helpers only they invoke."""
    if f.name in ('__init__', '__new__'):
        return True
    if f in busy or not f.is_helper:
        return False
    cs = [g for g, e, a in callers(F, S, f)]
    return bool(cs) and all(constructing(F, S, g, busy + (f,)) for g in cs)


def completes(F, S, f, n) -> bool:
    """A helper which only ever continues to fill an attribute its callers just replaced."""
    if not f.is_helper:
        return False
    cs = list(callers(F, S, f))
    return bool(cs) and all(
        any(w.kind == 'setattr' and w.data['base'] == ('self',) and w.data['name'] == n and w.node.lineno <= e.node.lineno for w in F.of(g)[0].events)
        for g, e, a in cs)


def self_attr(t) -> bool:
    while isinstance(t, tuple) and t and t[0] in ('attr', 'item'):
        if t[1] == ('self',):
            return True
        t = t[1]
    return False


def unwrap(it, v, P):
    """The part stored inside a freshly made reference object."""
    if P is not None and not any(x.is_a(P) for x in it.classes_of(v)):
        for e in it.events:
            if e.kind == 'new' and e.data.get('result') == v:
                for a in list(e.args) + list(e.kwargs.values()):
                    if any(x.is_a(P) for x in it.classes_of(a)):
                        return a
    return v


def unattached(M, it, f, store, x, P):
    best = 'never makes the owner its source of randomness'
    for tgt, val, e in M.events(f):
        if x != tgt and x not in alts(tgt):
            continue
        if val == NONE:
            best = 'detaches it from its source of randomness'
            continue
        extra = [g for g in map(norm, e.guards) if g not in set(map(norm, store.guards)) and not about(g, tgt) and not about(g, x)]
        if extra:
            best = f'only makes the owner its source of randomness if {show(extra[0][0])[:60]} is {extra[0][1]}'
            continue
        return None
    return best


def check_node(prog, node, R):
    """The random node itself."""
    gen = None
    fin = Interp(prog, node).run(node.props['seed'].setter)[0]
    for (b, n), v in fin.heap.items():
        if b == ('self',) and any(y[0] == 'call' and y[1] == ('ext', 'numpy.random.default_rng') for y in alts(v) if isinstance(y, tuple)):
            gen = n
            arg = [y for y in alts(v)][0]
            a = (arg[2] or tuple(dict(arg[3]).values()) or (None,))[0]
            if len(alts(v)) != 1 or not (a == ('param', node.props['seed'].setter.params[1])):
                R.bad('RandomNode:seed', node.props['seed'].setter.loc, 'setting the seed does not seed the generator with it')
            else:
                R.ok('RandomNode.seed')
    if gen is None:
        raise AnalysisBroken('R02: the seed setter of random nodes creates no generator')
    st = node.props['random_mother'].setter
    it = Interp(prog, node)
    val = ('obj', node.qual, 'mother')
    fin = it.run(st, args={st.params[1]: val})[0]
    g = fin.heap.get((('self',), gen))
    mother = [n for (b, n), v in fin.heap.items() if b == ('self',) and v == val]
    if g != NONE or not mother:
        R.bad('RandomNode:random_mother', st.loc, 'attaching a random mother does not replace the own generator by the mother\'s')
    else:
        R.ok('RandomNode.random_mother')
    ge = node.props['_rng'].getter
    it = Interp(prog, node)
    _, v, _ = it.run(ge)
    ok = True
    seen = set()
    for y in alts(v):
        if y == ('attr', ('self',), gen):
            seen.add('own')
        elif y[0] == 'attr' and y[2] == '_rng' and y[1][0] == 'attr' and y[1][1] == ('self',):
            seen.add('mother')
        else:
            ok = False
    if not ok or seen != {'own', 'mother'}:
        R.bad('RandomNode:_rng', ge.loc, f'the generator of a random node is neither its own nor its mother\'s ({show(v)[:80]})')
    else:
        R.ok('RandomNode._rng')
    ini = node.methods['__init__']
    it = Interp(prog, node)
    fin = it.run(ini)[0]
    v = fin.heap.get((('self',), mother[0] if mother else '_RandomNode__mother_node'))
    g = fin.heap.get((('self',), gen))
    if v is None or ('param', 'mother_node') not in alts(v) or g is not None and NONE not in alts(g):
        R.bad('RandomNode:__init__', ini.loc, 'a random node constructed with a mother keeps drawing from its own generator')
    else:
        R.ok('RandomNode.__init__')


def check_seeds(prog, node, R):
    """Constructor parameter ``seed`` seeds the node."""
    for c in sorted(prog.subclasses(node), key=lambda c: c.qual):
        ini = c.methods.get('__init__')
        if ini is None or 'seed' not in ini.params + ini.kwonly:
            continue
        R.count('seeded_constructors')
        it = Interp(prog, c)
        fin = it.run(ini)[0]
        v = fin.heap.get((('self',), '_RandomNode__seed')) if fin is not None else None
        if v == ('param', 'seed'):
            R.ok(f'{c.qual}(seed)')
        else:
            R.bad(f'{c.name}:seed', ini.loc, f'the seed given to {c.qual} does not become the seed of its generator ({show(v)[:80] if v else "not set"})')


def realization_classes(prog, V):
    """Values fixing the outcome of a random process, their samples, and everything derived from them."""
    return {c for c in V.cls if c.name.endswith(('Realization', 'Sample')) or any(isinstance(b, Class) and b.name in (
        'ChannelRealization', 'ChannelSample', 'NoiseRealization', 'PhaseNoiseRealization', 'ConsistentRealization', 'TriggerRealization', 'RandomRealization',
        'RFBlockRealization', 'RFChainRealization', 'SimulatedDeviceReceiveRealization', 'SimulatedDeviceState', 'LinkState') for b in c.mro)}


def r03(prog: Program, tier='quick') -> Result:
    F, S, V = purity.summaries(prog)
    src = Sources(prog, F)
    node = prog.cls(NODE)
    R = Result('R03', 'methods of realizations and samples draw no random numbers except from generators built anew from a seed the realization stores, and change neither '
                      'the realization nor module or class level state; a realization never shares mutable containers with the component that created it')
    RC = realization_classes(prog, V)
    # fixpoint: functions drawing from a generator that outlives the call
    D = {}
    for f in S.funcs:
        it = F.of(f)[0]
        for e, g in draws(it, it.events):
            ss = src.of(it, g)
            if ss & {'node', 'stored', 'unknown'}:
                D.setdefault(f, (e.loc, f'draws from {show(g)[:50]}', ()))
        for e in it.events:
            if e.kind == 'call' and e.data['callee'][0] == 'ext' and e.data['callee'][1].startswith('numpy.random.'):
                a = e.args[0] if e.args else None
                if e.data['callee'][1].split('.')[2] not in NP_OK or e.data['callee'][1].endswith('default_rng') and (a is None or a == NONE) and f.cls is not node:
                    D.setdefault(f, (e.loc, f'draws from {e.data["callee"][1]}', ()))
    for _ in range(12):
        changed = False
        for f in S.funcs:
            if f in D:
                continue
            for e in F.of(f)[0].events:
                if e.kind in ('call', 'new') and e.data.get('func_') in S.mut:
                    gs = S.targets(e.data['func_']) if e.kind == 'call' else [e.data['func_']]
                elif e.kind == 'read' and e.data.get('prop') is not None and e.data['prop'].getter is not None:
                    gs = S.targets(e.data['prop'].getter)
                else:
                    continue
                for g in gs:
                    if g in D and g is not f and not (g.cls is node):
                        D[f] = (e.loc, D[g][1], ((g.qual, D[g][0]),) + D[g][2][:4])
                        changed = True
                        break
                if f in D:
                    break
        if not changed:
            break
    shown = set()
    for f in sorted(S.funcs, key=lambda f: (len(D[f][2]) if f in D else 0, f.qual)):
        if f.cls not in RC or f.kind not in ('method', 'getter') or not entry(f) or f.name in purity.LIFE and f.name != '__init__':
            continue
        R.count('methods')
        if f in D:
            loc, how, chain = D[f]
            if {c[0] for c in chain} & shown:
                R.obligations += 1
                continue
            shown.add(f.qual)
            R.bad(f'draw:{short(f)}', loc, f'{f.qual} {how} every time it is evaluated', [f'{c[0]} at {c[1]}' for c in chain])
        elif f.name != '__init__' and not f.qual.startswith(purity.REVIEWED_SINKS) and any(r == 'self' and not purity.reviewed(v[0], v[2]) for (r, k), v in S.mut[f].items()):
            loc, how, chain = next(v for (r, k), v in S.mut[f].items() if r == 'self' and not purity.reviewed(v[0], v[2]))
            R.bad(f'state:{short(f)}', loc, f'{f.qual} changes the realization ({how})', [f'{c[0]} at {c[1]}' for c in chain])
        elif any(r.startswith('hermespy.') for (r, k) in S.mut[f]):
            (r, k), (loc, how, chain) = next((q, v) for q, v in S.mut[f].items() if q[0].startswith('hermespy.'))
            R.bad(f'global:{short(f)}', loc, f'{f.qual} changes {r} ({how})', [f'{c[0]} at {c[1]}' for c in chain])
        else:
            R.ok(f.qual)
    # shared mutable containers
    live = {}
    for f in S.funcs:
        if f.cls is None or f.cls in RC or constructing(F, S, f):
            continue
        A = S._A(F.of(f)[0], S)
        for e, tg, r, how, kind in A.effects():
            if kind == 'data' and tg[0] == 'attr' and tg[1] == ('self',) and not completes(F, S, f, tg[2]):
                live.setdefault((f.cls, tg[2]), (e.loc, how, f.qual))
    for f in S.funcs:
        if f.cls is None or f.kind == 'classmethod':
            continue
        it = F.of(f)[0]
        for e in it.events:
            if e.kind != 'new' or e.data.get('cls') not in RC:
                continue
            R.count('constructions')
            bad = None
            for a in list(e.args) + list(e.kwargs.values()):
                for x in alts(a):
                    y = resolve_getter(it, F, x)
                    if isinstance(y, tuple) and y and y[0] == 'attr' and y[1] == ('self',):
                        for c in f.cls.cmro:
                            w = live.get((c, y[2]))
                            if w and container(it, y):
                                bad = (y[2].split('__')[-1], w)
            if bad:
                R.bad(f'shared:{short(f)}:{bad[0]}', e.loc, f'{f.qual} hands its own "{bad[0]}" to the realization, which changes when {bad[1][2]} is called')
            else:
                R.ok()
    snapshots(R, prog, F, S, V)
    R.floors = {'methods': 150, 'constructions': 20, 'states': 5}
    R.assumptions = ['third party functions do not draw random numbers unless they are given a generator, except those of numpy.random']
    return R


def snapshots(R, prog, F, S, V):
    """The state of a component captures it at one point in time: it holds no part of the component that the component goes on modifying."""
    from .isolation import _mutable_type, captures, keeps_members, members
    cap = captures(prog, F, S)
    for f in S.funcs:
        if f.cls is None or f.kind not in ('method', 'getter') or f.cls.name.endswith('State') or 'Sample' in f.cls.name:
            continue
        it = F.of(f)[0]
        B = S._A(it, S)
        for e in it.events:
            if e.kind != 'new' or not e.data['cls'].name.endswith('State') or e.data['cls'].is_enum or e.data['cls'].name == 'LinkState':
                continue
            g = e.data.get('func_')
            R.count('states')
            act = S.actuals(g, e.data.get('result'), list(e.args), dict(e.kwargs)) if g is not None else dict(zip([n for n, _ in e.data['cls'].record_fields()], e.args))
            bad = False
            for n, v in act.items():
                if n == 'self' or not isinstance(v, tuple) or B.scalar(v):
                    continue
                y = resolve_getter(it, F, v)
                m = members(B, v)
                if ('self',) in B.roots(y, 0, 'obj') and _mutable_type(it, v, V) and (g is None or n in cap.get(g, {})) or \
                        m is not None and _mutable_type(it, m, V) and (g is None or g.cls is None or keeps_members(F, S, g, n)):
                    bad = True
                    R.bad(f'snapshot:{short(f)}:{n}', e.loc, f'{f.qual} hands its own {show(v)[:50]} to the state, which changes whenever the component does')
            if not bad:
                R.ok(f'{f.qual}: {e.data["cls"].name}')


def container(it, t):
    ty = it.types_of(t)
    return not ty or any(isinstance(x, tuple) and (x[0] in ('map',) or x[0] == 'seq' and (len(x) < 3 or x[2] not in ('tuple', 'frozenset')) or
                                                  x[0] == 'ext' and x[1].endswith('ndarray')) for x in ty)


def resolve_getter(it, F, t, depth=0):
    """self.prop whose getter returns self.attr -> self.attr"""
    if depth < 3 and isinstance(t, tuple) and t and t[0] == 'attr' and t[1] == ('self',):
        for c in it.classes_of(('self',))[:1]:
            p = c.prop(t[2])
            if p is not None and p.getter is not None:
                _, _, v = F.of(p.getter)
                if v is not None and v != t:
                    return resolve_getter(it, F, v, depth + 1)
    return t
