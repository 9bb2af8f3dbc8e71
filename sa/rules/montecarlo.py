"""M01: results of a campaign belong to the grid section they are filed under.  M03: no sample is lost or counted twice."""
from __future__ import annotations
import ast
from ..model import Program, AnalysisBroken
from ..absint import Interp, show, alts, subterms, NONE
from ..facts import facts
from ..report import Result
from .purity import demangle, summaries

P = 'hermespy.core.pymonte.'
COPIES = ('copy', 'deepcopy', 'list', 'tuple', 'asarray', 'array', 'int', 'numpy.array', 'numpy.asarray', 'copy.copy', 'int64', 'numpy.int64', 'flatten', 'ravel', 'tolist')
REORDER = ('sort', 'extend', 'append', 'insert', 'remove', 'reverse', 'pop', 'clear')


def callee_name(t):
    """Short name of what a call term calls."""
    c = t[1]
    if c[0] == 'attr':
        return c[2]
    if c[0] in ('ext', 'builtin', 'cls', 'fn', 'mod'):
        return c[1]
    if c[0] == 'bound':
        return c[2].rsplit('.', 1)[-1]
    return ''


def strip(t, stop=()):
    """A term without conversions that keep its elements (copies, arrays, integers)."""
    while isinstance(t, tuple) and t and t not in stop:
        if t[0] == 'call':
            n = callee_name(t)
            if n in COPIES:
                if t[1][0] == 'attr':
                    t = t[1][1]
                    continue
                if t[2]:
                    t = t[2][0]
                    continue
        if t[0] == 'list' and len(t) > 1 and isinstance(t[1], tuple) and len(t[1]) == 1 and t[1][0][:1] == ('star',):
            t = t[1][0][1]
            continue
        break
    return t


def within(x, t):
    return any(s == x for s in subterms(t))


def mentions(t, pred):
    return any(isinstance(s, tuple) and s and pred(s) for s in subterms(t))


def is_attr(s, name):
    return s[0] == 'attr' and isinstance(s[2], str) and demangle(s[2]).lstrip('_') == name


def nm(x):
    """A plain attribute name: no name mangling, no leading underscores."""
    return demangle(x).lstrip('_')


def attr_of_self(t):
    return nm(t[2]) if t[0] == 'attr' and t[1] == ('self',) else None


def refers(t, name):
    """Is an attribute or method of this name reached inside the term?"""
    return mentions(t, lambda s: (s[0] == 'attr' and isinstance(s[2], str) and nm(s[2]) == name) or (s[0] == 'bound' and nm(s[2].rsplit('.', 1)[-1]) == name))


def remote_of(e, name=None):
    """Is this call event REF.name.remote(...)?  With name None: the remote construction of an actor."""
    if e.kind != 'call' or e.callee[0] != 'attr' or e.callee[2] != 'remote':
        return False
    c = e.callee[1]
    if name is None:
        return c[0] == 'call' or c[0] == 'cls'
    return (c[0] == 'attr' and nm(c[2]) == name) or (c[0] == 'bound' and nm(c[2].rsplit('.', 1)[-1]) == name)


ROLES = ('run_batch', 'execute_stages', 'process_samples')


class View:
    """Functions of a class with their private helpers folded in, so that extracting a helper changes nothing."""

    def __init__(self, prog):
        self.prog = prog
        self.cache = {}
        self.F = self

    def helper(self, f):
        return f.name.startswith('_') and not f.name.startswith('__init__') and not (f.name.startswith('__') and f.name.endswith('__')) and nm(f.name) not in ROLES

    def of(self, f):
        r = self.cache.get(f)
        if r is None:
            def policy(it, g, stack):
                if '<locals>' in g.qual or '<lambda>' in g.qual:
                    return True
                if not self.helper(g):
                    return False
                return g.module is f.module if g.cls is None else (f.cls is not None and f.cls.is_a(g.cls))
            it = Interp(self.prog, self_cls=f.cls, inline=policy, record_reads=True)
            final, val, ctx = it.run(f)
            r = self.cache[f] = (it, final, val)
        return r

    def funcs(self, cls):
        """Functions written in a class; helpers called by its other functions are seen inside these."""
        c = self.prog.cls(cls)
        own = [f for f in self.prog.all_funcs() if f.cls is c and '<locals>' not in f.qual and '<lambda>' not in f.qual and not f.overload]
        inlined = set()
        for f in own:
            if not self.helper(f):
                inlined |= self.of(f)[0].inlined
        return [f for f in own if f not in inlined]

    def events(self, cls, *kinds):
        for f in self.funcs(cls):
            for e in self.F.of(f)[0].events:
                if not kinds or e.kind in kinds:
                    yield f, e

    def calls(self, cls, name):
        for f, e in self.events(cls, 'call'):
            n = e.callee[2].rsplit('.', 1)[-1] if e.callee[0] == 'bound' else e.callee[2] if e.callee[0] == 'attr' else str(e.callee[1]) if e.callee[0] in ('fn', 'ext', 'builtin') else ''
            if demangle(n).lstrip('_') == name.lstrip('_'):
                yield f, e

    def getter(self, cls, t):
        """Replace a property of self by what its getter returns."""
        for _ in range(3):
            a = t[2] if t[0] == 'attr' and t[1] == ('self',) else None
            c = self.prog.cls(cls)
            p = c.prop(a) if a else None
            if p is None or p.getter is None:
                return t
            v = self.F.of(p.getter)[2]
            if v is None or v[0] == 'phi':
                return t
            t = strip(v)
        return t


def bindargs(prog, cls, args, kwargs, method='__init__'):
    f = prog.cls(cls).method(method)
    names = [n for n in f.params if n != 'self']
    out = dict(zip(names, args))
    out.update(kwargs)
    return out


def grid(prog: Program, tier: str) -> Result:
    R = Result('M01', 'campaign coherence: one grid object in one order reaches queue, actors, collector and result; the dimensions that changed are configured with '
                      'the index of the section being run; every impacted stage is executed; artifacts are filed at the section of their sample')
    V = View(prog)
    F = V.F
    MC, ACT, COL, QM = P + 'monte_carlo.MonteCarlo', P + 'actors.MonteCarloActor', P + 'actors.MonteCarloCollector', P + 'actors.MonteCarloQueueManager'

    # ------------------------------------------------ one grid, one order of evaluators, one object
    sim = None
    recipients = {}      # who -> (grid term, evaluators term, loc)
    for f, e in V.events(MC, 'call', 'new'):
        if remote_of(e):
            for who, cq in (('queue', QM), ('collector', COL)):
                if mentions(e.callee, lambda s, cq=cq: s == ('cls', cq)):
                    a = bindargs(prog, cq, e.args, e.kwargs)
                    recipients[who] = (a.get('grid'), a.get('evaluators'), e.loc)
                    sim = f
            if not mentions(e.callee, lambda s: s[0] == 'cls') and len(e.args) + len(e.kwargs) >= 3:
                a = bindargs(prog, ACT, e.args, e.kwargs)
                t = a.get('argument_tuple')
                if t is not None and t[0] == 'tuple' and len(t[1]) == 3:
                    recipients['actors'] = (t[1][1], t[1][2], e.loc)
                    R.ok('actors: object, grid and evaluators travel in a single argument')
                    if attr_of_self(V.getter(MC, strip(t[1][0]))) != 'investigated_object':
                        R.bad('actors:object', e.loc, f'the actors do not receive the investigated object but {show(t[1][0])}')
                elif t is not None:
                    R.bad('actors:identity', e.loc, 'object, grid and evaluators do not reach an actor in one argument, so the grid would configure a different copy of the object')
        if e.kind == 'new' and e.cls.qual == P + 'monte_carlo.MonteCarloResult':
            a = bindargs(prog, e.cls.qual, e.args, e.kwargs)
            recipients['result'] = (a.get('grid'), a.get('evaluators'), e.loc)
            sim = f
    if sim is None or set(recipients) != {'queue', 'collector', 'actors', 'result'}:
        raise AnalysisBroken(f'campaign launch not recognised: {sorted(recipients)}')
    mutated = {e.recv for e in F.of(sim)[0].events if e.kind == 'call' and e.callee[0] == 'attr' and e.callee[2] in REORDER and e.recv is not None}
    nodes = {}
    for who, (g, ev, loc) in recipients.items():
        for what, t in (('grid', g), ('evaluators', ev)):
            if t is None:
                if what == 'evaluators' and who == 'queue':
                    continue
                R.bad(f'launch:{who}:{what}', loc, f'the {who} is launched without the {what}')
                continue
            n = nodes.setdefault(what, {})
            base = V.getter(MC, strip(t, mutated))
            n.setdefault(base, []).append((who, loc, t))
    for what, n in nodes.items():
        if len(n) == 1:
            R.ok(f'{what}: {", ".join(w for v in n.values() for w, _, _ in v)} share {show(next(iter(n)))[:80]}')
            continue
        ranked = sorted(n.items(), key=lambda kv: -len(kv[1]))
        for base, users in ranked[1:]:
            for who, loc, t in users:
                R.bad(f'launch:{who}:{what}:order', loc, f'the {who} uses {show(t)[:90]} as {what}, the other parts of the campaign use {show(ranked[0][0])[:90]}')

    # ------------------------------------------------ stages
    ids_of = {}
    for c in prog.subclasses(prog.cls(ACT)):
        ids, ex = c.method('stage_identifiers'), c.method('stage_executors')
        if ids is None or ex is None or ids.cls.qual == ACT or ex.cls.qual == ACT:
            continue
        vi, ve = F.of(ids)[2], F.of(ex)[2]
        names = [x[1] for x in vi[1]] if vi is not None and vi[0] in ('list', 'tuple') and all(x[0] == 'const' for x in vi[1]) else None
        methods = [x[2].rsplit('.', 1)[-1] for x in ve[1]] if ve is not None and ve[0] in ('list', 'tuple') and all(x[0] == 'bound' for x in ve[1]) else None
        if names is None or methods is None:
            R.count('actors with computed stages')
            continue
        ids_of[c] = names
        R.count('actor classes')
        if names == methods:
            R.ok(f'{c.name}: {len(names)} stage identifiers name the executors at the same position')
        else:
            R.bad(f'{c.name}:stages', ids.loc, f'stage identifiers {names} do not name the stage executors {methods} position by position')
        # data written by a later stage must not be needed by an earlier one
        stages = [c.method(m) for m in methods]

        def own(f, seen):
            rd, wr = {}, {}
            if f in seen:
                return rd, wr
            seen.add(f)
            for e in F.of(f)[0].events:
                if e.kind == 'setattr' and e.base == ('self',):
                    wr.setdefault(e.name, e.loc)
                elif e.kind == 'read' and e.base == ('self',) and e.prop is None and e.name not in wr:
                    rd.setdefault(e.name, e.loc)
                elif e.kind == 'call' and e.recv == ('self',) and e.func_ is not None:
                    r2, w2 = own(e.func_, seen)
                    for k, v in r2.items():
                        if k not in wr:
                            rd.setdefault(k, v)
                    for k, v in w2.items():
                        wr.setdefault(k, v)
            return rd, wr
        per = [own(s, set()) for s in stages]
        written_by = {}
        for s, (rd, wr) in zip(stages, per):
            for k in wr:
                written_by.setdefault(k, []).append(s.name)
        done = set()
        for s, (rd, wr) in zip(stages, per):
            for k, loc in rd.items():
                if k in written_by and k not in done:
                    R.bad(f'{c.name}:{s.name}:{demangle(k)}', loc, f'stage {s.name} reads {demangle(k)}, which is only written by later stages ({", ".join(written_by[k])}): it would use the state of the previous sample')
                else:
                    R.ok()
                    R.count('stage inputs')
            done |= set(wr)
        for k, w in written_by.items():
            if len(w) > 1:
                R.bad(f'{c.name}:{demangle(k)}:writers', c.loc, f'{demangle(k)} is written by several stages ({", ".join(w)})')
    if not ids_of:
        raise AnalysisBroken('no actor with constant stages found')
    every = [set(v) for v in ids_of.values()]

    # registered dimensions and stage arguments name existing stages
    for m in prog.modules.values():
        for cls in [c for c in prog.classes.values() if c.module is m]:
            for st in cls.node.body:
                if not isinstance(st, ast.FunctionDef):
                    continue
                for d in st.decorator_list:
                    if isinstance(d, ast.Call) and isinstance(d.func, (ast.Name, ast.Attribute)) and (getattr(d.func, 'id', None) or getattr(d.func, 'attr', None)) == 'register':
                        R.count('registered dimensions')
                        vals = list(zip(('first_impact', 'last_impact', 'title'), d.args)) + [(k.arg, k.value) for k in d.keywords]
                        for k, v in vals:
                            if k in ('first_impact', 'last_impact') and isinstance(v, ast.Constant) and v.value is not None:
                                if any(v.value in s for s in every):
                                    R.ok()
                                    check_impact(prog, F, R, cls, st.name, k, v.value, ids_of)
                                else:
                                    R.bad(f'register:{cls.name}.{st.name}:{k}', f'{m.path}:{d.lineno}', f'{cls.name}.{st.name} is registered with {k} {v.value!r}, which is no simulation stage')
    for f in prog.all_funcs():
        if f.overload or not f.module.name.startswith('hermespy'):
            continue
        src = f.node
        if not any(isinstance(x, ast.keyword) and x.arg == 'stage_arguments' for x in ast.walk(src)):
            continue
        it = F.of(f)[0]
        for e in it.events:
            if e.kind == 'call' and 'stage_arguments' in e.kwargs and callee_name(('call', e.callee)) in ('simulate', 'hermespy.core.pymonte.monte_carlo.MonteCarlo.simulate'):
                t = e.kwargs['stage_arguments']
                keys = set()
                for a in alts(t):
                    if a[0] == 'dict':
                        keys |= {k[1] for k, _ in a[1] if k is not None and k[0] == 'const'}
                for e2 in it.events:
                    if e2.kind == 'setitem' and e2.base[0] in ('dict', 'call', 'phi') and e2.index[0] == 'const' and isinstance(e2.index[1], str):
                        keys.add(e2.index[1])
                for k in keys:
                    if any(k in s for s in every):
                        R.ok(f'{f.qual}: stage argument {k}')
                    else:
                        R.bad(f'{f.name}:stage_arguments:{k}', e.loc, f'stage argument {k!r} names no simulation stage')

    # ------------------------------------------------ running a batch
    run_batch(V, R, ACT)

    # ------------------------------------------------ configuring a point
    GD = P + 'grid.GridDimension'
    good = 0
    for f in V.funcs(GD):
        if f.name != 'configure_point':
            continue
        it = F.of(f)[0]
        for e in it.events:
            if e.kind == 'call' and e.callee[0] == 'elem' and mentions(e.callee, lambda s: is_attr(s, 'setter_lambdas')):
                good += 1
                a = e.args[0] if e.args else NONE
                src = e.callee[1]
                if strip(src)[0] != 'attr':
                    R.bad('configure_point:objects', e.loc, f'only {show(src)} of the configured objects receive the sample point')
                else:
                    R.ok('configure_point reaches every considered object')
                want = mentions(a, lambda s: s[0] == 'item' and mentions(s[1], lambda q: is_attr(q, 'sample_points')) and strip(s[2]) == ('param', 'point_index'))
                if want and a[0] == 'attr' and a[2].lstrip('_') == 'value':
                    R.ok('configure_point hands over the value of the sample point selected by its index')
                else:
                    R.bad('configure_point:value', e.loc, f'the configured value is {show(a)}, not the value of the selected sample point')
    if not good:
        R.bad('configure_point', prog.cls(GD).loc, 'configuring a point calls no setter')
    ini = prog.cls(GD).method('__init__')
    inside = {id(y) for x in ast.walk(ini.node) if isinstance(x, (ast.For, ast.While)) for y in ast.walk(x)}
    for e in F.of(ini)[0].events:
        if e.kind == 'setattr' and nm(e.name) == 'setter_lambdas' and id(e.node) in inside:
            if e.aug or mentions(e.value, lambda s: s[0] in ('bin', 'aug') and s[1] == '+' or s[0] == 'star'):
                R.ok('every considered object contributes a setter')
            else:
                R.bad('GridDimension:setters', e.loc, 'only the last considered object of a grid dimension is configured')
        if e.kind == 'call' and callee_name(('call', e.callee)) == 'functools.reduce' and len(e.args) == 3:
            if any(a[0] == 'item' and a[2][0] == 'const' for a in alts(e.args[2])):
                R.bad('GridDimension:setter:object', e.loc, f'the setter of each considered object configures {show(e.args[2])}')
            else:
                R.ok()
        if e.kind == 'call' and callee_name(('call', e.callee)).endswith('__init__') and len(e.args) >= 4:
            sp = [a for a in e.args if a[0] == 'comp']
            for a in sp:
                if mentions(a, lambda s: s == ('param', 'sample_points')):
                    R.ok('every sample point becomes a point of the dimension')
    for x in ast.walk(ini.node):
        if isinstance(x, (ast.ListComp, ast.GeneratorExp)) and any(isinstance(n, ast.Name) and n.id == 'sample_points' for g in x.generators for n in ast.walk(g.iter)):
            for g in x.generators:
                if g.ifs:
                    R.bad('GridDimension:filter', f'{ini.module.path}:{x.lineno}', 'sample points are dropped from the dimension')

    # ------------------------------------------------ filing artifacts
    filed = 0
    for f, e in V.calls(COL, 'add_artifact'):
        filed += 1
        a = bindargs(prog, P + 'evaluation.EvaluationResult', e.args, e.kwargs, 'add_artifact')
        co, ar = a.get('coordinates', NONE), a.get('artifact', NONE)
        co = strip(co)
        if not (co[0] == 'attr' and nm(co[2]) == 'grid_section'):
            R.bad('collector:coordinates', e.loc, f'the artifact is filed at {show(co)}, not at the grid section of its sample')
            continue
        sample = co[1]
        if not within(sample, ar):
            R.bad('collector:artifact', e.loc, f'the artifact {show(ar)} does not come from the sample whose section it is filed at')
            continue
        R.ok('artifacts are filed at the section of their own sample')
        recv = e.recv
        okz = None
        if recv[0] == 'elem' and strip(recv[1])[0] == 'attr' and ar[0] == 'elem':
            okz = strip(recv[1])[0] == 'attr' and strip(ar[1])[0] == 'attr'
        elif recv[0] == 'item' and ar[0] == 'item':
            okz = recv[2] == ar[2]
        elif (recv[0], ar[0]) in (('item', 'elem'), ('elem', 'item')):
            okz = True
        if okz is False:
            R.bad('collector:pairing', e.loc, f'result {show(recv)} and artifact {show(ar)} are not paired by evaluator')
        elif okz:
            R.ok('results and artifacts are paired in evaluator order')
        else:
            R.bad('collector:pairing', e.loc, f'result {show(recv)} and artifact {show(ar)} are not paired by evaluator')
    if not filed:
        R.bad('collector:filing', prog.cls(COL).loc, 'the collector files no artifacts')
    for f, e in V.events(COL, 'call'):
        if remote_of(e, 'disable_section'):
            a = strip(e.args[0]) if e.args else NONE
            if a[0] == 'attr' and nm(a[2]) == 'grid_section':
                R.ok('the section that is disabled is the one of the sample')
            else:
                R.bad('collector:disable', e.loc, f'the disabled section {show(a)} is not the section of the sample')
            if not any(pol and mentions(c, lambda s: s[0] == 'call' and callee_name(s) == 'add_artifact') for c, pol in guardlist(e)):
                R.bad('collector:confidence', e.loc, 'a section is disabled although no result reported confidence')
    ini = prog.cls(COL).method('__init__')
    for e in F.of(ini)[0].events:
        if e.kind == 'setattr' and nm(e.name) == 'results':
            v = e.value
            src = v[3] if v[0] == 'comp' else ()
            if v[0] == 'comp' and mentions(v, lambda s: s == ('param', 'evaluators')) and mentions(v, lambda s: s[0] == 'call' and callee_name(s) == 'initialize_result' and s[2][:1] == (('param', 'grid'),)):
                R.ok('the collector holds one result per evaluator over the campaign grid')
            elif v[0] == 'comp':
                R.bad('collector:results', e.loc, f'the collector results {show(v)} are not one per evaluator over the campaign grid')

    # ------------------------------------------------ scalar results are means
    scalars(V, R)
    R.floors = {'actor classes': 1, 'registered dimensions': 4, 'configure_point calls': 2, 'stage inputs': 8}
    return R


def guardlist(e):
    out = []
    for g in e.guards:
        if isinstance(g, tuple) and len(g) >= 2 and isinstance(g[0], tuple):
            c, pol = g[0], g[1]
            stack = [(c, pol)]
            while stack:
                c, pol = stack.pop()
                out.append((c, pol))
                if c[0] == 'un' and c[1] == 'not':
                    stack.append((c[2], not pol))
                if c[0] == 'bool' and ((c[1] == 'and' and pol) or (c[1] == 'or' and not pol)):
                    stack.extend((x, pol) for x in c[2])
    return out


def check_impact(prog, F, R, cls, name, kind, stage, ids_of):
    """The first impact must not skip a stage that reads the property; the last impact must not end before one."""
    FF = facts(prog)
    p = cls.props.get(name)
    if p is None or p.getter is None:
        return
    fields = {e.name for e in FF.events(p.getter) if e.kind == 'read' and e.base == ('self',)} | {name}
    if p.setter is not None:
        fields |= {e.name for e in FF.events(p.setter) if e.kind in ('setattr', 'setprop') and e.base == ('self',)}
    fam = {cls} | set(cls.cmro) | set(prog.subclasses(cls))
    _, S, _ = summaries(prog)
    for actor, ids in ids_of.items():
        if stage not in ids:
            continue
        ex = FF.of(actor.method('stage_executors'))[2]
        methods = [actor.method(x[2].rsplit('.', 1)[-1]) for x in ex[1]]
        skipped = methods[:ids.index(stage)] if kind == 'first_impact' else methods[ids.index(stage) + 1:]
        for m in skipped:
            seen, todo = {m}, [m]
            hit = None
            while todo and hit is None:
                g = todo.pop()
                it = FF.of(g)[0]
                for e in it.events:
                    if e.kind == 'read' and e.name in fields and any(c in fam for c in it.classes_of(e.base)) and g is not p.getter and g.name not in ('serialize', '__init__'):
                        hit = e
                        break
                    h = e.data.get("func_") if e.kind in ("call", "new") else e.prop.getter if e.kind == "read" and e.prop is not None else None
                    for t in (S.targets(h) if h is not None and h in S.mut else ()):
                        if t not in seen:
                            seen.add(t)
                            todo.append(t)
            if hit is not None:
                R.bad(f'register:{cls.name}.{name}:{kind}:{m.name}', hit.loc, f'{cls.name}.{name} is registered with {kind} {stage!r}, but stage {m.name}, which is then not executed again, reads it')
            else:
                R.ok(f'{cls.name}.{name}: stage {m.name} does not read it')


def run_batch(V, R, ACT):
    F, prog = V.F, V.prog
    sections = set()
    for f, e in V.events(ACT, 'new'):
        if e.cls.qual == P + 'artifact.MonteCarloSample':
            a = bindargs(prog, e.cls.qual, e.args, e.kwargs)
            s = strip(a.get('grid_section', NONE))
            if s[0] == 'elem' and (s[1][0] == 'param' or refers(s[1], 'next_batch')):
                sections.add((f, s))
                R.ok('a sample records the section of the batch it was run for')
            elif s[0] == 'param':
                sections.add((f, s))
            else:
                R.bad('sample:section', e.loc, f'the sample is recorded for {show(s)} instead of the section being run')
            art = a.get('artifacts', NONE)
            if art[0] == 'elem':
                R.ok()
            elif not mentions(art, lambda s: s[0] == 'elem'):
                R.bad('sample:artifacts', e.loc, f'the sample contains {show(art)} instead of the artifacts of one evaluation')
    if not sections:
        R.bad('sample', prog.cls(ACT).loc, 'no sample is recorded for the sections of a batch')
        return
    batches = {s[1] for _, s in sections if s[0] == 'elem'} | {s for _, s in sections if s[0] == 'param'}
    S = {s for _, s in sections}
    n = 0
    current = 0
    for f, e in V.calls(ACT, 'configure_point'):
        n += 1
        R.count('configure_point calls')
        arg = e.args[0] if e.args else e.kwargs.get('point_index', NONE)
        arg, recv = strip(arg), e.recv

        def section_of(t):
            t = strip(t)
            if t in S:
                return 'current'
            if t[0] == 'item' and t[1] in batches and t[2] == ('const', 0):
                return 'first'
            if t[0] == 'item' and t[1] in batches:
                return 'other'
            return None
        idx = None
        src = None
        if arg[0] == 'item':
            src, idx = section_of(arg[1]), strip(arg[2])
        elif arg[0] == 'elem':
            src = section_of(arg[1])
            idx = 'position'
        several = {section_of(a[1]) for a in alts(arg) if a[0] in ('item', 'elem')}
        if src is None and {'current', 'first'} <= several or src is None and arg[0] in ('item', 'elem') and len(alts(strip(arg[1]))) > 1 and any(strip(a) in S or section_of(a) for a in alts(strip(arg[1]))):
            R.bad(f'configure:{f.name}:stale', e.loc, f'a grid dimension is configured with {show(arg)[:120]}, which may still be an index of the section run before')
            continue
        if src is None:
            if any(within(s, arg) for s in S):
                R.count('configurations of another form')
                current += 1
                continue
            R.bad(f'configure:{f.name}:index', e.loc, f'a grid dimension is configured with {show(arg)}, which is not an index of the section being run')
            continue
        if src == 'other':
            R.bad(f'configure:{f.name}:index', e.loc, f'a grid dimension is configured with {show(arg)}, which is not an index of the section being run')
            continue
        current += src == 'current'
        if recv[0] == 'item':
            d = strip(recv[2])
            same = d == idx or (idx == 'position' and d[0] == 'sym' and 'index' in str(d[1])) or (d[0] == 'sym' and isinstance(idx, tuple) and idx == d)
        elif recv[0] == 'elem':
            same = idx == 'position' or (isinstance(idx, tuple) and idx[0] == 'sym')
        else:
            same = True
        if same:
            R.ok(f'{show(recv)} is configured with {show(arg)}')
        else:
            R.bad(f'configure:{f.name}:dimension', e.loc, f'dimension {show(recv)} is configured with the index of another dimension: {show(arg)}')
    if n and not current:
        R.bad('configure:current', prog.cls(ACT).loc, 'no grid dimension is configured with the indices of the section being run')
    if not n:
        R.bad('configure', prog.cls(ACT).loc, 'the actor configures no grid dimension')

    # which dimensions changed
    fs = {f for f, _ in sections}
    for f in fs:
        it = F.of(f)[0]
        for e in it.events:
            if e.kind == 'cmp' and e.op in ('!=', '==') and any(strip(x) in S for x in (e.left, e.right)):
                o = e.right if strip(e.left) in S else e.left
                R.count('change detections')
                kept = {a[2] for a in map(strip, alts(o)) if a[0] == 'attr' and a[1] == ('self',)}
                if kept:
                    # remembered beyond the batch: an exception between configuring and remembering leaves the grid elsewhere
                    conf = [i for i, x in enumerate(it.events) if x.kind == 'call' and callee_name(('call', x.callee)) == 'configure_point' and i > it.events.index(e)]
                    for k in sorted(kept):
                        voided = [i for i, x in enumerate(it.events) if x.kind == 'setattr' and x.base == ('self',) and x.name == k and it.events.index(e) < i < min(conf, default=0)]
                        if voided or any(x.kind == 'setattr' and x.base == ('self',) and x.name == k and in_handler(x, it, f) for x in it.events):
                            R.ok()
                        else:
                            R.bad(f'{f.name}:recent:{nm(k)}', e.loc, f'the changed dimensions are found against {nm(k)}, which is remembered across batches but not voided while the grid is configured: '
                                  'after an exception was caught the grid is configured for another section')
                if any(strip(a) in S for a in alts(o)) or kept:
                    R.ok('the changed dimensions are found against the section run before')
                else:
                    R.bad(f'{f.name}:recent', e.loc, f'the changed dimensions are found against {show(o)}, which is not updated to the section that was run last')
        # stages to be executed
        for e in it.events:
            if e.kind == 'call' and e.func_ is not None and e.func_.cls is not None and e.func_.cls.qual == ACT and 'artifacts' in str(e.func_.params):
                a = dict(zip([p for p in e.func_.params if p != 'self'], e.args))
                a.update(e.kwargs)
                start, stop = a.get('start'), a.get('stop')
                if start is None or stop is None:
                    continue
                stages_range(it, R, f, e, start, 'first', 'min', '<')
                stages_range(it, R, f, e, stop, 'last', 'max', '>')
    # recursion over the stages
    for f in V.funcs(ACT):
        if not {'start', 'stop'} <= set(f.params):
            continue
        it = F.of(f)[0]
        R.count('stage recursions')
        term = [e for e in it.events if e.kind == 'cmp' and {e.left, e.right} == {('param', 'start'), ('param', 'stop')}]
        ok = {('>', 'start'), ('<', 'stop'), ('<=', 'start'), ('>=', 'stop')}
        for e in term:
            if (e.op, e.left[1]) in ok:
                R.ok('the last impacted stage is executed')
            else:
                R.bad(f'{f.name}:end', e.loc, f'the stages end at {show(e.left)} {e.op} {show(e.right)}, so the last stage that is impacted would not be executed')
        for e in it.events:
            if e.kind == 'call' and e.func_ is f:
                a = dict(zip([p for p in f.params if p != 'self'], e.args))
                a.update(e.kwargs)
                s, t = a.get('start'), a.get('stop')
                if s in (('bin', '+', ('param', 'start'), ('const', 1)), ('bin', '+', ('const', 1), ('param', 'start'))) and t == ('param', 'stop'):
                    R.ok('each stage is followed by the next one')
                else:
                    R.bad(f'{f.name}:next', e.loc, f'stage execution continues at {show(s)} up to {show(t)} instead of the next stage')
            if e.kind == 'call' and e.callee[0] == 'item' and mentions(e.callee[1], lambda s: is_attr(s, 'stage_executors')):
                if strip(e.callee[2]) == ('param', 'start'):
                    R.ok('the executor of the current stage is called')
                else:
                    R.bad(f'{f.name}:executor', e.loc, f'the executor {show(e.callee)} is not the one of the current stage')
                if not any(mentions(x, lambda s: is_attr(s, 'stage_arguments')) for x in e.args):
                    R.bad(f'{f.name}:arguments', e.loc, 'the stage is executed without its stage arguments')
            if e.kind == 'call' and callee_name(('call', e.callee)) == 'get' and mentions(e.callee, lambda s: is_attr(s, 'stage_arguments')):
                k = e.args[0] if e.args else NONE
                if mentions(k, lambda s: s[0] == 'item' and mentions(s[1], lambda q: is_attr(q, 'stage_identifiers')) and strip(s[2]) == ('param', 'start')):
                    R.ok('stage arguments are those of the current stage')
                else:
                    R.bad(f'{f.name}:argument_key', e.loc, f'stage arguments are looked up with {show(k)}, not the identifier of the current stage')
        # all stages following one are executed for each of its arguments
        nodes = {w: [e.node for e in it.events if e.kind == 'call' and t(e)] for w, t in (
            ('next', lambda e: e.func_ is f), ('run', lambda e: e.callee[0] == 'item' and mentions(e.callee[1], lambda s: is_attr(s, 'stage_executors'))))}
        for lp in (x for x in ast.walk(f.node) if isinstance(x, (ast.For, ast.While))):
            inside = {id(y) for y in ast.walk(lp)}
            if any(id(n) in inside for n in nodes['run']) and nodes['next'] and not any(id(n) in inside for n in nodes['next']):
                R.bad(f'{f.name}:each', f'{f.module.path}:{lp.lineno}', 'the following stages are executed once, not for each of the arguments of a stage')
        for x in ast.walk(f.node):
            if isinstance(x, (ast.ListComp, ast.GeneratorExp)) and any(g.ifs for g in x.generators):
                R.bad(f'{f.name}:filter', f'{f.module.path}:{x.lineno}', 'evaluators are skipped, so artifacts and results are no longer paired')


def in_handler(e, it, f):
    """Is the statement of an event inside an exception handler or a finally block?"""
    for t in ast.walk(f.node):
        if isinstance(t, ast.Try):
            for st in [y for h in t.handlers for y in h.body] + t.finalbody:
                if any(y is e.node for y in ast.walk(st)):
                    return True
    return False


def stages_range(it, R, f, e, t, which, fold, op):
    """The range of executed stages covers the impacts of every dimension that changed."""
    raw = [a for a in alts(t) if a[0] == 'call' and callee_name(a) == 'index']
    compared = [x for x in it.events if x.kind == 'cmp' and x.op in ('<', '>', '<=', '>=') and any(s[0] == 'call' and callee_name(s) == 'index' for s in (x.left, x.right))]
    folds = [a for a in alts(t) if a[0] == 'call' and callee_name(a) in ('min', 'max', 'numpy.min', 'numpy.max')]
    bad = False
    for a in folds:
        if callee_name(a).endswith(fold):
            want = f'{which}_impact'
            other = 'last_impact' if which == 'first' else 'first_impact'
            if mentions(a, lambda s: is_attr(s, other)) and not mentions(a, lambda s: is_attr(s, want)):
                R.bad(f'{f.name}:{which}:source', e.loc, f'the {which} executed stage is derived from the {other} of the changed dimensions')
                bad = True
        else:
            R.bad(f'{f.name}:{which}:fold', e.loc, f'the {which} executed stage is the {"latest" if which == "first" else "earliest"} {which} impact of the changed dimensions, so impacted stages are skipped')
            bad = True
    if raw and not compared:
        R.bad(f'{f.name}:{which}:last_dimension', e.loc, f'the {which} executed stage is the {which} impact of a single changed dimension, not the {"earliest" if which == "first" else "latest"} of all')
        bad = True
    flat = set(alts(t))
    count = {s for a in flat for s in subterms(a) if isinstance(s, tuple) and s and is_attr(s, 'num_stages')}
    if which == 'first':
        if flat and ('const', 0) not in flat and (folds or raw):
            R.bad(f'{f.name}:first:unknown', e.loc, 'a changed dimension of unknown impact does not start over at the first stage')
            bad = True
        if any(is_attr(a, 'num_stages') for a in flat):
            if not any(x.kind == 'cmp' and x.op in ('>=', '<', '==', '!=', '>', '<=') and any(is_attr(s, 'num_stages') for s in (x.left, x.right)) for x in it.events):
                R.bad(f'{f.name}:first:none', e.loc, 'if no dimension changed the stages are not executed again, so the previous sample is reported twice')
                bad = True
    else:
        full = {a for a in flat if a[0] == 'bin' and a[1] == '-' and is_attr(a[2], 'num_stages') and a[3] == ('const', 1)}
        if flat and not full and (folds or raw):
            R.bad(f'{f.name}:last:unknown', e.loc, 'a changed dimension of unknown impact does not execute up to the last stage')
            bad = True
    if not bad:
        R.ok(f'the {which} executed stage covers every changed dimension')


def scalars(V, R):
    prog, F = V.prog, V.F
    SR = P + 'scalar.ScalarEvaluationResult'
    f = prog.cls(SR).method('add_artifact')
    incr, conds = {}, {}
    for e in F.of(f)[0].events:
        if e.kind == 'setitem' and e.base[0] == 'attr':
            name = demangle(e.base[2])
            idx = strip(e.index)
            R.count('accumulators')
            if idx != ('param', 'coordinates'):
                R.bad(f'scalar:{name}:index', e.loc, f'{name} is updated at {show(e.index)}, not at the section of the artifact')
                continue
            v = e.value
            if e.aug:
                incr[name] = v[3]
                conds[name] = (frozenset(map(guardkey, e.guards)), e.loc)
                R.ok(f'{name} accumulates at the section of the artifact')
                continue
            ok = True
            for x in alts(v):
                hit = False
                if x[0] in ('bin', 'aug') and x[1] == '+':
                    for a, b in ((x[2], x[3]), (x[3], x[2])):
                        if a[0] == 'item' and a[1] == e.base:
                            hit = True
                            if strip(a[2]) == idx:
                                incr[name] = b
                            else:
                                R.bad(f'scalar:{name}:source', e.loc, f'{name} at {show(e.index)} is computed from the value at {show(a[2])}')
                                hit = None
                if hit is None:
                    ok = None
                elif not hit and ok:
                    ok = False
            conds[name] = (frozenset(map(guardkey, e.guards)), e.loc)
            if ok:
                R.ok(f'{name} accumulates at the section of the artifact')
            elif ok is False:
                R.bad(f'scalar:{name}', e.loc, f'{name} does not accumulate: {show(v)}')
    if len({g for g, _ in conds.values()}) > 1:
        R.bad('scalar:conditions', f.loc, f'the accumulators {", ".join(sorted(conds))} are not updated under the same condition')
    elif conds:
        R.ok('sum and count of a section are updated together')
    v = F.of(prog.cls(SR).method('to_array'))[2]
    q = next((x for x in subterms(v) if isinstance(x, tuple) and x and x[0] == 'bin' and x[1] == '/'), None) if v is not None else None
    if q is None:
        q = next((('bin', '/', x[2][0], x[2][1]) for x in subterms(v) if isinstance(x, tuple) and x and x[0] == 'call' and callee_name(x).endswith('divide') and len(x[2]) >= 2), None)
    if q is None:
        R.bad('scalar:mean', prog.cls(SR).method('to_array').loc, f'the scalar result {show(v)} is not a mean')
        return
    num, den = (demangle(x[2]) if x[0] == 'attr' else show(x) for x in (q[2], q[3]))
    loc = prog.cls(SR).method('to_array').loc
    if num not in incr or not (incr[num][0] == 'call' and callee_name(incr[num]) == 'to_scalar' or incr[num][0] == 'attr'):
        R.bad('scalar:sum', loc, f'the numerator {num} of the mean does not accumulate the artifact scalars')
    else:
        R.ok('the mean is taken over the sum of the artifact scalars')
    if den not in incr or incr[den] != ('const', 1):
        R.bad('scalar:count', loc, f'the denominator {den} of the mean does not count the artifacts')
    else:
        R.ok('the mean is taken over the number of artifacts')


# ======================================================================================================== M03
def samples(prog: Program, tier: str) -> Result:
    R = Result('M03', 'sample bookkeeping: every section handed out is counted and every counted one is run, the samples of every batch are stashed, stashed batches are removed '
                      'only when returned, the collector processes every pending request and the campaign ends only after all actors have finished')
    V = View(prog)
    F = V.F
    MC, ACT, COL, QM = P + 'monte_carlo.MonteCarlo', P + 'actors.MonteCarloActor', P + 'actors.MonteCarloCollector', P + 'actors.MonteCarloQueueManager'
    queue(V, R, QM)

    # ---- shared lists are drained element by element (or swapped), never copied and cleared
    entries = {'MonteCarloActor': ('run', 'fetch_results'), 'MonteCarloCollector': ('run', 'fetch_results', 'query_estimates')}
    for cq in (ACT, COL):
        touched = {}
        cname = cq.rsplit('.', 1)[-1]
        for f in V.funcs(cq):
            if f.name == '__init__':
                continue
            for e in F.of(f)[0].events:
                a = None
                if e.kind == 'call' and e.callee[0] == 'attr' and e.callee[2] in ('append', 'extend', 'pop', 'clear', 'copy', 'remove', 'insert') and e.recv is not None:
                    for x in alts(e.recv):
                        if x[0] == 'attr' and x[1] == ('self',):
                            touched.setdefault(x[2], []).append((f, e, e.callee[2]))
                if e.kind == 'setattr' and e.base == ('self',):
                    touched.setdefault(e.name, []).append((f, e, 'assign'))
                if e.kind == 'delitem' and e.base[0] == 'attr' and e.base[1] == ('self',):
                    touched.setdefault(e.base[2], []).append((f, e, 'delete'))
        for name, evs in touched.items():
            adders = {f for f, e, how in evs if how in ('append', 'extend', 'insert')}
            if not adders:
                continue
            R.count('shared stashes')
            for f, e, how in evs:
                if f in adders or f.name == '__init__':
                    continue
                if how in ('clear', 'assign', 'delete'):
                    v = e.data.get('value')
                    locked = any(x.kind == 'with' and mentions(x.value, lambda s: is_attr(s, 'lock')) for x in F.of(f)[0].events)
                    if locked:
                        R.ok()
                        continue
                    # an atomic swap reads the old list once and replaces it, later additions go to the new list: only safe if the adder
                    # re-reads the attribute, which is a single bytecode race; treat as unsafe unless popped
                    R.bad(f'{cname}.{f.name}:{demangle(name)}', e.loc, f'{demangle(name)} is read and then emptied at once, a batch stashed in between by {", ".join(sorted(a.name for a in adders))} would be lost')
                elif how == 'pop':
                    R.ok(f'{cname}.{f.name} removes the entries of {demangle(name)} one by one as it returns them')
    # what is popped is returned
    fr = prog.cls(ACT).method('fetch_results')
    val = F.of(fr)[2]
    stash = None
    for f in V.funcs(ACT):
        for e in F.of(f)[0].events:
            if e.kind == 'call' and e.callee[0] == 'attr' and e.callee[2] in ('append', 'extend') and e.args and mentions(e.args[0], lambda s: s[0] == 'call' and callee_name(s) in ('ray.put', 'put')):
                for x in alts(e.recv):
                    if x[0] == 'attr' and x[1] == ('self',):
                        stash = (f, e, x)
    if stash is None:
        R.bad('actor:stash', prog.cls(ACT).loc, 'the samples of a batch are not stashed for collection')
    else:
        f, e, x = stash
        put = next(s for s in subterms(e.args[0]) if isinstance(s, tuple) and s and s[0] == 'call' and callee_name(s) in ('ray.put', 'put'))
        if put[2] and (put[2][0][0] == 'call' and 'run_batch' in callee_name(put[2][0]) or mentions(put[2][0], lambda s: s == ('cls', P + 'artifact.MonteCarloSample'))):
            R.ok('the samples of every batch are stashed')
        else:
            R.bad('actor:stash:value', e.loc, f'the stashed object {show(put)} is not the result of running the batch')
        for c, pol in guardlist(e):
            if mentions(c, lambda s: s[0] == 'call' and 'run_batch' in callee_name(s)):
                if c[0] == 'cmp' and mentions(c, lambda s: s[0] == 'call' and callee_name(s) == 'len'):
                    k = next((s[1] for s in (c[2], c[3]) if s[0] == 'const'), None)
                    lit = (c[1], c[3] if c[3][0] == 'const' else None, pol)
                    if not ((c[1] == '>' and k == 0 and pol) or (c[1] == '<' and k == 1 and not pol) or (c[1] == '>=' and k == 1 and pol) or (c[1] == '!=' and k == 0 and pol) or (c[1] in ('==', '<=') and k == 0 and not pol)):
                        R.bad('actor:stash:guard', e.loc, f'batches are only stashed if {show(c)}')
        if val is None or not mentions(val, lambda s: s == x or (s[0] == 'attr' and s[2] == x[2])):
            R.bad('actor:fetch', fr.loc, 'fetching the results of an actor does not return the stashed batches')
        else:
            R.ok('fetching returns the stashed batches')
    # run loop ends on an empty batch only
    run = prog.cls(ACT).method('run')
    it = F.of(run)[0]
    rb = [e for e in it.events if e.kind == 'call' and e.func_ is not None and 'run_batch' in e.func_.name]
    if not rb:
        R.bad('actor:run', run.loc, 'the actor runs no batch')
    for e in rb:
        a = e.args[0] if e.args else NONE
        if refers(a, 'next_batch'):
            R.ok('an actor runs exactly the batch it was handed')
        else:
            R.bad('actor:run:batch', e.loc, f'the actor runs {show(a)}, not the batch it was handed')
    for e in it.events:
        if e.kind == 'cmp' and any(s[0] == 'call' and callee_name(s) == 'len' and refers(s, 'next_batch') and not mentions(s, lambda q: q[0] == 'call' and 'run_batch' in callee_name(q)) for s in (e.left, e.right)):
            left = e.left[0] == 'call'
            k = e.right if left else e.left
            op = e.op if left else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(e.op, e.op)
            if (op, k[1] if k[0] == 'const' else None) in (('<', 1), ('<=', 0), ('==', 0), ('>', 0), ('>=', 1), ('!=', 0)):
                R.ok('an actor only stops when it is handed no section')
            else:
                R.bad('actor:run:end', e.loc, f'an actor stops if {show(e.left)[:60]} {e.op} {show(e.right)}, the sections of that batch are counted but never run')
    loops = [x for x in ast.walk(run.node) if isinstance(x, (ast.While, ast.For))]
    if not loops:
        R.bad('actor:run:loop', run.loc, 'the actor stops after one batch')
    for f in V.funcs(ACT):
        if 'batch' in f.params:
            ext = [e for e in F.of(f)[0].events if e.kind == 'call' and e.callee[0] == 'attr' and e.callee[2] in ('extend', 'append') and e.args and mentions(e.args[0], lambda s: s == ('cls', P + 'artifact.MonteCarloSample'))]
            if ext:
                R.ok('every artifact list becomes a sample')
            for x in ast.walk(f.node):
                if isinstance(x, (ast.ListComp, ast.GeneratorExp)) and any(g.ifs for g in x.generators):
                    R.bad('actor:samples:filter', f'{f.module.path}:{x.lineno}', 'samples are dropped from the batch')
            for lp in [x for x in ast.walk(f.node) if isinstance(x, ast.For) and isinstance(x.iter, ast.Name) and x.iter.id == 'batch']:
                for b in [y for st in lp.body for y in ast.walk(st)]:
                    if isinstance(b, (ast.Break, ast.Continue, ast.Return)) and innermost(lp, b):
                        R.bad('actor:samples:skip', f'{f.module.path}:{b.lineno}', 'a section of the batch is skipped although it was counted')
                R.count('batch loops')

    # ---- the collector
    fetch = prog.cls(COL).method('fetch_results')
    runc = prog.cls(COL).method('run')
    itr = F.of(runc)[0]
    proc = [e for e in itr.events if e.kind == 'call' and e.func_ is not None and e.func_.cls is not None and e.func_.cls.qual == COL and 'process' in e.func_.name]
    if not proc:
        R.bad('collector:run', runc.loc, 'the running collector processes no samples')
    for e in itr.events:
        if e.kind == 'setitem' and mentions(e.base, lambda s: is_attr(s, 'future_map')):
            v, i = e.value, e.index
            src = i[1][1] if i[0] == 'call' and i[1][0] == 'attr' and i[1][1][0] in ('attr', 'bound') else None
            if src is not None and refers(src, 'fetch_results') and src[1] == v:
                R.ok('the next request goes to the actor whose request was answered')
            else:
                R.bad('collector:requeue', e.loc, f'request {show(i)} is filed for {show(v)}')
            if not mentions(v, lambda s: s[0] == 'call' and callee_name(s) == 'pop') and not mentions(v, lambda s: is_attr(s, 'future_map')):
                R.bad('collector:requeue:actor', e.loc, f'{show(v)} is not the actor whose request was answered')
    itf = F.of(fetch)[0]
    procs = [e for e in itf.events if e.kind == 'call' and e.func_ is not None and e.func_.cls is not None and e.func_.cls.qual == COL and 'process' in e.func_.name]
    pend = [e for e in procs if e.args and mentions(e.args[0], lambda s: is_attr(s, 'future_map'))]
    last = [e for e in procs if e.args and refers(e.args[0], 'fetch_results')]
    for e in procs:
        if e.args and mentions(e.args[0], lambda s: s[0] == 'item' and isinstance(s[2], tuple) and s[2][0] == 'slice'):
            R.bad('collector:part', e.loc, f'only a part of what was received is processed ({show(e.args[0])})')
    if pend:
        R.ok('pending requests are processed by the final fetch')
    else:
        R.bad('collector:pending', fetch.loc, 'samples of requests still pending are not processed by the final fetch')
    if last:
        R.ok('the final fetch asks every actor for what was stashed since')
        for e in last:
            if not mentions(e.args[0], lambda s: s[0] == 'elem' and mentions(s[1], lambda q: is_attr(q, 'actors'))):
                R.bad('collector:final:actors', e.loc, f'{show(e.args[0])} does not cover all actors')
            elif mentions(e.args[0], lambda s: s[0] == 'item' and mentions(s[1], lambda q: is_attr(q, 'actors'))):
                R.bad('collector:final:actors', e.loc, 'only part of the actors is asked for remaining results')
    else:
        R.bad('collector:final', fetch.loc, 'batches stashed after the last request are never fetched from the actors')
    for e in itf.events:
        if e.kind == 'call' and callee_name(('call', e.callee)) in ('ray.wait', 'wait'):
            nr = e.kwargs.get('num_returns', ('const', 1))
            if nr[0] == 'call' and callee_name(nr) == 'len' and strip(nr[2][0]) == strip(e.args[0]):
                R.ok('the final fetch waits for all pending requests')
            else:
                R.bad('collector:wait', e.loc, f'the final fetch waits for {show(nr)} of the pending requests')
            if 'timeout' in e.kwargs:
                R.bad('collector:timeout', e.loc, 'the final fetch gives up on pending requests')
    # concurrency: run and fetch both process samples
    for g, its in ((runc, itr), (fetch, itf)):
        under = guarded_calls(g, 'process_samples')
        for call, ok in under:
            if ok:
                R.ok(f'{g.name} processes samples under the lock')
            else:
                R.bad(f'collector:lock:{g.name}', f'{g.module.path}:{call.lineno}', f'{g.name} processes samples without holding the lock although run and fetch_results execute concurrently')
    # one artifact is added once
    adders = [(f, e) for f, e in V.calls(COL, 'add_artifact')]
    if len(adders) == 1:
        R.ok('an artifact is added in one place')
    elif adders:
        for f, e in adders[1:]:
            R.bad('collector:twice', e.loc, 'artifacts are added to the results in more than one place')
    for f, e in adders:
        if f.name == '__init__':
            continue
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Continue, ast.Break)):
                R.bad(f'collector:{f.name}:skip', f'{f.module.path}:{x.lineno}', 'samples or artifacts are skipped')
            if isinstance(x, ast.Return) and x is not f.node.body[-1]:
                R.bad(f'collector:{f.name}:skip', f'{f.module.path}:{x.lineno}', 'processing samples is left early')

    # ---- the campaign
    sim = prog.cls(MC).method('simulate')
    its = F.of(sim)[0]
    fetched = [i for i, e in enumerate(its.events) if remote_of(e, 'fetch_results')]
    waits = []
    for i, e in enumerate(its.events):
        if e.kind == 'call' and callee_name(('call', e.callee)) in ('ray.wait', 'ray.get', 'wait', 'get') and e.args and mentions(e.args[0], lambda s: s[0] == 'attr' and s[2] == 'remote' and refers(s[1], 'run')):
            if callee_name(('call', e.callee)).endswith('wait'):
                nr = e.kwargs.get('num_returns', ('const', 1))
                if not (nr[0] == 'call' and callee_name(nr) == 'len') and not (nr[0] == 'attr' and nr[2].endswith('num_actors')):
                    R.bad('simulate:wait', e.loc, f'only {show(nr)} of the actors are waited for')
                if 'timeout' in e.kwargs and e.kwargs['timeout'] != NONE:
                    R.bad('simulate:wait:timeout', e.loc, 'waiting for the actors is given up after a timeout')
            waits.append(i)
    if not fetched:
        R.bad('simulate:fetch', sim.loc, 'the collected results are never fetched')
    elif not waits or min(waits) > min(fetched):
        R.bad('simulate:wait', its.events[fetched[0]].loc, 'results are fetched without waiting for the actors to finish their batches')
    else:
        R.ok('results are fetched after every actor has finished')
    for who, cq, par, want in (('queue', QM, 'num_samples', 'num_samples'),):
        for e in its.events:
            if remote_of(e) and mentions(e.callee, lambda s: s == ('cls', cq)):
                a = bindargs(prog, cq, e.args, e.kwargs).get(par, NONE)
                if a[0] == 'attr' and nm(a[2]) == want:
                    R.ok('the queue hands out the number of samples configured')
                else:
                    R.bad(f'simulate:{who}:{par}', e.loc, f'the {who} is launched with {show(a)} instead of the number of samples')
    for e in its.events:
        if e.kind == 'new' and e.cls.qual == P + 'monte_carlo.MonteCarloResult':
            a = bindargs(prog, e.cls.qual, e.args, e.kwargs).get('results', NONE)
            if refers(a, 'fetch_results'):
                R.ok('the campaign reports the fetched results')
            else:
                R.bad('simulate:results', e.loc, f'the campaign reports {show(a)}, not the fetched results')
    R.floors = {'shared stashes': 1, 'batch loops': 0, 'queue obligations': 6}
    return R


def innermost(loop, node):
    """Is a break/continue/return inside loop bound to that loop itself (returns always leave it)?"""
    if isinstance(node, ast.Return):
        return True
    def find(n, cur):
        for c in ast.iter_child_nodes(n):
            if c is node:
                return cur
            r = find(c, c if isinstance(c, (ast.For, ast.While)) else cur)
            if r is not None:
                return r
        return None
    return find(loop, loop) is loop


def guarded_calls(f, name):
    """(call node, inside a with-block over a lock) for calls of a private helper."""
    out = []

    seen = set()
    acquired = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'acquire' for x in ast.walk(f.node))

    def visit(n, locked):
        locked = locked or acquired
        if isinstance(n, (ast.With, ast.AsyncWith)):
            l = any('lock' in ast.unparse(i.context_expr).lower() for i in n.items)
            for i in n.items:
                visit(i.context_expr, locked)
            for s in n.body:
                visit(s, locked or l)
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.lstrip('_').endswith(name):
            out.append((n, locked))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and f.cls is not None:
            g = f.cls.methods.get(n.func.attr)
            if g is not None and (g, locked) not in seen:
                seen.add((g, locked))
                for st in g.node.body:
                    visit(st, locked)
        for c in ast.iter_child_nodes(n):
            visit(c, locked)
    for s in f.node.body:
        visit(s, False)
    return out


def queue(V, R, QM):
    prog, F = V.prog, V.F
    nb = prog.cls(QM).method('next_batch')
    it, fin, val = F.of(nb)
    handed = [e for e in it.events if e.kind == 'call' and e.callee[0] == 'attr' and e.callee[2] == 'append']
    counted = [e for e in it.events if e.kind == 'setitem' and mentions(e.base, lambda s: is_attr(s, 'grid_task_count'))]
    R.count('queue obligations')
    if not handed or not counted:
        R.bad('queue:count', nb.loc, 'handing out a section does not count it')
    else:
        for c in counted:
            sec = strip(c.index)
            if any(strip(h.args[0]) == sec for h in handed):
                R.ok('the section counted is the section handed out')
            else:
                R.bad('queue:section', c.loc, f'section {show(c.index)[:100]} is counted but {show(handed[0].args[0])[:100]} is handed out')
            R.count('queue obligations')
            v = c.value
            inc = next((x for x in subterms(v) if isinstance(x, tuple) and x and x[0] in ('bin', 'aug') and x[1] == '+' and (x[2] == ('const', 1) or x[3] == ('const', 1))), None)
            if inc is None:
                R.bad('queue:increment', c.loc, f'handing out a section sets its count to {show(v)[:100]} instead of adding one')
            else:
                R.ok('handing out a section counts one sample')
            R.count('queue obligations')
            if set(map(guardkey, handed[0].guards)) != set(map(guardkey, c.guards)):
                R.bad('queue:conditional', c.loc, 'a section is handed out under other conditions than it is counted')
            else:
                R.ok()
    first = min((it.events.index(h) for h in handed), default=len(it.events))
    for i, e in enumerate(it.events):
        if e.kind == 'return' and i > first and all(a[0] == 'const' or a[0] in ('list', 'tuple') and not a[1] for a in alts(e.value)):
            R.bad('queue:dropped', e.loc, 'sections already counted are not handed out')
    dis = [e for e in it.events if e.kind == 'call' and e.func_ is not None and e.func_.name == 'disable_section']
    if not dis:
        R.bad('queue:disable', nb.loc, 'a section is handed out without limit')
    for e in dis:
        R.count('queue obligations')
        if handed and strip(e.args[0]) != strip(handed[0].args[0]):
            R.bad('queue:disable:section', e.loc, f'{show(e.args[0])[:100]} is disabled instead of the section handed out')
        else:
            R.ok('the section disabled is the one handed out')
    for e in it.events:
        if e.kind == 'cmp' and any(is_attr(s, 'num_samples') for s in (e.left, e.right)):
            R.count('queue obligations')
            right = is_attr(e.right, 'num_samples')
            count = e.left if right else e.right
            op = e.op if right else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(e.op, e.op)
            updated = mentions(count, lambda s: s[0] in ('bin', 'aug') and s[1] == '+') or count[0] == 'item'
            if op in ('>=', '==', '<', '!='):
                R.ok('a section is retired once its count reaches the number of samples')
            else:
                R.bad('queue:limit', e.loc, f'a section is retired if its count is {op} the number of samples: the number of samples collected is off by one')
            if not mentions(count, lambda s: is_attr(s, 'grid_task_count')):
                R.bad('queue:limit:count', e.loc, f'{show(count)[:80]} is compared to the number of samples, not the count of the section')
            elif count[0] != 'item' and not updated:
                R.bad('queue:limit:stale', e.loc, 'the count compared to the number of samples does not include the section just handed out')
    ds = prog.cls(QM).method('disable_section')
    itd = F.of(ds)[0]
    for e in itd.events:
        if e.kind == 'call' and callee_name(('call', e.callee)) in ('any',) or e.kind == 'call' and callee_name(('call', e.callee)) == 'numpy.any':
            R.bad('queue:disable:any', e.loc, 'sections that agree in a single coordinate are disabled, too')
        if e.kind == 'call' and callee_name(('call', e.callee)) in ('all', 'numpy.all'):
            R.count('queue obligations')
            ax = e.kwargs.get('axis', e.args[0] if e.args and e.callee[0] == 'attr' and e.callee[1][0] != 'mod' else ('const', 1))
            if ax in (('const', 1), ('const', -1), ('un', '-', ('const', 1))):
                R.ok('a section is identified by all of its coordinates')
            elif ax[0] == 'const':
                R.bad('queue:disable:axis', e.loc, 'sections are not identified by all of their coordinates')
        if e.kind == 'setitem' and mentions(e.base, lambda s: is_attr(s, 'active_section_flags')):
            if strip(e.index) == ('param', 'coordinates') and e.value == ('const', False):
                R.ok('the section disabled is reported as inactive')
            else:
                R.bad('queue:flags', e.loc, f'section {show(e.index)} is reported as {show(e.value)} when another one is disabled')
        if e.kind == 'setattr' and nm(e.name) == 'num_active_sections':
            R.count('queue obligations')
            w = strip(e.value)
            if w[0] in ('bin', 'aug') and w[1] == '-' and w[3] == ('const', 1) or w[0] == 'call' and callee_name(w) == 'len' or w[0] == 'item' and w[1][0] == 'attr' and w[1][2] == 'shape' \
                    or w[0] == 'call' and callee_name(w) in ('sum', 'numpy.sum', 'count_nonzero', 'numpy.count_nonzero'):
                R.ok('disabling a section reduces the number of active ones by one')
            else:
                R.bad('queue:active', e.loc, f'disabling a section sets the number of active sections to {show(e.value)[:80]}')
            removal = [x for x in itd.events if x.kind == 'setattr' and nm(x.name) == 'active_section_coordinates']
            if (e.aug or w[0] == 'bin' and w[1] == '-') and removal and not {guardkey(g) for g in removal[0].guards} <= {guardkey(g) for g in e.guards}:
                R.bad('queue:active:conditional', e.loc, 'the number of active sections is reduced although no section is removed from the active ones: disabling a section twice ends the campaign early')
            elif not e.guards and not returns_early(ds):
                R.bad('queue:active:twice', e.loc, 'disabling a section that is already disabled reduces the number of active sections again')
    ini = prog.cls(QM).method('__init__')
    iti = F.of(ini)[0]
    fulls = 0
    for e in iti.events:
        if e.kind == 'call' and callee_name(('call', e.callee)) == 'numpy.ndindex':
            R.count('queue obligations')
            if mentions(('tuple', tuple(e.args)), lambda s: s[0] == 'slice'):
                R.bad('queue:grid', e.loc, 'only part of the grid is simulated')
            elif mentions(('tuple', tuple(e.args)), lambda s: s[0] == 'attr' and s[2] == 'num_sample_points'):
                fulls += 1
                R.ok('the sections span the full grid')
        if e.kind == 'setattr' and nm(e.name) == 'num_samples':
            if e.value == ('param', 'num_samples'):
                R.ok()
            else:
                R.bad('queue:num_samples', e.loc, f'the number of samples per section is {show(e.value)}')
    qp = prog.cls(QM).method('query_progress')
    for e in F.of(qp)[0].events:
        if e.kind == 'return' and not e.implicit and e.value[0] == 'tuple':
            p = e.value[1][0]
            if p[0] == 'const' and p[1] == 1.0:
                g = [c for c, pol in guardlist(e) if c[0] == 'cmp' and is_attr(c[2], 'num_active_sections') and (c[1], c[3][1] if c[3][0] == 'const' else None, pol) in
                     (('<', 1, True), ('<=', 0, True), ('==', 0, True), ('>', 0, False), ('>=', 1, False), ('!=', 0, False))]
                if g:
                    R.ok('completion is reported only when no section is active')
                else:
                    R.bad('queue:progress', e.loc, 'the campaign is reported as completed although sections are still active')


def guardkey(g):
    return g[:2] if isinstance(g, tuple) else g


def returns_early(f):
    return any(isinstance(x, ast.If) and any(isinstance(y, ast.Return) for y in x.body) for x in ast.walk(f.node))
