"""Field tables of every serialisable type: what saving writes, what restoring reads."""
from __future__ import annotations
import ast
from dataclasses import dataclass, field
from ..model import Program, Class, AnalysisBroken, Func
from ..absint import Interp, NONE, const, show, subterms, State, alts, phi

SER = 'hermespy.core.factory.Serializable'
UNDEF = 'UNDEFINED'


@dataclass
class Field:
    key: str
    kind: str
    guards: tuple          # guard literals relevant for presence (loops removed)
    loops: int
    value: object = None
    default: object = None
    has_default: bool = False
    extra: tuple = ()      # dtype / type arguments
    loc: str = ''
    func: Func = None
    stack: tuple = ()


def key_text(t) -> str:
    if t[0] == 'const':
        return str(t[1])
    if t[0] == 'fstr':
        out = ''
        for p in t[1]:
            if p[0] == 'const':
                out += str(p[1])
            elif p[1][0] == 'const':
                out += format(p[1][1], p[2].strip("f'\"") if p[2] else '')
            else:
                out += '{' + p[2].strip("f'\"") + '}'
        return out
    if t[0] == 'bin' and t[1] == '+':
        return key_text(t[2]) + key_text(t[3])
    if t[0] == 'call' and t[1] == ('builtin', 'str'):
        return '{}'
    return '{}'


def is_loop(g):
    return isinstance(g[0], tuple) and g[0] and g[0][0] in ('loop', 'except')


class SerialFacts:
    """Interprets serialize / Deserialize of one concrete class."""

    def __init__(self, prog: Program, cls: Class):
        self.prog = prog
        self.cls = cls
        self.writes: list[Field] = []
        self.reads: list[Field] = []
        self.wit = self._run('serialize')
        self.rit = self._run('Deserialize')

    # -- hooks
    def _on_attr(self, it, base, name, st, ctx, node):
        if base[0] == 'proc':
            return ('procm', base, name)
        return None

    def _on_call(self, it, callee, args, kwargs, st, ctx, node):
        if callee[0] != 'procm':
            return None
        proc, name = callee[1], callee[2]
        prefix = proc[1]
        if name in ('serialize_object_mapping',):
            f = self.prog.func('hermespy.core.factory.SerializationProcess.serialize_object_mapping')
            it.bound_methods[(f.qual, f.cls.qual)] = f
            return it.call_func(f, args, kwargs, st, ctx, node, self_term=proc, exact=True)
        names = {'serialize_array': ('array', 'name', 'cache'), 'serialize_floating': ('value', 'name'), 'serialize_complex': ('value', 'name'),
                 'serialize_integer': ('value', 'name'), 'serialize_string': ('value', 'name'), 'serialize_object': ('obj', 'name', 'root'),
                 'serialize_object_sequence': ('objects', 'name', 'append', 'root'), 'serialize_range': ('value', 'name'),
                 'serialize_custom': ('name', 'serializer'),
                 'deserialize_array': ('name', 'dtype', 'default'), 'deserialize_floating': ('name', 'default'), 'deserialize_complex': ('name', 'default'),
                 'deserialize_integer': ('name', 'default'), 'deserialize_string': ('name', 'default'), 'deserialize_range': ('name', 'default'),
                 'deserialize_object': ('name', 'type', 'default'), 'deserialize_object_sequence': ('name', 'type', 'start', 'stop'),
                 'sequence_length': ('name',), 'deserialize_custom': ('name', 'callback')}
        if name not in names:
            return ('call', callee, tuple(args), tuple(sorted(kwargs.items())))
        a = dict(zip(names[name], args))
        a.update(kwargs)
        key = prefix + key_text(a.get('name', const('?')))
        g = tuple(x for x in st.guards if not is_loop(x))
        loops = sum(1 for x in st.guards if is_loop(x) and x[0][0] == 'loop')
        loc = f'{ctx.func.module.path}:{getattr(node, "lineno", 0)}'
        common = dict(loc=loc, func=ctx.func, stack=ctx.stack)
        if name == 'serialize_custom':
            self.writes.append(Field(key, 'custom', g, loops, **common))
            it.call(a['serializer'], [('proc', key + '/')], {}, st, ctx, node)
            return NONE
        if name == 'deserialize_custom':
            self.reads.append(Field(key, 'custom', g, loops, **common))
            return it.call(a['callback'], [('proc', key + '/')], {}, st, ctx, node)
        if name.startswith('serialize_'):
            kind = name[len('serialize_'):]
            v = a.get('value', a.get('array', a.get('obj', a.get('objects'))))
            self.writes.append(Field(key, kind, g, loops, value=v, **common))
            return NONE
        kind = 'object_sequence' if name == 'sequence_length' else name[len('deserialize_'):]
        d = a.get('default')
        if name == 'deserialize_object':
            # (name, type[, default]) or (name, default)
            if 'type' in a and 'default' not in a and a['type'][0] == 'const':
                d = a['type']
        hasd = d is not None and d != ('const', UNDEF)
        if kind == 'object_sequence':
            hasd = True
        extra = tuple(x for x in (a.get('dtype') or a.get('type'),) if x is not None)
        self.reads.append(Field(key, kind, g, loops, default=d, has_default=hasd, extra=extra, **common))
        if name == 'sequence_length':
            return ('call', ('builtin', 'len'), (('skey', key, kind),), ())
        return ('skey', key, kind)

    def _policy(self, it, f, stack):
        return True

    def _run(self, meth):
        f = self.cls.method(meth)
        if f is None:
            raise AnalysisBroken(f'{self.cls.qual} has no {meth}')
        it = Interp(self.prog, self.cls, inline=self._policy, on_call=self._on_call, on_attr=self._on_attr)
        p = f.own_params()
        if not p:
            raise AnalysisBroken(f'{f.qual} takes no process')
        # loops are interpreted twice; de-duplicate the facts afterwards
        final, val, ctx = it.run(f, {p[0]: ('proc', '')})
        it.final, it.value, it.ctx = final, val, ctx
        if meth == 'serialize':
            self.writes = _dedupe(self.writes)
        else:
            self.reads = _dedupe(self.reads)
        return it


def _dedupe(fs):
    out = []
    seen = {}
    for f in fs:
        k = (f.key, f.kind, f.loc, f.guards, len(f.stack))
        if k in seen:
            seen[k].value = f.value
            continue
        seen[k] = f
        out.append(f)
    return out


def concrete_serialisables(prog: Program) -> list[Class]:
    s = prog.cls(SER)
    out = [c for c in prog.subclasses(s) if not c.is_abstract]
    if len(out) < 200:
        raise AnalysisBroken(f'only {len(out)} concrete serialisable types found')
    return out
