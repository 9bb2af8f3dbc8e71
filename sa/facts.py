"""One interpretation of every function of the package (no inlining) shared by the whole-program rules."""
from __future__ import annotations
import ast
from .model import Program, Func, Class, Module, AnalysisBroken
from .absint import Interp, State, Ctx, Event


class Facts:
    def __init__(self, prog: Program):
        self.prog = prog
        self._cache: dict = {}

    def of(self, f: Func):
        """(interp, final state, value) of one function, nested functions and lambdas included."""
        r = self._cache.get(f)
        if r is None:
            it = Interp(self.prog, self_cls=f.cls, inline=lambda i, g, s: '<locals>' in g.qual or '<lambda>' in g.qual, record_reads=True)
            final, val, ctx = it.run(f)
            done = set()
            for _ in range(3):
                todo = [c for c in it.closures if c not in done and it.closures[c][0] not in it.inlined]
                if not todo:
                    break
                for c in todo:
                    done.add(c)
                    g, env = it.closures[c]
                    st = State({}, dict(final.heap) if final is not None else {})
                    for n in g.params + g.kwonly:
                        t = ('param', f'{g.name}:{n}')
                        st.env[n] = t
                        it.param_types[t] = it.ann_types(g.annotation_of(n), g.module, g.cls)
                    if g.vararg:
                        st.env[g.vararg] = ('param', f'{g.name}:*{g.vararg}')
                    if g.kwarg:
                        st.env[g.kwarg] = ('param', f'{g.name}:**{g.kwarg}')
                    it.block(g.node.body, st, Ctx(g, g.cls or f.cls, (f, g), env))
            r = self._cache[f] = (it, final, val)
        return r

    def events(self, f: Func):
        return self.of(f)[0].events

    def toplevel(self):
        """Events of module bodies, class bodies and parameter defaults: code that runs once at import."""
        out = []
        for m in self.prog.modules.values():
            pseudo = ast.FunctionDef(name='<module>', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                     body=[], decorator_list=[], returns=None, type_params=[])
            pf = Func('<module>', m.name + '.<module>', pseudo, m, None, 'function')
            it = Interp(self.prog, inline=lambda i, g, s: False)
            ctx = Ctx(pf, None, (pf,))

            def exprs(body, cls):
                for s in body:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        for d in list(s.args.defaults) + [x for x in s.args.kw_defaults if x is not None]:
                            yield d, cls, f'default of {s.name}'
                        for d in s.decorator_list:
                            yield d, cls, f'decorator of {s.name}'
                    elif isinstance(s, ast.ClassDef):
                        yield from exprs(s.body, s.name)
                    elif isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                        yield s.value, cls, 'assignment'
                    elif isinstance(s, ast.Expr):
                        yield s.value, cls, 'expression'
                    elif isinstance(s, (ast.If, ast.Try)):
                        if isinstance(s, ast.If) and '__main__' in ast.unparse(s.test):
                            continue
                        for b in ('body', 'orelse', 'finalbody'):
                            yield from exprs(getattr(s, b, []), cls)
                    elif isinstance(s, ast.For):
                        yield s.iter, cls, 'loop'
                        yield from exprs(s.body, cls)
            for e, cls, what in exprs(m.tree.body, None):
                n = len(it.events)
                try:
                    it.ev(e, State(), ctx)
                except AnalysisBroken:
                    continue
                for x in it.events[n:]:
                    out.append((m, cls, what, x))
        return out


_facts: dict = {}


def facts(prog: Program) -> Facts:
    if prog not in _facts:
        _facts[prog] = Facts(prog)
    return _facts[prog]
