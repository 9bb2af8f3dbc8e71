"""U01: physical dimensions agree.  Seconds, metres and their reciprocals are tracked through all expressions."""
from __future__ import annotations
import ast
import re
from fractions import Fraction
from ..model import Program
from ..absint import show, alts
from ..facts import facts
from ..report import Result
from .purity import demangle

ONE = (Fraction(0), Fraction(0))
S = (Fraction(1), Fraction(0))
HZ = (Fraction(-1), Fraction(0))
M = (Fraction(0), Fraction(1))
MS = (Fraction(-1), Fraction(1))
NUM = 'num'         # a literal: fits every dimension
NAMES = {ONE: '1', S: 's', HZ: '1/s', M: 'm', MS: 'm/s', NUM: 'number', None: 'unknown'}

# words that make a name say nothing about a plain physical quantity
VAGUE = {'num', 'idx', 'index', 'indices', 'count', 'factor', 'ratio', 'samples', 'sample', 'bits', 'normalized', 'norm', 'db', 'log', 'mean', 'std', 'percentage',
         'scale', 'title', 'label', 'type', 'mode', 'bin', 'bins', 'code', 'decode', 'encode', 'mu', 'sigma', 'func', 'estimator', 'grid', 'scaling',
         'axis', 'figure', 'plot', 'lag', 'unit', 'units', 'str', 'spread', 'model', 'dimension', 'correction', 'min_max', 'candidates', 'filter', 'response'}
LAST = {'bandwidth': HZ, 'frequency': HZ, 'frequencies': HZ, 'delay': S, 'delays': S, 'duration': S, 'durations': S, 'timestamp': S, 'timestamps': S, 'velocity': MS, 'velocities': MS,
        'distance': M, 'distances': M, 'wavelength': M, 'wavelengths': M, 'time': S, 'times': S, 'interval': S, 'intervals': S}
FULL = {'sampling_rate': HZ, 'symbol_rate': HZ, 'max_sampling_rate': HZ, 'adc_sampling_rate': HZ, 'input_sampling_rate': HZ, 'output_sampling_rate': HZ, 'target_sampling_rate': HZ,
        'tx_sampling_rate': HZ, 'rx_sampling_rate': HZ, 'downsampling_rate': HZ, 'subcarrier_spacing': HZ, 'min_range': M, 'max_range': M, 'target_range': M,
        'range_resolution': M, 'velocity_resolution': MS, 'delay_resolution': S, 'position': M, 'positions': M, 'global_position': M, 'antenna_positions': M, 'speed_of_light': MS,
        'sampling_interval': S, 'target_velocity': MS, 'chirp_slope': (Fraction(-2), Fraction(0)), 'slope': (Fraction(-2), Fraction(0)), 'doppler_shift': HZ, 'doppler': HZ, 'los_doppler': HZ, 'nlos_doppler': HZ,
        'max_doppler': HZ, 'max_relative_doppler': HZ, 'relative_doppler_resolution': HZ, 'relative_doppler_bins': HZ, 'doppler_bins': HZ, 'velocity_bins': MS, 'range_bins': M,
        'delay_profile': S, 'range_min': M, 'range_max': M, 'min_range_bin': M, 'delay_samples': ONE, 'delay_in_samples': ONE, 'max_delay_in_samples': ONE, 'delay_sample_shift': ONE,
        'delay_sample_offset': ONE, 'path_delay_samples': ONE, 'path_num_delay_samples': ONE, 
        'spacing': M, 'topology': M, 'relative_bandwidth': None}
# local names that are believed where the value itself says nothing
TRUSTED = {'frequency', 'wavelength', 'carrier_frequency', 'sampling_rate', 'bandwidth', 'sampling_interval', 'distance', 'los_distance', 'propagation_delay', 'max_delay', 'center_frequency', 'doppler_shift',
           'relative_velocity', 'range_resolution', 'velocity_resolution', 'symbol_duration', 'frame_duration'}
UNITLESS = {'oversampling_factor', 'decimation_factor', 'upsampling_factor', 'azimuth', 'zenith', 'elevation'}
# (owner or *, name): reviewed exceptions, the quantity has another dimension than its name suggests
SPECIAL: dict = {
    ('*', 'oversampling_factor'): ONE,                              # documented "in Hz" once, a plain factor everywhere
    ('PointDetection.FromSpherical', 'range'): M,                   # documented "in m/s"
    # inputs of the empirical 3GPP formulas, whose literals carry the units
    ('*', 'distance_2d'): None, ('*', 'distance_3d'): None, ('*', 'terminal_height'): None, ('*', 'base_height'): None,
}

TRANSPARENT = {'abs', 'absolute', 'real', 'imag', 'sum', 'mean', 'max', 'min', 'amax', 'amin', 'array', 'asarray', 'ascontiguousarray', 'flatten', 'ravel', 'reshape', 'copy', 'tolist', 'astype',
               'sort', 'sorted', 'unique', 'squeeze', 'expand_dims', 'repeat', 'tile', 'roll', 'fftshift', 'ifftshift', 'diff', 'median', 'std', 'norm', 'float', 'complex', 'conj', 'conjugate', 'flip',
               'broadcast_to', 'transpose', 'swapaxes', 'moveaxis', 'atleast_1d', 'atleast_2d', 'negative', 'nanmax', 'nanmin', 'item', 'cumsum', 'list', 'tuple', 'reversed', 'full_like', 'ptp', 'take', 'view', 'deepcopy'}
SAME = {'minimum', 'maximum', 'hypot', 'fmod', 'mod', 'remainder', 'append', 'concatenate', 'hstack', 'vstack', 'stack', 'isclose', 'allclose', 'add', 'subtract', 'greater', 'less', 'interp_'}
DIMLESS_ARG = {'exp', 'sin', 'cos', 'tan', 'sinc', 'expm1', 'arcsin', 'arccos', 'arctan', 'tanh', 'sinh', 'cosh'}
LOGS = {'log', 'log10', 'log2', 'log1p'}       # empirical models take logarithms of frequencies and distances
COUNT_ARG = {'ceil', 'floor', 'rint', 'int', 'round', 'trunc', 'fix'}
SHAPE_FIRST = {'zeros', 'empty', 'ones', 'eye', 'range', 'ndindex', 'identity'}


def nm(x):
    return demangle(x).lstrip('_') if isinstance(x, str) else ''


def name_dim(name, owner='*'):
    n = nm(name)
    if (owner, n) in SPECIAL:
        return SPECIAL[owner, n]
    if ('*', n) in SPECIAL:
        return SPECIAL['*', n]
    if n in FULL:
        return FULL[n]
    w = n.split('_')
    if w[0] == 'num' or w[-1] in ('index', 'idx', 'indices', 'idxs', 'count') or n in UNITLESS:
        return ONE
    if set(w) & VAGUE:
        return None
    return LAST.get(w[-1])


def mul(a, b, k=1):
    if a is None or b is None:
        return None
    if a == NUM and b == NUM:
        return NUM
    a = ONE if a == NUM else a
    b = ONE if b == NUM else b
    return (a[0] + k * b[0], a[1] + k * b[1])


def join(ds):
    """Dimension of a value that is one of several."""
    ds = set(ds)
    ds.discard(NUM) if len(ds) > 1 else None
    return ds.pop() if len(ds) == 1 else None


def dimstr(d):
    if d in NAMES:
        return NAMES[d]
    return ' '.join(f'{u}^{e}' for u, e in zip(('s', 'm'), d) if e)


UNIT = {'hz': HZ, 'hertz': HZ, 'seconds': S, 'second': S, 'meters': M, 'metres': M, 'm/s': MS, 'meters per second': MS, 'samples': ONE, 'radians': ONE, 'degrees': ONE}
UNIT_RE = re.compile(r'\bin\s+(meters\s+per\s+second|m/s|Hz|Hertz|seconds?|met(?:er|re)s|samples|radians|degrees)(?![\w/^])', re.I)


def doc_unit(text):
    """The single unit a piece of documentation names, if any."""
    u = {UNIT[re.sub(r'\s+', ' ', m.lower())] if re.sub(r'\s+', ' ', m.lower()) in UNIT else M for m in UNIT_RE.findall(text or '')}
    return u.pop() if len(u) == 1 else None


def doc_params(f):
    """Units documented for the parameters of a function."""
    d = ast.get_docstring(f.node) or ''
    out = {}
    m = re.search(r'^\s*Args:\s*$(.*?)(?=^\s*(?:Returns|Raises|Yields|Note|Example)s?:|\Z)', d, re.M | re.S)
    if not m:
        return out
    cur, ind = None, None
    for line in m.group(1).split('\n'):
        if not line.strip():
            continue
        i = len(line) - len(line.lstrip())
        h = re.match(r'\s*\*{0,2}(\w+)\s*(?:\([^)]*\))?\s*:(.*)', line)
        if h and (ind is None or i <= ind):
            cur, ind = h.group(1), i
            out[cur] = h.group(2)
        elif cur is not None:
            out[cur] += ' ' + line.strip()
    return {k: u for k, v in out.items() if (u := doc_unit(v)) is not None}


def doc_return(f):
    d = ast.get_docstring(f.node) or ''
    if f.kind == 'getter':
        return doc_unit(re.split(r'\n\s*\n|Raises:', d)[0]) or doc_unit((re.search(r'Returns:(.*?)(?=Raises:|\Z)', d, re.S) or [None, ''])[1])
    m = re.search(r'Returns:(.*?)(?=Raises:|Args:|\Z)', d, re.S)
    return doc_unit(m.group(1)) if m else None


def int_ann(n):
    """Whether an annotation admits integers only; an integer counts something."""
    if isinstance(n, ast.Constant):
        if isinstance(n.value, str):
            try:
                return int_ann(ast.parse(n.value, mode='eval').body)
            except SyntaxError:
                return False
        return False
    if isinstance(n, ast.Name):
        return n.id in ('int', 'int_', 'int64')
    if isinstance(n, ast.Attribute):
        return n.attr in ('int_', 'int64')
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
        xs = [x for x in (n.left, n.right) if not (isinstance(x, ast.Constant) and x.value is None)]
        return all(int_ann(x) for x in xs)
    if isinstance(n, ast.Subscript):
        b = n.value.attr if isinstance(n.value, ast.Attribute) else getattr(n.value, 'id', '')
        el = [x for x in (n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]) if not (isinstance(x, ast.Constant) and x.value is Ellipsis)]
        return b in ('list', 'List', 'tuple', 'Tuple', 'Sequence', 'Optional', 'Iterable', 'set', 'Set') and all(int_ann(x) for x in el)
    return False


class Dims:
    def __init__(self, prog, R):
        self.prog, self.R = prog, R
        self.F = facts(prog)
        self.cache = {}
        self.fcache = {}
        self.docs = {}

    def facts(self, f):
        r = self.F.of(f)
        r[0].root = f
        return r

    def param(self, f, n):
        """Dimension of a parameter: documented, named, or an integer."""
        if f not in self.docs:
            self.docs[f] = doc_params(f)
        own = f.cls.name if f.cls else '*'
        for o in (own + '.' + f.name, own, '*'):
            if (o, nm(n)) in SPECIAL:
                return SPECIAL[o, nm(n)]
        d = self.docs[f].get(n)
        if d is None and not f.is_helper:
            d = name_dim(n, own)
        if d is None and f.kind == 'setter' and len(f.params) > 1 and n == f.params[1] and f.cls is not None:
            p = f.cls.prop(f.name)
            d = self.declared(p.getter) if p is not None and p.getter is not None else name_dim(f.name, own)
        if d is None:
            a = f.annotation_of(n)
            if a is not None and int_ann(a):
                d = ONE
        return d

    def declared(self, f):
        """Dimension of what a function returns according to its documentation, name or annotation."""
        own = f.cls.name if f.cls else '*'
        for o in (own, '*'):
            if (o, nm(f.name)) in SPECIAL:
                return SPECIAL[o, nm(f.name)]
        d = doc_return(f)
        if d is None:
            d = name_dim(f.name, own)
        if d is None and f.node.returns is not None and int_ann(f.node.returns):
            d = ONE
        return d

    def of(self, t, it, depth=0):
        k = id(t)
        r = self.cache.get(k)
        if r is not None and r[0] is t:
            return r[1]
        d = self._of(t, it, depth) if depth < 14 else None
        self.cache[k] = (t, d)
        return d

    def owner(self, b, it):
        if b == ('self',):
            return it.self_cls.name if it.self_cls is not None else '*'
        cs = it.classes_of(b)
        return cs[0].name if cs else '*'

    def attr_dim(self, base, name, it):
        own = self.owner(base, it)
        for o in (own, '*'):
            if (o, nm(name)) in SPECIAL:
                return SPECIAL[o, nm(name)]
        cs = it.classes_of(base)[:1]
        for c in cs:
            p = c.prop(name)
            if p is not None and p.getter is not None:
                d = self.declared(p.getter)
                if d is not None:
                    return d
        d = name_dim(name, own)
        for c in cs if d is None else ():
            for k in c.cmro:
                a = k.anns.get(name)
                if a is not None:
                    return ONE if int_ann(a) else None
        return d

    def ret(self, f):
        """Dimension of what a function of the package returns."""
        if f in self.fcache:
            return self.fcache[f]
        self.fcache[f] = None
        d = self.declared(f)
        if d is None and ('*', nm(f.name)) not in SPECIAL:
            it, fin, val = self.facts(f)
            if val is not None and not f.abstract:
                d = self.of(val, it)
                if d == NUM:
                    d = None
        self.fcache[f] = d
        return d

    def _of(self, t, it, depth):
        if not isinstance(t, tuple) or not t:
            return None
        k = t[0]
        n = depth + 1
        if k == 'const':
            v = t[1]
            if isinstance(v, bool) or not isinstance(v, (int, float, complex)):
                return None
            # large and small literals may carry a unit themselves (1e9 turns Hz into GHz)
            return NUM if v == 0 or v != v or abs(v) == float('inf') or 1e-4 < abs(v) < 1e4 else None
        if k == 'param':
            root = getattr(it, 'root', None)
            if ':' not in t[1] and root is not None and t[1] in root.params + root.kwonly:
                return self.param(root, t[1])
            return name_dim(t[1].split(':')[-1])
        if k == 'attr':
            if t[2] in ('T', 'real', 'imag', 'flat'):
                return self.of(t[1], it, n)
            if t[2] in ('shape', 'size', 'ndim'):
                return ONE
            d = self.attr_dim(t[1], t[2], it)
            if d is None and (self.owner(t[1], it), nm(t[2])) not in SPECIAL and ('*', nm(t[2])) not in SPECIAL:
                for c in it.classes_of(t[1])[:1]:
                    p = c.prop(t[2])
                    if p is not None and p.getter is not None:
                        return self.ret(p.getter)
            return d
        if k == 'ext':
            last = t[1].rsplit('.', 1)[-1]
            return {'speed_of_light': MS, 'c': MS if 'constants' in t[1] else None, 'pi': ONE, 'inf': NUM, 'nan': NUM, 'e': ONE}.get(last)
        if k in ('elem', 'item'):
            b = t[1]
            if k == 'elem' and b[0] == 'call' and self.fname(b) == 'range':
                return ONE
            if b[0] == 'call' and b[1][0] in ('bound', 'fn') and k == 'item':
                g = it._bound_func(b[1]) if b[1][0] == 'bound' else it._fn(b[1][1])
                r = g.node.returns if g is not None else None
                if isinstance(r, ast.Subscript) and getattr(r.value, 'id', '') in ('tuple', 'Tuple') and isinstance(r.slice, ast.Tuple) and t[2][0] == 'const' and isinstance(t[2][1], int) \
                        and -len(r.slice.elts) <= t[2][1] < len(r.slice.elts) and int_ann(r.slice.elts[t[2][1]]):
                    return ONE
                v = self.facts(g)[2] if g is not None else None
                if v is not None and any(x[0] == 'tuple' for x in alts(v)):
                    if t[2][0] == 'const' and isinstance(t[2][1], int) and all(x[0] == 'tuple' and -len(x[1]) <= t[2][1] < len(x[1]) for x in alts(v)):
                        gi = self.facts(g)[0]
                        return join([self.of(x[1][t[2][1]], gi, n) for x in alts(v)])
                    return None
            if k == 'item' and t[2][0] == 'const' and isinstance(t[2][1], int) and b[0] == 'elem' and b[1][0] == 'call' and b[1][1][0] == 'builtin':
                g, i = b[1][1][1], t[2][1]
                if g == 'enumerate':
                    return ONE if i == 0 else self.of(('elem', b[1][2][0]), it, n) if b[1][2] else None
                if g == 'zip':
                    return self.of(('elem', b[1][2][i]), it, n) if 0 <= i < len(b[1][2]) else None
            if b[0] in ('list', 'tuple') and k == 'item' and t[2][0] == 'const' and isinstance(t[2][1], int) and -len(b[1]) <= t[2][1] < len(b[1]):
                return self.of(b[1][t[2][1]], it, n)
            if b[0] in ('list', 'tuple'):
                return join([self.of(x, it, n) for x in b[1]]) if b[1] else None
            if b[0] == 'attr' and b[2] == 'shape':
                return ONE
            return self.of(b, it, n)
        if k in ('list', 'tuple', 'set'):
            return join([self.of(x, it, n) for x in t[1]]) if t[1] else None
        if k == 'star':
            return self.of(t[1], it, n)
        if k == 'phi':
            return join([self.of(x, it, n) for x in t[1]])
        if k == 'comp':
            return self.of(t[2], it, n)
        if k == 'un':
            return self.of(t[2], it, n) if t[1] in ('-', '+') else None
        if k in ('bin', 'aug'):
            a, b = self.of(t[2], it, n), self.of(t[3], it, n)
            op = t[1]
            if op in ('*', '@'):
                return mul(a, b)
            if op in ('/', '//'):
                return mul(a, b, -1)
            if op in ('+', '-', '%'):
                if a is None:
                    return b if b != NUM else None
                if b is None or b == NUM:
                    return a
                return b if a == NUM else a if a == b else None
            if op == '**':
                if t[3][0] == 'const' and isinstance(t[3][1], (int, float)) and a is not None:
                    if a == NUM:
                        return NUM
                    e = Fraction(t[3][1]).limit_denominator(8)
                    return (a[0] * e, a[1] * e)
                if t[3][0] == 'un' and t[3][2][0] == 'const' and a not in (None, NUM) and isinstance(t[3][2][1], (int, float)):
                    e = -Fraction(t[3][2][1]).limit_denominator(8)
                    return (a[0] * e, a[1] * e)
                return a if a in (ONE, NUM) else None
            return None
        if k == 'call':
            return self.call(t, it, n)
        if k == 'sym':
            return ONE if t[1] == 'index' else None
        return None

    def fname(self, t):
        c = t[1]
        if c[0] == 'attr':
            return c[2]
        if c[0] in ('ext', 'builtin'):
            return c[1].rsplit('.', 1)[-1]
        if c[0] in ('bound',):
            return c[2].rsplit('.', 1)[-1]
        if c[0] == 'fn':
            return c[1].rsplit('.', 1)[-1]
        return ''

    def call(self, t, it, n):
        c, args = t[1], t[2]
        f = self.fname(t)
        kw = dict(t[3]) if len(t) > 3 else {}
        if c[0] in ('bound', 'fn') and any(k.name == 'Direction' for k in it.classes_of(t)):
            return ONE      # directions are unit vectors
        if c[0] in ('bound', 'fn'):
            g = it._bound_func(c) if c[0] == 'bound' else it._fn(c[1])
            return self.ret(g) if g is not None else None
        lib = c[0] in ('ext', 'builtin') or c[0] == 'attr'
        if not lib:
            return None
        method = c[0] == 'attr'
        first = c[1] if method and not (c[1][0] in ('ext', 'mod')) else (args[0] if args else None)
        if f in TRANSPARENT and first is not None:
            if f in ('max', 'min') and not method and len(args) > 1:
                return join([self.of(a, it, n) for a in args])
            return self.of(first, it, n)
        if f in ('len', 'argmax', 'argmin', 'argwhere', 'count_nonzero', 'prod_', 'sign', 'angle', 'ceil', 'floor', 'rint', 'int', 'round', 'shape', 'size', 'index'):
            if f in ('ceil', 'floor', 'rint', 'int', 'round'):
                d = self.of(first, it, n) if first is not None else None
                return d
            return ONE
        if f in DIMLESS_ARG or f in LOGS:
            return ONE
        if f in ('sqrt',) and first is not None:
            d = self.of(first, it, n)
            return (d[0] / 2, d[1] / 2) if isinstance(d, tuple) else d
        if f in ('square',) and first is not None:
            d = self.of(first, it, n)
            return (d[0] * 2, d[1] * 2) if isinstance(d, tuple) else d
        if f in ('linspace', 'arange', 'clip', 'uniform') and args:
            return join([d for d in (self.of(a, it, n) for a in (args[:2] if f != 'arange' else args[:3]))]) if not (f == 'clip' and method) else self.of(c[1], it, n)
        if f in ('multiply', 'outer', 'dot', 'matmul', 'vdot', 'inner', 'tensordot', 'kron') and len(args) >= 2:
            return mul(self.of(args[0], it, n), self.of(args[1], it, n))
        if f == 'dot' and method and args:
            return mul(self.of(c[1], it, n), self.of(args[0], it, n))
        if f in ('divide', 'true_divide', 'floor_divide') and len(args) >= 2:
            return mul(self.of(args[0], it, n), self.of(args[1], it, n), -1)
        if f == 'reciprocal' and args:
            return mul(ONE, self.of(args[0], it, n), -1)
        if f in SAME and args:
            if f in ('concatenate', 'hstack', 'vstack', 'stack'):
                return self.of(args[0], it, n)
            return join([self.of(a, it, n) for a in args[:2]])
        if f == 'where' and len(args) == 3:
            return join([self.of(args[1], it, n), self.of(args[2], it, n)])
        if f in ('full',) and len(args) >= 2:
            return self.of(args[1], it, n)
        if f == 'interp' and len(args) >= 3:
            return self.of(args[2], it, n)
        if f in ('cumulative_trapezoid', 'cumtrapz', 'trapezoid', 'trapz') and args and 'dx' in kw:
            return mul(self.of(args[0], it, n), self.of(kw['dx'], it, n))
        if f in ('fftfreq', 'rfftfreq'):
            return mul(ONE, self.of(args[1] if len(args) > 1 else kw.get('d', ('const', 1)), it, n), -1)
        return None


def mapping(b, it, D):
    if b[0] != 'attr':
        return False
    cs = it.classes_of(b[1])[:1]
    if b[1][0] == 'cls':
        cs = [c for c in D.prog.classes.values() if c.qual == b[1][1]]
    return any('dict' in ast.unparse(k.anns[b[2]]).lower() for c in cs for k in c.cmro if b[2] in k.anns)


def conflict(a, b):
    return a is not None and b is not None and a != NUM and b != NUM and a != b


def u01(prog: Program, tier: str) -> Result:
    R = Result('U01', 'dimensional analysis over seconds and metres: operands of sums, differences, remainders and comparisons, values stored to or passed as named quantities, values returned by '
                      'named quantities, arguments of exponentials and trigonometric functions, and counts of samples')
    D = Dims(prog, R)
    F = D.F
    for f in prog.all_funcs():
        if f.overload or '<locals>' in f.qual or '<lambda>' in f.qual:
            continue
        it, fin, val = D.facts(f)
        who = f'{f.cls.name}.{f.name}' if f.cls else f'{f.module.name.rsplit(".", 1)[-1]}.{f.name}'

        def judge(cond, rule, e, text, ident):
            R.count('dimension checks')
            if cond:
                R.bad(f'{who}:{rule}:{ident}', e.loc, text)
            else:
                R.ok()
        # what a name says about values nothing else is known about
        for e in it.events:
            if e.kind == 'local' and e.name in TRUSTED and e.value[0] not in ('const', 'tuple', 'list', 'dict'):
                w = name_dim(e.name)
                if w is not None and D.of(e.value, it) is None:
                    D.cache[id(e.value)] = (e.value, w)
        for e in it.events:
            if e.kind in ('bin', 'cmp') and (e.kind == 'cmp' or e.op in ('+', '-', '%')):
                if e.kind == 'cmp' and e.op not in ('<', '>', '<=', '>=', '==', '!='):
                    continue
                a, b = D.of(e.left, it), D.of(e.right, it)
                if a is None or b is None:
                    continue
                judge(conflict(a, b), 'operands', e, f'{show(e.left)[:90]} [{dimstr(a)}] {e.op} {show(e.right)[:90]} [{dimstr(b)}]', f'{e.op}{dimstr(a)}~{dimstr(b)}')
            elif e.kind == 'aug' and e.op in ('+', '-', '%'):
                a, b = D.of(e.base, it), D.of(e.value, it)
                if a is None or b is None:
                    continue
                judge(conflict(a, b), 'operands', e, f'{show(e.base)[:90]} [{dimstr(a)}] {e.op}= {show(e.value)[:90]} [{dimstr(b)}]', f'{e.op}{dimstr(a)}~{dimstr(b)}')
            elif e.kind in ('getitem', 'setitem'):
                if e.base[0] == 'dict' or mapping(e.base, it, D):
                    continue
                for x in e.index[1] if e.index[0] == 'tuple' else (e.index,):
                    for y in x[1:] if x[0] == 'slice' else (x,):
                        a = D.of(y, it) if isinstance(y, tuple) else None
                        if a is not None and a != NUM:
                            judge(a != ONE, 'index', e, f'{show(e.base)[:80]} is indexed by {show(y)[:120]} [{dimstr(a)}]', f'{dimstr(a)}')
            elif e.kind in ('setattr', 'setprop') and e.kind != 'delattr':
                a = D.attr_dim(e.base, e.name, it)
                if a is None:
                    continue
                b = D.of(e.value, it)
                if b is None:
                    continue
                judge(conflict(a, b), 'store', e, f'{nm(e.name)} [{dimstr(a)}] is set to {show(e.value)[:120]} [{dimstr(b)}]', nm(e.name))
            elif e.kind in ('call', 'new'):
                g = e.data.get('func_')
                if g is not None:
                    names = [p for p in g.params if not (p == g.params[0] and (g.kind in ('method', 'classmethod', 'getter', 'setter') or (g.name == '__new__' and e.kind == 'new')))]
                    pairs = list(zip(names, e.args)) + list(e.kwargs.items())
                    own = g.cls.name if g.cls else '*'
                    for n, a in pairs:
                        if a[0] == 'star':
                            break
                        w = D.param(g, n) if n in g.params + g.kwonly else None
                        if w is None:
                            continue
                        b = D.of(a, it)
                        if b is None:
                            continue
                        judge(conflict(w, b), 'argument', e, f'{own}.{g.name} expects {n} [{dimstr(w)}], gets {show(a)[:120]} [{dimstr(b)}]', f'{g.name}.{n}')
                elif e.kind == 'call':
                    fn = D.fname(('call', e.callee))
                    lib = e.callee[0] in ('ext', 'builtin') or (e.callee[0] == 'attr' and e.callee[1][0] in ('mod', 'ext'))
                    if not lib or not e.args:
                        continue
                    a = D.of(e.args[0], it)
                    if fn in DIMLESS_ARG and a is not None and 'random' not in str(e.callee[1]):
                        judge(a not in (ONE, NUM), 'function', e, f'{fn}({show(e.args[0])[:140]}) has an argument of dimension {dimstr(a)}', fn)
                    elif fn in COUNT_ARG and a is not None and len(e.args) == 1:
                        judge(a not in (ONE, NUM), 'count', e, f'{fn}({show(e.args[0])[:140]}) rounds a quantity of dimension {dimstr(a)} to an integer', fn)
                    elif fn in SHAPE_FIRST and e.args[0][0] == 'tuple':
                        for x in e.args[0][1]:
                            a = D.of(x, it)
                            if a is not None:
                                judge(a not in (ONE, NUM), 'shape', e, f'{fn}({show(e.args[0])[:140]}) uses a quantity of dimension {dimstr(a)} as a size', fn)
                    elif fn in SHAPE_FIRST and a is not None:
                        judge(a not in (ONE, NUM), 'shape', e, f'{fn}({show(e.args[0])[:140]}) uses a quantity of dimension {dimstr(a)} as a size', fn)
                    elif fn in ('firwin', 'butter') and 'fs' in e.kwargs:
                        x = e.args[1] if len(e.args) > 1 else e.kwargs.get('cutoff', e.kwargs.get('Wn', ('const', 0)))
                        xs = [('cutoff', x)] + [(k, e.kwargs[k]) for k in ('width',) if k in e.kwargs]
                        for k, x in xs:
                            p, q = D.of(x, it), D.of(e.kwargs['fs'], it)
                            if p is not None and q is not None:
                                judge(conflict(p, q), 'operands', e, f'{fn} relates the {k} {show(x)[:80]} [{dimstr(p)}] to the rate {show(e.kwargs["fs"])[:60]} [{dimstr(q)}]', fn + k)
                    elif fn in SAME or (fn in ('max', 'min') and len(e.args) > 1) or fn in ('linspace', 'clip', 'where', 'arange'):
                        xs = e.args[1:3] if fn == 'where' else e.args[:2] if fn != 'arange' else e.args[:3]
                        ds = [D.of(x, it) for x in xs]
                        known = [d for d in ds if d not in (None, NUM)]
                        if len(known) > 1:
                            judge(len(set(known)) > 1, 'operands', e, f'{fn} combines {", ".join(f"{show(x)[:60]} [{dimstr(d)}]" for x, d in zip(xs, ds))}', fn)
        if val is not None and f.kind in ('method', 'getter', 'staticmethod', 'function', 'classmethod') and not f.abstract:
            a = D.declared(f)
            if a is not None:
                for v in alts(val):
                    b = D.of(v, it)
                    if b is None:
                        continue
                    R.count('returned quantities')
                    if conflict(a, b):
                        R.bad(f'{who}:return', f.loc, f'{nm(f.name)} [{dimstr(a)}] is computed as {show(v)[:140]} [{dimstr(b)}]')
                    else:
                        R.ok()
    return R
