"""AST interpreter for the Python subset used by the code under verification.

Reads the real source text on every run.  Values are Python objects; numbers
are symbolic (sym.Num), arrays sym.Arr.  Functions with a registered contract
are replaced by the contract at call sites (modular verification); everything
else is executed."""
import ast
import builtins
import copy
import os
import types
from fractions import Fraction
import numpy as _np
from . import terms as tm
from .terms import T
from .ctx import cur, Unsupported, PathEnd, ProgError, Dom, Path
from . import npshim
from .npshim import SymRange, GenList, Ns
from .sym import (Num, B, Arr, Space, ShapeTok, Row, Grid, Mat2, MatT, GenIndex, Buf, CountTok, to_num, mkB, formof, scalar_of,
                  new_dim, subst_val, ite_val, same_space, is_absent, num_or_bool, NUMERIC, SCALAR)
from .npshim import n_max, n_min



class PyRaise(Exception):
    """an exception raised by the program under verification"""

    def __init__(self, exc):
        self.exc = exc
        super().__init__(repr(exc))


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Poison:
    """value of a variable that differs between loop iterations"""

    def __init__(self, name):
        self.name = name

    def __deepcopy__(self, m):
        return self


class Frame:
    def __init__(self, interp, globals_, parent=None, locals_=None):
        self.interp = interp
        self.globals = globals_
        self.parent = parent
        self.locals = {} if locals_ is None else locals_
        self.globaldecl = set()
        self.nonlocaldecl = set()

    def lookup(self, name):
        f = self
        if name not in self.globaldecl:
            while f is not None:
                if name in f.locals:
                    v = f.locals[name]
                    if isinstance(v, Poison):
                        from .loops import PoisonRead
                        raise PoisonRead(v.name)
                    return v
                f = f.parent
        if name in self.globals:
            return self.globals[name]
        if name in self.interp.builtins:
            return self.interp.builtins[name]
        raise PyRaise(NameError("name '%s' is not defined" % name))

    def store(self, name, v):
        if name in self.globaldecl:
            self.globals[name] = v
            return
        if name in self.nonlocaldecl:
            f = self.parent
            while f is not None:
                if name in f.locals:
                    f.locals[name] = v
                    return
                f = f.parent
        self.locals[name] = v


class Func:
    def __init__(self, interp, node, globals_, parent, qualname, module):
        self.interp = interp
        self.node = node
        self.globals = globals_
        self.parent = parent
        self.qualname = qualname
        self.module = module
        self.__name__ = getattr(node, 'name', '<lambda>')
        a = node.args
        fr = Frame(interp, globals_, parent) if parent is None else parent
        self.defaults = [interp.eval(d, fr) for d in a.defaults]
        self.kwdefaults = [None if d is None else (interp.eval(d, fr),) for d in a.kw_defaults]
        self.owner = None

    def __get__(self, obj, typ=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, *args, **kw):
        return self.interp.call_func(self, args, kw)

    def __deepcopy__(self, memo):
        return self

    def bind(self, args, kw):
        a = self.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise(TypeError('%s() takes %d positional arguments but %d were given' % (self.__name__, len(names), len(args))))
            loc[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for n, v in zip(names, args):
            loc[n] = v
        extra = {}
        kwo = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwo:
                if k in loc:
                    raise PyRaise(TypeError('%s() got multiple values for argument %r' % (self.__name__, k)))
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise(TypeError('%s() got an unexpected keyword argument %r' % (self.__name__, k)))
        if a.kwarg is not None:
            loc[a.kwarg.arg] = extra
        nd = len(self.defaults)
        for i, n in enumerate(names):
            if n not in loc:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyRaise(TypeError('%s() missing argument %r' % (self.__name__, n)))
                loc[n] = self.defaults[j]
        for n, d in zip(kwo, self.kwdefaults):
            if n not in loc:
                if d is None:
                    raise PyRaise(TypeError('missing keyword argument %r' % n))
                loc[n] = d[0]
        return loc


class GenIter:
    """iteration over all positions of an opaque array"""

    def __init__(self, space, values, present=True):
        self.space, self.values, self.present = space, values, present


class DimIter:
    """iteration over i = 0..n-1 (symbolic n); value(i) gives the loop value"""

    def __init__(self, n, value, reverse=False, step=1):
        self.n, self.value, self.step = n, value, step


def subst_any(v, m):
    if isinstance(v, (tuple, list)):
        return type(v)(subst_any(x, m) for x in v)
    if isinstance(v, Arr):
        return Arr(v.space, subst_any(v.elem, m), v.dt)
    if isinstance(v, _np.ndarray) and v.dtype == object:
        return npshim.obj_map(lambda x: subst_val(x, m), v)
    if isinstance(v, (Num, B)):
        return subst_val(v, m)
    if v is None or isinstance(v, (str, bool, int)):
        return v
    raise Unsupported('elements of a symbolic list of %s' % type(v).__name__)


def assigned_names(nodes):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
    for n in nodes:
        V().visit(n)
    return out


BINOPS = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
    ast.Div: lambda a, b: a / b, ast.Pow: lambda a, b: a ** b, ast.Mod: lambda a, b: a % b,
    ast.FloorDiv: lambda a, b: a // b, ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b,
    ast.BitXor: lambda a, b: a ^ b, ast.MatMult: lambda a, b: npshim.np_dot(a, b),
    ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
}
IOPS = {ast.Add: '__iadd__', ast.Sub: '__isub__', ast.Mult: '__imul__', ast.Div: '__itruediv__', ast.Pow: '__ipow__'}

MAXSTEPS = 400000


class Interp:
    def __init__(self, pkgdir, pkgname='wiz'):
        self.pkgdir = pkgdir
        self.pkgname = pkgname
        self.modules = {}
        self.contracts = {}        # qualname -> python callable(bound args dict, func) -> value
        self.trace = []            # qualnames executed (inlined)
        self.used_contracts = set()
        self.asts = {}
        self.depth = 0
        self.steps = 0
        self.builtins = self._make_builtins()
        self.shims = {
            'numpy': npshim.numpy, 'numpy.matlib': npshim.matlib, 'numpy.linalg': npshim.linalg, 'scipy.special': npshim.special, 'scipy.optimize': npshim.optimize, 'scipy.integrate': npshim.integrate,
            'unittest': Ns('unittest', dict(TestCase=type('TestCase', (), {}), main=lambda *a, **k: None)),
            'warnings': Ns('warnings', dict(warn=lambda *a, **k: None, catch_warnings=npshim.ErrState, simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None)),
            'copy': Ns('copy', dict(deepcopy=lambda x: copy.deepcopy(x), copy=lambda x: copy.copy(x))),
            'math': self._mathshim(),
            'os': Ns('os', {}), 'sys': Ns('sys', {}), 'time': Ns('time', {}),
            'functools': Ns('functools', dict(reduce=self._reduce)), 'itertools': Ns('itertools', dict(product=self._product)),
            'collections': Ns('collections', {}), 'abc': Ns('abc', {}), 'typing': Ns('typing', {}), 'operator': Ns('operator', {}),
        }
        self.import_log = []

    # ------------------------------------------------------------ shims
    def _reduce(self, f, xs, *init):
        import functools
        return functools.reduce(f, self.iterate(xs), *init)

    def _product(self, *xs, **k):
        import itertools
        return list(itertools.product(*[list(self.iterate(x)) for x in xs], **k))

    def _mathshim(self):
        n = npshim.numpy
        return Ns('math', dict(pi=n.pi, inf=n.inf, nan=n.nan, sqrt=n.sqrt, sin=n.sin, cos=n.cos, tan=n.tan, atan=n.arctan, atan2=n.arctan2,
                               acos=n.arccos, asin=n.arcsin, exp=n.exp, log=n.log, fabs=n.abs, isnan=n.isnan, isinf=n.isinf, isfinite=n.isfinite, hypot=n.hypot,
                               cosh=n.cosh, tanh=n.tanh, sinh=n.sinh, pow=n.power, radians=n.deg2rad, degrees=n.rad2deg))

    def _make_builtins(self):
        def b_range(*a):
            if len(a) == 1 and isinstance(a[0], CountTok) and a[0].space is not None:
                sp = a[0].space
                return GenIter(sp, GenIndex(sp))
            if all(isinstance(x, (int, _np.integer)) or (isinstance(x, Num) and tm.is_q(x.t)) for x in a):
                return range(*[int(x) for x in a])
            r = SymRange(*a)
            return DimIter(r.count, lambda i: Num(tm.add(r.start, i if r.step == 1 else tm.neg(i)), 'i'), step=r.step)

        def as_iter(x):
            """concrete list or GenIter / DimIter"""
            if isinstance(x, (GenIter, DimIter)):
                return x
            if isinstance(x, Arr):
                if x.space.kind == 'dim':
                    return DimIter(x.space.n, lambda i: x.at(i))
                if x.space.kind == 'scalar':
                    raise PyRaise(TypeError('iteration over a 0-d array'))
                if x.space.kind == 'cp':
                    raise Unsupported('iteration over rows of an opaque array')
                return GenIter(x.space, x.elem, present=not is_absent(x.elem))
            if hasattr(x, '_pyvc_seq'):
                return DimIter(*x._pyvc_seq)
            if isinstance(x, Mat2):
                return DimIter(x.n, lambda i: x[Num(i, 'i'), :])
            if isinstance(x, GenList) and x.space.kind == 'dim':
                return DimIter(x.space.n, lambda i: subst_any(x.elem, {x.space.ivar: i}))
            if isinstance(x, SymRange):
                return b_range(x.start, x.stop) if x.step == 1 else DimIter(x.count, lambda i: Num(x.start - i, 'i'), step=-1)
            return self.iterate(x)

        def b_enumerate(x, start=0):
            it = as_iter(x)
            if isinstance(it, GenIter):
                if start != 0:
                    raise Unsupported('enumerate start')
                return GenIter(it.space, (GenIndex(it.space), it.values), it.present)
            if isinstance(it, DimIter):
                return DimIter(it.n, lambda i: (Num(i, 'i'), it.value(i)), step=it.step)
            return list(enumerate(it, start))

        def b_zip(*xs):
            its = [as_iter(x) for x in xs]
            g = [i for i in its if isinstance(i, GenIter)]
            d = [i for i in its if isinstance(i, DimIter)]
            if g:
                if len(g) != len(its):
                    raise Unsupported('zip of mixed iterables')
                for i in g[1:]:
                    if not same_space(g[0].space, i.space):
                        raise Unsupported('zip of different index spaces')
                return GenIter(g[0].space, tuple(i.values for i in g), all(i.present for i in g))
            if d:
                if len(d) != len(its):
                    raise Unsupported('zip of mixed iterables')
                from .sym import _same_len
                for i in d[1:]:
                    if not _same_len(i.n, d[0].n):
                        raise Unsupported('zip of different lengths')
                return DimIter(d[0].n, lambda i: tuple(x.value(i) for x in d))
            return list(zip(*its))

        def b_len(x):
            if isinstance(x, Arr):
                return x._len()
            if isinstance(x, GenList):
                if x.space.kind == 'dim':
                    return Num(x.space.n, 'i')
                raise Unsupported('len of generic list')
            if isinstance(x, Grid):
                return Num(x.nrow, 'i')
            if isinstance(x, Row):
                return 1
            if isinstance(x, Mat2):
                return Num(x.n, 'i')
            if hasattr(x, '_pyvc_seq'):
                return Num(x._pyvc_seq[0], 'i')
            try:
                return len(x)
            except TypeError as e:
                if isinstance(x, (Num, B)):
                    raise PyRaise(e)
                raise

        def b_abs(x): return npshim.numpy.abs(x)

        def b_max(*a, **k):
            if k:
                raise Unsupported('max keyword')
            xs = list(self.iterate(a[0])) if len(a) == 1 else list(a)
            if len(a) == 1 and isinstance(a[0], Arr):
                return npshim.np_max(a[0])
            r = xs[0]
            for y in xs[1:]:
                r = n_max(to_num(r), to_num(y))
            return r

        def b_min(*a, **k):
            if k:
                raise Unsupported('min keyword')
            if len(a) == 1 and isinstance(a[0], Arr):
                return npshim.np_min(a[0])
            xs = list(self.iterate(a[0])) if len(a) == 1 else list(a)
            r = xs[0]
            for y in xs[1:]:
                r = n_min(to_num(r), to_num(y))
            return r

        def b_sum(x, start=0):
            if isinstance(x, Arr):
                return npshim.np_sum(x)
            it = as_iter(x)
            if isinstance(it, DimIter) and not tm.is_q(it.n):
                c = cur()
                v = tm.fresh_name('s')
                c.bound_vars.add(v)
                y = it.value(tm.var(v))
                last = tm.add(it.n, tm.const(-1))
                tot = lambda e: Num(tm.bsum(v, tm.ZERO, last, to_num(e).t), 'f')
                if isinstance(y, Arr):
                    y = Arr(y.space, tot(y.elem), 'f')
                elif isinstance(y, Num):
                    y = tot(y)
                else:
                    raise Unsupported('sum of a symbolic number of %s' % type(y).__name__)
                return start + y
            r = start
            for y in self.iterate(x):
                r = r + y
            return r

        def b_float(x=0):
            if isinstance(x, (Num, Arr, B, _np.ndarray)):
                n = to_num(x)
                return Num(n.t, 'f')
            if isinstance(x, str):
                return to_num(float(x))
            return to_num(x) if not isinstance(x, float) else x

        def b_int(x=0):
            if isinstance(x, Num):
                if x.dt == 'i':
                    return x
                return int(x)
            return int(x)

        def b_bool(x=False):
            if isinstance(x, (B, bool)):
                return x
            return bool(x)

        def b_isinstance(x, t):
            if isinstance(t, tuple):
                return any(b_isinstance(x, u) for u in t)
            if isinstance(x, (Num,)):
                return (t is float and x.dt == 'f') or (t is int and x.dt == 'i') or t is object
            if isinstance(x, B):
                return t is bool or t is int
            if isinstance(x, Arr):
                return t is Arr or t is _np.ndarray or t is object
            if t in (b_float, b_int, b_bool):
                t = {b_float: float, b_int: int, b_bool: bool}[t]
                return b_isinstance(x, t)
            return isinstance(x, t)

        def b_list(x=()):
            it = as_iter(x)
            if isinstance(it, (GenIter,)):
                return GenList(it.space, it.values)
            if isinstance(it, DimIter):
                sp = new_dim(it.n)
                return GenList(sp, it.value(tm.var(sp.ivar)))
            return list(it)

        def b_reversed(x):
            it = as_iter(x)
            if isinstance(it, DimIter):
                n = it.n
                return DimIter(n, lambda i: it.value(tm.add(n, tm.const(-1), tm.neg(i))), step=-it.step)
            if isinstance(it, GenIter):
                return it
            return list(reversed(list(it)))

        def b_any(x):
            for y in self.iterate(x):
                if bool(y):
                    return True
            return False

        def b_all(x):
            for y in self.iterate(x):
                if not bool(y):
                    return False
            return True

        def b_hasattr(o, n):
            try:
                getattr(o, n)
                return True
            except AttributeError:
                return False

        def b_map(f, *xs):
            z = b_zip(*xs)
            if isinstance(z, (GenIter, DimIter)):
                raise Unsupported('map over a symbolic iterable')
            return [f(*t) for t in z]

        d = {}
        for n in ('Exception', 'ValueError', 'TypeError', 'NotImplementedError', 'IndexError', 'KeyError', 'AttributeError', 'ImportError',
                  'RuntimeError', 'NameError', 'AssertionError', 'ZeroDivisionError', 'StopIteration', 'ArithmeticError', 'Warning', 'UserWarning', 'RuntimeWarning',
                  'ModuleNotFoundError', 'DeprecationWarning', 'LookupError', 'OverflowError', 'FloatingPointError', 'object', 'property', 'staticmethod', 'classmethod', 'super',
                  'dict', 'set', 'str', 'repr', 'type', 'callable', 'slice', 'Ellipsis', 'NotImplemented', 'id', 'frozenset', 'format', 'iter', 'next', 'setattr', 'chr', 'ord'):
            d[n] = getattr(builtins, n)
        d.update(range=b_range, xrange=b_range, enumerate=b_enumerate, zip=b_zip, len=b_len, abs=b_abs, max=b_max, min=b_min, sum=b_sum, float=b_float, int=b_int,
                 bool=b_bool, isinstance=b_isinstance, list=b_list, tuple=lambda x=(): tuple(b_list(x)), reversed=b_reversed, any=b_any, all=b_all, print=lambda *a, **k: None,
                 hasattr=b_hasattr, getattr=self._getattr, map=b_map, sorted=lambda x, **k: sorted(x, **k), issubclass=issubclass, round=self._round, pow=lambda a, b: a ** b,
                 True_=True, __name__='wiz_module', vars=vars, filter=lambda f, x: [y for y in self.iterate(x) if bool(f(y))], divmod=divmod)
        self.as_iter = as_iter
        return d

    def _round(self, x, n=None):
        if isinstance(x, Num) and not tm.is_q(x.t):
            raise Unsupported('round')
        return round(x, n)

    def _getattr(self, o, n, *d):
        try:
            return self.getattr(o, n)
        except PyRaise as e:
            if d and isinstance(e.exc, AttributeError):
                return d[0]
            raise

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.pkgdir, name.replace('.', '/') + '.py')
        if not os.path.exists(path):
            raise PyRaise(ImportError(name))
        src = open(path, encoding='utf-8').read()
        tree = ast.parse(src, path)
        self.asts[name] = tree
        g = {'__name__': self.pkgname + '.' + name, '__file__': path}
        mod = Ns(name, {})
        self.modules[name] = (mod, g)
        fr = Frame(self, g)
        fr.locals = g
        fr.module = name
        old = getattr(self, 'curmod', None)
        self.curmod = name
        try:
            for st in tree.body:
                if self._skip_top(st):
                    continue
                self.exec(st, fr)
        finally:
            self.curmod = old
        mod.__dict__.update(g)
        return self.modules[name]

    def _skip_top(self, st):
        if isinstance(st, ast.If):
            t = st.test
            if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == '__name__':
                return True
        if isinstance(st, ast.ClassDef):
            for b in st.bases:
                if (isinstance(b, ast.Attribute) and b.attr == 'TestCase') or (isinstance(b, ast.Name) and b.id == 'TestCase'):
                    return True
        return False

    def get(self, qual):
        """'Module.func' or 'Module.Class.method'"""
        parts = qual.split('.')
        mod, g = self.load(parts[0])
        o = g[parts[1]]
        for p in parts[2:]:
            o = o.__dict__[p]
        return o

    def do_import(self, node, fr):
        if isinstance(node, ast.Import):
            for al in node.names:
                name = al.name
                v = self.import_module(name, 0)
                if al.asname:
                    fr.store(al.asname, v)
                else:
                    top = name.split('.')[0]
                    if top in ('numpy',):
                        fr.store('numpy', npshim.numpy)
                    else:
                        fr.store(top, self.import_module(top, 0) if top != name else v)
            return
        mod = node.module or ''
        if mod == '__future__':
            return
        if node.level > 0 and mod == '':
            for al in node.names:
                m = self.load(al.name)
                fr.store(al.asname or al.name, m[0])
            return
        m = self.import_module(mod, node.level)
        for al in node.names:
            if al.name == '*':
                for k, v in list(m.__dict__.items()):
                    if not k.startswith('_'):
                        fr.store(k, v)
                continue
            if isinstance(m, Ns) and al.name not in m.__dict__:
                if m._name in self.modules:
                    raise PyRaise(ImportError('cannot import name ' + al.name))
                if mod in ('scipy', 'wiz', ''):
                    fr.store(al.asname or al.name, self.import_module((mod + '.' if mod else '') + al.name, node.level))
                    continue
                raise Unsupported('import of %s from %s' % (al.name, mod))
            fr.store(al.asname or al.name, m.__dict__[al.name])

    def import_module(self, name, level):
        if level > 0 or name.startswith(self.pkgname + '.'):
            nm = name[len(self.pkgname) + 1:] if name.startswith(self.pkgname + '.') else name
            return self.load(nm)[0]
        if name in self.shims:
            return self.shims[name]
        if name == 'scipy':
            return Ns('scipy', {k.split('.')[1]: v for k, v in self.shims.items() if k.startswith('scipy.')})
        if name == self.pkgname:
            return Ns('wiz', {})
        if os.path.exists(os.path.join(self.pkgdir, name + '.py')):
            return self.load(name)[0]
        if name in ('matplotlib', 'matplotlib.pyplot', 'pybra', 'pybra.clean_exceptions', 'mpl_toolkits', 'pdb', 'matplotlib.colors'):
            if name.startswith('pybra'):
                raise PyRaise(ImportError(name))
            return Ns(name, {})
        if name in ('scipy.optimize', 'scipy.integrate', 'scipy.interpolate', 'mpmath'):
            return Ns(name, {})
        raise Unsupported('import of ' + name)

    # ------------------------------------------------------------ calls
    def call_func(self, fn, args, kw):
        q = fn.qualname
        c = self.contracts.get(q)
        if c is not None and self.depth > 0:
            self.used_contracts.add(q)
            return c(fn.bind(args, kw), fn)
        loc = fn.bind(args, kw)
        if q not in self.trace:
            self.trace.append(q)
        fr = Frame(self, fn.globals, fn.parent, loc)
        fr.func = fn
        if self.depth > 60:
            raise Unsupported('recursion depth')
        self.depth += 1
        old = getattr(self, 'curmod', None)
        self.curmod = fn.module
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, fr)
            if getattr(fn, 'is_gen', None) is None:
                fn.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn.node))
            if fn.is_gen:
                raise Unsupported('generator function')
            try:
                for st in fn.node.body:
                    self.exec(st, fr)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.curmod = old

    def call(self, f, args, kw, node=None):
        if isinstance(f, (Func, types.MethodType)):
            return f(*args, **kw)
        if f is builtins.super:
            if len(args) == 2 and isinstance(args[0], type) and isinstance(args[1], args[0]):
                return builtins.super(*args)
            raise Unsupported('super()')
        try:
            return f(*args, **kw)
        except (PyRaise, Unsupported, PathEnd, _Return, _Break, _Continue):
            raise
        except ProgError as e:
            raise PyRaise(ValueError(str(e)))
        except (KeyError, IndexError, ZeroDivisionError) as e:
            raise PyRaise(e)
        except (TypeError, AttributeError, ValueError) as e:
            if isinstance(f, type) and issubclass(f, BaseException):
                raise
            raise Unsupported('%s in %s: %s' % (type(e).__name__, getattr(f, '__name__', f), e))

    # ------------------------------------------------------------ iteration
    def iterate(self, x):
        if isinstance(x, _np.ndarray):
            if x.ndim == 0:
                raise PyRaise(TypeError('iteration over a 0-d array'))
            return [x[i] for i in range(x.shape[0])]
        if hasattr(x, '_pyvc_seq'):
            x = DimIter(*x._pyvc_seq)
        if isinstance(x, (list, tuple, dict, set, range, str)):
            return x
        if isinstance(x, (GenIter, DimIter, Arr, SymRange, Mat2)):
            it = self.as_iter(x) if not isinstance(x, (GenIter, DimIter)) else x
            if isinstance(it, DimIter) and tm.is_q(it.n):
                return [it.value(tm.const(i)) for i in range(int(tm.qv(it.n)))]
            if isinstance(it, (GenIter, DimIter)):
                raise Unsupported('iteration over a symbolic iterable')
            return it
        if isinstance(x, GenList):
            if x.space.kind == 'dim':
                return self.iterate(self.as_iter(x))
            raise Unsupported('iteration over a generic list')
        if isinstance(x, (Num, B, Func)) or x is None:
            raise PyRaise(TypeError('object is not iterable'))
        if hasattr(x, '__iter__'):
            return list(x)
        raise Unsupported('iteration over %r' % type(x))

    # ------------------------------------------------------------ statements
    def exec(self, st, fr):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Unsupported('step limit')
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(st).__name__)
        return m(st, fr)

    def block(self, sts, fr):
        for s in sts:
            self.exec(s, fr)

    def s_Pass(self, st, fr): pass

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def s_Import(self, st, fr): self.do_import(st, fr)
    s_ImportFrom = s_Import

    def s_Global(self, st, fr): fr.globaldecl.update(st.names)
    def s_Nonlocal(self, st, fr): fr.nonlocaldecl.update(st.names)

    def s_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            raise PyRaise(AssertionError())

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                if not isinstance(o, (dict, list)):
                    raise Unsupported('del item')
                del o[self.index(t.slice, fr)]
            else:
                raise Unsupported('del')

    def s_FunctionDef(self, st, fr):
        if isinstance(fr, ClassFrame):
            q = fr.qual + '.' + st.name
        else:
            q = (self.curmod + '.' + st.name) if fr.locals is fr.globals else (self.curmod + '.<local>.' + st.name)
        f = Func(self, st, fr.globals, None if fr.locals is fr.globals else (fr.outer if isinstance(fr, ClassFrame) else fr), q, self.curmod)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.eval(d, fr)
            v = self.call(dv, (v,), {})
        fr.store(st.name, v)

    def s_ClassDef(self, st, fr):
        bases = tuple(self.eval(b, fr) for b in st.bases)
        bases = tuple(self._type_base(b) for b in bases)
        cf = ClassFrame(self, fr.globals, fr if fr.locals is not fr.globals else None)
        cf.qual = self.curmod + '.' + st.name
        cf.outer = fr if fr.locals is not fr.globals else None
        for s in st.body:
            self.exec(s, cf)
        d = dict(cf.locals)
        for k, v in list(d.items()):
            if isinstance(v, property):
                pass
        cls = type(st.name, bases, d)
        for v in d.values():
            if isinstance(v, Func):
                v.owner = cls
        fr.store(st.name, cls)

    def _type_base(self, b):
        if b is self.builtins.get('list'):
            return list
        if isinstance(b, type):
            return b
        raise Unsupported('base class')

    def s_Return(self, st, fr):
        raise _Return(None if st.value is None else self.eval(st.value, fr))

    def s_Break(self, st, fr): raise _Break()
    def s_Continue(self, st, fr): raise _Continue()

    def s_Raise(self, st, fr):
        if st.exc is None:
            e = getattr(fr, 'handling', None)
            if e is None:
                raise Unsupported('bare raise')
            raise PyRaise(e)
        e = self.eval(st.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        if not isinstance(e, BaseException):
            raise Unsupported('raise of a non exception')
        raise PyRaise(e)

    def s_Try(self, st, fr):
        try:
            try:
                self.block(st.body, fr)
            except PyRaise as p:
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, fr)
                        ok = isinstance(p.exc, t)
                    if ok:
                        old = getattr(fr, 'handling', None)
                        fr.handling = p.exc
                        if h.name:
                            fr.store(h.name, p.exc)
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.handling = old
                        break
                else:
                    raise
            else:
                self.block(st.orelse, fr)
        finally:
            if st.finalbody:
                self.block(st.finalbody, fr)

    def s_With(self, st, fr):
        cms = []
        for it in st.items:
            cm = self.eval(it.context_expr, fr)
            v = cm.__enter__()
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            cms.append(cm)
        self.block(st.body, fr)
        for cm in reversed(cms):
            cm.__exit__(None, None, None)

    def truth(self, v):
        if isinstance(v, (bool, _np.bool_)):
            return bool(v)
        if isinstance(v, (GenIter, DimIter)):
            raise Unsupported('truth of a range')
        if hasattr(v, '_pyvc_seq'):
            return cur().decide(tm.le(tm.ONE, v._pyvc_seq[0]))
        try:
            return bool(v)
        except ProgError as e:
            raise PyRaise(ValueError(str(e)))
        except ValueError as e:
            if isinstance(v, _np.ndarray):
                raise PyRaise(ValueError(str(e)))
            raise

    def s_If(self, st, fr):
        if not st.orelse and all(self._only_warns(b) for b in st.body):
            self.eval(st.test, fr)      # a warning changes nothing: both branches agree
            return
        if self.truth(self.eval(st.test, fr)):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def _only_warns(self, st):
        c = st.value if isinstance(st, ast.Expr) else None
        return isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'warn' and isinstance(c.func.value, ast.Name) and c.func.value.id == 'warnings' \
            and all(isinstance(a, (ast.Constant, ast.Name)) for a in c.args) and not c.keywords

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        op = type(st.op)
        t = st.target
        if isinstance(t, ast.Name):
            cv = fr.lookup(t.id)
            nv = self.aug(op, cv, self.eval(st.value, fr))
            fr.store(t.id, nv)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cv = self.getattr(o, t.attr)
            nv = self.aug(op, cv, self.eval(st.value, fr))
            self.setattr(o, t.attr, nv)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.index(t.slice, fr)
            cv = self.getitem(o, k)
            rhs = self.eval(st.value, fr)
            if isinstance(cv, Arr) and cv.buf is not getattr(o, 'buf', None):
                nv = self.binop(op, cv, rhs)
            else:
                nv = self.aug(op, cv, rhs)
            self.setitem(o, k, nv)
        else:
            raise Unsupported('augmented assignment')

    def aug(self, op, a, b):
        if isinstance(a, Arr) and op in IOPS and a.space.kind != 'x':
            try:
                return getattr(a, IOPS[op])(b)
            except ProgError as e:
                raise PyRaise(ValueError(str(e)))
        if isinstance(a, _np.ndarray) and op in IOPS:
            try:
                if isinstance(b, Arr):
                    raise Unsupported('in-place array op on a concrete array')
                r = self.binop(op, a, b)
                if not isinstance(r, _np.ndarray) or r.shape != a.shape:
                    raise PyRaise(ValueError('non-broadcastable output operand'))
                for i in _np.ndindex(a.shape):
                    if num_or_bool(a[i]).dt == 'i' and num_or_bool(r[i]).dt == 'f' if isinstance(num_or_bool(a[i]), Num) and isinstance(num_or_bool(r[i]), Num) else False:
                        raise PyRaise(TypeError('cannot cast ufunc output from float to int'))
                a[...] = r
                return a
            except ProgError as e:
                raise PyRaise(ValueError(str(e)))
        if isinstance(a, list) and op is ast.Add:
            a.extend(self.iterate(b))
            return a
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        f = BINOPS.get(op)
        if f is None:
            raise Unsupported('operator ' + op.__name__)
        if op is ast.Div and isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
            a = to_num(a)
        if isinstance(a, float):
            a = to_num(a)
        if isinstance(b, float):
            b = to_num(b)
        if isinstance(a, str) and op is ast.Mod:
            return '<str>'
        if op is ast.Mult and isinstance(a, (list, tuple)) and isinstance(b, Num):
            b = b.__index__()
        if isinstance(a, (GenIndex,)) or isinstance(b, GenIndex):
            raise Unsupported('arithmetic on a generic index')
        if isinstance(a, (list, tuple)) and isinstance(b, (Num, Arr)):
            a = npshim.np_asarray(a)
        if isinstance(b, (list, tuple)) and isinstance(a, (Num, Arr)):
            b = npshim.np_asarray(b)
        try:
            if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
                if op is ast.MatMult:
                    return npshim.np_dot(a, b)
                from .sym import lift2, n_add, n_sub, n_mul, n_div, n_pow, b_and, b_or, b_xor
                fn = {ast.Add: n_add, ast.Sub: n_sub, ast.Mult: n_mul, ast.Div: n_div, ast.Pow: n_pow, ast.BitAnd: b_and, ast.BitOr: b_or, ast.BitXor: b_xor}.get(op)
                if fn is None:
                    raise Unsupported('array operator')
                if isinstance(a, Arr) or isinstance(b, Arr):
                    return f(a, b)
                return lift2(fn, a, b)
            return f(a, b)
        except ProgError as e:
            raise PyRaise(ValueError(str(e)))
        except ZeroDivisionError as e:
            raise PyRaise(e)
        except TypeError as e:
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                raise PyRaise(e)
            raise Unsupported('operator %s on %s, %s: %s' % (op.__name__, type(a).__name__, type(b).__name__, e))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vs = list(self.iterate(v))
            if star:
                i = star[0]
                k = len(t.elts) - 1
                if len(vs) < k:
                    raise PyRaise(ValueError('not enough values to unpack'))
                vs = vs[:i] + [vs[i:len(vs) - (k - i)]] + vs[len(vs) - (k - i):]
                for e, x in zip(t.elts, vs):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(vs) != len(t.elts):
                raise PyRaise(ValueError('cannot unpack %d values into %d' % (len(vs), len(t.elts))))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.index(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        else:
            raise Unsupported('assignment target')

    def setattr(self, o, n, v):
        if cur() is not None and cur().genloops:
            raise Unsupported('attribute store inside a per-element loop')
        if isinstance(o, (Arr, Num, B)):
            raise Unsupported('attribute store on a value')
        if cur() is not None:
            cur().events.append(('setattr', o, n))
        try:
            setattr(o, n, v)
        except AttributeError as e:
            raise PyRaise(e)

    def s_While(self, st, fr):
        h = getattr(self, 'while_hook', None)
        if h is not None:
            r = h(self, st, fr)
            if r is not None:
                return
        n = 0
        while True:
            if not self.truth(self.eval(st.test, fr)):
                self.block(st.orelse, fr)
                return
            n += 1
            if n > 60:
                raise Unsupported('while loop')
            try:
                self.block(st.body, fr)
            except _Break:
                return
            except _Continue:
                pass

    def s_For(self, st, fr):
        it = self.as_iter(self.eval(st.iter, fr))
        if isinstance(it, GenIter):
            return self.gen_loop(st, it, fr)
        if isinstance(it, DimIter):
            if tm.is_q(it.n):
                it = [it.value(tm.const(i)) for i in range(int(tm.qv(it.n)))]
            else:
                from . import loops
                return loops.dim_loop(self, st, it, fr)
        for v in it:
            self.assign(st.target, v, fr)
            try:
                self.block(st.body, fr)
            except _Break:
                return
            except _Continue:
                continue
        self.block(st.orelse, fr)

    def gen_loop(self, st, it, fr):
        """loop over the positions of an opaque array: execute the body once,
        at the generic position; no state may be carried between iterations"""
        if not it.present:
            return
        names = assigned_names(st.body) | assigned_names([st.target])
        pre = {}
        for n in names:
            if n in fr.locals:
                pre[n] = fr.locals[n]
                fr.locals[n] = Poison(n)
        lists = [(v, len(v)) for v in list(fr.locals.values()) if type(v) is list]
        c = cur()
        tok = object()
        c.genloops.append((tok, Buf.count))
        try:
            self.assign(st.target, it.values, fr)
            try:
                self.block(st.body, fr)
            except _Continue:
                pass
            except (_Break, _Return):
                raise Unsupported('early exit from a per-element loop')
        finally:
            c.genloops.pop()
        for n in names:
            if n in fr.locals:
                fr.locals[n] = Poison(n)
        for l, k in lists:
            if len(l) == k:
                continue
            if k == 0 and len(l) == 1:
                for nm, v in list(fr.locals.items()):
                    if v is l:
                        fr.locals[nm] = GenList(it.space, l[0])
            else:
                raise Unsupported('list filled inside a per-element loop')

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            # exact decimal value of the literal
            return to_num(v)
        if isinstance(v, complex):
            raise Unsupported('complex literal')
        return v

    def e_Name(self, e, fr): return fr.lookup(e.id)

    def e_Tuple(self, e, fr): return tuple(self._elts(e.elts, fr))
    def e_List(self, e, fr): return self._elts(e.elts, fr)
    def e_Set(self, e, fr): return set(self._elts(e.elts, fr))

    def _elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, fr))
            else:
                d[self.eval(k, fr)] = self.eval(v, fr)
        return d

    def e_BinOp(self, e, fr):
        return self.binop(type(e.op), self.eval(e.left, fr), self.eval(e.right, fr))

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, _np.ndarray):
                return npshim.numpy.negative(v)
            if v is None or isinstance(v, str):
                raise PyRaise(TypeError('bad operand type for unary -'))
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, bool):
                return not v      # only used on masks
            if isinstance(v, _np.ndarray):
                return npshim.numpy.logical_not(v)
            return ~v
        raise Unsupported('unary')

    def e_BoolOp(self, e, fr):
        if isinstance(e.op, ast.And):
            v = True
            for x in e.values:
                v = self.eval(x, fr)
                if not self.truth(v):
                    return v
            return v
        v = False
        for x in e.values:
            v = self.eval(x, fr)
            if self.truth(v):
                return v
        return v

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, fr)
            r = self.compare(type(op), left, right)
            if len(e.ops) == 1:
                return r
            if not self.truth(r):
                return r
            res = r
            left = right
        return res

    def compare(self, op, a, b):
        if op is ast.Is:
            return a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b)
        if op is ast.IsNot:
            return not self.compare(ast.Is, a, b)
        if op in (ast.In, ast.NotIn):
            found = False
            for x in self.iterate(b):
                if isinstance(x, (Num, B)) or isinstance(a, (Num, B)):
                    if self.truth(a == x):
                        found = True
                        break
                elif x is a or x == a:
                    found = True
                    break
            return found if op is ast.In else not found
        if isinstance(a, float):
            a = to_num(a)
        if isinstance(b, float):
            b = to_num(b)
        if (a is None or b is None or isinstance(a, str) or isinstance(b, str)):
            if op is ast.Eq:
                return False if type(a) is not type(b) else a == b
            if op is ast.NotEq:
                return True if type(a) is not type(b) else a != b
            if type(a) is not type(b) or a is None:
                raise PyRaise(TypeError('comparison not supported'))
        try:
            if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
                n = npshim.numpy
                return {ast.Lt: n.less, ast.LtE: n.less_equal, ast.Gt: n.greater, ast.GtE: n.greater_equal, ast.Eq: n.equal, ast.NotEq: n.not_equal}[op](a, b)
            if op is ast.Lt: return a < b
            if op is ast.LtE: return a <= b
            if op is ast.Gt: return a > b
            if op is ast.GtE: return a >= b
            if op is ast.Eq:
                if isinstance(a, tuple) and isinstance(b, tuple) and any(isinstance(x, Num) for x in a + b):
                    return len(a) == len(b) and all(self.truth(x == y) for x, y in zip(a, b))
                return a == b
            if op is ast.NotEq:
                if isinstance(a, tuple) and isinstance(b, tuple) and any(isinstance(x, Num) for x in a + b):
                    return not (len(a) == len(b) and all(self.truth(x == y) for x, y in zip(a, b)))
                return a != b
        except ProgError as e:
            raise PyRaise(ValueError(str(e)))
        except TypeError as e:
            raise Unsupported('comparison: %s' % e)
        raise Unsupported('comparison')

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return Func(self, e, fr.globals, fr, self.curmod + '.<lambda>', self.curmod)

    def e_JoinedStr(self, e, fr):
        return '<fstring>'

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        fr.store(e.target.id, v)
        return v

    def e_Starred(self, e, fr):
        raise Unsupported('starred expression')

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.iterate(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.eval(k.value, fr))
            else:
                kw[k.arg] = self.eval(k.value, fr)
        if f is builtins.super and not args:
            fn = getattr(fr, 'func', None)
            if fn is not None and fn.owner is not None:
                slf = fr.locals[fn.node.args.args[0].arg]
                return builtins.super(fn.owner, slf)
        return self.call(f, args, kw, e)

    def getattr(self, o, n):
        if isinstance(o, str) and n == 'format':
            return lambda *a, **k: '<str>'
        try:
            return getattr(o, n)
        except (PyRaise, Unsupported, PathEnd):
            raise
        except ProgError as ex:
            raise PyRaise(ValueError(str(ex)))
        except AttributeError as ex:
            if isinstance(o, (Arr, Num, B, Row, Grid, Mat2, MatT, GenList, GenIndex, Ns)):
                raise Unsupported('attribute %s of %s' % (n, type(o).__name__))
            raise PyRaise(ex)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, fr)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Slice(self, e, fr): return self.index(e, fr)

    def _conc_index(self, k):
        if isinstance(k, Num):
            return k.__index__()
        if isinstance(k, tuple):
            return tuple(self._conc_index(x) for x in k)
        if isinstance(k, slice):
            f = lambda x: x.__index__() if isinstance(x, Num) else x
            return slice(f(k.start), f(k.stop), f(k.step))
        if isinstance(k, _np.ndarray) and k.dtype == object:
            if k.size and isinstance(k.ravel()[0], (bool, B)):
                out = _np.empty(k.shape, dtype=bool)
                for i in _np.ndindex(k.shape):
                    out[i] = bool(k[i])
                return out
            out = _np.empty(k.shape, dtype=int)
            for i in _np.ndindex(k.shape):
                out[i] = to_num(k[i]).__index__()
            return out
        if isinstance(k, Arr) and k.space.kind == 'scalar':
            return self._conc_index(k.elem)
        if isinstance(k, B):
            return bool(k)
        return k

    def getitem(self, o, k):
        try:
            if isinstance(o, _np.ndarray):
                return o[self._conc_index(k)]
            if hasattr(o, '_pyvc_seq') or (isinstance(o, GenList) and o.space.kind == 'dim' and not isinstance(k, GenIndex)):
                if isinstance(k, (int, Num)):
                    it = self.as_iter(o)
                    i = to_num(k).t
                    if cur().decide(tm.lt(i, tm.ZERO)):
                        i = tm.add(i, it.n)
                    if cur().decide(tm.not_(tm.and_(tm.le(tm.ZERO, i), tm.lt(i, it.n)))):
                        raise PyRaise(IndexError('list index out of range'))
                    return it.value(i)
                if isinstance(k, slice) and k.start is None and k.stop is None and k.step is None:
                    return self.builtins['list'](o)
                raise Unsupported('slice of a symbolic sequence')
            if isinstance(o, (list, tuple)):
                if isinstance(k, GenIndex):
                    raise Unsupported('list indexed by generic position')
                return o[self._conc_index(k)]
            if isinstance(o, Num):
                raise PyRaise(TypeError('scalar is not subscriptable'))
            if isinstance(o, ShapeTok) and isinstance(k, Num):
                k = k.__index__()
            if isinstance(o, GenList) and isinstance(k, GenIndex):
                return o.elem
            return o[k]
        except (KeyError, IndexError) as e:
            raise PyRaise(e)
        except ProgError as e:
            raise PyRaise(ValueError(str(e)))
        except TypeError as e:
            if o is None:
                raise PyRaise(e)
            raise Unsupported('subscript: %s' % e)

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.index(e.slice, fr))

    def setitem(self, o, k, v):
        try:
            if isinstance(o, _np.ndarray):
                if cur() is not None and any(g[0] is not None for g in cur().genloops):
                    raise Unsupported('store to a concrete array inside a per-element loop')
                ck = self._conc_index(k)
                if isinstance(v, Arr):
                    if v.space.kind != 'scalar':
                        raise Unsupported('store of a symbolic array')
                    v = v.elem
                if isinstance(v, (list, tuple)):
                    v = npshim.np_asarray(v)
                if isinstance(v, NUMERIC):
                    v = to_num(v)
                if o.dtype != object:
                    raise Unsupported('store to host array')
                view = o[ck]
                if not isinstance(view, _np.ndarray):
                    old = num_or_bool(view)
                    if isinstance(v, _np.ndarray):
                        v = scalar_of(v)
                    if isinstance(old, Num) and isinstance(v, Num):
                        if old.dt == 'i' and v.dt == 'f':
                            cur().events.append(('truncate', None, v))
                            v = Num(tm.f('trunc', v.t), 'i')
                        elif old.dt == 'f':
                            v = Num(v.t, 'f')
                o[ck] = v
                ow = cur().owners.get(_base_id(o)) if cur() is not None else None
                if ow is not None:
                    cur().events.append(('mutate', ow, None, None))
                return
            if isinstance(o, list):
                if cur() is not None and cur().genloops:
                    raise Unsupported('list store inside a per-element loop')
                o[self._conc_index(k)] = v
                return
            o[k] = v
        except (KeyError, IndexError) as e:
            raise PyRaise(e)
        except ProgError as e:
            raise PyRaise(ValueError(str(e)))
        except TypeError as e:
            raise Unsupported('store: %s' % e)
        except ValueError as e:
            raise PyRaise(e)

    def _comp(self, e, fr, emit):
        def rec(gens, f):
            if not gens:
                emit(f)
                return
            g = gens[0]
            it = self.as_iter(self.eval(g.iter, f))
            if isinstance(it, DimIter) and tm.is_q(it.n):
                it = self.iterate(it)
            if isinstance(it, (GenIter, DimIter)):
                raise _SymComp(it)
            for v in it:
                f2 = Frame(self, f.globals, f)
                self.assign(g.target, v, f2)
                if all(self.truth(self.eval(c, f2)) for c in g.ifs):
                    rec(gens[1:], f2)
        rec(e.generators, fr)

    def e_ListComp(self, e, fr):
        out = []
        try:
            self._comp(e, fr, lambda f: out.append(self.eval(e.elt, f)))
        except _SymComp as s:
            it = s.it
            if len(e.generators) != 1 or e.generators[0].ifs:
                raise Unsupported('comprehension over a symbolic iterable')
            f2 = Frame(self, fr.globals, fr)
            if isinstance(it, GenIter):
                if not it.present:
                    return GenList(it.space, Num(tm.ABSENT))
                self.assign(e.generators[0].target, it.values, f2)
                return GenList(it.space, self.eval(e.elt, f2))
            sp = new_dim(it.n)
            self.assign(e.generators[0].target, it.value(tm.var(sp.ivar)), f2)
            return GenList(sp, self.eval(e.elt, f2))
        return out

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr)

    def e_SetComp(self, e, fr):
        return set(self.e_ListComp(e, fr))

    def e_DictComp(self, e, fr):
        d = {}
        self._comp(e, fr, lambda f: d.__setitem__(self.eval(e.key, f), self.eval(e.value, f)))
        return d


class _SymComp(Exception):
    def __init__(self, it):
        self.it = it


class ClassFrame(Frame):
    pass


def _base_id(a):
    while isinstance(a.base, _np.ndarray):
        a = a.base
    return id(a)
