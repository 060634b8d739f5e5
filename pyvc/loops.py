"""Summaries of loops over a symbolic number of iterations.

A loop `for k in 0..n-1: body` is executed once, at a generic iteration k,
from a havocked state (every location the body writes is replaced by a fresh
symbol).  From the result the loop invariant is synthesised and checked:

 accumulator   x' = x + d(k)            =>  after the loop x = x0 + sum_k d(k)
 row store     a'[j] = v(k) if j==i(k)  =>  after the loop a[j] = v(i^-1(j)) for
                                            every visited j, a0[j] elsewhere
 temporary     never read before it is written; keeps its last value

The invariant is checked by construction: the body is run a last time from a
state that satisfies it, and its result must be the invariant at k+1.
Decisions of the body are explored locally and joined by conditional terms."""
import ast
import numpy as _np
from . import terms as tm
from .terms import T
from .ctx import cur, Unsupported, PathEnd
from .sym import Num, B, Arr, Buf, Grid, Mat2, MatT, to_num, subst_val, ite_val, is_special, NAN, ABSENT, num_or_bool


class PoisonRead(Unsupported):
    def __init__(self, name):
        super().__init__('loop-local variable %s read outside of its iteration' % name)
        self.name = name


def _reach(roots):
    """mutable objects reachable from the values"""
    seen = {}
    stack = list(roots)
    from .interp import Func, Frame
    while stack:
        x = stack.pop()
        if isinstance(x, (int, float, str, bytes, Num, B, type(None), tm.Term, tm.Form, type)):
            continue
        if id(x) in seen:
            continue
        if isinstance(x, Arr):
            seen[id(x)] = x
            stack.append(x.buf)
        elif isinstance(x, Buf):
            seen[id(x)] = x
        elif isinstance(x, _np.ndarray):
            seen[id(x)] = x
            if x.dtype == object:
                stack += list(x.ravel())
            if x.base is not None:
                stack.append(x.base)
        elif isinstance(x, (list, tuple, set)):
            seen[id(x)] = x
            stack += list(x)
            stack += list(getattr(x, '__dict__', {}).values())
        elif isinstance(x, dict):
            seen[id(x)] = x
            stack += list(x.values())
        elif isinstance(x, MatT):
            seen[id(x)] = x
            stack.append(x.m)
        elif isinstance(x, Mat2):
            seen[id(x)] = x
            stack += list(x.cols)
        elif isinstance(x, Func):
            seen[id(x)] = x
            f = x.parent
            while f is not None and isinstance(f, Frame):
                if id(f) in seen:
                    break
                seen[id(f)] = f
                stack += list(f.locals.values())
                f = f.parent
            stack += [d for d in getattr(x, 'defaults', ()) or ()]
        elif hasattr(x, '__dict__') and type(x).__module__ not in ('numpy', 'builtins') and not isinstance(x, Grid):
            if getattr(type(x), '__module__', '').startswith('pyvc') and not type(x).__name__.startswith('Obj'):
                continue
            seen[id(x)] = x
            stack += list(x.__dict__.values())
    return list(seen.values())


class Snap:
    """values of all mutable state reachable from a frame"""

    def __init__(self, fr):
        self.frames = []
        f = fr
        roots = []
        while f is not None:
            self.frames.append((f, dict(f.locals)))
            roots += list(f.locals.values())
            f = f.parent
        self.objs = []
        for o in _reach(roots):
            if isinstance(o, Buf):
                self.objs.append((o, (o.elem, o.dirty)))
            elif isinstance(o, _np.ndarray):
                if o.dtype == object:
                    self.objs.append((o, o.copy()))
            elif isinstance(o, list):
                self.objs.append((o, list(o)))
            elif isinstance(o, dict):
                self.objs.append((o, dict(o)))
            elif isinstance(o, set):
                self.objs.append((o, set(o)))
            elif hasattr(o, 'locals'):
                self.objs.append((o, dict(o.locals)))
            elif hasattr(o, '__dict__') and not isinstance(o, (Arr, Mat2, MatT)) and type(o).__name__ not in ('Func',):
                self.objs.append((o, dict(o.__dict__)))

    def restore(self):
        for f, l in self.frames:
            f.locals.clear()
            f.locals.update(l)
        for o, v in self.objs:
            if isinstance(o, Buf):
                o.elem, o.dirty = v
            elif isinstance(o, _np.ndarray):
                o[...] = v
            elif isinstance(o, list):
                o[:] = v
            elif isinstance(o, dict):
                o.clear()
                o.update(v)
            elif isinstance(o, set):
                o.clear()
                o.update(v)
            elif hasattr(o, 'locals'):
                o.locals.clear()
                o.locals.update(v)
            else:
                o.__dict__.clear()
                o.__dict__.update(v)


class Loc:
    """a location written by the body"""

    def __init__(self, kind, key, obj=None, idx=None):
        self.kind, self.key, self.obj, self.idx = kind, key, obj, idx
        self.mode = 'acc'       # acc | row
        self.ivar = None        # index variable of a 1-D array
        self.H = tm.fresh_name('H')
        self.pre = None
        self.dt = 'f'
        self.rowidx = None


def _aug_only(st, nm):
    """every assignment to the name inside the loop is an augmented one"""
    aug = {id(n.target) for n in ast.walk(st) if isinstance(n, ast.AugAssign)}
    return all(id(n) in aug for n in ast.walk(st) if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, (ast.Store, ast.Del)))


def _space_ivar(space):
    return space.ivar if space is not None and space.kind == 'dim' else None


def dim_loop(interp, st, it, fr):
    from .interp import assigned_names, Poison, _Break, _Continue, _Return, PyRaise
    c = cur()
    if st.orelse:
        raise Unsupported('loop with else')
    n = it.n
    S0 = Snap(fr)
    names = assigned_names(st.body) | assigned_names([st.target])
    target = assigned_names([st.target])
    # arrays only updated in place keep their identity
    names = {nm for nm in names if not (_aug_only(st, nm) and isinstance(fr.locals.get(nm), (Arr, _np.ndarray)))}
    carried = {}          # name -> [Loc or None]
    locs = {}             # key -> Loc
    bufspace = {}
    for o in _reach([v for f, l in S0.frames for v in l.values()]):
        if isinstance(o, Arr):
            if o.space.kind == 'dim' and id(o.buf) in bufspace and bufspace[id(o.buf)] is not o.space:
                pass
            bufspace.setdefault(id(o.buf), o.space)
    preown = [(o, v) for o, v in S0.objs]

    with c.scope():
        from .ctx import NOLOCAL
        c.local = NOLOCAL
        kv = c.index_var('k', tm.ZERO, tm.add(n, tm.const(-1)))
        kname = kv.args[0]
        c.loopvars = getattr(c, 'loopvars', ()) + (kname,)
        outer = c.loopvars[:-1]

        def inval(L, j=None):
            """value of the location at the start of iteration k"""
            if L.mode == 'row':
                kj = _inverse(L, j)
                proc = tm.and_(tm.le(tm.ZERO, kj), tm.lt(kj, kv))
                return tm.ite(proc, tm.sel(L.H, j), L.preat(j))
            return tm.sel(L.H, kv) if j is None else tm.sel(L.H, kv, j)

        def install():
            S0.restore()
            for nm in names:
                if nm in fr.locals:
                    fr.locals[nm] = Poison(nm)
            for L in locs.values():
                if L.kind == 'name':
                    v = L.pre
                    if isinstance(v, Arr):
                        iv = _space_ivar(v.space)
                        fr.locals[L.key[1]] = Arr(v.space, Num(inval(L, tm.var(iv) if iv else None), 'f'), 'f')
                    elif isinstance(v, _np.ndarray):
                        a = _np.empty(v.shape, dtype=object)
                        for i in _np.ndindex(v.shape):
                            a[i] = Num(tm.sel(L.H, kv, *[tm.const(x) for x in i]))
                        fr.locals[L.key[1]] = a
                    else:
                        fr.locals[L.key[1]] = Num(inval(L), L.dt)
                elif L.kind == 'buf':
                    L.obj.elem = Num(inval(L, tm.var(L.ivar) if L.ivar else None), L.obj.dt)
                elif L.kind == 'cell':
                    L.obj[L.idx] = Num(inval(L), 'f')

        def run():
            install()
            base = Snap(fr)
            c.genloops.append((None, -1))
            try:
                interp.assign(st.target, it.value(kv), fr)
                try:
                    interp.block(st.body, fr)
                except _Continue:
                    pass
                except (_Break, _Return):
                    raise Unsupported('early exit from a symbolic loop')
                except PyRaise:
                    if c.local.guards:
                        raise Unsupported('conditional exception inside a symbolic loop')
                    raise
            finally:
                c.genloops.pop()
            # what changed
            mods = {}
            for (o, v) in base.objs:
                if isinstance(o, Buf):
                    if o.elem is not v[0]:
                        mods[('buf', id(o))] = (o, v[0], o.elem)
                elif isinstance(o, _np.ndarray):
                    for i in _np.ndindex(o.shape):
                        if o[i] is not v[i]:
                            mods[('cell', id(o), i)] = (o, v[i], o[i])
                elif isinstance(o, list):
                    if len(o) != len(v) or any(a is not b for a, b in zip(o, v)):
                        raise Unsupported('list modified inside a symbolic loop')
                elif isinstance(o, dict):
                    if set(o) != set(v) or any(o[q] is not v[q] for q in o):
                        raise Unsupported('dict modified inside a symbolic loop')
                elif isinstance(o, set):
                    if o != v:
                        raise Unsupported('set modified inside a symbolic loop')
                elif hasattr(o, 'locals'):
                    pass
                else:
                    if set(o.__dict__) != set(v) or any(o.__dict__[q] is not v[q] for q in v):
                        raise Unsupported('object modified inside a symbolic loop')
            for f, l in base.frames[1:]:
                if set(f.locals) != set(l) or any(f.locals[q] is not l[q] for q in l):
                    raise Unsupported('outer variable modified inside a symbolic loop')
            outs = {}
            for nm in names:
                if nm in fr.locals:
                    outs[nm] = fr.locals[nm]
            return mods, outs

        for attempt in range(14):
            try:
                try:
                    results = c.explore_local(run)
                except PoisonRead as p:
                    nm = p.name
                    if nm not in names or ('name', nm) in locs:
                        raise
                    pre = S0.frames[0][1].get(nm)
                    if isinstance(pre, Poison):
                        raise         # carried by the enclosing loop as well
                    L = Loc('name', ('name', nm))
                    if isinstance(pre, Arr):
                        if isinstance(pre.elem, (bool, B)):
                            raise Unsupported('boolean array carried by a loop')
                        L.ivar = _space_ivar(pre.space)
                        L.preval = to_num(pre.elem).t
                    elif isinstance(pre, _np.ndarray) and pre.dtype == object:
                        L.preval = None
                    elif isinstance(pre, (int, float, Num)) and not isinstance(pre, bool):
                        pre = to_num(pre)
                        L.preval = pre.t
                        L.dt = pre.dt
                    else:
                        raise Unsupported('value of %s carried by a symbolic loop' % nm)
                    L.pre = pre
                    L.preat = (lambda j, L=L: L.preval if L.ivar is None or j is None else tm.subst(L.preval, {L.ivar: j}))
                    locs[('name', nm)] = L
                    continue
            finally:
                S0.restore()
            if not results:
                break
            new = False
            for g, (mods, outs) in results:
                for key, (o, old, val) in mods.items():
                    if key in locs:
                        continue
                    L = Loc(key[0], key, o, key[2] if key[0] == 'cell' else None)
                    if isinstance(old, (bool, B)) or isinstance(val, (bool, B)):
                        raise Unsupported('boolean array carried by a loop')
                    if key[0] == 'buf':
                        sp = bufspace.get(id(o))
                        if sp is None:
                            raise Unsupported('store to an unknown array')
                        L.ivar = _space_ivar(sp)
                    L.preval = to_num(dict((id(a), b) for a, b in S0.objs)[id(o)][0] if key[0] == 'buf' else dict((id(a), b) for a, b in S0.objs)[id(o)][key[2]]).t
                    if is_special(L.preval) and L.preval is not NAN:
                        raise Unsupported('special value carried by a loop')
                    L.preat = (lambda j, L=L: L.preval if L.ivar is None or j is None else tm.subst(L.preval, {L.ivar: j}))
                    locs[key] = L
                    new = True
            if new:
                continue
            # patterns
            again = False
            for key, L in locs.items():
                if L.ivar is None or L.mode != 'acc':
                    continue
                idxs = []
                for g, (mods, outs) in results:
                    t = _out(L, key, mods, outs)
                    if t is None:
                        continue
                    idxs += [_rowpat(t, L, kname, inval(L, tm.var(L.ivar)))]
                idxs = [i for i in idxs if i is not None]
                if idxs and any(kname in tm.free_vars(i) for i in idxs):
                    if any(i is not idxs[0] for i in idxs):
                        raise Unsupported('rows of different index are stored in one iteration')
                    L.rowidx = idxs[0]
                    L.kname = kname
                    _inverse(L, tm.var(L.ivar))
                    L.mode = 'row'
                    again = True
            if again:
                continue
            break
        else:
            raise Unsupported('loop summary does not converge')
        final = {}
        c.loopvars = outer
        if results:
            _summarise(c, locs, results, kv, kname, n, inval, final)
        temps = {}
        for nm in names:
            if ('name', nm) in locs or not results:
                continue
            vals = [outs.get(nm, None) for g, (mods, outs) in results]
            temps[nm] = (vals, [g for g, _ in results])
    # ---- after the loop
    S0.restore()
    last = tm.add(n, tm.const(-1))
    nonempty = c.formula_truth(tm.le(tm.ONE, n)) is True or c.feasible(tm.lt(n, tm.ONE)) is False
    for nm in names:
        if ('name', nm) in locs:
            continue
        if not results:
            continue
        vals, gs = temps[nm]
        v = None
        if nonempty and all(isinstance(x, Num) and not is_special(x.t) for x in vals):
            t = _join([(g, x.t) for g, x in zip(gs, vals)])
            if not any(L.H in _selnames(t) for L in locs.values()):
                v = Num(tm.subst(t, {kname: last}), vals[0].dt)
        fr.locals[nm] = v if v is not None else Poison(nm)
    for key, L in locs.items():
        t = final.get(key)
        if t is None:
            continue
        if L.kind == 'name':
            if isinstance(L.pre, Arr):
                fr.locals[L.key[1]] = Arr(L.pre.space, Num(t, 'f'), 'f')
            elif isinstance(L.pre, _np.ndarray):
                fr.locals[L.key[1]] = t
            else:
                fr.locals[L.key[1]] = Num(t, L.dt)
        elif L.kind == 'buf':
            old = L.obj.elem
            if L.obj.owner is not None:
                c.events.append(('mutate', L.obj.owner, old, Num(t, L.obj.dt)))
            L.obj.elem = Num(t, L.obj.dt)
        else:
            L.obj[L.idx] = Num(t)


def _selnames(t):
    return {str(s.args[0]) for s in tm.subterms(t) if isinstance(s, tm.Term) and s.op == 'sel'}


def _out(L, key, mods, outs):
    """term of the location after the body on one path (None: unchanged)"""
    if L.kind == 'name':
        v = outs.get(key[1])
        if isinstance(v, Arr):
            if not isinstance(L.pre, Arr):
                raise Unsupported('a loop variable changes its kind')
            t = to_num(v.elem).t
            if v.space.kind == 'dim' and v.space is not L.pre.space:
                t = tm.subst(t, {v.space.ivar: tm.var(L.pre.space.ivar)})
            return t
        if isinstance(v, _np.ndarray):
            return v
        if isinstance(v, (int, float, Num)) and not isinstance(v, bool):
            v = to_num(v)
            if v.dt == 'f':
                L.dt = 'f'
            return v.t
        raise Unsupported('value of %s carried by a symbolic loop' % key[1])
    if key in mods:
        return to_num(mods[key][2]).t
    return None


def _eqidx(g, iv):
    """index term i of a formula  iv == i"""
    if g.op != 'eq':
        return None
    d = g.args[0]
    v = tm.var(iv)
    for s in (1, -1):
        r = tm.add(v, d) if s == 1 else tm.add(v, tm.neg(d))
        if iv not in tm.free_vars(r):
            return r
    return None


def _rowpat(t, L, kname, inv):
    if t.op == 'ite':
        i = _eqidx(t.args[0], L.ivar)
        if i is not None:
            return i
    return None


def _peel(t, L):
    """ite(j==i, v, rest) -> (i, v, rest) or None"""
    if t.op == 'ite':
        i = _eqidx(t.args[0], L.ivar)
        if i is not None:
            rest = t.args[2]
            while rest.op == 'ite':
                i2 = _eqidx(rest.args[0], L.ivar)
                if i2 is not None and i2 is i:
                    rest = rest.args[2]
                else:
                    break
            return i, tm.subst(t.args[1], {L.ivar: i}), rest
    return None


def _inverse(L, j):
    """iteration that stores row j (row index is k+c or c-k)"""
    i = L.rowidx
    k = tm.var(L.kname)
    d = tm.add(i, tm.neg(k))
    if L.kname not in tm.free_vars(d):
        return tm.add(j, tm.neg(d))
    d = tm.add(i, k)
    if L.kname not in tm.free_vars(d):
        return tm.add(d, tm.neg(j))
    raise Unsupported('row index of a store in a loop')


def _join(pairs):
    """[(guards, term)] -> conditional term"""
    if any(getattr(g, 'vals', None) is None or len(g.vals) != len(g) for g, t in pairs):
        r = pairs[-1][1]
        for g, t in reversed(pairs[:-1]):
            if not _same(t, r):
                r = tm.ite(tm.and_(*g), t, r)
        return r
    return _tree(pairs, 0)


def _tree(pairs, d):
    """decision tree; equal leaves are merged"""
    t0 = pairs[0][1]
    if all(_same(t, t0) for g, t in pairs[1:]):
        return t0
    if any(len(g) <= d for g, t in pairs):
        raise Unsupported('paths of a loop body cannot be merged')
    A = [p for p in pairs if p[0].vals[d]]
    B = [p for p in pairs if not p[0].vals[d]]
    if not A or not B:
        return _tree(pairs, d + 1)
    x, y = _tree(A, d + 1), _tree(B, d + 1)
    return x if _same(x, y) else tm.ite(A[0][0][d], x, y)


def _same(a, b):
    return a is b or (isinstance(a, tm.Term) and isinstance(b, tm.Term) and tm.alpha(a) is tm.alpha(b))


def _summarise(c, locs, results, kv, kname, n, inval, final):
    deltas = {}
    last = tm.add(n, tm.const(-1))
    names = {L.H: key for key, L in locs.items()}
    for key, L in locs.items():
        j = tm.var(L.ivar) if L.ivar else None
        if L.mode == 'row':
            pairs = []
            for g, (mods, outs) in results:
                t = _out(L, key, mods, outs)
                if t is None:
                    pairs.append((g, inval(L, L.rowidx)))
                    continue
                p = _peel(t, L)
                if p is None or p[0] is not L.rowidx or p[2] is not inval(L, j):
                    raise Unsupported('row store not understood')
                pairs.append((g, p[1]))
            v = _join(pairs)
            # value stored in row j: v at iteration inverse(j)
            df = tm.subst(v, {kname: _inverse(L, j)})
            if tm.free_vars(df) & set(c.loopvars):
                raise Unsupported('rows depend on an outer loop')
            c.defs[L.H] = (L.ivar, df)
            kj = _inverse(L, j)
            inr = tm.and_(tm.le(tm.ZERO, kj), tm.le(kj, last))
            final[key] = tm.ite(inr, tm.sel(L.H, j), L.preval)
            continue
        if L.kind == 'name' and isinstance(L.pre, _np.ndarray):
            out = _np.empty(L.pre.shape, dtype=object)
            for i in _np.ndindex(L.pre.shape):
                h = tm.sel(L.H, kv, *[tm.const(x) for x in i])
                pairs = []
                for g, (mods, outs) in results:
                    o = _out(L, key, mods, outs)
                    if not isinstance(o, _np.ndarray) or o.shape != L.pre.shape:
                        raise Unsupported('array changes its shape in a loop')
                    pairs.append((g, tm.add(to_num(o[i]).t, tm.neg(h))))
                d = _join(pairs)
                if _selnames(d) & set(names):
                    raise Unsupported('recurrence that is not an accumulation')
                out[i] = Num(tm.add(to_num(L.pre[i]).t, _sum(c, kname, last, d)))
            final[key] = out
            continue
        h = inval(L, j)
        idx = None
        pairs = []
        for g, (mods, outs) in results:
            t = _out(L, key, mods, outs)
            if t is None:
                pairs.append((g, tm.ZERO))
                continue
            p = _peel(t, L) if L.ivar else None
            if p is not None:
                if kname in tm.free_vars(p[0]) or p[2] is not h or (idx is not None and idx is not p[0]):
                    raise Unsupported('store in a loop not understood')
                idx = p[0]
                pairs.append((g, tm.add(p[1], tm.neg(inval(L, idx)))))
            else:
                if is_special(t):
                    raise Unsupported('special value accumulated')
                pairs.append((g, tm.add(t, tm.neg(h))))
                if idx is not None:
                    raise Unsupported('store in a loop not understood')
        d = _join(pairs)
        deltas[key] = (L, idx, d)
    # accumulators may refer to one another
    for _ in range(4):
        for key, (L, idx, d) in list(deltas.items()):
            ref = {names[x] for x in _selnames(d) if x in names and locs[names[x]].mode == 'acc'}
            if not ref:
                continue
            if key in ref:
                raise Unsupported('recurrence that is not an accumulation')
            m = {}
            for s in tm.subterms(d):
                if isinstance(s, tm.Term) and s.op == 'sel' and str(s.args[0]) in names and locs[names[str(s.args[0])]].mode == 'acc':
                    k2 = names[str(s.args[0])]
                    L2, idx2, d2 = deltas[k2]
                    if idx2 is not None or len(s.args) != 2 or s.args[1] is not kv:
                        raise Unsupported('coupled accumulators')
                    m[s] = tm.add(L2.preval, _sum(c, kname, tm.add(kv, tm.const(-1)), d2))
            deltas[key] = (L, idx, tm.subst(d, m))
    for key, (L, idx, d) in deltas.items():
        if {x for x in _selnames(d) if x in names and locs[names[x]].mode == 'acc'}:
            raise Unsupported('recurrence that is not an accumulation')
        s = _sum(c, kname, last, d)
        if idx is None:
            final[key] = tm.add(L.preval, s) if not is_special(L.preval) else (L.preval if d is tm.ZERO else NAN)
        else:
            j = tm.var(L.ivar)
            final[key] = tm.ite(tm.eq(j, idx), tm.add(L.preat(idx), s), L.preval)


def _sum(c, kname, hi, d):
    v = tm.fresh_name('s')
    c.bound_vars.add(v)
    return tm.bsum(v, tm.ZERO, hi, tm.subst(d, {kname: tm.var(v)}))
